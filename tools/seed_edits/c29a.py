from lib import *
# everybody who polled is woken
sub(X+'chan/waiting_sender.rs',
('''            Inner::Active { mut waker, message } => {
                if let Some(waker) = waker.take() {
                    waker.wake();
                }
''','''            Inner::Active { wakers, message } => {
                for waker in wakers {
                    waker.wake();
                }
'''),
('''                Inner::Active { waker, .. } => {
                    if let Some(waker) = waker {
                        waker.wake_by_ref();
                    }
''','''                Inner::Active { wakers, .. } => {
                    for waker in wakers {
                        waker.wake_by_ref();
                    }
'''),
('''            Inner::Active { waker, .. } => {
                *waker = Some(cx.waker().clone());
''','''            Inner::Active { wakers, .. } => {
                // The future may be polled by several tasks
                wakers.push(cx.waker().clone());
'''),
('''    Active { waker: Option<Waker>, message: M },
''','''    Active { wakers: Vec<Waker>, message: M },
'''),
('''            waker: None,
''','''            wakers: Vec::new(),
'''))
