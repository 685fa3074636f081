from lib import *
sub(X+'chan/waiting_sender.rs', ('''        let inner = self.inner.upgrade()?;
        let mut this = inner.lock();

        match mem::replace(&mut *this, Inner::Delivered) {
            Inner::Active { mut waker, message } => {
                if let Some(waker) = waker.take() {
                    waker.wake();
                }

                Some(message)
            }''','''        let inner = self.inner.upgrade()?;

        // Wakers are foreign code, so do not call them with the message locked
        let waker = match &mut *inner.lock() {
            Inner::Active { waker, .. } => waker.take(),
            _ => None,
        };
        let taken = mem::replace(&mut *inner.lock(), Inner::Delivered);

        if let Some(waker) = waker {
            waker.wake();
        }

        match taken {
            Inner::Active { message, .. } => Some(message),'''))
