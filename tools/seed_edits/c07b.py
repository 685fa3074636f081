from lib import *
sub(X+'chan/waiting_sender.rs', ('''                    if let Some(waker) = waker {
                        waker.wake_by_ref();
                    }
                    *this = Inner::Closed;
''','''                    let waker = waker.clone();
                    *this = Inner::Closed;
                    drop(this);
                    drop(waker);
'''))
