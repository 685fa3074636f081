from lib import *
sub(X+'chan/waiting_sender.rs', ('''            match &*this {
                Inner::Active { waker, .. } => {
                    if let Some(waker) = waker {
                        waker.wake_by_ref();
                    }
                    *this = Inner::Closed;
                }''','''            match &*this {
                // Never polled, there is nobody to tell
                Inner::Active { waker: None, .. } => {}
                Inner::Active { waker, .. } => {
                    if let Some(waker) = waker {
                        waker.wake_by_ref();
                    }
                    *this = Inner::Closed;
                }'''))
