from lib import *
sub(X+'chan/waiting_sender.rs', ('''    inner: Weak<spin::Mutex<Inner<M>>>,''','''    inner: Arc<spin::Mutex<Inner<M>>>,'''),
('''            inner: Arc::downgrade(&inner),''','''            inner: inner.clone(),'''),
('''        Weak::strong_count(&self.inner) > 0''','''        Arc::strong_count(&self.inner) > 1'''),
('''        let inner = self.inner.upgrade()?;
        let mut this = inner.lock();
''','''        if !self.is_active() {
            return None;
        }

        let mut this = self.inner.lock();
'''),
('''        if let Some(inner) = self.inner.upgrade() {
            let mut this = inner.lock();

            match &*this {
                Inner::Active { waker, .. } => {
                    if let Some(waker) = waker {
                        waker.wake_by_ref();
                    }
                    *this = Inner::Closed;
                }
                Inner::Delivered => {}
                Inner::Closed => {}
            }
        };''','''        let mut this = self.inner.lock();

        match &*this {
            Inner::Active { waker, .. } => {
                if let Some(waker) = waker {
                    waker.wake_by_ref();
                }
                *this = Inner::Closed;
            }
            Inner::Delivered => {}
            Inner::Closed => {}
        }'''),('use std::sync::{Arc, Weak};','use std::sync::Arc;'))
