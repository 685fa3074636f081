from lib import *
sub(X+'chan.rs', ('''        if inner.is_unicast_full() {
            let (handle, waiting) = WaitingSender::new(unfulfilled_msg);
''','''        let full = inner.is_unicast_full();

        if full {
            // Do not allocate with the channel locked
            drop(inner);
            let (handle, waiting) = WaitingSender::new(unfulfilled_msg);
            let mut inner = self.chan.lock().unwrap();

'''))
