from lib import *
sub(X+'chan.rs', ('''        if inner.is_unicast_full() {
            let (handle, waiting)''','''        let full = inner.is_unicast_full();
        drop(inner);
        let mut inner = self.chan.lock().unwrap();

        if full {
            let (handle, waiting)'''))
