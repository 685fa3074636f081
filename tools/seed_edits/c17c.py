from lib import *
sub(X+'chan.rs', ('''            if let Err(msg) = inner.try_fulfill_receiver(msg) {
                inner.push_unicast(msg);
            }
''','''            if let (Err(msg), false) = (inner.try_fulfill_receiver(msg), inner.is_unicast_full()) {
                inner.push_unicast(msg);
            }
'''))
