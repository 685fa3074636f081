from lib import *
sub(X+'chan/ptr.rs', ('''            if n == 0 {
                return None;
            }
''','''            // Nobody to talk to
            if n == 0 || inner.receiver_count.load(Relaxed) == 0 {
                return None;
            }
'''))
