from lib import *
sub(X+'chan.rs', ('''        inner.broadcast_tail + inner.unicast_queue.len()
''','''        inner.broadcast_tail.max(inner.unicast_queue.len())
'''))
