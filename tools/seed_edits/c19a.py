from lib import *
sub(X+'chan.rs', ('''            inner.broadcast_queues.clear();
''','''            for queue in mem::take(&mut inner.broadcast_queues) {
                if let Some(queue) = queue.upgrade() {
                    queue.lock().clear();
                }
            }
'''))
