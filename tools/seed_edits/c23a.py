from lib import *
sub(X+'chan.rs', ('''                mem::take(&mut inner.unicast_queue),
''','''                if self.sender_count.load(atomic::Ordering::SeqCst) > 0 {
                    mem::take(&mut inner.unicast_queue)
                } else {
                    // Goes away with the channel
                    BinaryHeap::new()
                },
'''))
