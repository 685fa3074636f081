from lib import *
sub(X+'chan.rs', ('''        let message = broadcast_mailbox.lock().pop()?.item;

        self.broadcast_tail = self.longest_broadcast_queue();
''','''        let (message, len) = {
            let mut queue = broadcast_mailbox.lock();
            let message = queue.pop()?.item;
            (message, queue.len())
        };

        // Only the slowest mailbox determines how many broadcasts are outstanding
        if len + 1 == self.broadcast_tail {
            self.broadcast_tail = match self.broadcast_queues.len() {
                0 | 1 | 2 => self.longest_broadcast_queue(),
                _ => len,
            };
        }
'''))
