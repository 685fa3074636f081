from lib import *
sub(X+'chan.rs', ('''        // Lock `ChanInner` as the first thing. This avoids race conditions in modifying the broadcast mailbox.
        let mut inner = self.chan.lock().unwrap();

        // lock broadcast mailbox for as short as possible
        let broadcast_priority = {
            // Peek priorities in order to figure out which channel should be taken from
            broadcast_mailbox.lock().peek().map(|it| it.priority())
        };
''','''        // lock broadcast mailbox for as short as possible
        let broadcast_priority = {
            // Peek priorities in order to figure out which channel should be taken from
            broadcast_mailbox.lock().peek().map(|it| it.priority())
        };

        let mut inner = self.chan.lock().unwrap();
'''),
('''            Ordering::Less => Ok(inner.pop_broadcast(broadcast_mailbox).unwrap().into()),
''','''            Ordering::Less => match inner.pop_broadcast(broadcast_mailbox) {
                Some(msg) => Ok(msg.into()),
                // Another receiver of this mailbox was faster
                None => {
                    drop(inner);
                    self.try_recv(broadcast_mailbox)
                }
            },
'''))
