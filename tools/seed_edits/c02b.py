from lib import *
sub(X+'mailbox.rs', ('''        Self {
            inner: chan,
            broadcast_mailbox,
        }''','''        // The actor may want to receive on its own while it handles a message
        let broadcast_mailbox = match Arc::strong_count(&broadcast_mailbox) {
            1 => broadcast_mailbox,
            _ => chan.new_broadcast_mailbox(),
        };

        Self {
            inner: chan,
            broadcast_mailbox,
        }'''))
