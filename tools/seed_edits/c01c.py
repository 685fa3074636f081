from lib import *
sub(X+'chan.rs', ('''        let shared_priority: Option<Priority> = inner.unicast_queue.peek().map(|it| it.priority());
''','''        let shared_priority: Option<Priority> = inner.unicast_queue.peek().map(|it| it.priority());

        // Nobody else takes from this broadcast mailbox, no need to keep others out meanwhile
        if broadcast_priority > shared_priority {
            drop(inner);
            return Ok(self.next_broadcast_message(broadcast_mailbox).unwrap().into());
        }
'''))
