from lib import *
sub(X+'chan.rs', ('''        self.broadcast_queues.retain(|queue| match queue.upgrade() {''','''        self.broadcast_tail += 1;

        self.broadcast_queues.retain(|queue| match queue.upgrade() {'''),('''        for rx in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }

        self.broadcast_tail += 1;
''','''        // Actors which were busy until now see the message without being told
        if self.broadcast_tail == 1 {
            for rx in mem::take(&mut self.waiting_receivers_handles) {
                let _ = rx.notify_new_broadcast();
            }
        }
'''))
