from lib import *
sub(X+'chan.rs', ('''        for rx in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }
''','''        if self.broadcast_queues.len() == 1 {
            // There is just one copy of the message, no need to wake everybody
            if let Some(rx) = self.waiting_receivers_handles.pop_front() {
                let _ = rx.notify_new_broadcast();
            }
        } else {
            for rx in mem::take(&mut self.waiting_receivers_handles) {
                let _ = rx.notify_new_broadcast();
            }
        }
'''))
