from lib import *
sub(X+'chan.rs', ('''        for rx in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }
''','''        // At most one receiver is waiting for each queue
        let idle = cmp::min(self.broadcast_queues.len(), self.waiting_receivers_handles.len());

        for rx in self.waiting_receivers_handles.drain(..idle) {
            let _ = rx.notify_new_broadcast();
        }
'''))
