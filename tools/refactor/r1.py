# try_recv rewritten with helpers and if/else, wakers called in another order, iterator instead of a loop
from lib import *
sub(X+'chan.rs', ('''        // Choose which priority channel to take from
        match shared_priority.cmp(&broadcast_priority) {
            // Shared priority is greater or equal (and it is not empty)
            Ordering::Greater | Ordering::Equal if shared_priority.is_some() => {
                Ok(inner.pop_unicast().unwrap().into())
            }
            // Shared priority is less - take from broadcast
            Ordering::Less => Ok(inner.pop_broadcast(broadcast_mailbox).unwrap().into()),
            // Equal, but both are empty, so wait or exit if shutdown
            _ => {
                // on_shutdown is only notified with inner locked, and it's locked here, so no race
                if self.sender_count.load(atomic::Ordering::SeqCst) == 0 {
                    return Ok(ActorMessage::Shutdown);
                }

                let (receiver, handle) = WaitingReceiver::new(inner.next_seq());

                inner.waiting_receivers_handles.push_back(handle);
                Err(receiver)
            }
        }
    }
''','''        if broadcast_priority > shared_priority {
            if let Some(msg) = inner.pop_broadcast(broadcast_mailbox) {
                return Ok(ActorMessage::ToAllActors(msg));
            }
        }

        if let Some(msg) = inner.pop_unicast() {
            return Ok(ActorMessage::ToOneActor(msg));
        }

        if self.no_senders() {
            Ok(ActorMessage::Shutdown)
        } else {
            Err(inner.new_waiting_receiver())
        }
    }

    fn no_senders(&self) -> bool {
        self.sender_count.load(atomic::Ordering::Acquire) == 0
    }
'''),('''        let mut longest = 0;

        for queue in &self.broadcast_queues {
            if let Some(queue) = queue.upgrade() {
                longest = cmp::max(longest, queue.lock().len());
            }
        }

        longest
    }
''','''        self.broadcast_queues
            .iter()
            .filter_map(Weak::upgrade)
            .map(|queue| queue.lock().len())
            .max()
            .unwrap_or(0)
    }

    fn new_waiting_receiver(&mut self) -> WaitingReceiver<A> {
        let (receiver, handle) = WaitingReceiver::new(self.next_seq());
        self.waiting_receivers_handles.push_back(handle);
        receiver
    }
'''),('use std::cmp::Ordering;\n',''),('use std::{cmp, mem};','use std::mem;'))
