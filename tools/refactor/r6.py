# wakers called after unlocking, helper for both kinds of waiting messages, early returns
from lib import *
sub(X+'chan/waiting_sender.rs', ('''        let inner = self.inner.upgrade()?;
        let mut this = inner.lock();

        match mem::replace(&mut *this, Inner::Delivered) {
            Inner::Active { mut waker, message } => {
                if let Some(waker) = waker.take() {
                    waker.wake();
                }

                Some(message)
            }
            Inner::Delivered | Inner::Closed => None,
        }''','''        let inner = self.inner.upgrade()?;
        let previous = mem::replace(&mut *inner.lock(), Inner::Delivered);

        let (waker, message) = match previous {
            Inner::Active { waker, message } => (waker, message),
            Inner::Delivered | Inner::Closed => return None,
        };

        if let Some(waker) = waker {
            waker.wake();
        }

        Some(message)'''))
sub(X+'chan.rs', ('''        loop {
            if let Some(msg) =
                find_remove_highest_priority(&mut self.waiting_send_to_one)?.take_message()
            {
                return Some(msg);
            }
        }''','''        take_waiting(&mut self.waiting_send_to_one)'''),('''        loop {
            if let Some(msg) =
                find_remove_highest_priority(&mut self.waiting_send_to_all)?.take_message()
            {
                return Some(msg);
            }
        }''','''        take_waiting(&mut self.waiting_send_to_all)'''),('''fn find_remove_highest_priority<M>(''','''fn take_waiting<M: HasPriority>(queue: &mut VecDeque<waiting_sender::Handle<M>>) -> Option<M> {
    let mut found = None;

    while found.is_none() {
        found = find_remove_highest_priority(queue)?.take_message();
    }

    found
}

fn find_remove_highest_priority<M>('''),('''        let seq = self.next_seq();
        self.broadcast_queues.retain(|queue| match queue.upgrade() {
            Some(q) => {
                q.lock().push(ByPriority::new(m.clone(), seq));
                true
            }
            None => false, // The corresponding receiver has been dropped - remove it
        });

        for rx in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }

        self.broadcast_tail += 1;''','''        let seq = self.next_seq();
        let mut remaining = Vec::with_capacity(self.broadcast_queues.len());
        for weak in self.broadcast_queues.drain(..) {
            let queue = weak.upgrade();
            if let Some(queue) = &queue {
                queue.lock().push(ByPriority::new(Arc::clone(&m), seq));
                remaining.push(weak);
            }
        }
        self.broadcast_queues = remaining;
        self.broadcast_tail += 1;

        while let Some(rx) = self.waiting_receivers_handles.pop_front() {
            rx.notify_new_broadcast().ok();
        }'''))
