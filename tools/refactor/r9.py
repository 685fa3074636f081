# length of the broadcast queues computed when asked for, other containers, wakers under the lock, listeners told after unlocking
from lib import *
sub(X+'chan.rs',
('''        let inner = self.chan.lock().unwrap();
        inner.broadcast_tail + inner.unicast_queue.len()
''','''        let inner = self.chan.lock().unwrap();
        let waiting_for_slowest = inner.longest_broadcast_queue();
        let for_anybody = inner.unicast_queue.len();

        waiting_for_slowest + for_anybody
'''),
('''        inner.broadcast_tail = inner.longest_broadcast_queue();

        // The removed''','''        // The removed'''),
('''        self.broadcast_tail = self.longest_broadcast_queue();

''',''),
('''        self.broadcast_tail += 1;
''',''),
('''    broadcast_tail: usize,
''',''),
('''            broadcast_tail: 0,
''',''),
('''        self.capacity
            .map_or(false, |cap| self.broadcast_tail >= cap)
''','''        match self.capacity {
            None => false,
            Some(capacity) => self.longest_broadcast_queue() >= capacity,
        }
'''),
('''        let mut longest = 0;

        for queue in &self.broadcast_queues {
            if let Some(queue) = queue.upgrade() {
                longest = cmp::max(longest, queue.lock().len());
            }
        }

        longest
''','''        self.broadcast_queues
            .iter()
            .filter_map(Weak::upgrade)
            .fold(0, |longest, queue| cmp::max(longest, queue.lock().len()))
'''),
('''        inner
            .broadcast_queues
            .retain(|queue| queue.as_ptr() != Arc::as_ptr(removed));
''','''        if let Some(at) = inner
            .broadcast_queues
            .iter()
            .position(|queue| std::ptr::eq(queue.as_ptr(), Arc::as_ptr(removed)))
        {
            inner.broadcast_queues.swap_remove(at);
        }
'''),
('''        let waiting_rx = {
            let mut inner = match self.chan.lock() {
                Ok(lock) => lock,
                Err(_) => return, // Poisoned, ignore
            };

            // We don't need to notify on_shutdown here, as that is only used by senders
            // Receivers will be woken with the fulfills below, or they will realise there are
            // no senders when they check the tx refcount

            mem::take(&mut inner.waiting_receivers_handles)
        };

        for rx in waiting_rx {
            rx.notify_channel_shutdown();
        }
''','''        if let Ok(mut inner) = self.chan.lock() {
            while let Some(rx) = inner.waiting_receivers_handles.pop() {
                rx.notify_channel_shutdown();
            }
        }
'''),
('''            self.on_shutdown.notify(usize::MAX);

            inner.broadcast_queues.clear();
''','''            inner.broadcast_queues.clear();
'''),
('''        // Let any outstanding messages drop
        drop(unicast_queue);

        // Close (and potentially wake) outstanding waiting senders
        drop(waiting_send_to_one);
        drop(waiting_send_to_all);
''','''        self.on_shutdown.notify(usize::MAX);

        // Close (and potentially wake) outstanding waiting senders
        drop((waiting_send_to_one, waiting_send_to_all));

        // Let any outstanding messages drop
        for message in unicast_queue.into_sorted_vec() {
            drop(message);
        }
'''),
('''                inner.waiting_receivers_handles.push_back(handle);
''','''                inner.waiting_receivers_handles.insert(0, handle);
'''),
('''    waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,
''','''    /// The one that has been waiting the longest comes last.
    waiting_receivers_handles: Vec<waiting_receiver::Handle<A>>,
'''),
('''            waiting_receivers_handles: VecDeque::default(),
''','''            waiting_receivers_handles: Vec::default(),
'''),
('''        while let Some(rx) = self.waiting_receivers_handles.pop_front() {
            match rx.notify_new_message(msg) {
                Ok(()) => return Ok(()),
                Err(unfulfilled_msg) => msg = unfulfilled_msg,
            }
        }

        Err(msg)
''','''        loop {
            let Some(rx) = self.waiting_receivers_handles.pop() else {
                return Err(msg);
            };

            msg = match rx.notify_new_message(msg) {
                Ok(()) => return Ok(()),
                Err(unfulfilled_msg) => unfulfilled_msg,
            };
        }
'''),
('''        let seq = self.next_seq();
        self.broadcast_queues.retain(|queue| match queue.upgrade() {
            Some(q) => {
                q.lock().push(ByPriority::new(m.clone(), seq));
                true
            }
            None => false, // The corresponding receiver has been dropped - remove it
        });

        for rx in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }
''','''        let seq = self.next_seq();

        for queue in &self.broadcast_queues {
            if let Some(queue) = queue.upgrade() {
                queue.lock().push(ByPriority::new(Arc::clone(&m), seq));
            }
        }

        // Whoever is idle has to look at its queue
        self.waiting_receivers_handles.drain(..).for_each(|rx| {
            let _ = rx.notify_new_broadcast();
        });
'''),
)
