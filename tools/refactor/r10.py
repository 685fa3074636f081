# other parts of std: RwLock, HashMap with its random state, LinkedList, BTreeMap, Cell-like wrappers, thread locals, formatting
from lib import *
sub(X+'chan.rs',
('use std::collections::{BinaryHeap, VecDeque};\n', 'use std::collections::{BTreeMap, BinaryHeap, HashMap, LinkedList, VecDeque};\n'),
('use std::sync::{atomic, Arc, Mutex, Weak};\n', 'use std::sync::{atomic, Arc, Mutex, RwLock, Weak};\n'),
('            .push(Arc::downgrade(&queue));\n', '            .insert(Arc::as_ptr(&queue) as usize, Arc::downgrade(&queue));\n'),
('''        inner
            .broadcast_queues
            .retain(|queue| queue.as_ptr() != Arc::as_ptr(removed));
''', '''        inner.broadcast_queues.remove(&(Arc::as_ptr(removed) as usize));
'''),
('    broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,\n', '    broadcast_queues: HashMap<usize, Weak<BroadcastQueue<A>>>,\n'),
('            broadcast_queues: Vec::default(),\n', '            broadcast_queues: HashMap::with_capacity(4),\n'),
('''        let mut longest = 0;

        for queue in &self.broadcast_queues {
            if let Some(queue) = queue.upgrade() {
                longest = cmp::max(longest, queue.lock().len());
            }
        }

        longest
''', '''        self.broadcast_queues
            .values()
            .flat_map(|queue| queue.upgrade().into_iter())
            .map(|queue| queue.lock().len())
            .fold(0, cmp::max)
'''),
('self.broadcast_queues.retain(|queue| match', 'self.broadcast_queues.retain(|_, queue| match'),
('    waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,\n', '    /// By the order in which they came.\n    waiting_receivers_handles: BTreeMap<u64, waiting_receiver::Handle<A>>,\n'),
('            waiting_receivers_handles: VecDeque::default(),\n', '            waiting_receivers_handles: BTreeMap::new(),\n'),
('''                let (receiver, handle) = WaitingReceiver::new(inner.next_seq());

                inner.waiting_receivers_handles.push_back(handle);
''', '''                let id = inner.next_seq();
                let (receiver, handle) = WaitingReceiver::new(id);

                inner.waiting_receivers_handles.insert(id, handle);
'''),
('            .retain(|handle| !receiver.belongs_to(handle));\n', '            .retain(|_, handle| !receiver.belongs_to(handle));\n'),
('''        for rx in waiting_rx {
            rx.notify_channel_shutdown();
        }
''', '''        waiting_rx
            .into_values()
            .for_each(|rx| rx.notify_channel_shutdown());
'''),
('''        for rx in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }
''', '''        for (_, rx) in mem::take(&mut self.waiting_receivers_handles) {
            let _ = rx.notify_new_broadcast();
        }
'''),
('while let Some(rx) = self.waiting_receivers_handles.pop_front() {', 'while let Some((_, rx)) = self.waiting_receivers_handles.pop_first() {'),
('    waiting_send_to_one: VecDeque<waiting_sender::Handle<MessageToOne<A>>>,\n    waiting_send_to_all: VecDeque<', '    waiting_send_to_one: LinkedList<waiting_sender::Handle<MessageToOne<A>>>,\n    waiting_send_to_all: LinkedList<'),
('            waiting_send_to_one: VecDeque::default(),\n            waiting_send_to_all: VecDeque::default(),\n', '            waiting_send_to_one: LinkedList::new(),\n            waiting_send_to_all: LinkedList::new(),\n'),
('''    queue: &mut VecDeque<waiting_sender::Handle<M>>,
    handle: waiting_sender::Handle<M>,
) {
    if queue.len() == queue.capacity() {
        queue.retain(|handle| handle.is_active());
    }

    queue.push_back(handle);
''', '''    queue: &mut LinkedList<waiting_sender::Handle<M>>,
    handle: waiting_sender::Handle<M>,
) {
    let mut active = mem::take(queue)
        .into_iter()
        .filter(|handle| handle.is_active())
        .collect::<LinkedList<_>>();
    active.push_back(handle);
    queue.append(&mut active);
'''),
('''    queue: &mut VecDeque<waiting_sender::Handle<M>>,
) -> Option<waiting_sender::Handle<M>>
where
    M: HasPriority,
{
    queue.retain(|handle| handle.is_active()); // Only process handles which are still active.

''', '''    list: &mut LinkedList<waiting_sender::Handle<M>>,
) -> Option<waiting_sender::Handle<M>>
where
    M: HasPriority,
{
    // Only process handles which are still active.
    let mut queue = mem::take(list)
        .into_iter()
        .filter(|handle| handle.is_active())
        .collect::<VecDeque<_>>();

'''),
('''        .max_by_key(|(_, handle)| handle.priority())?
        .0;

    queue.remove(pos)
''', '''        .max_by_key(|(_, handle)| handle.priority())?
        .0;

    let found = queue.remove(pos);
    list.extend(queue);
    found
'''))
sub(X+'chan.rs',
('pub type BroadcastQueue<A> = spin::Mutex<', 'pub type BroadcastQueue<A> = RwLock<'),
('Arc::new(spin::Mutex::new(BinaryHeap::new()))', 'Arc::new(RwLock::new(BinaryHeap::new()))'),
('broadcast_mailbox.lock().peek()', 'broadcast_mailbox.read().unwrap().peek()'),
('broadcast_mailbox.lock().pop()', 'broadcast_mailbox.write().unwrap().pop()'),
('.map(|queue| queue.lock().len())', '.map(|queue| queue.read().map_or(0, |queue| queue.len()))'),
('q.lock().push(', 'q.write().unwrap().push('))
f = X+'chan/waiting_sender.rs'
s = open(f).read().replace('spin::Mutex', 'std::sync::Mutex').replace('.lock()', '.lock().unwrap()')
open(f, 'w').write(s)
