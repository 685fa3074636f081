# the queue is a sorted set, and the search for the most urgent sender is a loop that does not tidy up first
from lib import *
sub(X+'chan.rs', ('unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,','unicast_queue: BTreeSet<ByPriority<MessageToOne<A>>>,'),
 ('unicast_queue: BinaryHeap::default()','unicast_queue: BTreeSet::default()'),
 ('self.unicast_queue.push(ByPriority::new(msg, seq));','self.unicast_queue.insert(ByPriority::new(msg, seq));'),
 ('self.unicast_queue.pop()?.item','self.unicast_queue.pop_last()?.item'),
 ('inner.unicast_queue.peek()','inner.unicast_queue.last()'),
 ('use std::collections::{BinaryHeap, VecDeque};','use std::collections::{BTreeSet, BinaryHeap, VecDeque};'),
 ('''    queue.retain(|handle| handle.is_active()); // Only process handles which are still active.

    // `max_by_key` returns the last one of several equal elements, hence look from the back in order to
    // find the sender that has been waiting the longest.
    let pos = queue
        .iter()
        .enumerate()
        .rev()
        .max_by_key(|(_, handle)| handle.priority())?
        .0;

    queue.remove(pos)
''','''    let mut best: Option<(usize, Priority)> = None;
    let mut i = 0;

    while i < queue.len() {
        let priority = queue[i].priority();

        match best {
            Some((_, highest)) if priority <= highest => {}
            _ => best = Some((i, priority)),
        }

        i += 1;
    }

    queue.remove(best?.0)
'''))
