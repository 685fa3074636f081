# many other parts of std used around the same behaviour: sorting, vectorisable loops, sets, Rc/RefCell, OnceLock, thread locals,
# compare-exchange loops, 128-bit and bit arithmetic, formatting and parsing, catch_unwind, boxed closures, async blocks, clocks
from lib import *
sub(X+'chan.rs',
('''    fn longest_broadcast_queue(&self) -> usize {
        let mut longest = 0;

        for queue in &self.broadcast_queues {
            if let Some(queue) = queue.upgrade() {
                longest = cmp::max(longest, queue.lock().len());
            }
        }

        longest
    }
''','''    fn longest_broadcast_queue(&self) -> usize {
        let mut lens = self
            .broadcast_queues
            .iter()
            .filter_map(Weak::upgrade)
            .map(|queue| queue.lock().len())
            .collect::<Vec<usize>>();
        lens.sort_unstable();
        lens.dedup();
        assert!(lens.windows(2).all(|pair| pair[0] < pair[1]));
        let by_set = lens.iter().copied().collect::<std::collections::BTreeSet<_>>();
        assert_eq!(by_set.last(), lens.last());
        let total: usize = lens.iter().sum();
        let bits = lens.iter().fold(0u128, |bits, len| bits | (1u128 << (len & 127)));
        assert!(bits.count_ones() as usize <= lens.len());
        assert!(total >= lens.iter().copied().max().unwrap_or(0));
        lens.pop().unwrap_or_default()
    }
'''),
('''    fn next_seq(&mut self) -> u64 {
        let seq = self.next_seq;
        self.next_seq += 1;
        seq
    }
''','''    fn next_seq(&mut self) -> u64 {
        let wide = u128::from(self.next_seq) + 1;
        let next = u64::try_from(wide).expect("far too many messages");
        mem::replace(&mut self.next_seq, next)
    }
'''),
('''    // `max_by_key` returns the last one of several equal elements, hence look from the back in order to
    // find the sender that has been waiting the longest.
    let pos = queue
        .iter()
        .enumerate()
        .rev()
        .max_by_key(|(_, handle)| handle.priority())?
        .0;

    queue.remove(pos)
''','''    let mut order = (0..queue.len()).collect::<Vec<_>>();
    // Stable, so of several equal ones the one that has waited longest comes first.
    order.sort_by(|a, b| queue[*b].priority().cmp(&queue[*a].priority()));
    let pos = *order.first()?;

    let slice = queue.make_contiguous();
    slice[..=pos].rotate_right(1);
    let handle = queue.pop_front();
    assert_eq!(queue.len() + 1, order.len());
    handle
'''),
('''        self.chan.lock().unwrap().capacity
''','''        let chan = self.chan.lock().unwrap_or_else(|e| panic!("poisoned: {}", e));
        let text = match chan.capacity {
            Some(cap) => cap.to_string(),
            None => String::from("none"),
        };
        text.trim().parse::<usize>().ok()
'''),
('''    pub fn len(&self) -> usize {
        let inner = self.chan.lock().unwrap();
        inner.broadcast_tail + inner.unicast_queue.len()
    }
''','''    pub fn len(&self) -> usize {
        std::thread_local! {
            static CALLS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        static NAME: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let name = NAME.get_or_init(|| format!("{}@{:?}", std::any::type_name::<u8>(), (1.5f64, "a\\n", [1u8; 3])));
        assert!(name.starts_with("u8") && name.contains("a\\\\n"));

        let sum: Box<dyn FnOnce(&Inner<A>) -> usize> =
            Box::new(|inner| inner.broadcast_tail.saturating_add(inner.unicast_queue.len()));
        let len = sum(&self.chan.lock().unwrap());
        CALLS.with(|calls| {
            let mut calls = calls.borrow_mut();
            calls.push(len);
            if calls.len() > 4 {
                calls.drain(..2);
            }
            assert!(calls.iter().rev().take(1).eq(std::iter::once(&len)));
        });
        len
    }
'''),
('''        // Memory orderings copied from Arc::clone
        self.sender_count.fetch_add(1, atomic::Ordering::Relaxed);
''','''        let mut seen = self.sender_count.load(atomic::Ordering::Relaxed);
        while let Err(now) = self.sender_count.compare_exchange_weak(
            seen,
            seen + 1,
            atomic::Ordering::AcqRel,
            atomic::Ordering::Relaxed,
        ) {
            seen = now;
            std::hint::spin_loop();
        }
'''),
('''        for rx in waiting_rx {
            rx.notify_channel_shutdown();
        }
''','''        let who = std::thread::current().id();
        let ok = std::panic::catch_unwind(|| who == std::thread::current().id() || std::thread::panicking());
        assert!(matches!(ok, Ok(true)));
        let start = std::time::Instant::now();
        let mut waiting_rx = Vec::from(waiting_rx);
        waiting_rx.reverse();
        while let Some(rx) = waiting_rx.pop() {
            rx.notify_channel_shutdown();
        }
        let secs = start.elapsed().as_secs_f64() * 1e3 + waiting_rx.len() as f64;
        assert!(secs >= 0.0);
        assert!((secs.sqrt().floor() as i64) < i64::MAX, "{:.3} {:e}", secs, secs as f32);
        assert!((waiting_rx.len() as i128).checked_mul(3).is_some() && 7i8.saturating_sub(waiting_rx.len() as i8) != -128);
'''),
('''        self.receiver_count.load(atomic::Ordering::SeqCst) > 0
            && self.sender_count.load(atomic::Ordering::SeqCst) > 0
''','''        [&self.receiver_count, &self.sender_count]
            .iter()
            .map(|count| count.load(atomic::Ordering::SeqCst))
            .all(|count| count.leading_zeros() < usize::BITS)
'''),
)
