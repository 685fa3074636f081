fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut wait: std::collections::VecDeque<_> = (0..1500).map(|i| T::new(addr.send(M(i)))).collect();
    for t in wait.iter_mut() { t.poll(); }
    let mut act = Act(Log::default());
    for round in 0..6000u32 {
        let mut t = T::new(addr.send(M(9)).priority(9)); // first in line ...
        t.poll();
        let go = Arc::new(AtomicUsize::new(0));
        let g = go.clone();
        std::thread::scope(|s| {
            s.spawn(move || { g.fetch_add(1, SeqCst); while g.load(SeqCst) < 2 {} for _ in 0..round % 200 * 8 { std::hint::spin_loop() } drop(t) }); // ... gives up
            go.fetch_add(1, SeqCst);
            while go.load(SeqCst) < 2 {}
            let m = now(mb.next()).unwrap();
            now(m.dispatch_to(&mut act));
        });
        ensure(addr.len() == 1, "the mailbox has room but nobody of those waiting is let in");
        let mut t = T::new(addr.send(M(8)));
        t.poll();
        wait.push_back(t);
    }
}
