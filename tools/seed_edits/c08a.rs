fn main() {
    let (tx, rx) = std::sync::mpsc::channel::<(Address<Act>, Arc<AtomicUsize>)>();
    std::thread::spawn(move || for (a, go) in rx { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } drop(a); go.store(3, SeqCst); });
    for i in 0..600_000u32 {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let weak = addr.downgrade();
        let go = Arc::new(AtomicUsize::new(0));
        let mut r = T::new(mb.next());
        r.poll();
        tx.send((addr, go.clone())).unwrap();
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i % 64) { std::hint::spin_loop(); }
        let up = weak.try_upgrade();
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        // the actor was told to stop exactly if the upgrade failed
        ensure(r.woken() != up.is_some(), &format!("a weak address was upgraded although the actor is being stopped (round {i})"));
    }
}
