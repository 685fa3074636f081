fn main() {
    // the two last strong addresses are dropped at the same time
    for i in 0..100_000u32 {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let b = addr.clone();
        let mut rx = T::new(mb.next());
        rx.poll();
        let go = Arc::new(std::sync::atomic::AtomicU32::new(0));
        let g = go.clone();
        let t = std::thread::spawn(move || { g.fetch_add(1, SeqCst); while g.load(SeqCst) < 2 {} for _ in 0..i % 64 { std::hint::spin_loop() } drop(b) });
        go.fetch_add(1, SeqCst);
        while go.load(SeqCst) < 2 {}
        for _ in 0..(i / 64) % 64 { std::hint::spin_loop() }
        drop(addr);
        t.join().unwrap();
        ensure(rx.woken(), "no strong address is left and the actor is not told");
    }
}
