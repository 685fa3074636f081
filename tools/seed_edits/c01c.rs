/// two receives of one mailbox at the same time, one broadcast
fn main() {
    std::panic::set_hook(Box::new(|i| { eprintln!("WRONG: a receive panics: {i}"); std::process::exit(1) }));
    let (tx, rx) = std::sync::mpsc::channel::<(Arc<Mailbox<Act>>, Arc<AtomicUsize>)>();
    std::thread::spawn(move || for (m, go) in rx { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } let mut t = T::new(m.next()); let d = t.poll(); go.store(3 + d as usize, SeqCst); while go.load(SeqCst) < 5 { std::hint::spin_loop(); } });
    for i in 0..1_000_000u32 {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let mb = Arc::new(mb);
        now(addr.broadcast(B(0)));
        let go = Arc::new(AtomicUsize::new(0));
        tx.send((mb.clone(), go.clone())).unwrap();
        let mut t = T::new(mb.next());
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i % 64) { std::hint::spin_loop(); }
        let done = t.poll();
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        ensure(done as usize + (go.load(SeqCst) - 3) == 1, &format!("one broadcast, not received exactly once (round {i})"));
        go.store(5, SeqCst);
    }
}
