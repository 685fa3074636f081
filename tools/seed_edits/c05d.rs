/// two sends at the same time, room for one
fn main() {
    let (tx, rx) = std::sync::mpsc::channel::<(Address<Act>, Arc<AtomicUsize>)>();
    std::thread::spawn(move || for (a, go) in rx { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } let mut t = T::new(a.send(M(1)).detach()); t.poll(); go.store(3, SeqCst); while go.load(SeqCst) < 4 { std::hint::spin_loop(); } });
    for i in 0..1_000_000u32 {
        let (addr, _mb) = Mailbox::<Act>::bounded(1);
        let go = Arc::new(AtomicUsize::new(0));
        tx.send((addr.clone(), go.clone())).unwrap();
        let mut t = T::new(addr.send(M(0)).detach());
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i % 64) { std::hint::spin_loop(); }
        t.poll();
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        ensure(addr.len() <= 1, &format!("two messages in a mailbox with room for one (round {i})"));
        go.store(4, SeqCst);
    }
}
