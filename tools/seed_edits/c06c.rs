/// drops the last address on another thread while a receive finds the mailbox empty
fn main() {
    let (tx, rx) = std::sync::mpsc::channel::<(Address<Act>, Arc<AtomicUsize>)>();
    std::thread::spawn(move || for (a, go) in rx { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } drop(a); go.store(3, SeqCst); });
    for i in 0..400_000u32 {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let go = Arc::new(AtomicUsize::new(0));
        tx.send((addr, go.clone())).unwrap();
        let mut t = T::new(mb.next());
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i % 64) { std::hint::spin_loop(); }
        let done = t.poll();
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        ensure(done || t.woken(), &format!("an actor waits forever although all addresses are gone (round {i})"));
    }
}
