/// takes a message on another thread while its send, which found the mailbox full, registers its waker
fn main() {
    let (tx, rx) = std::sync::mpsc::channel::<(Arc<Mailbox<Act>>, Arc<AtomicUsize>)>();
    std::thread::spawn(move || for (m, go) in rx { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } drop(now(m.next())); go.store(3, SeqCst); });
    for i in 0..1_500_000u32 {
        let (addr, mb) = Mailbox::<Act>::bounded(1);
        let mb = Arc::new(mb);
        now(addr.send(M(0)).detach());
        let mut t = T::new(addr.send(M(1)).detach());
        let early = i % 2 == 0;
        if early { t.poll(); }
        let go = Arc::new(AtomicUsize::new(0));
        tx.send((mb.clone(), go.clone())).unwrap();
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i / 2 % 64) { std::hint::spin_loop(); }
        // a poll by another task, as when the future is handed on; its waker is the one that counts
        let fl = Flag::new();
        let done = t.poll_with(&fl);
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        ensure(done || fl.get() > 0, &format!("a send whose message was taken is never woken (round {i})"));
    }
}
