/// drops the last mailbox while the waker is being cloned, i.e. after the send found the mailbox full
fn main() {
    let (tx, rx) = std::sync::mpsc::channel::<(Mailbox<Act>, Arc<AtomicUsize>)>();
    std::thread::spawn(move || for (m, go) in rx { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } drop(m); go.store(3, SeqCst); });
    for i in 0..400_000u32 {
        let (addr, mb) = Mailbox::<Act>::bounded(1);
        now(addr.send(M(0)).detach());
        let go = Arc::new(AtomicUsize::new(0));
        tx.send((mb, go.clone())).unwrap();
        let mut t = T::new(addr.send(M(1)).detach());
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i % 64) { std::hint::spin_loop(); }
        let done = t.poll();
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        ensure(done || t.woken(), &format!("a send waits forever for a mailbox that is gone (round {i})"));
    }
}
