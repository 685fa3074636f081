fn main() {
    let start = std::time::Instant::now();
    while start.elapsed() < std::time::Duration::from_secs(20) {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let mut r = T::new(addr.send(M(1)));
        r.poll();
        let ready = Flag::new();
        let (f, mb2) = (ready.clone(), mb.clone());
        let t = std::thread::spawn(move || { f.0.fetch_add(1, SeqCst); while f.get() < 2 {} drop(mb2); });
        let n = start.elapsed().subsec_nanos() % 64;
        while ready.get() < 1 {}
        ready.0.fetch_add(1, SeqCst);
        for _ in 0..n { std::hint::spin_loop(); }
        drop(mb);
        t.join().unwrap();
        r.poll();
        ensure(matches!(r.out, Some(Err(Error::Interrupted))), "a message stays queued with no mailbox left");
    }
}
