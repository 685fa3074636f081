// The window is between looking at the broadcasts and locking the channel: a broadcast is sent in it now and then.
fn main() {
    let start = std::time::Instant::now();
    while start.elapsed() < std::time::Duration::from_secs(20) {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let ready = Flag::new();
        let (f, a2) = (ready.clone(), addr.clone());
        let t = std::thread::spawn(move || { f.0.fetch_add(1, SeqCst); while f.get() < 2 {} now(a2.broadcast(B(1))); });
        let mut r = T::new(mb.next());
        let n = start.elapsed().subsec_nanos() % 64;
        while ready.get() < 1 {}
        ready.0.fetch_add(1, SeqCst);
        for _ in 0..n { std::hint::spin_loop(); }
        r.poll();
        t.join().unwrap();
        ensure(r.out.is_some() || r.woken(), "a broadcast is queued while the receive that began before sleeps");
    }
}
