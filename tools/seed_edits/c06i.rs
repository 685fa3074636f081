fn main() {
    // A send that waits for room is polled again and again, always with another waker, while the actor makes room.
    for i in 0..300_000u32 {
        let (addr, mb) = Mailbox::<Act>::bounded(1);
        ensure(now(addr.send(Fire(0)).detach()).is_some(), "room for one");
        let mut s = T::new(addr.send(Fire(1)).detach());
        ensure(!s.poll(), "no room for two");
        ROUND.store(0, SeqCst);
        std::thread::scope(|sc| {
            let mb = &mb;
            let s = &mut s;
            if i % 1000 == 0 {} 
            let h = sc.spawn(move || { while ROUND.load(SeqCst) == 0 { std::hint::spin_loop(); } drop(now(mb.next())); });
            let mut last = Flag::new();
            ROUND.store(1, SeqCst);
            let mut done = false;
            for _ in 0..40 { last = Flag::new(); if s.poll_with(&last) { done = true; break; } if h.is_finished() { break; } }
            h.join().unwrap();
            if !done { ensure(last.get() > 0, "the message was taken, but the task that waits was not woken"); }
        });
        if i > 20000 && std::env::var("LONG").is_err() { break; }
    }
}
static ROUND: AtomicUsize = AtomicUsize::new(0);
