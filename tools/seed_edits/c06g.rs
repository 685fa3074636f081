fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut v: Vec<_> = (0..200).map(|i| T::new(addr.send(M(i)))).collect();
    for t in v.iter_mut() { t.poll(); }
    let mut run = T::new(xtra::run(mb, Act(Log::default())));
    run.poll();
    for _ in 0..1000 { if run.woken() { run.flag.0.store(0, SeqCst); run.poll(); } }
    for t in v.iter_mut() { ensure(t.poll(), "the event loop sleeps on queued messages"); }
    drop(addr);
}
