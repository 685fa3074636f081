fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = T::new(mb.next()); a.poll();
    drop(a);
    let log = Log::default();
    let mut lp = T::new(xtra::run(mb, Act(log.clone()))); lp.poll();
    ensure(now(addr.broadcast(B(1))).is_some(), "sent");
    ensure(lp.woken(), "the actor sleeps although a broadcast is queued for it");
}
