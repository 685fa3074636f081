fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let log = Log::default();
    let mut a = Act(log.clone());
    ensure(now(addr.send(Fire(1)).priority(1).detach()).is_some(), "queued");
    ensure(now(addr.broadcast(B(2)).priority(1 << 31)).is_some(), "queued");
    while step(&mb, &mut a).is_some() {}
    ensure(log.str() == "b2,1", "a broadcast of very high priority is not handled first");
}
