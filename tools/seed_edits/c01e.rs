fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let log = Log::default();
    let mut one = T::new(xtra::run(mb.clone(), Act(Log::default())));
    ensure(now(addr.send(StopSelf).detach()).is_some(), "queued");
    let mut r = T::new(addr.send(M(1))); r.poll();
    one.poll();
    let mut two = T::new(xtra::run(mb, Act(log.clone())));
    two.poll(); r.poll();
    ensure(matches!(r.out, Some(Ok(1))), "the message behind the stop is lost although another actor goes on");
}
