fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let (l1, l2) = (Log::default(), Log::default());
    let mut one = T::new(xtra::run(mb.clone(), Act(l1.clone())));
    ensure(now(addr.send(StopSelf).detach()).is_some(), "queued");
    let mut r = T::new(addr.send(M(1))); r.poll();
    one.poll();
    ensure(one.out.is_some(), "the first actor stops");
    let mut two = T::new(xtra::run(mb, Act(l2.clone())));
    two.poll(); r.poll();
    ensure(matches!(r.out, Some(Ok(1))), "a queued message is lost although another actor goes on");
}
