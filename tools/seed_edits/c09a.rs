fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let l = Log::default();
    ensure(now(addr.send(StopAll).priority(u32::MAX).detach()).is_some(), "sent");
    ensure(now(addr.send(M(1)).priority(u32::MAX).detach()).is_some(), "sent");
    let out = now(xtra::run(mb, Act(l.clone())));
    ensure(out.is_some(), "the actor stops");
    ensure(l.str() == "stopped", &format!("handled before stopping: {}", l.str()));
}
