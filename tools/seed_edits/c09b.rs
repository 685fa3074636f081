fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut other = T::new(xtra::run(mb.clone(), Act(log.clone())));
    let mut stopper = Act(Log::default());
    ensure(now(addr.send(StopAll).priority(1).detach()).is_some(), "sent");
    ensure(now(addr.broadcast(B(7))).is_some(), "sent"); // fills the broadcast mailboxes
    step(&mb, &mut stopper);
    ensure(other.poll(), "the other actor stops");
    ensure(log.str() == "stopped", &format!("it handles nothing else: {}", log.str()));
    drop(mb);
}
