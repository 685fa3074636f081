fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(Log::default());
    ensure(now(addr.send(M(0)).detach()).is_some(), "room");
    let mut t = T::new(addr.send(M(1)).detach());
    let (w1, w2) = (Flag::new(), Flag::new());
    ensure(!t.poll_with(&w1) && !t.poll_with(&w2), "no room");
    step(&mb, &mut a);
    ensure(w2.get() > 0, "the task the send was moved to is not woken");
    ensure(t.poll(), "sent");
}
