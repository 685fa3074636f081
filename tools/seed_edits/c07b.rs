fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    ensure(now(addr.send(M(0)).detach()).is_some(), "sent");
    let mut s = T::new(addr.send(M(1)));
    ensure(!s.poll(), "full");
    drop(mb);
    ensure(s.woken(), "the waiting sender is not told that the actor is gone");
    s.poll();
    ensure(s.out == Some(Err(Error::Disconnected)), "disconnected");
}
