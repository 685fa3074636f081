fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(log.clone());
    let mut r = T::new(addr.send(M(1)));
    r.poll();
    let msg = now(mb.next()).expect("received");
    drop(msg.dispatch_to(&mut a));
    ensure(addr.len() == 0, "an abandoned message is back in the mailbox");
    ensure(r.poll() && r.out == Some(Err(Error::Interrupted)), "its sender is not told");
}
