fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut r = T::new(addr.downgrade().send(M(1)));
    r.poll();
    drop(addr);
    let mut run = T::new(xtra::run(mb, Act(log.clone())));
    ensure(run.poll(), "the actor stops");
    ensure(log.str() == "1,stopped", &format!("handled: {}", log.str()));
    ensure(r.poll() && r.out == Some(Ok(1)), &format!("response: {:?}", r.out));
}
