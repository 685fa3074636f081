fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    now(addr.send(StopAll));
    now(addr.send(Fire(1)));
    drop(addr);
    let mut run = T::new(xtra::run(mb, Act(log.clone())));
    ensure(run.poll(), "the actor stops");
    ensure(log.str() == "stopped", &format!("a message was handled after stop_all: {}", log.str()));
}
