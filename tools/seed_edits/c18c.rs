fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(log.clone());
    now(addr.send(StopSelf));
    now(addr.send(Fire(1)));
    let gate = Flag::new();
    let g = Gate(gate.clone());
    let mut j = T::new(async { xtra::join(&mb, &mut a, async { g.await; 5 }).await });
    ensure(!j.poll(), "the future is not done yet");
    ensure(log.str() == "", "a message was handled after the actor was told to stop");
    gate.0.store(1, SeqCst);
    ensure(j.poll() && j.out == Some(5), "the value of the future");
    drop(j);
    ensure(addr.len() == 1, "the other message is still there");
}
