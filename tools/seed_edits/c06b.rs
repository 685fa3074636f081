fn main() {
    let (addr, idle) = Mailbox::<Act>::unbounded();
    let busy = idle.clone();
    let mut a = Act(Log::default());
    ensure(now(addr.broadcast(B(0))).is_some(), "sent");
    ensure(step(&idle, &mut a).is_some(), "first broadcast");
    let mut r = T::new(idle.next());
    ensure(!r.poll(), "nothing more yet");
    ensure(now(addr.broadcast(B(1))).is_some(), "sent"); // the other actor still has to handle the first one
    ensure(r.woken(), "the idle actor is not woken for the second broadcast");
    drop(busy);
}
