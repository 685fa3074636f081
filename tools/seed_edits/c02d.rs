fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(log.clone());
    ensure(now(addr.broadcast(B(1))) == Some(Ok(())), "sent");
    let mb2 = mb.clone();
    let log2 = Log::default();
    let mut a2 = Act(log2.clone());
    while step(&mb2, &mut a2).is_some() {}
    while step(&mb, &mut a).is_some() {}
    ensure(log.str() == "b1", "the mailbox that was there got it");
    ensure(log2.str() == "", "a mailbox got a broadcast from before it existed");
}
