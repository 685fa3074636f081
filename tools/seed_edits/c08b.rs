fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(Log::default());
    let mut r1 = T::new(mb.next()); ensure(!r1.poll(), "nothing yet");
    let mut r2 = T::new(mb.next()); ensure(!r2.poll(), "nothing yet");
    ensure(now(addr.broadcast(B(0))).is_some(), "sent");
    ensure(r1.poll(), "one of them gets the broadcast");
    let other = r2.poll();
    if other { ensure(now(r2.out.take().unwrap().dispatch_to(&mut a)) != Some(ControlFlow::Break(())), "told to stop although there is a strong address"); }
    ensure(!other, "there is nothing else to receive");
}
