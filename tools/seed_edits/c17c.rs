fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut x = T::new(mb.next()); x.poll();
    let mut a = T::new(addr.send(M(1))); a.poll();
    let mut b = T::new(addr.send(M(2))); b.poll();
    drop(x);
    let mut act = Act(Log::default());
    ensure(step(&mb, &mut act).is_some() && step(&mb, &mut act).is_some(), "two messages were sent, not as many arrive");
    ensure(a.poll() && a.out == Some(Ok(1)), "answer");
}
