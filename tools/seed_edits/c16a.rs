fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(Log::default());
    ensure(now(addr.send(M(0)).detach()).is_some(), "room");
    let mut x = T::new(addr.send(M(1)).priority(5).detach()); x.poll();
    let mut y = T::new(addr.send(M(2)).detach()); y.poll();
    drop(x);
    step(&mb, &mut a);
    ensure(y.woken() && y.poll(), "a cancelled send keeps another one from being admitted");
    while step(&mb, &mut a).is_some() { }
    ensure(a.0.str() == "0,2", &a.0.str());
}
