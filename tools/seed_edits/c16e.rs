fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(log.clone());
    let mut q = T::new(addr.send(Fire(0)).detach()); q.poll();
    let mut x = T::new(addr.send(Fire(9)).detach()); x.poll();
    let mut y = T::new(addr.send(Fire(1)).detach()); y.poll();
    let mut z = T::new(addr.send(Fire(2)).detach()); z.poll();
    let mut u = T::new(addr.send(Fire(3)).detach()); u.poll();
    drop(x);
    while step(&mb, &mut a).is_some() {}
    ensure(log.str() == "0,1,2,3", &format!("order after a cancelled send: {}", log.str()));
}
