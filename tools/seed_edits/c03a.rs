fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(Log::default());
    let mut s: Vec<_> = (0..5u32).map(|i| T::new(addr.send(M(i)).detach())).collect();
    for t in &mut s { t.poll(); }
    while step(&mb, &mut a).is_some() { }
    ensure(a.0.str() == "0,1,2,3,4", &format!("waiting senders served in the order {}", a.0.str()));
}
