fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(Log::default());
    let mut s: Vec<_> = [0u32, 1, 2, 9].into_iter().map(|p| T::new(addr.send(M(p)).priority(p).detach())).collect();
    for t in &mut s { t.poll(); }
    while step(&mb, &mut a).is_some() { }
    ensure(a.0.str() == "0,9,2,1", &format!("handled in the order {}", a.0.str()));
}
