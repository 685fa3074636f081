fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut alive = 0;
    let mut tasks = Vec::new();
    for _ in 0..100 {
        let mut j = T::new(addr.join());
        ensure(!j.poll(), "the actor is there");
        tasks.push(Arc::downgrade(&j.flag));
    }
    for t in &tasks { alive += t.upgrade().is_some() as u32; }
    let mut j = T::new(addr.join());
    j.poll();
    drop(mb);
    ensure(j.woken() && j.poll(), "join resolves");
    ensure(alive <= 10, "tasks that no longer join are kept alive by the channel");
}
