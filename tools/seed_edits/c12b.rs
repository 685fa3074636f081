fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut j1 = T::new(addr.join()); ensure(!j1.poll(), "running");
    let mut j2 = T::new(addr.join()); ensure(!j2.poll(), "running");
    drop(mb);
    ensure(j1.woken() && j1.poll(), "first waiter");
    ensure(j2.woken() && j2.poll(), "second waiter");
}
