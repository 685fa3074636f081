fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    drop(mb);
    ensure(weak.try_upgrade().is_some(), "a weak address cannot be upgraded although a strong one exists");
}
