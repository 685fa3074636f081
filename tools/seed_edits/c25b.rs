use xtra::message_channel::MessageChannel as Mc;
fn main() {
    let (addr, _mb) = Mailbox::<Act>::unbounded();
    let weak: Mc<M, u32, xtra::refcount::Weak> = Mc::new(addr.downgrade());
    ensure(weak.is_connected(), "connected");
    drop(addr);
    ensure(!weak.is_connected(), "a weak channel is disconnected once the last strong address is gone");
}
