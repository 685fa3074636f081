fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let sink = addr.into_sink::<Fire>();
    ensure(weak.is_connected(), "the sink was made from a strong address: the actor stays alive");
    let mut r = T::new(mb.next());
    ensure(!r.poll(), "nothing to receive");
    drop(sink);
    ensure(!weak.is_connected() && r.woken(), "the last strong reference is gone");
}
