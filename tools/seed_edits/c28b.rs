use futures_util::future::FusedFuture;
fn main() {
    let (_a, m) = Mailbox::<Act>::unbounded();
    let mut r = m.next();
    let f = Flag::new();
    let w = Waker::from(f.clone());
    ensure(!r.is_terminated(), "terminated before it was polled");
    ensure(Pin::new(&mut r).poll(&mut Cx::from_waker(&w)).is_pending(), "a message out of nothing");
    ensure(!r.is_terminated(), "a waiting receive claims to be finished");
}
