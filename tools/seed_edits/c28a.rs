fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (a, _m) = Mailbox::<Act>::bounded(1);
    let mut first = T::new(a.send(M(1)));
    first.poll();
    let mut s = a.send(M(1));
    let f = Flag::new();
    let w = Waker::from(f.clone());
    ensure(Pin::new(&mut s).poll(&mut Cx::from_waker(&w)).is_pending(), "the mailbox is not full");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(s.priority(7))));
    ensure(r.is_err(), "setting the priority of a send that waits already does nothing, silently");
}
