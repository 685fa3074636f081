fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut x = T::new(mb.next()); x.poll();
        ensure(now(addr.send(M(1)).detach()).is_some(), "sent");
        ensure(x.woken(), "given to the receive that waits");
        panic!("the task that receives fails");
    }));
    ensure(r.is_err(), "panicked");
    let mut y = T::new(mb.next());
    ensure(y.poll(), "the message the abandoned receive had been given is lost");
}
