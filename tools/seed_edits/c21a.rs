fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut boom = T::new(addr.send(Boom)); boom.poll();
    let mut r = T::new(addr.send(M(1)).detach()); r.poll();
    let mut r = T::new(r.out.unwrap().ok().unwrap()); r.poll();
    let mut j = T::new(addr.join()); j.poll();
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { now(xtra::run(mb, Act(Log::default()))); }));
    ensure(e.is_err(), "the panic reaches the executor");
    r.poll();
    ensure(matches!(r.out, Some(Err(Error::Interrupted))), "the sender of a message queued behind the panic waits forever");
    j.poll();
    ensure(j.out.is_some(), "join waits forever");
}
