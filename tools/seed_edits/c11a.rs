fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(Log::default());
    let mut f = Box::pin(addr.send(M(7)));
    let w = Waker::from(Flag::new());
    ensure(f.as_mut().poll(&mut Cx::from_waker(&w)).is_pending(), "waits for the response"); // the message is queued now
    let rx = now((*Pin::into_inner(f)).detach());
    let rx = match rx { Some(Ok(rx)) => rx, _ => { ensure(false, "no receiver"); return } };
    step(&mb, &mut a);
    ensure(now(rx) == Some(Ok(7)), "response");
}
