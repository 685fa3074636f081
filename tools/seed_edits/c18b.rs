fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(Log::default());
    for i in 0..3 { ensure(now(addr.send(M(i)).detach()).is_some(), "sent"); }
    ensure(now(addr.send(StopSelf).detach()).is_some(), "sent");
    // the future is complete from the start
    let r = now(xtra::select(&mb, &mut a, std::future::ready(7)));
    ensure(matches!(r, Some(futures_util::future::Either::Left(7))), "the future was complete and is never polled: its value is not returned");
}
