use futures_util::SinkExt;
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let log = Log::default();
    let mut a = Act(log.clone());
    ensure(now(addr.send(Fire(1)).detach()).is_some(), "queued");
    let mut sink = Box::pin(addr.clone().into_sink::<Fire>());
    let mut s = T::new(sink.send(Fire(2))); s.poll();
    while step(&mb, &mut a).is_some() {}
    ensure(log.str() == "1,2", "an item sent later overtakes a message of default priority");
}
