use futures_util::SinkExt;
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let ch = xtra::message_channel::MessageChannel::<Fire, ()>::new(addr.clone());
    let mut sink = Box::pin(ch.into_sink());
    ensure(now(sink.feed(Fire(1))).is_some(), "accepted");
    ensure(now(sink.flush()).is_none(), "not handled yet");
    drop(mb);
    ensure(matches!(now(sink.flush()), Some(Err(_))), "the failure of the item is not reported");
    drop(addr);
}
