use futures_util::{Sink, SinkExt};
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(Log::default());
    let ch: MessageChannel<Fire, ()> = MessageChannel::new(addr.clone());
    let mut s = Box::pin(ch.into_sink());
    let mut f = T::new(s.send(Fire(1)));
    f.poll();
    ensure(f.out.is_none(), "the sink says the item was processed before any actor has seen it");
    step(&mb, &mut a);
    ensure(f.poll() && f.out == Some(Ok(())), "processed");
}
