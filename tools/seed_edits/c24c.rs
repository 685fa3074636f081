use tracing_core::span::{Attributes, Current, Id, Record};
use tracing_core::{Event, Interest, Metadata};
struct Sub(AtomicUsize);
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &Metadata<'_>) -> bool { true }
    fn new_span(&self, _: &Attributes<'_>) -> Id { Id::from_u64(self.0.fetch_add(1, SeqCst) as u64 + 1) }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
    fn clone_span(&self, i: &Id) -> Id { i.clone() }
    fn try_close(&self, _: Id) -> bool { false }
    fn current_span(&self) -> Current { Current::none() }
}
fn main() {
    tracing::dispatcher::set_global_default(tracing::Dispatch::new(Sub(AtomicUsize::new(0)))).ok().unwrap();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(Log::default());
    now(addr.send(Fire(1)));
    let msg = now(mb.next()).unwrap();
    let mut d = msg.dispatch_to(&mut a);
    let one = d.span().id();
    let two = d.span().id();
    ensure(one.is_some(), "there is a span");
    ensure(one == two, "the span changes while nothing happens");
    let mut d = T::new(d);
    ensure(d.poll(), "handled");
}
