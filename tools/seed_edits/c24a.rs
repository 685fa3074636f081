use tracing_core::span::{Attributes, Current, Id, Record};
use tracing_core::{Event, Interest, Metadata};
#[derive(Default)]
struct St { n: u64, open: std::collections::HashMap<u64, (usize, &'static str)> }
static ST: Mutex<Option<St>> = Mutex::new(None);
struct Sub;
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &Metadata<'_>) -> bool { true }
    fn new_span(&self, a: &Attributes<'_>) -> Id { let mut s = ST.lock().unwrap(); let s = s.as_mut().unwrap(); s.n += 1; s.open.insert(s.n, (1, a.metadata().name())); Id::from_u64(s.n) }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
    fn clone_span(&self, i: &Id) -> Id { ST.lock().unwrap().as_mut().unwrap().open.get_mut(&i.into_u64()).unwrap().0 += 1; i.clone() }
    fn try_close(&self, i: Id) -> bool { let mut s = ST.lock().unwrap(); let e = s.as_mut().unwrap().open.get_mut(&i.into_u64()).unwrap(); e.0 -= 1; e.0 == 0 }
    fn current_span(&self) -> Current { Current::none() }
}
fn waiting() -> bool { ST.lock().unwrap().as_ref().unwrap().open.values().any(|(n, name)| *n > 0 && *name == "xtra_message_waiting_for_actor") }
#[derive(Clone)]
struct SlowB(Arc<Flag>);
impl Handler<SlowB> for Act { type Return = (); async fn handle(&mut self, m: SlowB, _: &mut Context<Self>) { Gate(m.0).await } }
fn main() {
    *ST.lock().unwrap() = Some(St::default());
    tracing::dispatcher::set_global_default(tracing::Dispatch::new(Sub)).ok().unwrap();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = Act(Log::default());
    let gate = Flag::new();
    ensure(now(addr.broadcast(SlowB(gate.clone()))).is_some() && waiting(), "sent, waiting");
    let msg = now(mb.next()).unwrap();
    let mut d = T::new(msg.dispatch_to(&mut a));
    ensure(!d.poll(), "being handled");
    ensure(!waiting(), "the span for waiting is still open while the message is handled");
    gate.0.store(1, SeqCst);
    d.poll();
}
