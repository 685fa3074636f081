#![allow(dead_code, unused_imports, unused_mut)]
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Wake, Waker};
use xtra::prelude::*;
use xtra::Error;

struct Flag(AtomicUsize);
impl Flag { fn new() -> Arc<Flag> { Arc::new(Flag(AtomicUsize::new(0))) } fn get(&self) -> usize { self.0.load(SeqCst) } }
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
/// A future driven by hand.
struct T<F: Future> { f: Option<Pin<Box<F>>>, out: Option<F::Output>, flag: Arc<Flag> }
impl<F: Future> T<F> {
    fn new(f: F) -> Self { T { f: Some(Box::pin(f)), out: None, flag: Flag::new() } }
    fn poll(&mut self) -> bool { let fl = self.flag.clone(); self.poll_with(&fl) }
    fn poll_with(&mut self, fl: &Arc<Flag>) -> bool {
        let w = Waker::from(fl.clone());
        if let Some(f) = self.f.as_mut() { if let Poll::Ready(v) = f.as_mut().poll(&mut Cx::from_waker(&w)) { self.out = Some(v); self.f = None; } }
        self.f.is_none()
    }
    fn woken(&self) -> bool { self.flag.get() > 0 }
}
fn now<F: Future>(f: F) -> Option<F::Output> { let mut t = T::new(f); t.poll(); t.out }
fn ensure(c: bool, what: &str) { if !c { eprintln!("WRONG: {what}"); std::process::exit(1); } }

#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<String>>>);
impl Log { fn put(&self, s: String) { self.0.lock().unwrap().push(s) } fn all(&self) -> Vec<String> { self.0.lock().unwrap().clone() } fn str(&self) -> String { self.all().join(",") } }
struct Act(Log);
impl Actor for Act {
    type Stop = Log;
    async fn stopped(self) -> Log { self.0.put("stopped".into()); self.0 }
}
struct M(u32);
impl Handler<M> for Act { type Return = u32; async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u32 { self.0.put(m.0.to_string()); m.0 } }
struct Fire(u32);
impl Handler<Fire> for Act { type Return = (); async fn handle(&mut self, m: Fire, _: &mut Context<Self>) { self.0.put(m.0.to_string()); } }
#[derive(Clone)]
struct B(u32);
impl Handler<B> for Act { type Return = (); async fn handle(&mut self, m: B, _: &mut Context<Self>) { self.0.put(format!("b{}", m.0)); } }
struct StopSelf;
impl Handler<StopSelf> for Act { type Return = (); async fn handle(&mut self, _: StopSelf, c: &mut Context<Self>) { c.stop_self() } }
struct StopAll;
impl Handler<StopAll> for Act { type Return = (); async fn handle(&mut self, _: StopAll, c: &mut Context<Self>) { c.stop_all() } }
struct Boom;
impl Handler<Boom> for Act { type Return = (); async fn handle(&mut self, _: Boom, _: &mut Context<Self>) { panic!("boom") } }
struct Gate(Arc<Flag>);
impl Future for Gate { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<()> { if self.0.get() > 0 { Poll::Ready(()) } else { Poll::Pending } } }
struct Slow(u32, Arc<Flag>);
impl Handler<Slow> for Act { type Return = u32; async fn handle(&mut self, m: Slow, _: &mut Context<Self>) -> u32 { self.0.put(format!("slow{}", m.0)); Gate(m.1).await; self.0.put(format!("done{}", m.0)); m.0 } }
/// Receive and handle one message, if there is one.
fn step(mb: &Mailbox<Act>, a: &mut Act) -> Option<ControlFlow<()>> { let m = now(mb.next())?; now(m.dispatch_to(a)) }

