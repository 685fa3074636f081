//! Tasks that were handed to a runtime, kept for the harness to poll.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub struct Slot<T> { pub cancelled: bool, pub out: Option<T> }
pub struct Spawned { pub runtime: u32, pub fut: Fut, cancelled: Rc<dyn Fn() -> bool> }
impl Spawned { pub fn cancelled(&self) -> bool { (self.cancelled)() } }
pub static mut TASKS: Vec<Spawned> = Vec::new();
/// Everything spawned since the last call.
pub fn take() -> Vec<Spawned> { unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(TASKS)) } }

pub struct Handle<T>(pub Rc<RefCell<Slot<T>>>);
pub fn put<F: Future + 'static>(runtime: u32, f: F) -> Handle<F::Output> where F::Output: 'static {
    let s = Rc::new(RefCell::new(Slot { cancelled: false, out: None }));
    let (a, b) = (s.clone(), s.clone());
    let fut: Fut = Box::pin(async move { let v = f.await; a.borrow_mut().out = Some(v); });
    unsafe { (*std::ptr::addr_of_mut!(TASKS)).push(Spawned { runtime, fut, cancelled: Rc::new(move || b.borrow().cancelled) }); }
    Handle(s)
}

extern "C" { fn vx_choose(tag: u32, n: u32) -> u32; }
/// A timer: it may be due whenever it is looked at, and is when looked at for the third time.
pub struct Timer(u32);
impl Timer { pub fn new() -> Timer { Timer(0) } }
impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 >= 2 || unsafe { vx_choose(970, 2) } == 1 { self.0 = 2; return std::task::Poll::Ready(()); }
        self.0 += 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
/// The first of the two to complete; `a` is looked at first.
pub struct First<A, B>(pub Pin<Box<A>>, pub Pin<Box<B>>);
impl<A: Future, B: Future> Future for First<A, B> {
    type Output = Result<A::Output, B::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        if let std::task::Poll::Ready(v) = self.0.as_mut().poll(cx) { return std::task::Poll::Ready(Ok(v)); }
        self.1.as_mut().poll(cx).map(Err)
    }
}
pub fn first<A: Future, B: Future>(a: A, b: B) -> First<A, B> { First(Box::pin(a), Box::pin(b)) }
pub struct Yield(pub bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 { return std::task::Poll::Ready(()); }
        self.0 = true;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}
