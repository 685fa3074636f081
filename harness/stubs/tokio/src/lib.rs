use std::future::Future;
pub mod task {
    use super::*;
    pub struct JoinHandle<T>(xrt::Handle<T>);
    impl<T> JoinHandle<T> { pub fn abort(&self) { self.0 .0.borrow_mut().cancelled = true; } pub fn is_finished(&self) -> bool { self.0 .0.borrow().out.is_some() } }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { JoinHandle(xrt::put(0, f)) }
    pub async fn yield_now() { xrt::Yield(false).await }
    pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { JoinHandle(xrt::put(0, f)) }
}
pub use task::spawn;
pub mod time {
    use super::*;
    pub use std::time::{Duration, Instant};
    pub mod error { #[derive(Debug)] pub struct Elapsed(()); impl Elapsed { pub(super) fn new() -> Elapsed { Elapsed(()) } } }
    pub fn sleep(_: Duration) -> xrt::Timer { xrt::Timer::new() }
    pub async fn timeout<F: Future>(_: Duration, f: F) -> Result<F::Output, error::Elapsed> { xrt::first(f, xrt::Timer::new()).await.map_err(|()| error::Elapsed::new()) }
}
pub mod runtime {
    use super::*;
    #[derive(Clone)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Handle { Handle }
        pub fn spawn<F>(&self, f: F) -> task::JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { task::spawn(f) }
    }
}
