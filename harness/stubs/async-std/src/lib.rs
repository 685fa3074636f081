pub mod task {
    use std::future::Future;
    pub struct JoinHandle<T>(xrt::Handle<T>);
    impl<T> JoinHandle<T> { pub async fn cancel(self) -> Option<T> { self.0 .0.borrow_mut().cancelled = true; None } }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: Future<Output = T> + Send + 'static, T: Send + 'static { JoinHandle(xrt::put(1, f)) }
    pub async fn yield_now() { xrt::Yield(false).await }
    pub async fn sleep(_: std::time::Duration) { xrt::Timer::new().await }
    pub fn spawn_local<F, T>(f: F) -> JoinHandle<T> where F: Future<Output = T> + 'static, T: 'static { JoinHandle(xrt::put(1, f)) }
    pub struct Builder;
    impl Builder {
        pub fn new() -> Builder { Builder }
        pub fn name(self, _: String) -> Builder { self }
        pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>> where F: Future<Output = T> + Send + 'static, T: Send + 'static { Ok(spawn(f)) }
    }
}
pub mod future {
    use std::future::Future;
    #[derive(Debug)]
    pub struct TimeoutError(());
    pub async fn timeout<F: Future>(_: std::time::Duration, f: F) -> Result<F::Output, TimeoutError> { xrt::first(f, xrt::Timer::new()).await.map_err(TimeoutError) }
}
