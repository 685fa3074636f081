use std::future::Future;
#[must_use]
pub struct Task<T>(Option<xrt::Handle<T>>);
impl<T> Task<T> {
    pub fn detach(mut self) { self.0 = None; }
    pub async fn cancel(self) -> Option<T> { None }
    pub fn is_finished(&self) -> bool { self.0.as_ref().map_or(false, |h| h.0.borrow().out.is_some()) }
}
impl<T> Drop for Task<T> { fn drop(&mut self) { if let Some(h) = self.0.take() { h.0.borrow_mut().cancelled = true; } } }
pub fn spawn<T: Send + 'static>(f: impl Future<Output = T> + Send + 'static) -> Task<T> { Task(Some(xrt::put(2, f))) }
pub struct Timer(xrt::Timer);
impl Timer { pub fn after(_: std::time::Duration) -> Timer { Timer(xrt::Timer::new()) } }
impl Future for Timer {
    type Output = std::time::Instant;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> { std::pin::Pin::new(&mut self.0).poll(cx).map(|()| std::time::Instant::now()) }
}
pub mod future {
    use std::future::Future;
    pub async fn yield_now() { xrt::Yield(false).await }
    pub async fn or<T, A: Future<Output = T>, B: Future<Output = T>>(a: A, b: B) -> T { match xrt::first(a, b).await { Ok(v) | Err(v) => v } }
    pub async fn race<T, A: Future<Output = T>, B: Future<Output = T>>(a: A, b: B) -> T { or(a, b).await }
}
