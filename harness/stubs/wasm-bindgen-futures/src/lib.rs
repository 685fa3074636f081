use std::future::Future;
pub fn spawn_local<F>(f: F) where F: Future<Output = ()> + 'static { xrt::put(3, f); }
