//! Harness side of the symbolic executor: nondeterministic inputs, assertions, threads, and a tiny executor.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

mod ffi {
    use std::sync::atomic::AtomicU32;
    extern "C" {
        pub fn vx_u8(tag: u32) -> u8;
        pub fn vx_u32(tag: u32) -> u32;
        pub fn vx_u64(tag: u32) -> u64;
        pub fn vx_choose(tag: u32, n: u32) -> u32;
        pub fn vx_assume(c: bool);
        pub fn vx_assert(c: bool, code: u32);
        pub fn vx_cover(code: u32);
        pub fn vx_note(tag: u32, v: u64);
        pub fn vx_spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> u32;
        pub fn vx_quiesce();
        pub fn vx_wait(f: *const AtomicU32);
        pub fn vx_status(t: u32) -> u32;
        pub fn vx_fix(v: u64) -> u64;
        pub fn vx_tid() -> u32;
    }
}
/// Non-zero while `warm` runs: the choices are then drawn from this generator, and nothing is checked.
static mut WARM: u32 = 0;
fn warming() -> bool { unsafe { WARM != 0 } }
fn draw() -> u32 { unsafe { WARM = WARM.wrapping_mul(1664525).wrapping_add(1013904223) | 1; WARM >> 16 } }
/// An arbitrary byte.
pub fn any_u8(tag: u32) -> u8 { if warming() { draw() as u8 } else { unsafe { ffi::vx_u8(tag) } } }
pub fn any_u32(tag: u32) -> u32 { if warming() { draw() } else { unsafe { ffi::vx_u32(tag) } } }
pub fn any_u64(tag: u32) -> u64 { if warming() { draw() as u64 } else { unsafe { ffi::vx_u64(tag) } } }
/// An arbitrary number below n.
pub fn choose(tag: u32, n: u32) -> u32 { if warming() { draw() % n } else { unsafe { ffi::vx_choose(tag, n) } } }
/// As `choose`, made concrete at once (one path per value).
pub fn pick(tag: u32, n: u32) -> u32 { if warming() { draw() % n } else { unsafe { ffi::vx_fix(ffi::vx_choose(tag, n) as u64) as u32 } } }
pub fn assume(c: bool) { if warming() { if !c { if !std::thread::panicking() { std::panic::resume_unwind(Box::new(())) } } } else { unsafe { ffi::vx_assume(c) } } }
pub fn check(c: bool, code: u32) { if !warming() { unsafe { ffi::vx_assert(c, code) } } }
pub fn cover(code: u32) { if !warming() { unsafe { ffi::vx_cover(code) } } }
/// Run `f` once with fixed choices and without checks, so that what is set up once per process or thread is set up.
pub fn warm(seed: u32, f: impl FnOnce()) {
    unsafe { WARM = seed | 1; }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { WARM = 0; }
    drop(r);
}
pub fn note(tag: u32, v: u64) { unsafe { ffi::vx_note(tag, v) } }
pub fn quiesce() { unsafe { ffi::vx_quiesce() } }
pub fn finished(t: u32) -> bool { unsafe { ffi::vx_status(t) == 1 } }
pub fn tid() -> u32 { unsafe { ffi::vx_tid() } }
pub fn fix(v: u64) -> u64 { unsafe { ffi::vx_fix(v) } }

static mut UNWIND: bool = false;
/// From now on `give_up` destroys what it is given while a panic unwinds the stack.
pub fn by_panic() { unsafe { UNWIND = true } }
/// Something is given up: dropped, or (after `by_panic`) destroyed by the panic of the task that owns it.
pub fn give_up<T>(x: T) {
    if unsafe { !UNWIND } { return drop(x); }
    drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _x = x; std::panic::resume_unwind(Box::new(())) })));
}

/// Run `f` on a new thread.
pub fn spawn<F: FnOnce() + 'static>(f: F) -> u32 {
    extern "C" fn tramp<F: FnOnce()>(d: *mut u8) {
        let f = unsafe { Box::from_raw(d as *mut F) };
        f();
    }
    unsafe { ffi::vx_spawn(tramp::<F>, Box::into_raw(Box::new(f)) as *mut u8) }
}

/// Panics carry no output.
pub fn init() { init_only(); #[cfg(feature = "instr")] crate::p_instr::install(0); }
pub fn init_only() { std::panic::set_hook(Box::new(|_| {})); }

pub struct Flag(pub AtomicU32);
impl Flag {
    pub fn new() -> &'static Flag { leak(Flag(AtomicU32::new(0))) }
    pub fn get(&self) -> bool { self.0.load(Ordering::SeqCst) != 0 }
    pub fn set(&self) { self.0.store(1, Ordering::SeqCst) }
    pub fn clear(&self) { self.0.store(0, Ordering::SeqCst) }
    pub fn wait(&self) { unsafe { ffi::vx_wait(&self.0) } }
    pub fn waker(&'static self) -> Waker { unsafe { Waker::from_raw(RawWaker::new(self as *const Flag as *const (), &VT)) } }
}
static VT: RawWakerVTable = RawWakerVTable::new(
    |p| RawWaker::new(p, &VT),
    |p| unsafe { (*(p as *const Flag)).set() },
    |p| unsafe { (*(p as *const Flag)).set() },
    |_| {},
);

/// A future under test: polled by hand, remembers whether its waker was called.
pub struct Task<F: Future> { pub fut: Option<Pin<Box<F>>>, pub out: Option<F::Output>, flags: [&'static Flag; 2], cur: usize, pub polled: bool }
impl<F: Future> Task<F> {
    pub fn new(f: F) -> Self { Task { fut: Some(Box::pin(f)), out: None, flags: [Flag::new(), Flag::new()], cur: 0, polled: false } }
    /// Poll once; true when complete.
    pub fn poll(&mut self) -> bool {
        if self.fut.is_none() { return true; }
        // every poll is made by another task than the one before: it is the latest waker that counts
        if self.polled { self.cur = 1 - self.cur; }
        self.polled = true;
        self.flag().clear();
        let w = self.flag().waker();
        let mut cx = Context::from_waker(&w);
        match self.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
            Poll::Ready(v) => { self.out = Some(v); self.fut = None; true }
            Poll::Pending => false,
        }
    }
    pub fn done(&self) -> bool { self.out.is_some() }
    pub fn flag(&self) -> &'static Flag { self.flags[self.cur] }
    pub fn woken(&self) -> bool { self.flag().get() }
    /// What an executor does: poll only when never polled or woken.
    pub fn run(&mut self) -> bool {
        while self.fut.is_some() && (!self.polled || self.woken()) { self.poll(); }
        self.done()
    }
    pub fn cancel(&mut self) { give_up(self.fut.take()); }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let flag = Flag::new();
    let w = flag.waker();
    let mut cx = Context::from_waker(&w);
    loop {
        flag.clear();
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        flag.wait();
    }
}
pub fn poll_once<F: Future + Unpin>(f: &mut F) -> Poll<F::Output> {
    let w = Flag::new().waker();
    let mut cx = Context::from_waker(&w);
    Pin::new(f).poll(&mut cx)
}

/// Counts live heap allocations (for the harnesses that check that nothing is left behind).
pub struct Count;
static mut LIVE: usize = 0;
static mut LEAKED: usize = 0;
static mut BYTES: usize = 0;
static mut LEAKED_BYTES: usize = 0;
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE = LIVE.wrapping_add(1); BYTES = BYTES.wrapping_add(l.size()); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { LIVE = LIVE.wrapping_add(1); BYTES = BYTES.wrapping_add(l.size()); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE = LIVE.wrapping_sub(1); BYTES = BYTES.wrapping_sub(l.size()); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { BYTES = BYTES.wrapping_add(n).wrapping_sub(l.size()); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator]
static COUNT: Count = Count;
/// Leak deliberately.
pub fn leak<T>(t: T) -> &'static mut T { unsafe { LEAKED = LEAKED.wrapping_add((std::mem::size_of::<T>() > 0) as usize); LEAKED_BYTES = LEAKED_BYTES.wrapping_add(std::mem::size_of::<T>()); } Box::leak(Box::new(t)) }
/// Undo `leak`.
pub fn unleak<T>(t: *const T) { unsafe { LEAKED = LEAKED.wrapping_sub((std::mem::size_of::<T>() > 0) as usize); LEAKED_BYTES = LEAKED_BYTES.wrapping_sub(std::mem::size_of::<T>()); drop(Box::from_raw(t as *mut T)) } }
/// Live heap allocations, not counting those leaked deliberately.
pub fn live() -> usize { unsafe { LIVE.wrapping_sub(LEAKED) } }
/// Their size.
pub fn live_bytes() -> usize { unsafe { BYTES.wrapping_sub(LEAKED_BYTES) } }
