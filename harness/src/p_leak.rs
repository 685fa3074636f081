//! The histories of the other modules once more, as programs that let go of everything in the end: not one heap
//! allocation is left (2324).
use crate::vx::*;
/// Whatever `f` allocates is gone when it returns.
fn no_leak(f: impl FnOnce()) {
    init();
    warm_up();
    *crate::world::w() = crate::world::NEW;
    let a = live();
    f();
    check(live() == a, 2324);
}
/// Whatever the library sets up once, on first use, is not a leak: use it first.
fn warm_up() {
    for s in 0..6u32 {
        warm(s * 7919 + 11, || crate::p_uni::history(4, true, s % 2 == 1));
        warm(s * 7919 + 23, || crate::p_disc::disc(4, &[0, 1, 2, 3, 4]));
        warm(s * 7919 + 37, || crate::p_bcast::bcast(3, 7));
        warm(s * 7919 + 41, || crate::p_run::run(3, &crate::p_run::SENDS));
        warm(s * 7919 + 53, || crate::p_resp::resp(3));
        warm(s * 7919 + 61, || crate::p_refs::refs(3));
        warm(s * 7919 + 71, || crate::p_sel::sel(3));
        warm(s * 7919 + 83, || crate::p_sink::sink(3));
        warm(s * 7919 + 97, || crate::p_join::join(3));
        warm(s * 7919 + 101, || crate::p_nest::nest(3));
        warm(s * 7919 + 113, || crate::p_recv::recv(3));
    }
}
#[no_mangle] pub extern "C" fn h_leak_uni_4() { no_leak(|| crate::p_uni::history(4, true, false)) }
#[no_mangle] pub extern "C" fn h_leak_uni_5() { no_leak(|| crate::p_uni::history(5, true, false)) }
#[no_mangle] pub extern "C" fn h_leak_chan_4() { no_leak(|| crate::p_uni::history(4, true, true)) }
#[no_mangle] pub extern "C" fn h_leak_disc_5() { no_leak(|| crate::p_disc::disc(5, &[0])) }
#[no_mangle] pub extern "C" fn h_leak_disc_6() { no_leak(|| crate::p_disc::disc(6, &[0])) }
#[no_mangle] pub extern "C" fn h_leak_dchan_4() { no_leak(|| crate::p_disc::disc(4, &[1, 2, 3, 4])) }
#[no_mangle] pub extern "C" fn h_leak_bcast_3() { no_leak(|| crate::p_bcast::bcast(3, 7)) }
#[no_mangle] pub extern "C" fn h_leak_bcast_4() { no_leak(|| crate::p_bcast::bcast(4, 7)) }
#[no_mangle] pub extern "C" fn h_leak_run_3() { no_leak(|| crate::p_run::run(3, &crate::p_run::SENDS)) }
#[no_mangle] pub extern "C" fn h_leak_run_4() { no_leak(|| crate::p_run::run(4, &crate::p_run::SENDS)) }
#[no_mangle] pub extern "C" fn h_leak_resp_3() { no_leak(|| crate::p_resp::resp(3)) }
#[no_mangle] pub extern "C" fn h_leak_resp_4() { no_leak(|| crate::p_resp::resp(4)) }
#[no_mangle] pub extern "C" fn h_leak_refs_4() { no_leak(|| crate::p_refs::refs(4)) }
#[no_mangle] pub extern "C" fn h_leak_sel_3() { no_leak(|| crate::p_sel::sel(3)) }
#[no_mangle] pub extern "C" fn h_leak_sink_4() { no_leak(|| crate::p_sink::sink(4)) }
#[no_mangle] pub extern "C" fn h_leak_evil_3() { no_leak(|| crate::p_drop::evil(3)) }
#[no_mangle] pub extern "C" fn h_leak_panic_3() { no_leak(|| crate::p_panic::panics(3, 5)) }
#[no_mangle] pub extern "C" fn h_leak_join_4() { no_leak(|| crate::p_join::join(4)) }
#[no_mangle] pub extern "C" fn h_leak_nest_3() { no_leak(|| crate::p_nest::nest(3)) }
#[no_mangle] pub extern "C" fn h_leak_recv_4() { no_leak(|| crate::p_recv::recv(4)) }
