//! The histories of the other modules once more, where whatever is given up (sends, receives, responses, handlers, event
//! loops, addresses, mailboxes, joins, sinks) is destroyed by a panic that unwinds the stack of its owner.
use crate::vx::*;
#[no_mangle] pub extern "C" fn h_unw_uni_4() { by_panic(); crate::p_uni::history(4, true, false) }
#[no_mangle] pub extern "C" fn h_unw_uni_5() { by_panic(); crate::p_uni::history(5, true, false) }
#[no_mangle] pub extern "C" fn h_unw_disc_5() { by_panic(); crate::p_disc::disc(5, &[0]) }
#[no_mangle] pub extern "C" fn h_unw_disc_6() { by_panic(); crate::p_disc::disc(6, &[0]) }
#[no_mangle] pub extern "C" fn h_unw_bcast_4() { by_panic(); crate::p_bcast::bcast(4, 7) }
#[no_mangle] pub extern "C" fn h_unw_run_3() { by_panic(); crate::p_run::run(3, &crate::p_run::SENDS) }
#[no_mangle] pub extern "C" fn h_unw_resp_4() { by_panic(); crate::p_resp::resp(4) }
#[no_mangle] pub extern "C" fn h_unw_refs_4() { by_panic(); crate::p_refs::refs(4) }
#[no_mangle] pub extern "C" fn h_unw_recv_4() { by_panic(); crate::p_recv::recv(4) }
#[no_mangle] pub extern "C" fn h_unw_join_4() { by_panic(); crate::p_join::join(4) }
#[no_mangle] pub extern "C" fn h_unw_sink_4() { by_panic(); crate::p_sink::sink(4) }
