#![allow(static_mut_refs)]
pub mod vx;
pub mod world;
mod p_smoke;
mod p_uni;
mod p_refs;
mod p_disc;
mod p_bcast;
mod p_conc;
mod p_run;
mod p_resp;
mod p_nest;
mod p_recv;
mod p_panic;
mod p_sel;
mod p_drop;
mod p_sink;
mod p_leak;
mod p_unw;
mod p_join;
mod p_long;
mod p_proto;
mod p_bulk;
mod p_grow;
mod p_pair;
#[cfg(feature = "instr")]
mod p_instr;
#[cfg(feature = "spawn")]
mod p_spawn;
