//! Instrumentation (feature `instr`): a recording tracing subscriber watches every span of the library. 24xx.
use crate::vx::*;
use crate::world::*;
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use tracing::span::{Attributes, Id, Record};
use tracing_core::span::Current;
use tracing::subscriber::Interest;
use tracing::{Event, Level, Metadata, Subscriber};
use xtra::prelude::*;

const NS: usize = 32;
const USER: u32 = 1;
const REQUEST: u32 = 2;
const WAITING: u32 = 3;
const HANDLER: u32 = 4;
const Z: AtomicU32 = AtomicU32::new(0);
pub struct Rec { n: AtomicU32, kind: [AtomicU32; NS], parent: [AtomicU32; NS], refs: [AtomicU32; NS], inside: [AtomicU32; NS], meta: [Option<&'static Metadata<'static>>; NS], stack: [[u32; 8]; 8], sp: [usize; 8], mode: u32 }
static mut REC: Rec = Rec { n: AtomicU32::new(1), kind: [Z; NS], parent: [Z; NS], refs: [Z; NS], inside: [Z; NS], meta: [None; NS], stack: [[0; 8]; 8], sp: [0; 8], mode: 0 };
fn rec() -> &'static mut Rec { unsafe { &mut *std::ptr::addr_of_mut!(REC) } }
impl Rec {
    fn made(&self) -> usize { self.n.load(SeqCst) as usize }
    fn kind(&self, i: usize) -> u32 { self.kind[i].load(SeqCst) }
    fn parent(&self, i: usize) -> usize { self.parent[i].load(SeqCst) as usize }
    fn open(&self, i: usize) -> bool { self.refs[i].load(SeqCst) > 0 }
    fn entered(&self, i: usize) -> u32 { self.inside[i].load(SeqCst) }
    fn cur(&self) -> usize { let t = tid() as usize; if self.sp[t] == 0 { 0 } else { self.stack[t][self.sp[t] - 1] as usize } }
    fn wants(&self, m: &Metadata<'_>) -> bool { self.mode == 0 || *m.level() <= Level::INFO }
}
struct Sub;
impl Subscriber for Sub {
    fn register_callsite(&self, m: &'static Metadata<'static>) -> Interest { if rec().wants(m) { Interest::always() } else { Interest::never() } }
    fn enabled(&self, m: &Metadata<'_>) -> bool { rec().wants(m) }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let r = rec();
        let i = r.n.fetch_add(1, SeqCst) as usize;
        check(i < NS, 2499);
        let name = a.metadata().name();
        r.kind[i].store(if name == "xtra_actor_request" { REQUEST } else if name == "xtra_message_waiting_for_actor" { WAITING } else if name == "xtra_message_handler" { HANDLER } else { USER }, SeqCst);
        let p = if let Some(p) = a.parent() { p.into_u64() as u32 } else if a.is_contextual() { r.cur() as u32 } else { 0 };
        r.parent[i].store(p, SeqCst);
        r.refs[i].store(1, SeqCst);
        r.meta[i] = Some(a.metadata());
        Id::from_u64(i as u64)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, _: &Event<'_>) {}
    fn enter(&self, i: &Id) { let r = rec(); let i = i.into_u64(); check(r.open(i as usize), 2490); r.inside[i as usize].fetch_add(1, SeqCst); let t = tid() as usize; check(r.sp[t] < 8, 2498); r.stack[t][r.sp[t]] = i as u32; r.sp[t] += 1; }
    fn exit(&self, i: &Id) { let r = rec(); let i = i.into_u64(); r.inside[i as usize].fetch_sub(1, SeqCst); let t = tid() as usize; check(r.sp[t] > 0 && r.stack[t][r.sp[t] - 1] == i as u32, 2491); r.sp[t] -= 1; }
    fn clone_span(&self, i: &Id) -> Id { let n = rec().refs[i.into_u64() as usize].fetch_add(1, SeqCst); check(n > 0, 2492); i.clone() }
    fn try_close(&self, i: Id) -> bool { let n = rec().refs[i.into_u64() as usize].fetch_sub(1, SeqCst); check(n > 0, 2493); n == 1 }
    fn current_span(&self) -> Current { let c = rec().cur(); match rec().meta[c] { Some(m) if c > 0 => Current::new(Id::from_u64(c as u64), m), _ => Current::none() } }
}
/// Every span of the process is recorded from now on. mode 0: all of them, 1: not the library's (too verbose), 2: none, there is no subscriber.
pub fn install(mode: u32) {
    rec().mode = mode;
    if mode < 2 { let _ = tracing::dispatcher::set_global_default(tracing::Dispatch::new(Sub)); }
}

/// what the handler of message m expects: its request span and the span its sender was in
static mut REQ: [usize; NM] = [0; NM];
static mut WAIT: [usize; NM] = [0; NM];
static mut FROM: [usize; NM] = [0; NM];
static mut LASTONE: [bool; NM] = [true; NM];
fn right_span(m: usize, code: u32) {
    let r = rec();
    let c = r.cur();
    unsafe {
        if r.mode == 0 {
            check(c > 0 && r.kind(c) == HANDLER && r.parent(c) == REQ[m] && r.entered(c) > 0 && r.open(c), code);
            check(!LASTONE[m] || !r.open(WAIT[m]), 2410); // no longer waiting
        } else { check(c == FROM[m], code); }
    }
}
struct Probe(usize, &'static Flag);
impl std::future::Future for Probe {
    type Output = ();
    fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        right_span(self.0, 2402);
        if self.1.get() { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
    }
}
struct U { tok: Tok, gate: &'static Flag, stop: bool }
impl Handler<U> for Act {
    type Return = u32;
    async fn handle(&mut self, m: U, ctx: &mut Context<Self>) -> u32 {
        right_span(m.tok.0, 2401);
        w().begin(self.id, m.tok.0);
        Probe(m.tok.0, m.gate).await;
        right_span(m.tok.0, 2403);
        w().completed[self.id][m.tok.0] += 1;
        if m.stop { ctx.stop_self(); }
        55 + m.tok.0 as u32
    }
}
#[derive(Clone)]
struct B { tok: Tok, gate: &'static Flag }
impl Handler<B> for Act {
    type Return = ();
    async fn handle(&mut self, m: B, _: &mut Context<Self>) {
        right_span(m.tok.0, 2401);
        w().begin(self.id, m.tok.0);
        Probe(m.tok.0, m.gate).await;
        right_span(m.tok.0, 2403);
        w().completed[self.id][m.tok.0] += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S { Waiting, Queued, Held, Running, Done, Lost }

pub fn instr(steps: usize) {
    crate::vx::init_only();
    let mode = pick(9, 3);
    install(mode);
    let r = rec();
    let cap = if pick(1, 2) == 0 { None } else { Some(1usize) };
    let (addr, mailbox) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let mut mbs = vec![Some(mailbox)];
    if pick(8, 2) == 1 { let c = mbs[0].as_ref().unwrap().clone(); mbs.push(Some(c)); }
    let nmb = mbs.len();
    let acts: [*mut Act; 2] = [leak(Act::new(0)), leak(Act::new(1))];
    let gate = Flag::new();
    let user = tracing::info_span!("user");
    let uid = if mode < 2 { r.made() - 1 } else { 0 };
    let mut n = 0;
    let mut bc = [false; NM];
    let mut slow = [false; NM];
    let mut st = [[S::Lost; 2]; NM]; // per mailbox (unicast: column 0)
    let mut us: [Option<Task<_>>; NM] = Default::default();
    let mut bs: [Option<Task<_>>; NM] = Default::default();
    let mut held = [None, None];
    let mut run = [None, None];
    let mut hm = [NM; 2];
    let mut hspan = [0usize; 2];
    let open_flag = Flag::new();
    open_flag.set();
    for _ in 0..steps {
        let j = if nmb > 1 { pick(3, 2) as usize } else { 0 };
        match pick(2, 5) {
            k @ (0 | 1) => { // send or broadcast from inside or outside of a span of the user's
                let m = n; n += 1;
                bc[m] = k == 1;
                slow[m] = pick(4, 2) == 1;
                let g = if slow[m] { gate } else { open_flag };
                let inside = pick(5, 2) == 1;
                unsafe { FROM[m] = if inside { uid } else { 0 }; LASTONE[m] = true; }
                let before = r.made();
                let queued = (0..m).filter(|q| if bc[m] { bc[*q] && (0..nmb).any(|j| st[*q][j] == S::Queued) } else { !bc[*q] && st[*q][0] == S::Queued }).count();
                let full = cap.map_or(false, |c| queued >= c);
                let done;
                if bc[m] {
                    let mut t = Task::new(addr.broadcast(B { tok: Tok::new(m), gate: g }));
                    done = if inside { user.in_scope(|| t.poll()) } else { t.poll() };
                    bs[m] = Some(t);
                    for j in 0..nmb { st[m][j] = if full { S::Waiting } else { S::Queued }; }
                } else {
                    let mut t = Task::new(addr.send(U { tok: Tok::new(m), gate: g, stop: false }).detach());
                    done = if inside { user.in_scope(|| t.poll()) } else { t.poll() };
                    us[m] = Some(t);
                    st[m][0] = if full { S::Waiting } else { S::Queued };
                }
                check(done == !full, 2420);
                if mode == 0 {
                    // a request span, the child of the sender's span, and in it one for the time the message waits
                    check(r.made() == before + 2, 2404);
                    check(r.kind(before) == REQUEST && r.parent(before) == unsafe { FROM[m] }, 2405);
                    check(r.kind(before + 1) == WAITING && r.parent(before + 1) == before, 2406);
                    unsafe { REQ[m] = before; WAIT[m] = before + 1; }
                } else { check(r.made() == before, 2407); }
                check(r.cur() == 0, 2408);
                if inside { cover(2); }
                if full { cover(3); }
            }
            2 => { // receive
                assume(hm[j] == NM);
                let mut t = Task::new(mbs[j].as_ref().unwrap().next());
                let avail = (0..n).any(|q| st[q][if bc[q] { j } else { 0 }] == S::Queued);
                let before = r.made();
                check(t.poll() == avail, 2421);
                check(r.made() == before && r.cur() == 0, 2409);
                if avail {
                    // of equal priority: a queued unicast message comes before a broadcast
                    let m = (0..n).find(|q| !bc[*q] && st[*q][0] == S::Queued).unwrap_or_else(|| (0..n).find(|q| bc[*q] && st[*q][j] == S::Queued).unwrap());
                    st[m][if bc[m] { j } else { 0 }] = S::Held;
                    hm[j] = m;
                    held[j] = t.out.take();
                    let q = (0..n).find(|q| bc[*q] == bc[m] && st[*q][0] == S::Waiting);
                    if let Some(q) = q { if !bc[m] || !(0..n).any(|x| bc[x] && (0..nmb).any(|j| st[x][j] == S::Queued)) {
                        for j in 0..(if bc[m] { nmb } else { 1 }) { st[q][j] = S::Queued; }
                    } }
                }
            }
            3 => { // handle, as far as it goes
                assume(hm[j] < NM);
                let m = hm[j];
                let col = if bc[m] { j } else { 0 };
                let before = r.made();
                let fresh = held[j].is_some();
                if let Some(msg) = held[j].take() {
                    unsafe { LASTONE[m] = !bc[m] || (0..nmb).all(|x| x == j || matches!(st[m][x], S::Running | S::Done | S::Lost)); }
                    let mut f = Task::new(msg.dispatch_to(unsafe { &mut *acts[j] }));
                    if pick(6, 2) == 1 { // the span of the handler is there before it is first polled
                        let fut = f.fut.as_mut().unwrap();
                        let a = fut.as_mut().get_mut().span().id().map_or(0, |i| i.into_u64() as usize);
                        let b = fut.as_mut().get_mut().span().id().map_or(0, |i| i.into_u64() as usize);
                        check(a == b, 2411);
                        if mode == 0 { check(a == before && r.made() == before + 1, 2412); } else { check(r.made() == before, 2413); }
                        check(w().handled[j][m] == 0 && r.cur() == 0, 2414);
                        cover(4);
                    }
                    run[j] = Some(f);
                } else { gate.set(); }
                let f: &mut Task<_> = run[j].as_mut().unwrap();
                let done = f.poll();
                if mode == 0 {
                    check(r.made() == before + fresh as usize, 2415);
                    if fresh { hspan[j] = before; }
                    check(r.kind(hspan[j]) == HANDLER && r.parent(hspan[j]) == unsafe { REQ[m] }, 2416);
                    if !done {
                        let s = f.fut.as_mut().unwrap().as_mut().get_mut().span().id().map_or(0, |i| i.into_u64() as usize);
                        check(s == hspan[j] && r.open(s), 2417);
                        cover(5);
                    }
                } else { check(r.made() == before, 2418); }
                check(done == (!slow[m] || gate.get()), 2422);
                check(r.cur() == 0, 2408);
                if done { check(f.out == Some(ControlFlow::Continue(())), 2423); run[j] = None; st[m][col] = S::Done; hm[j] = NM; if mode == 0 { check(!r.open(hspan[j]), 2419); } }
                else { st[m][col] = S::Running; }
                check(w().handled[j][m] == 1 && w().completed[j][m] == done as u32, 2424);
                gate.clear();
            }
            _ => { // give up: a message held, a handler running, or a waiting send
                if hm[j] < NM { held[j] = None; run[j] = None; st[hm[j]][if bc[hm[j]] { j } else { 0 }] = S::Lost; hm[j] = NM; cover(6); }
                else {
                    let m = (0..n).find(|q| st[*q][0] == S::Waiting);
                    assume(m.is_some());
                    let m = m.unwrap();
                    us[m] = None; bs[m] = None;
                    st[m] = [S::Lost; 2];
                    cover(7);
                }
                check(r.cur() == 0, 2408);
            }
        }
        if mode == 0 { for m in 0..n { unsafe {
            // waiting for as long as some actor has yet to take it
            let cols = if bc[m] { nmb } else { 1 };
            let waits = (0..cols).any(|c| matches!(st[m][c], S::Waiting | S::Queued | S::Held));
            check(r.open(WAIT[m]) == waits, 2430);
            check(r.entered(REQ[m]) == 0 && r.entered(WAIT[m]) == 0, 2431);
            check(!r.open(REQ[m]) || waits || (0..cols).any(|c| st[m][c] == S::Running), 2432);
        } } }
    }
    drop((held, run, us, bs, addr, mbs));
    if mode < 2 { for i in 1..r.made() { check(r.entered(i) == 0, 2433); if i != uid { check(!r.open(i), 2434); } } }
    drop(user);
    check(mode == 2 || !r.open(uid), 2435);
    for m in 0..n { check(w().drops[m] == w().made[m], 2436); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_instr_3() { instr(3) }
#[no_mangle] pub extern "C" fn h_instr_4() { instr(4) }
#[no_mangle] pub extern "C" fn h_instr_5() { instr(5) }
