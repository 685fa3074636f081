//! Handlers that panic, among others that do not. 21xx.
use crate::vx::*;
use crate::world::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xtra::prelude::*;
use xtra::Error;

/// A broadcast that makes actor `who` panic: in its handler, or when it is cloned for it.
pub struct BcBoom { pub tok: Tok, pub who: usize, pub early: bool }
static mut CUR: usize = 0; // the actor being polled
impl Clone for BcBoom {
    fn clone(&self) -> Self {
        let cur = unsafe { CUR };
        if self.early && cur == self.who { w().begin(cur, self.tok.0); panic!("boom") }
        BcBoom { tok: self.tok.clone(), who: self.who, early: self.early }
    }
}
impl Handler<BcBoom> for Act {
    type Return = ();
    async fn handle(&mut self, m: BcBoom, _: &mut Context<Self>) {
        w().begin(self.id, m.tok.0);
        if self.id == m.who { panic!("boom") }
        w().completed[self.id][m.tok.0] += 1;
    }
}
#[derive(Clone, Copy, PartialEq)]
enum S { Waiting, Queued, Handed(usize), Done, Lost, Refused }

/// Two event loops in one process, polled by hand, each panic contained as an executor would.
pub fn panics(steps: usize, ops: u32) {
    init();
    let cap = if pick(1, 2) == 0 { None } else { Some(1usize) };
    let (addr, mb) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let mb2 = mb.clone();
    let mut loops = [Some(Task::new(xtra::run(mb, Act::new(0)))), Some(Task::new(xtra::run(mb2, Act::new(1))))];
    let mut idle = [false; 2]; let mut told = [false; 2];
    let mut alive = [true; 2];
    let mut st = [S::Refused; NM];
    let mut boom = [false; NM]; let mut bc = [[false; 2]; NM]; let mut isbc = [false; NM]; let mut who = [0; NM];
    let mut prio = [0u32; NM];
    let mut n = 0;
    let mut resp: [Option<Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, Error>>>>>>; NM] = Default::default();
    let _ = ops;
    for stp in 0..steps + 2 {
        let op = if stp < steps { pick(2, 5) } else { 3 + (stp - steps) as u32 };
        let connected = alive[0] || alive[1];
        match op {
            0 | 1 => {
                let m = n; n += 1;
                boom[m] = op == 1;
                prio[m] = any_u32(20 + m as u32);
                let queued = st.iter().filter(|s| **s == S::Queued).count();
                let anyidle = (0..2).any(|i| alive[i] && idle[i]);
                let mut t: Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, Error>>>>> =
                    if boom[m] { Task::new(Box::pin(addr.send(Boom { tok: Tok::new(m) }).priority(prio[m])) as _) } else { Task::new(Box::pin(addr.send(uni(m, 7)).priority(prio[m])) as _) };
                check(t.poll() == !connected, 2101);
                resp[m] = Some(t);
                if !connected { st[m] = S::Refused; continue; }
                if anyidle {
                    let hit = (0..2).find(|i| alive[*i] && idle[*i] && loops[*i].as_ref().unwrap().woken());
                    check(hit.is_some(), 2102);
                    let h = hit.unwrap();
                    idle[h] = false; st[m] = S::Handed(h);
                } else { st[m] = if cap.map_or(false, |c| queued >= c) { S::Waiting } else { S::Queued }; }
            }
            2 => { // broadcast that makes one of the actors panic
                let m = n; n += 1;
                isbc[m] = true; boom[m] = true; who[m] = pick(5, 3) as usize;
                prio[m] = any_u32(20 + m as u32);
                let len = (0..2).map(|i| if alive[i] { (0..n).filter(|q| bc[*q][i]).count() } else { 0 }).max().unwrap();
                assume(cap.map_or(true, |c| len < c));
                let early = who[m] < 2 && pick(6, 2) == 1;
                let mut t = Task::new(addr.broadcast(BcBoom { tok: Tok::new(m), who: who[m], early }).priority(prio[m]));
                check(t.poll(), 2103);
                check(t.out == Some(if connected { Ok(()) } else { Err(Error::Disconnected) }), 2104);
                if connected { for i in 0..2 { if alive[i] { bc[m][i] = true; if idle[i] { check(loops[i].as_ref().unwrap().woken(), 2105); idle[i] = false; told[i] = true; } } } }
            }
            k => {
                let i = k as usize - 3;
                if stp < steps { assume(alive[i]); } else if !alive[i] { continue; }
                let t = loops[i].as_mut().unwrap();
                let before = w().norder[i];
                unsafe { CUR = i; }
                let r = catch_unwind(AssertUnwindSafe(|| t.poll()));
                let mut died = false;
                for k in before..w().norder[i] {
                    let m = w().order[i][k] as usize;
                    check(!died && m < n, 2106);
                    if isbc[m] { check(bc[m][i], 2107); bc[m][i] = false; died = who[m] == i; }
                    else {
                        check(st[m] == S::Queued || st[m] == S::Handed(i), 2108);
                        let was = st[m];
                        if boom[m] { st[m] = S::Lost; died = true; } else { st[m] = S::Done; }
                        // room for one that waits: the most urgent one
                        if was == S::Queued { let mut best = NM; for q in 0..n { if st[q] == S::Waiting && (best == NM || prio[q] > prio[best]) { best = q; } } if best < NM { st[best] = S::Queued; } }
                    }
                    if !died { check(w().completed[i][m] == 1, 2109); }
                }
                told[i] = false;
                check(r.is_err() == died, 2110);
                if died {
                    cover(2);
                    loops[i] = None; // what an executor does with a task that panicked
                    alive[i] = false; idle[i] = false;
                    for q in 0..n { bc[q][i] = false; }
                    if !alive[1 - i] {
                        cover(3);
                        for q in 0..n { if st[q] == S::Queued { st[q] = S::Lost; } if st[q] == S::Waiting { st[q] = S::Refused; } }
                    }
                } else {
                    check(!r.unwrap_or(false), 2111);
                    // it did all there was to do
                    for q in 0..n { check(!bc[q][i] && st[q] != S::Queued && st[q] != S::Waiting && st[q] != S::Handed(i), 2112); }
                    idle[i] = true;
                }
            }
        }
        check(addr.is_connected() == (alive[0] || alive[1]), 2113);
        let q = st.iter().filter(|s| **s == S::Queued).count();
        let l = (0..2).map(|i| if alive[i] { (0..n).filter(|q| bc[*q][i]).count() } else { 0 }).max().unwrap();
        check(addr.len() == q + l, 2114);
        for m in 0..n { if let Some(t) = resp[m].as_mut() {
            let e = match st[m] { S::Done => Some(Ok(reply(7))), S::Lost => Some(Err(Error::Interrupted)), S::Refused => Some(Err(Error::Disconnected)), _ => None };
            if t.done() { check(t.out == e, 2115); } else { check(t.woken() >= e.is_some(), 2116); check(t.poll() == e.is_some(), 2117); if t.done() { check(t.out == e, 2118); } }
        } }
    }
    for i in 0..2 { check(w().stopped[i] == 0, 2119); }
    drop(loops); drop(addr); drop(resp);
    for m in 0..n { check(w().made[m] == w().drops[m], 2120); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_panic_3() { panics(3, 5) }
#[no_mangle] pub extern "C" fn h_panic_4() { panics(4, 5) }
#[no_mangle] pub extern "C" fn h_panic_5() { panics(5, 5) }
#[no_mangle] pub extern "C" fn h_panic_6() { panics(6, 5) }
/// A panic in one thread while others send and handle.
#[no_mangle] pub extern "C" fn h_c_panic() {
    init();
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mb2 = mb.clone();
    let a2 = addr.clone();
    let t1 = spawn(move || { let r = block_on(addr.send(Boom { tok: Tok::new(0) })); check(r == Err(Error::Interrupted), 2121); });
    let t2 = spawn(move || { let r = block_on(a2.send(uni(1, 5))); check(r == Ok(reply(5)), 2122); });
    let lp = |mb: Mailbox<Act>, id: usize| spawn(move || { let r = catch_unwind(AssertUnwindSafe(|| block_on(xtra::run(mb, Act::new(id))))); check(r.is_err() == (w().handled[id][0] == 1), 2123); });
    let t3 = lp(mb, 0);
    let t4 = lp(mb2, 1);
    quiesce();
    check(finished(t1) && finished(t2), 2124);
    check(finished(t3) && finished(t4), 2125);
    check(w().total(0) == 1 && w().total(1) == 1, 2126);
    check(w().drops[0] == 1 && w().drops[1] == 1, 2127);
    cover(1);
}

type Rx = std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>;
/// A handler that owns things, may wait for a while, and panics.
pub struct Owning { pub tok: Tok, pub addr: Option<Address<Act>>, pub mb: Option<Mailbox<Act>>, pub fut: Option<Task<Rx>>, pub gate: &'static Flag, pub boom: bool }
impl Handler<Owning> for Act {
    type Return = u32;
    async fn handle(&mut self, mut m: Owning, _: &mut Context<Self>) -> u32 {
        w().begin(self.id, m.tok.0);
        if let Some(t) = m.fut.as_mut() { check(!t.poll(), 2130); }
        Gate(m.gate).await;
        if m.boom { panic!("boom") }
        80
    }
}
// the futures are polled on one thread only
unsafe impl Send for Owning {}
/// What a panicking handler owned goes as it would otherwise: the last strong address, a mailbox, a waiting receive
/// (that may have been handed a message), a send that waits for room.
#[no_mangle] pub extern "C" fn h_panic_own() { owning(0) }
/// The same when its handling, or the message itself, is abandoned.
#[no_mangle] pub extern "C" fn h_drop_own() { owning(1 + pick(7, 3)) }
fn owning(end: u32) {
    init();
    let cap = if pick(1, 2) == 0 { None } else { Some(1usize) };
    let (addr, mb) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let weak = addr.downgrade();
    let kind = pick(2, 5);
    let idle = pick(3, 2) == 1;
    let mb2 = mb.clone();
    let gate = Flag::new();
    let fut: Option<Task<Rx>> = match kind {
        3 => { let m = mb.clone(); let f = m.next(); let strong = addr.clone(); Some(Task::new(Box::pin(async move { let _s = strong; let _m = f.await; }) as Rx)) }
        4 => { assume(cap.is_some() && !idle); let f = addr.send(uni(5, 5)); Some(Task::new(Box::pin(async move { let _ = f.await; }) as Rx)) }
        _ => None,
    };
    let own = Owning { tok: Tok::new(0), addr: if kind < 2 { Some(addr.clone()) } else { None }, mb: if kind == 2 { Some(mb.clone()) } else { None }, fut, gate, boom: end == 0 };
    let mut r0 = Task::new(addr.send(own));
    check(!r0.poll(), 2131);
    let mut a0 = Act::new(0);
    let mut rx = Task::new(mb.next());
    check(rx.poll(), 2132);
    let msg = rx.out.take().unwrap();
    let mut lp = Task::new(xtra::run(mb2, Act::new(1)));
    if idle { check(!lp.poll(), 2133); }
    let mut strong = Some(addr);
    // the place is taken already when the handler's own send begins to wait
    let mut resp: [Option<Task<_>>; 4] = Default::default();
    let mut n = 1;
    if kind == 4 { let mut t = Task::new(weak.send(uni(1, 1))); check(!t.poll(), 2134); resp[1] = Some(t); n = 2; }
    let mut msg = Some(msg);
    let mut disp = if end == 2 { None } else { Some(Task::new(msg.take().unwrap().dispatch_to(&mut a0))) };
    let at_once = pick(4, 2) == 1;
    assume(!at_once || kind != 3 || end == 1 || end == 2);
    if !at_once && end != 2 { check(!disp.as_mut().unwrap().poll(), 2135); }
    let more = pick(5, 3) as usize;
    for _ in 0..more { let mut t = Task::new(weak.send(uni(n, n as u32))); check(!t.poll(), 2136); resp[n] = Some(t); n += 1; }
    let bc = pick(6, 2) == 1;
    if bc { let mut t = Task::new(weak.broadcast(all(6))); check(t.poll() && t.out == Some(Ok(())), 2137); }
    if kind == 0 { strong = None; check(weak.is_connected(), 2138); }
    gate.set();
    if end == 0 {
        let died = catch_unwind(AssertUnwindSafe(|| { disp.as_mut().unwrap().poll(); })).is_err();
        check(died, 2139);
    }
    if end == 3 { check(disp.as_mut().unwrap().poll(), 2157); }
    drop(msg.take());
    // what an executor does with the task of the event loop
    drop(disp.take());
    drop(mb);
    cover(2);
    check(r0.woken() && r0.poll() && r0.out == Some(if end == 3 { Ok(80) } else { Err(Error::Interrupted) }), 2140);
    check(w().drops[0] == 1 && w().total(0) == (end == 0 || end == 3 || end == 1 && !at_once) as u32, 2141);
    if kind == 4 { check(w().made[5] == 1 && w().drops[5] == 1, 2142); }
    check(weak.is_connected() == (kind != 0), 2143);
    if kind == 0 { check(!idle || lp.woken(), 2144); } else if idle && (n > 1 || bc) { check(lp.woken(), 2145); }
    lp.run();
    for m in 1..n { let t = resp[m].as_mut().unwrap(); check(w().handled[1][m] == 1 && t.woken() && t.poll() && t.out == Some(Ok(reply(m as u32))), 2146); }
    if bc { check(w().handled[1][6] == 1, 2147); }
    check(w().total(5) == 0, 2148);
    check(weak.len() == 0, 2149);
    if kind == 0 { cover(3); check(lp.out == Some(1) && w().stopped[1] == 1, 2150); }
    else {
        check(!lp.done() && w().stopped[1] == 0, 2151);
        let mut t = Task::new(weak.send(uni(7, 9)));
        check(!t.poll() && lp.woken(), 2152);
        check(!lp.run() && t.woken() && t.poll() && t.out == Some(Ok(reply(9))), 2153);
        drop(strong.take());
        check(lp.woken() && lp.run() && lp.out == Some(1), 2154);
    }
    check(w().stopped[0] == 0, 2155);
    drop(lp);
    for m in 0..NM { check(w().made[m] == w().drops[m], 2156); }
    cover(1);
}

/// An actor that panics in `started` (0; 1: after a suspension) or `stopped` (2; 3), or not (4).
struct Life { id: usize, when: u32 }
struct Nap(bool);
impl std::future::Future for Nap {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); std::task::Poll::Pending }
    }
}
impl Actor for Life {
    type Stop = u32;
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), u32> {
        if self.when == 1 { Nap(false).await; }
        if self.when < 2 { panic!("boom") }
        Ok(())
    }
    async fn stopped(self) -> u32 {
        if self.when == 3 { Nap(false).await; }
        if self.when == 2 || self.when == 3 { panic!("boom") }
        70 + self.id as u32
    }
}
struct Lm { tok: Tok, stop: bool }
impl Handler<Lm> for Life {
    type Return = usize;
    async fn handle(&mut self, m: Lm, c: &mut Context<Self>) -> usize { w().begin(self.id, m.tok.0); if m.stop { c.stop_self(); } self.id }
}
#[no_mangle] pub extern "C" fn h_panic_life() {
    init();
    let when = pick(1, 5);
    let mate = pick(2, 2) == 1;
    let sent = pick(3, 3) as usize;
    let quit = pick(4, 2) == 1; // told by a message, or the last address goes
    let (addr, mb) = Mailbox::<Life>::unbounded();
    let weak = addr.downgrade();
    let mut strong = Some(addr);
    let mb2 = if mate { Some(mb.clone()) } else { None };
    let mut join = Task::new(weak.join());
    check(!join.poll(), 2160);
    let mut a = Some(Task::new(xtra::run(mb, Life { id: 0, when })));
    let mut r: Vec<Task<_>> = Vec::new();
    let msg = |m: usize, stop: bool| weak.send(Lm { tok: Tok::new(m), stop });
    for m in 0..sent { let mut t = Task::new(msg(m, false)); t.poll(); r.push(t); }
    let drive = |a: &mut Option<Task<_>>| { let t = a.as_mut().unwrap(); let x = catch_unwind(AssertUnwindSafe(|| t.run())); if x.is_err() { *a = None; } };
    drive(&mut a);
    if when < 2 { check(a.is_none(), 2161); cover(2); } else {
        check(a.is_some() && w().norder[0] == sent, 2162);
        for t in r.iter_mut() { check(t.run() && t.out == Some(Ok(0)), 2163); }
        if quit { let mut t = Task::new(msg(5, true)); t.poll(); drive(&mut a); check(t.run() && t.out == Some(Ok(0)), 2164); } else { strong = None; drive(&mut a); }
        if when == 4 { check(a.as_ref().map_or(false, |t| t.out == Some(70)), 2165); a = None; } else { check(a.is_none(), 2166); cover(3); }
    }
    let before = w().norder[0];
    let open = strong.is_some();
    check(weak.is_connected() == (mate && open), 2167);
    check(weak.len() == if when < 2 && mate { sent } else { 0 }, 2168);
    check(join.run() == !mate, 2169);
    let mut late = Task::new(msg(6, false));
    late.poll();
    if let Some(mb2) = mb2 {
        let mut b = Task::new(xtra::run(mb2, Life { id: 1, when: 4 }));
        check(b.run() == !open, 2170);
        if when < 2 { for t in r.iter_mut() { check(t.run() && t.out == Some(Ok(1)), 2171); } }
        check(late.run() && late.out == Some(if open { Ok(1) } else { Err(Error::Disconnected) }), 2172);
        strong = None;
        check(b.run() && b.out == Some(71), 2173);
        check(join.run(), 2174);
    } else {
        if when < 2 { for t in r.iter_mut() { check(t.run() && t.out == Some(Err(Error::Interrupted)), 2175); } }
        check(late.run() && late.out == Some(Err(Error::Disconnected)), 2176);
    }
    drop(strong);
    check(w().norder[0] == before && !weak.is_connected() && weak.len() == 0, 2177);
    for m in 0..NM { check(w().made[m] == w().drops[m], 2178); }
    cover(1);
}
