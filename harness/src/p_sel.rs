//! select, join and yield_once: histories of messages, stop requests, completions of the future and polls.
//! 18xx; 1890 is the known finding (a stop that select receives when its future is complete is swallowed).
use crate::vx::*;
use crate::world::*;
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::task::{Context as Cx, Poll, Waker};
use futures_util::future::Either;
use xtra::prelude::*;

/// Completed by the harness; wakes whoever polled it last.
pub struct Sig { pub done: bool, pub v: u32, pub waker: Option<Waker>, pub polls: u32 }
pub struct Await { pub sig: *mut Sig, pub id: u32 }
impl Await { fn sig(&self) -> &'static mut Sig { unsafe { &mut *self.sig } } }
impl Future for Await {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<u32> {
        let s = self.sig();
        s.polls += 1;
        if s.done { return Poll::Ready(s.v); }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
#[derive(Clone, Copy, PartialEq)]
enum K { Uni, Own, All, Slow }
#[derive(Clone, Copy, PartialEq)]
enum S { Queued, Handed, Running, Done, Lost }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out { Val(u32), Back(u32), Flow(ControlFlow<()>) }
type Fut = Pin<Box<dyn Future<Output = Out>>>;

const SELECT: u32 = 0; const JOIN: u32 = 1; const YIELD: u32 = 2;

struct X { mode: u32, n: usize, kind: [K; NM], prio: [u32; NM], st: [S; NM], idle: bool, told: bool, stop: bool, all: bool, strong: bool, over: bool }
impl X {
    fn running(&self) -> Option<usize> { (0..self.n).find(|q| self.st[*q] == S::Running) }
}
pub fn sel(steps: usize) {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let mut strong = Some(addr);
    let mb: *const Mailbox<Act> = leak(mb);
    let act: *mut Act = leak(Act::new(0));
    let gate = Flag::new();
    let sig: *mut Sig = leak(Sig { done: false, v: any_u32(3), waker: None, polls: 0 });
    let s = unsafe { &mut *sig };
    let mode = pick(1, 3);
    let start = || -> Task<Fut> {
        let (mb, act) = unsafe { (&*mb, &mut *act) };
        Task::new(match mode {
            SELECT => Box::pin(async move { match xtra::select(mb, act, Await { sig, id: 17 }).await { Either::Left(v) => Out::Val(v), Either::Right(f) => Out::Back(f.id) } }),
            JOIN => Box::pin(async move { Out::Val(xtra::join(mb, act, Await { sig, id: 17 }).await) }),
            _ => Box::pin(async move { Out::Flow(xtra::yield_once(mb, act).await) }) as Fut,
        })
    };
    let mut x = X { mode, n: 0, kind: [K::Uni; NM], prio: [0; NM], st: [S::Lost; NM], idle: false, told: false, stop: false, all: false, strong: true, over: false };
    let mut resp: [Option<Task<_>>; NM] = Default::default();
    let mut t = Some(start());
    if pick(2, 2) == 1 { s.done = true; }
    for _ in 0..steps {
        let live = t.is_some() && !x.over;
        match pick(4, 8) {
            k @ 0..=3 => {
                let m = x.n; x.n += 1;
                x.kind[m] = [K::Uni, K::Own, K::All, K::Slow][k as usize];
                x.prio[m] = any_u32(20 + m as u32);
                let p = x.prio[m];
                let mut f: Task<Pin<Box<dyn Future<Output = Result<u32, xtra::Error>>>>> = Task::new(match x.kind[m] {
                    K::Uni => Box::pin(weak.send(uni(m, p)).priority(p)),
                    K::Own => Box::pin(weak.send(StopSelf { tok: Tok::new(m) }).priority(p)),
                    K::All => Box::pin(weak.send(StopAll { tok: Tok::new(m) }).priority(p)),
                    K::Slow => Box::pin(weak.send(Slow { tok: Tok::new(m), gate }).priority(p)) as _,
                });
                check(f.poll() == !x.strong, 1801);
                if x.strong {
                    if x.idle && live { check(t.as_ref().unwrap().woken(), 1802); x.idle = false; x.st[m] = S::Handed; }
                    else { x.st[m] = S::Queued; }
                }
                resp[m] = Some(f);
            }
            4 => { // the future completes
                assume(!s.done && mode != YIELD);
                s.done = true;
                if let Some(w) = s.waker.take() { w.wake(); if live && x.running().is_none() { check(t.as_ref().unwrap().woken(), 1803); } }
            }
            5 => { // poll, whether woken or not
                assume(live);
                poll(&mut x, t.as_mut().unwrap(), s, gate);
                if x.over && mode == YIELD && t.as_ref().unwrap().out == Some(Out::Flow(ControlFlow::Continue(()))) { t = Some(start()); x.over = false; x.idle = false; x.told = false; }
            }
            6 => { // a suspended handler may go on
                assume(!gate.get());
                gate.set();
                cover(2);
            }
            _ => { assume(x.strong); strong = None; x.strong = false; if live && x.idle { check(t.as_ref().unwrap().woken(), 1804); x.idle = false; x.told = true; } }
        }
        verify(&x);
    }
    // however it ends, everything else is still in the mailbox and handled once
    let select_left = matches!(t.as_ref().unwrap().out, Some(Out::Val(_))) && mode == SELECT;
    if t.as_ref().unwrap().done() { if mode == SELECT { match t.as_ref().unwrap().out { Some(Out::Val(_)) => cover(3), _ => cover(4) } } else { cover(5); } }
    if !x.over {
        if let Some(m) = x.running() { x.st[m] = S::Lost; cover(6); }
        for m in 0..x.n { if x.st[m] == S::Handed { x.st[m] = S::Queued; cover(7); } }
    }
    t = None;
    verify(&x);
    gate.set();
    let (mb, act) = unsafe { (&*mb, &mut *act) };
    let mut broke = false; let mut twice = 0;
    for _ in 0..2 * NM {
        let before = w().norder[0];
        match step(mb, act) {
            None => break,
            Some(flow) => {
                if w().norder[0] == before { check(flow == ControlFlow::Break(()), 1805); broke = true; x.all = false; twice += 1; if twice == 2 { break; } continue; }
                twice = 0;
                let m = w().order[0][before] as usize;
                check(x.st[m] == S::Queued, 1806);
                x.st[m] = S::Done;
                check(flow == if x.kind[m] == K::Own { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }, 1807);
                if x.kind[m] == K::All { x.all = true; }
            }
        }
    }
    if !x.strong { check(broke, 1808); }
    if !select_left && mode != JOIN { check(!x.all, 1839); }
    for m in 0..x.n {
        check(x.st[m] == S::Done || x.st[m] == S::Lost, 1809);
        let r = resp[m].as_mut().unwrap();
        r.poll();
        if x.st[m] == S::Done { check(r.out == Some(Ok(match x.kind[m] { K::Uni => reply(x.prio[m]), K::Own => 77, K::All => 78, K::Slow => 79 })), 1810); }
        else { check(matches!(r.out, Some(Err(_))), 1811); }
        check(w().drops[m] == 1, 1812);
    }
    cover(1);
    drop(t);
    drop(strong);
    drop(resp);
    unleak(mb); unleak(act); unleak(sig);
    for m in 0..x.n { check(w().made[m] == w().drops[m], 2327); }
    check(!(select_left && (x.stop || x.all)), 1890);
}
fn verify(x: &X) {
    for m in 0..x.n {
        check(w().total(m) == matches!(x.st[m], S::Running | S::Done) as u32 || x.st[m] == S::Lost, 1813);
        check(w().total_completed(m) == (x.st[m] == S::Done) as u32, 1814);
    }
}
fn poll(x: &mut X, t: &mut Task<Fut>, s: &mut Sig, gate: &Flag) {
    let before = w().norder[0];
    let polls = s.polls;
    // what was suspended goes on first
    let was = x.running();
    let fresh = !t.polled;
    t.poll();
    let mut told = false; // told to stop: nothing may follow
    if let Some(m) = was {
        if w().completed[0][m] == 1 { check(gate.get(), 1815); x.st[m] = S::Done; }
        else { check(!gate.get() && !t.done() && w().norder[0] == before, 1816); return; }
    }
    let mut count = 0;
    for k in before..w().norder[0] {
        let m = w().order[0][k] as usize;
        count += 1;
        check(!told && x.running().is_none() && !x.stop && !x.all, 1817);
        check(m < x.n, 1818);
        check(!(x.idle && !fresh), 1819); // nothing had arrived
        let handed = (0..x.n).find(|q| x.st[*q] == S::Handed);
        match handed {
            Some(h) => check(m == h, 1820),
            None => {
                check(x.st[m] == S::Queued, 1821);
                let mut ok = true;
                for q in 0..x.n { if q != m && x.st[q] == S::Queued { ok &= x.prio[q] <= x.prio[m]; } }
                check(ok, 1822);
            }
        }
        x.st[m] = if w().completed[0][m] == 1 { S::Done } else { check(x.kind[m] == K::Slow && !gate.get(), 1823); S::Running };
        match x.kind[m] { K::Own => { told = true; x.stop = true; } K::All => x.all = true, _ => {} }
    }
    // a complete future is looked at before anything else is done (one message at hand may still be handled)
    if x.mode != YIELD && s.done { check(count <= 1, 1842); }
    let avail = (0..x.n).any(|q| matches!(x.st[q], S::Queued | S::Handed));
    let ended = x.all || (!x.strong && !avail);
    match t.out {
        None => {
            if x.running().is_some() { x.idle = false; return; }
            if x.mode == JOIN && (x.stop || ended) { check(!s.done, 1824); x.idle = false; return; } // only the future is waited for
            check(x.mode == YIELD || !s.done, 1825);
            check(!avail, 1826);
            check(!x.stop && !ended, 1827);
            x.idle = true; x.told = false;
        }
        Some(Out::Val(v)) => {
            check(s.done && x.mode != YIELD, 1828);
            check(v == s.v, 1829);
            check(x.running().is_none(), 1830);
            x.over = true;
            if x.mode == JOIN { x.all = false; } // (may have been taken from the mailbox)
        }
        Some(Out::Back(id)) => {
            check(x.mode == SELECT && id == 17, 1831);
            check(x.stop || ended || x.told, 1832);
            check(!s.done || was.is_some(), 1843);
            x.over = true; x.all = false;
        }
        Some(Out::Flow(f)) => {
            check(x.mode == YIELD, 1833);
            check(x.running().is_none(), 1834);
            let one = count + was.is_some() as usize;
            let last = if count > 0 { Some(w().order[0][before] as usize) } else { was };
            match last {
                Some(m) => { check(one == 1, 1835); check((f == ControlFlow::Break(())) == (x.kind[m] == K::Own), 1836); if x.kind[m] == K::Own { x.over = true; } }
                None => { check(f == ControlFlow::Break(()), 1837); check(x.all || x.told || ended, 1838); x.all = false; }
            }
            x.over = true;
        }
    }
    let _ = polls;
}
#[no_mangle] pub extern "C" fn h_sel_3() { sel(3) }
#[no_mangle] pub extern "C" fn h_sel_4() { sel(4) }
#[no_mangle] pub extern "C" fn h_sel_5() { sel(5) }
#[no_mangle] pub extern "C" fn h_sel_6() { sel(6) }

/// A value that another thread provides.
pub struct Later { pub m: std::sync::Mutex<(bool, Option<Waker>)>, pub v: u32 }
impl Later {
    pub fn new(v: u32) -> &'static Later { leak(Later { m: std::sync::Mutex::new((false, None)), v }) }
    pub fn complete(&self) { let w = { let mut g = self.m.lock().unwrap(); g.0 = true; g.1.take() }; if let Some(w) = w { w.wake() } }
}
impl Future for &'static Later {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<u32> {
        let mut g = self.m.lock().unwrap();
        if g.0 { return Poll::Ready(self.v); }
        g.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}
/// select or join, while one thread completes its future and another sends a message that may stop the actor.
#[no_mangle] pub extern "C" fn h_c_select() {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let join = pick(1, 2) == 1;
    let kind = pick(2, 3);
    let later = Later::new(17);
    let t1 = spawn(move || {
        match kind {
            0 => { let _ = block_on(addr.send(uni(0, 5)).detach()); std::mem::forget(addr); }
            1 => { let _ = block_on(addr.send(StopSelf { tok: Tok::new(0) }).detach()); std::mem::forget(addr); }
            _ => drop(addr), // with the last address
        }
    });
    let t2 = spawn(move || later.complete());
    let mb: &'static Mailbox<Act> = leak(mb);
    let out: &'static mut Option<Out> = leak(None);
    let outp: *const Option<Out> = out;
    let t3 = spawn(move || {
        let mut a = Act::new(0);
        *out = Some(if join { Out::Val(block_on(xtra::join(mb, &mut a, later))) } else {
            match block_on(xtra::select(mb, &mut a, later)) { Either::Left(v) => Out::Val(v), Either::Right(f) => Out::Back(f.v) }
        });
    });
    quiesce();
    check(finished(t1) && finished(t2), 1880);
    check(finished(t3), 1881);
    let out = unsafe { *outp };
    let handled = w().handled[0][0];
    match kind {
        0 => check(out == Some(Out::Val(17)), 1882),
        1 => check(if join || handled == 0 { out == Some(Out::Val(17)) } else { out == Some(Out::Val(17)) || out == Some(Out::Back(17)) }, 1883),
        _ => check(if join { out == Some(Out::Val(17)) } else { out == Some(Out::Val(17)) || out == Some(Out::Back(17)) }, 1884),
    }
    if kind < 2 {
        check(handled <= 1 && w().completed[0][0] == handled, 1885);
        check(weak.len() == (handled == 0) as usize, 1886);       // handled, or still in the mailbox
        check(weak.is_connected(), 1887);
    }
    cover(1);
}
