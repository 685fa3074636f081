//! Histories of xtra::run event loops: messages that stop one or all actors, broadcasts, event loops that are
//! polled in any order, dropped half-way, and addresses that go away. 9xx stop_all, 10xx life cycle, 11xx responses,
//! 4xx priority, 6xx progress, 8xx end by last strong address, 17xx abandoned receive, 23xx destruction.
use crate::vx::*;
use crate::world::*;
use xtra::prelude::*;
use xtra::Error;

#[derive(Clone, Copy, PartialEq)]
pub enum K { Uni, Own, All, Bc, BcOwn }
#[derive(Clone, Copy, PartialEq)]
enum S { Queued, Handed(usize), Done, Lost }
#[derive(Clone, Copy, PartialEq)]
enum R { Running, Idle, Told, Handed(usize) }

/// Broadcast that stops whoever handles it.
#[derive(Clone)]
pub struct BcOwn { pub tok: Tok }
impl Handler<BcOwn> for Act {
    type Return = ();
    async fn handle(&mut self, m: BcOwn, ctx: &mut Context<Self>) { w().begin(self.id, m.tok.0); ctx.stop_self(); w().completed[self.id][m.tok.0] += 1; }
}

struct M { n: usize, kind: [K; NM], prio: [u32; NM], st: [S; NM], bc: [[bool; 2]; NM], rs: [R; 2], alive: [bool; 2], stop: [bool; 2], asked: [usize; 2], strong: bool }
impl M {
    fn avail(&self, i: usize, m: usize) -> bool { if self.isbc(m) { self.bc[m][i] } else { self.st[m] == S::Queued } }
    /// Messages in the mailbox: those for anybody, and of those for everybody as many as the slowest actor has before it.
    fn len(&self) -> usize {
        let anybody = (0..self.n).filter(|&q| self.st[q] == S::Queued && !self.isbc(q)).count();
        let before = |i: usize| if self.alive[i] { (0..self.n).filter(|&q| self.bc[q][i]).count() + self.asked[i] } else { 0 };
        anybody + before(0).max(before(1))
    }
    fn isbc(&self, m: usize) -> bool { matches!(self.kind[m], K::Bc | K::BcOwn) }
    fn unicast_arrives(&mut self, m: usize, woken: [bool; 2]) {
        let idle = (0..2).any(|i| self.alive[i] && self.rs[i] == R::Idle);
        let mut hit = 2;
        for i in 0..2 { if self.alive[i] && self.rs[i] == R::Idle && woken[i] { check(hit == 2, 643); hit = i; } }
        check((hit < 2) == idle, 644);
        if hit < 2 { self.rs[hit] = R::Handed(m); self.st[m] = S::Handed(hit); } else { self.st[m] = S::Queued; }
    }
    fn tell(&mut self, woken: [bool; 2]) { for i in 0..2 { if self.alive[i] && self.rs[i] == R::Idle { check(woken[i], 645); self.rs[i] = R::Told; } } }
}

pub fn run(steps: usize, sends: &[K]) {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let two = pick(1, 2) == 1;
    let mut strong = Some(addr);
    let mb2 = if two { Some(mb.clone()) } else { None };
    let mut loops = [Some(Task::new(xtra::run(mb, Act::new(0)))), mb2.map(|m| Task::new(xtra::run(m, Act::new(1))))];
    let mut x = M { n: 0, kind: [K::Uni; NM], prio: [0; NM], st: [S::Done; NM], bc: [[false; 2]; NM], rs: [R::Running; 2], alive: [true, two], stop: [false; 2], asked: [0; 2], strong: true };
    let mut resp: [Option<Task<_>>; NM] = Default::default();
    for step in 0..steps + 2 {
        let m = x.n;
        let op = if step < steps { pick(2, 3 + sends.len() as u32) as usize } else { 1 };
        if op >= 3 || op == 0 {
            if op == 0 { // drop a loop, or the last strong address
                match pick(3, 3) {
                    2 => {
                        assume(x.strong);
                        give_up(strong.take()); x.strong = false;
                        for i in 0..2 { if let Some(t) = &loops[i] { if x.alive[i] && x.rs[i] == R::Idle { check(t.woken(), 826); x.rs[i] = R::Told; } } }
                    }
                    i => {
                        let i = i as usize;
                        assume(loops[i].is_some() && x.alive[i]);
                        give_up(loops[i].take());
                        x.alive[i] = false;
                        cover(2);
                        for q in 0..x.n { x.bc[q][i] = false; }
                        if let R::Handed(h) = x.rs[i] {
                            check(w().drops[h] == !x.alive[1 - i] as u32, 2318);
                            x.unicast_arrives(h, [0, 1].map(|j| loops[j].as_ref().map_or(false, |t| t.woken())));
                        }
                        gone(&mut x, &mut resp);
                    }
                }
            } else {
                assume(x.strong || sends[op - 3] == K::Uni);
                x.n += 1;
                x.kind[m] = sends[op - 3];
                x.prio[m] = any_u32(20 + m as u32);
                let p = x.prio[m];
                let connected = x.strong && (x.alive[0] || x.alive[1]);
                if x.isbc(m) {
                    let mut t = match x.kind[m] {
                        K::Bc => Task::new(Box::pin(weak.broadcast(all(m)).priority(p)) as std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), Error>>>>),
                        _ => Task::new(Box::pin(weak.broadcast(BcOwn { tok: Tok::new(m) }).priority(p)) as _),
                    };
                    check(t.poll(), 646);
                    check(t.out == Some(if connected { Ok(()) } else { Err(Error::Disconnected) }), 733);
                    if connected {
                        for i in 0..2 { x.bc[m][i] = x.alive[i]; }
                        x.tell([0, 1].map(|j| loops[j].as_ref().map_or(false, |t| t.woken())));
                    } else { x.st[m] = S::Lost; }
                } else {
                    let mut t: Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, Error>>>>> = match x.kind[m] {
                        K::Uni => Task::new(Box::pin(weak.send(uni(m, p)).priority(p)) as _),
                        K::Own => Task::new(Box::pin(weak.send(StopSelf { tok: Tok::new(m) }).priority(p)) as _),
                        _ => Task::new(Box::pin(weak.send(StopAll { tok: Tok::new(m) }).priority(p)) as _),
                    };
                    let was = [0, 1].map(|j| loops[j].as_ref().map_or(false, |t| t.woken()));
                    let _ = was;
                    let r = t.poll();
                    check(r == !connected, 734);
                    if connected { x.unicast_arrives(m, [0, 1].map(|j| loops[j].as_ref().map_or(false, |t| t.woken()))); }
                    else { check(t.out == Some(Err(Error::Disconnected)), 735); x.st[m] = S::Lost; t.out = None; t.flag().set(); }
                    resp[m] = Some(t);
                }
            }
        } else { // an executor polls one of the event loops
            let i = op - 1;
            if step < steps { assume(loops[i].is_some() && x.alive[i]); }
            for i in (if step < steps { i..i + 1 } else { 0..2 }) {
                if loops[i].is_none() || !x.alive[i] { continue; }
                let t = loops[i].as_mut().unwrap();
                if step >= steps && t.polled && !t.woken() { continue; }
                let fresh = !t.polled;
                poll_loop(&mut x, i, t, &mut resp, fresh);
            }
            // an actor may have told others
            for j in 0..2 { if x.alive[j] && x.stop[j] && x.rs[j] == R::Idle { check(loops[j].as_ref().unwrap().woken(), 903); x.rs[j] = R::Told; } }
        }
        for i in 0..2 { check(w().stopped[i] <= 1 && (w().stopped[i] == 0 || !x.alive[i]), 1010); }
        check(weak.is_connected() == (x.strong && (x.alive[0] || x.alive[1])), 1406);
        check(weak.len() == x.len() && weak.is_empty() == (x.len() == 0), 1530);
        for q in 0..x.n { if !x.isbc(q) {
            check(w().total(q) == (x.st[q] == S::Done) as u32, 118);
            if let Some(t) = &resp[q] { check(t.woken() == matches!(x.st[q], S::Done | S::Lost), 1115); }
        } }
    }
    // every loop that is still there waits, with nothing left for it to do
    for i in 0..2 { if x.alive[i] { for q in 0..x.n { check(!x.avail(i, q), 647); } check(!x.stop[i], 904); } }
    for q in 0..x.n { if let Some(t) = resp[q].as_mut() {
        if x.st[q] == S::Done { check(t.poll(), 1116); let p = x.prio[q]; check(t.out == Some(Ok(match x.kind[q] { K::Uni => reply(p), K::Own => 77, _ => 78 })), 1117); }
    } }
    drop(strong);
    drop(loops);
    drop(resp);
    for q in 0..x.n { check(w().made[q] == w().drops[q], 2319); }
    cover(1);
}
/// The last mailbox may be gone: then so is everything that was queued.
fn gone<F: std::future::Future<Output = Result<u32, Error>>>(x: &mut M, resp: &mut [Option<Task<F>>; NM]) {
    if x.alive[0] || x.alive[1] { return; }
    for q in 0..x.n { if x.st[q] == S::Queued && !x.isbc(q) {
        x.st[q] = S::Lost;
        let t = resp[q].as_mut().unwrap();
        check(t.woken(), 736);
        check(t.poll(), 737);
        check(t.out == Some(Err(Error::Interrupted)), 738);
        t.flag().set();
    } }
}
fn poll_loop<T: std::future::Future<Output = usize>, F: std::future::Future<Output = Result<u32, Error>>>(x: &mut M, i: usize, t: &mut Task<T>, resp: &mut [Option<Task<F>>; NM], fresh: bool) {
    let before = w().norder[i];
    let spurious = x.rs[i] == R::Idle;
    let done = t.poll();
    check(w().started[i] == 1, 1011);
    if fresh { cover(3); }
    let mut ended = false;
    for k in before..w().norder[i] {
        let m = w().order[i][k] as usize;
        check(!ended, 1012);                     // nothing is handled after the message that stopped the actor
        check(m < x.n, 119);
        check(!spurious, 648);
        match x.rs[i] {
            R::Handed(h) => check(m == h && x.st[m] == S::Handed(i), 120),
            told => {
                check(!x.stop[i], 905);          // stop_all overtakes whatever is queued
                check(x.avail(i, m), 121);
                let mut ok = true;
                for q in 0..x.n { if q != m && x.avail(i, q) && (told != R::Told || x.isbc(q)) { ok &= x.prio[q] <= x.prio[m]; } }
                check(ok, 405);
            }
        }
        x.rs[i] = R::Running;
        check(w().completed[i][m] == 1, 1013);
        if x.isbc(m) { x.bc[m][i] = false; if x.kind[m] == K::BcOwn { ended = true; } } else { x.st[m] = S::Done; }
        match x.kind[m] {
            K::Own => ended = true,
            K::All => for j in 0..2 { if x.alive[j] { x.stop[j] = true; x.asked[j] += 1; } },
            _ => {}
        }
    }
    if ended { cover(4); check(done, 1014); }
    else {
        let left = (0..x.n).any(|q| x.avail(i, q));
        if x.stop[i] { cover(5); check(done, 906); }
        else { check(!left, 649); check(done == !x.strong, 827); if done { cover(6); } }
    }
    check(w().stopped[i] == done as u32, 1015);
    if done {
        check(t.out == Some(i), 1016);
        x.alive[i] = false;
        for q in 0..x.n { x.bc[q][i] = false; }
        gone(x, resp);
    } else { x.rs[i] = R::Idle; }
}
pub const SENDS: [K; 5] = [K::Uni, K::Own, K::All, K::Bc, K::BcOwn];
#[no_mangle] pub extern "C" fn h_run_3() { run(3, &SENDS) }
#[no_mangle] pub extern "C" fn h_run_4() { run(4, &SENDS) }
#[no_mangle] pub extern "C" fn h_run_5() { run(5, &SENDS) }
#[no_mangle] pub extern "C" fn h_run_6() { run(6, &SENDS) }

/// An actor that fails to start, or is slow to.
pub struct Life { pub id: usize, pub fail: bool, pub gate: Option<&'static Flag>, pub slow_stop: Option<&'static Flag> }
impl Actor for Life {
    type Stop = usize;
    async fn started(&mut self, mb: &Mailbox<Self>) -> Result<(), usize> {
        w().started[self.id] += 1;
        let _ = mb.address();
        if let Some(g) = self.gate { Gate(g).await; }
        if self.fail { Err(self.id + 100) } else { Ok(()) }
    }
    async fn stopped(self) -> usize { w().stopped[self.id] += 1; if let Some(g) = self.slow_stop { Gate(g).await; } self.id + 200 }
}
impl Handler<Uni> for Life {
    type Return = u32;
    async fn handle(&mut self, m: Uni, ctx: &mut Context<Self>) -> u32 {
        check(w().started[self.id] == 1 && w().stopped[self.id] == 0, 1017);
        w().begin(self.id, m.tok.0);
        if m.v == 1 { ctx.stop_self(); }
        w().completed[self.id][m.tok.0] += 1;
        reply(m.v)
    }
}
/// started / stopped around the messages, with pauses anywhere.
#[no_mangle] pub extern "C" fn h_life() {
    init();
    let (addr, mb) = match pick(1, 2) { 0 => Mailbox::<Life>::unbounded(), _ => Mailbox::bounded(1) };
    let weak = addr.downgrade();
    let fail = pick(2, 2) == 1;
    let slow = pick(3, 2) == 1;
    let slow_stop = pick(4, 2) == 1;
    let gate = Flag::new(); let gate2 = Flag::new();
    let mut t = Task::new(xtra::run(mb, Life { id: 0, fail, gate: if slow { Some(gate) } else { None }, slow_stop: if slow_stop { Some(gate2) } else { None } }));
    let early = pick(5, 2) == 1;
    if !early { t.poll(); }
    let stops = any_u32(6) ;
    let mut a = Task::new(addr.send(uni(0, stops)));
    let mut b = Task::new(weak.send(uni(1, 5)));
    let gone = t.done();
    a.poll(); b.poll();
    t.poll();
    if slow && !gone {
        check(!t.done() && w().total(0) == 0 && w().total(1) == 0 && w().stopped[0] == 0, 1018);
        gate.set();
        t.poll();
    }
    if fail {
        check(t.out == Some(100), 1019);
        check(w().stopped[0] == 0 && w().total(0) == 0 && w().total(1) == 0, 1020);
        check(a.run() && b.run(), 739);
        let e = if early || slow { Error::Interrupted } else { Error::Disconnected };
        check(a.out == Some(Err(e)), 740);
        check(matches!(b.out, Some(Err(_))), 741);
        check(!weak.is_connected(), 1407);
        cover(2);
    } else if stops == 1 {
        cover(3);
        check(w().stopped[0] == 1 && w().total(0) == 1 && w().total(1) == 0, 1021);
        if slow_stop { check(!t.done(), 1022); gate2.set(); t.poll(); }
        check(t.out == Some(200), 1023);
        check(a.run() && a.out == Some(Ok(reply(1))), 1118);
        check(b.run() && matches!(b.out, Some(Err(_))), 742);
        check(!addr.is_connected(), 1408);
        check(Task::new(addr.send(uni(2, 1))).poll(), 743);
    } else {
        cover(4);
        check(!t.done(), 1024);
        check(a.run() && a.out == Some(Ok(reply(stops))), 1119);
        check(b.run() && b.out == Some(Ok(reply(5))), 1120);
        drop(addr);
        check(t.woken(), 828);
        t.poll();
        if slow_stop { check(!t.done(), 1025); gate2.set(); t.poll(); }
        check(t.out == Some(200), 1026);
        check(w().stopped[0] == 1, 1027);
    }
    check(w().started[0] == 1, 1028);
    drop((a, b));
    for q in 0..3 { check(w().made[q] == w().drops[q], 2320); }
    cover(1);
}
/// Stops everybody, then takes its time; looks at the length of the mailbox right after.
struct StopAllSlow { tok: Tok, gate: &'static Flag }
impl Handler<StopAllSlow> for Act {
    type Return = ();
    async fn handle(&mut self, m: StopAllSlow, ctx: &mut Context<Self>) {
        w().begin(self.id, m.tok.0);
        let a = ctx.mailbox().address();
        let before = a.len();
        ctx.stop_all();
        check(a.len() == before + 1, 1532);
        drop(a);
        Gate(m.gate).await;
        w().completed[self.id][m.tok.0] += 1;
    }
}
/// stop_all is not held up by a full mailbox or by slow actors.
#[no_mangle] pub extern "C" fn h_stopall_full() {
    init();
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mb2 = mb.clone();
    let mut l0 = Task::new(xtra::run(mb, Act::new(0)));
    let mut l1 = Task::new(xtra::run(mb2, Act::new(1)));
    let gate = Flag::new();
    // actor 1 is busy
    let kind = pick(1, 2);
    if kind == 1 {
        l1.poll();
        let mut s = Task::new(addr.send(Slow { tok: Tok::new(0), gate }).detach());
        check(s.poll(), 744);
        l1.poll();
        check(w().handled[1][0] == 1 && w().completed[1][0] == 0, 1029);
    }
    // broadcasts and messages of any priority fill the mailbox
    let p = any_u32(2); let q = any_u32(3);
    let mut b1 = Task::new(addr.broadcast(all(1)).priority(p));
    check(b1.poll(), 745);
    let mut b2 = Task::new(addr.broadcast(all(2)).priority(q));
    check(!b2.poll(), 517);
    let slow = pick(4, 2) == 1;
    let gate2 = Flag::new();
    let mut u = match slow {
        false => Task::new(Box::pin(async { let _ = addr.send(StopAll { tok: Tok::new(3) }).priority(u32::MAX).detach().await; }) as std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>),
        true => Task::new(Box::pin(async { let _ = addr.send(StopAllSlow { tok: Tok::new(3), gate: gate2 }).priority(u32::MAX).detach().await; }) as _),
    };
    check(u.poll(), 746);
    assume(p < u32::MAX && q < u32::MAX);
    l0.poll();
    check(w().handled[0][3] == 1, 907);
    if slow {
        check(!l0.done(), 914);
        check(addr.len() == 2 && addr.is_connected(), 1533);
        if kind == 1 && pick(5, 2) == 1 { gate.set(); l1.poll(); check(l1.out == Some(1), 915); check(addr.len() == 2, 1534); }
        gate2.set();
        l0.poll();
    }
    check(l0.out == Some(0), 908);
    check(w().handled[0][1] == 0 && w().handled[0][2] == 0, 909);
    check(l1.done() || addr.len() == 2, 1531); // what actor 1 has before it: one broadcast and the request to stop
    if !slow { check(!l1.done(), 910); }
    if !l1.done() {
        if kind == 1 { gate.set(); }
        l1.poll();
    }
    check(l1.out == Some(1), 911);
    check(w().handled[1][1] == 0 && w().handled[1][2] == 0, 912);
    if kind == 1 { check(w().completed[1][0] == 1, 913); }
    check(b2.woken() && b2.poll(), 747);
    check(!addr.is_connected(), 1409);
    drop((b1, b2, u, l0, l1));
    for q in 0..4 { check(w().made[q] == w().drops[q], 2321); }
    cover(1);
}
