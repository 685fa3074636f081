//! Long histories of one shape, with few choices: larger capacities, many messages, many waiting senders and
//! receivers, up to four mailboxes. Judged by a plain model of the queues.
use crate::vx::*;
use crate::world::All;
use std::ops::ControlFlow;
use xtra::prelude::*;
use xtra::Error;

pub const LM: usize = 32;
struct Lw { log: [[u8; LM]; 4], n: [usize; 4], drops: [u32; LM], made: [u32; LM] }
static mut LW: Lw = Lw { log: [[0xff; LM]; 4], n: [0; 4], drops: [0; LM], made: [0; LM] };
fn lw() -> &'static mut Lw { unsafe { &mut *std::ptr::addr_of_mut!(LW) } }
struct Tk(usize);
impl Tk { fn new(m: usize) -> Tk { lw().made[m] += 1; Tk(m) } }
impl Clone for Tk { fn clone(&self) -> Tk { Tk::new(self.0) } }
impl Drop for Tk { fn drop(&mut self) { lw().drops[self.0] += 1; } }
struct L(usize);
impl L { fn put(&self, m: usize) { let w = lw(); let k = w.n[self.0]; if k < LM { w.log[self.0][k] = m as u8; } w.n[self.0] = k + 1; } }
impl Actor for L { type Stop = (); async fn stopped(self) {} }
struct Mu(Tk);
impl Handler<Mu> for L { type Return = u32; async fn handle(&mut self, m: Mu, _: &mut Context<Self>) -> u32 { self.put(m.0 .0); 100 + m.0 .0 as u32 } }
#[derive(Clone)]
struct Mb(Tk);
impl Handler<Mb> for L { type Return = (); async fn handle(&mut self, m: Mb, _: &mut Context<Self>) { self.put(m.0 .0); } }
impl Handler<All> for L { type Return = (); async fn handle(&mut self, _: All, _: &mut Context<Self>) {} }

fn take(mb: &Mailbox<L>, a: usize) -> Option<usize> {
    let mut act = L(a);
    let before = lw().n[a];
    let mut t = Task::new(mb.next());
    if !t.poll() { t.cancel(); return None; }
    let m = t.out.take().unwrap();
    let mut d = Task::new(m.dispatch_to(&mut act));
    check(d.poll(), 132);
    check(d.out == Some(ControlFlow::Continue(())), 133);
    check(lw().n[a] == before + 1, 134);
    Some(lw().log[a][before] as usize)
}

/// `n` sends into a mailbox of some capacity, one of which is urgent, one of which is given up at some time; now
/// and then a message is taken; in the end all are.
fn uni(n: usize) {
    init();
    let cap = match pick(1, 5) { 0 => None, 1 => Some(1usize), 2 => Some(3), 3 => Some(8), _ => Some(17) };
    let (addr, mb) = match cap { None => Mailbox::unbounded(), Some(c) => Mailbox::bounded(c) };
    let every = [99, 2, 5][pick(2, 3) as usize];
    let urgent = pick(3, n as u32 + 1) as usize;
    let gone = if urgent % 4 == 1 { pick(4, n as u32 + 1) as usize } else { n };
    let mut send: Vec<Option<Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, Error>>>>>>> = Vec::new();
    let (mut q, mut wait): (Vec<usize>, Vec<usize>) = (Vec::new(), Vec::new());
    let prio = |m: usize| if m == urgent { 9 } else { 0 };
    let full = |q: &Vec<usize>| cap.map_or(false, |c| q.len() >= c);
    let best = |q: &Vec<usize>| { let mut b = 0; for i in 1..q.len() { if prio(q[i]) > prio(q[b]) { b = i; } } b };
    let mut taken = 0;
    let mut one = |q: &mut Vec<usize>, wait: &mut Vec<usize>, send: &mut Vec<Option<Task<_>>>| {
        let got = take(&mb, 0);
        check(got.is_some() == !q.is_empty(), 681);
        let Some(m) = got else { return false };
        let b = best(q);
        check(prio(m) == prio(q[b]), 407);
        check(m == q[b], 311);
        q.remove(b);
        if !full(q) && !wait.is_empty() { let b = best(wait); let s = wait.remove(b); check(send[s].as_ref().map_or(true, |t| t.woken()), 682); q.push(s); }
        taken += 1;
        true
    };
    for m in 0..n {
        let a = addr.clone();
        let p = prio(m) as u32;
        let mut t: Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, Error>>>>> = Task::new(Box::pin(async move {
            let r = a.send(Mu(Tk::new(m))).priority(p).detach().await;
            drop(a);
            match r { Ok(rx) => rx.await, Err(e) => Err(e) }
        }));
        check(!t.poll(), 135);
        send.push(Some(t));
        if full(&q) { wait.push(m); } else { q.push(m); }
        check(addr.len() == q.len(), 1514);
        if m == n / 2 && gone < m { // somebody gives up
            let was = wait.iter().position(|x| *x == gone);
            send[gone] = None;
            if let Some(i) = was { wait.remove(i); check(lw().drops[gone] == 1, 1606); cover(2); }
        }
        if m % every == every - 1 { one(&mut q, &mut wait, &mut send); }
    }
    for m in 0..n { if let Some(t) = &mut send[m] { if t.woken() { t.poll(); } } }
    while one(&mut q, &mut wait, &mut send) { check(addr.len() == q.len(), 1515); }
    check(q.is_empty() && wait.is_empty(), 683);
    for m in 0..n {
        let c = lw().log[0].iter().filter(|x| **x as usize == m).count();
        let lost = m == gone && c == 0;
        check(c == 1 || lost, 136);
        check(lw().drops[m] == lw().made[m], 2332);
        if let Some(t) = &mut send[m] { check(t.run(), 684); check(t.out == Some(Ok(100 + m as u32)), 1127); }
    }
    cover(1);
}

/// `n` broadcasts to up to four mailboxes, one of which lags behind; it may go away.
fn bc(n: usize) {
    init();
    let cap = match pick(1, 4) { 0 => None, 1 => Some(1usize), 2 => Some(4), _ => Some(9) };
    let (addr, mb) = match cap { None => Mailbox::unbounded(), Some(c) => Mailbox::bounded(c) };
    let k = 1 + pick(2, 4) as usize;
    let mut mbs: Vec<Option<Mailbox<L>>> = vec![Some(mb)];
    for _ in 1..k { let c = mbs[0].as_ref().unwrap().clone(); mbs.push(Some(c)); }
    let lag = pick(3, k as u32) as usize;
    let urgent = pick(4, n as u32 + 1) as usize;
    let leave = if k > 1 { pick(5, 2) == 1 } else { false };
    let prio = |m: usize| if m == urgent { 9 } else { 0 };
    let mut send: Vec<Task<_>> = Vec::new();
    let mut q: Vec<Vec<usize>> = vec![Vec::new(); k];
    let mut wait: Vec<usize> = Vec::new();
    let best = |q: &Vec<usize>| { let mut b = 0; for i in 1..q.len() { if prio(q[i]) > prio(q[b]) { b = i; } } b };
    // as many waiting ones as there is room for
    fn admit(q: &mut Vec<Vec<usize>>, wait: &mut Vec<usize>, mbs: &Vec<Option<Mailbox<L>>>, cap: Option<usize>, best: &dyn Fn(&Vec<usize>) -> usize, send: &Vec<Task<impl std::future::Future>>) {
        while !wait.is_empty() && cap.map_or(true, |c| q.iter().map(|x| x.len()).max().unwrap() < c) {
            let b = best(wait); let m = wait.remove(b);
            check(send[m].woken(), 685);
            for j in 0..q.len() { if mbs[j].is_some() { q[j].push(m); } }
        }
    }
    for m in 0..n {
        let mut t = Task::new(addr.broadcast(Mb(Tk::new(m))).priority(prio(m) as u32));
        let full = cap.map_or(false, |c| q.iter().map(|x| x.len()).max().unwrap() >= c);
        check(t.poll() == !full, 534);
        send.push(t);
        if full { wait.push(m); } else { for j in 0..k { if mbs[j].is_some() { q[j].push(m); } } }
        if leave && m == n / 2 { mbs[lag] = None; q[lag].clear(); admit(&mut q, &mut wait, &mbs, cap, &best, &send); cover(2); }
        for j in 0..k {
            if j == lag || mbs[j].is_none() { continue; }
            let got = take(mbs[j].as_ref().unwrap(), j);
            check(got.is_some() == !q[j].is_empty(), 686);
            if let Some(m) = got { let b = best(&q[j]); check(prio(m) == prio(q[j][b]), 408); check(m == q[j][b], 312); q[j].remove(b); admit(&mut q, &mut wait, &mbs, cap, &best, &send); }
        }
        check(addr.len() == q.iter().map(|x| x.len()).max().unwrap(), 1516);
    }
    loop {
        let mut any = false;
        for j in 0..k {
            let Some(b) = &mbs[j] else { continue };
            let got = take(b, j);
            check(got.is_some() == !q[j].is_empty(), 687);
            if let Some(m) = got { any = true; let b = best(&q[j]); check(m == q[j][b], 313); q[j].remove(b); admit(&mut q, &mut wait, &mbs, cap, &best, &send); }
        }
        if !any { break; }
    }
    check(wait.is_empty(), 535);
    for m in 0..n {
        check(send[m].run() && matches!(send[m].out, Some(Ok(()))), 688);
        for j in 0..k { if mbs[j].is_some() { check(lw().log[j].iter().filter(|x| **x as usize == m).count() == 1, 221); } }
        check(lw().drops[m] == lw().made[m], 2333);
    }
    cover(1);
}

/// `k` receives wait, on up to three mailboxes; one is given up; as many messages come, then a broadcast.
fn rx(k: usize) {
    init();
    let (addr, mb) = if pick(1, 2) == 0 { Mailbox::unbounded() } else { Mailbox::bounded(2) };
    let nm = 1 + pick(2, 3) as usize;
    let mut mbs = vec![mb];
    for _ in 1..nm { let c = mbs[0].clone(); mbs.push(c); }
    let mut r: Vec<Task<_>> = Vec::new();
    for i in 0..k { let mut t = Task::new(mbs[i % nm].next()); check(!t.poll(), 137); r.push(t); }
    let gone = pick(3, k as u32 + 1) as usize;
    let msgs = pick(4, k as u32 + 1) as usize;
    let late = pick(5, 2) == 1; // given up only after the messages have come
    if !late && gone < k { r[gone].cancel(); }
    let mut left = k - (gone < k && !late) as usize;
    for m in 0..msgs {
        let mut t = Task::new(addr.send(Mu(Tk::new(m))).detach());
        check(t.poll() == (left > 0 || m < 2 + k - (gone < k) as usize), 536);
        if left > 0 { left -= 1; check(addr.len() == 0, 1517); }
        let woken = r.iter().filter(|t| t.fut.is_some() && t.woken()).count();
        check(woken == (m + 1).min(k - (gone < k && !late) as usize), 689);
        // whoever waited longest is served first
        let mut open = true;
        for t in r.iter().filter(|t| t.fut.is_some()) { if !t.woken() { open = false; } else { check(open, 314); } }
    }
    let mut got = 0;
    if late && gone < k { r[gone].cancel(); }
    let bcast = addr.broadcast(Mb(Tk::new(20)));
    check(Task::new(bcast).poll(), 764);
    for i in 0..k {
        if r[i].fut.is_none() { continue; }
        check(r[i].woken(), 691);
        check(r[i].poll() || i >= nm, 692); // there is one broadcast per mailbox
        if let Some(m) = r[i].out.take() { let mut a = L(i % nm); let mut d = Task::new(m.dispatch_to(&mut a)); check(d.poll(), 138); got += 1; }
    }
    for i in 0..k { r[i].cancel(); }
    for j in 0..nm { while take(&mbs[j], j).is_some() { got += 1; if got > 30 { break; } } }
    for m in 0..msgs {
        let mut c = 0;
        for j in 0..nm { c += lw().log[j].iter().filter(|x| **x as usize == m).count(); }
        check(c == 1, 139);
        check(lw().drops[m] == 1, 2334);
    }
    for j in 0..nm { check(lw().log[j].iter().filter(|x| **x == 20).count() == 1, 222); }
    cover(1);
}

#[no_mangle] pub extern "C" fn h_long_uni() { uni(24) }
#[no_mangle] pub extern "C" fn h_long_bc() { bc(12) }
#[no_mangle] pub extern "C" fn h_long_rx() { rx(6) }
