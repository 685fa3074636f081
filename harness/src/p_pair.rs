//! Any two operations at the same time: two threads do one operation each (of fifteen) on an actor in one of six
//! states; afterwards the event loops go on until nothing is left to do. 224-2xx, 126-, 700-, 837-, 1227-, 2338-.
use crate::vx::*;
use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use xtra::prelude::*;
use xtra::{Error, WeakAddress};

type Sent = Task<Pin<Box<dyn Future<Output = Result<u32, Error>>>>>;
type Cast = Task<Pin<Box<dyn Future<Output = Result<(), Error>>>>>;
type Recv = Task<Pin<Box<dyn Future<Output = Got>>>>;
type Got = Box<dyn FnOnce(&mut Act) -> std::ops::ControlFlow<()>>;
/// As many threads at most.
const K: usize = 3;
/// Everything there is; each thread only touches what its operation is about.
struct St {
    weak: WeakAddress<Act>,
    strong: [Option<Address<Act>>; K], // dropped by the threads
    kept: Option<Address<Act>>,
    up: [Option<Address<Act>>; K],
    mb: [Option<Mailbox<Act>>; 3], // A, B, C
    extra: [Option<Mailbox<Act>>; K], // clones of A made by the threads
    rx: [Option<(usize, Recv)>; 2 + K], // pending on A, pending on B, of the threads
    uni: [Option<Sent>; NM],
    bc: [Option<Cast>; NM],
    stop: Option<Got>,
    join: [Option<Task<xtra::address::ActorJoinHandle>>; K],
}
/// A receive; the message it yields is handled at once when asked for.
fn recv(mb: &Mailbox<Act>) -> Recv {
    let f = mb.next();
    Task::new(Box::pin(async move { let m = f.await; Box::new(move |a: &mut Act| { let mut d = Task::new(m.dispatch_to(a)); check(d.poll(), 127); d.out.take().unwrap() }) as Got }))
}
const OPS: u32 = 15;
fn act(s: &'static mut St, t: usize, op: u32) {
    match op {
        0 => { let x = s.uni[2 + t].as_mut().unwrap(); x.poll(); }
        1 => { let x = s.bc[2 + t].as_mut().unwrap(); x.poll(); }
        2 | 3 => { s.rx[2 + t].as_mut().unwrap().1.poll(); }
        4 => s.rx[0] = None,
        5 => s.mb[1] = None,
        6 => s.mb[0] = None,
        7 => { s.uni[1] = None; s.bc[1] = None; }
        8 => { if let Some(x) = s.uni[1].as_mut() { x.poll(); } if let Some(x) = s.bc[1].as_mut() { x.poll(); } }
        9 => { let c = s.mb[0].as_ref().unwrap().clone(); s.extra[t] = Some(c); }
        10 => s.strong[t] = None,
        11 => s.up[t] = s.weak.try_upgrade(),
        12 => { let mut j = Task::new(s.weak.join()); j.poll(); s.join[t] = Some(j); }
        13 => { let mut a = Act::new(3); check((s.stop.take().unwrap())(&mut a).is_continue(), 907); }
        _ => { s.rx[0].as_mut().unwrap().1.poll(); }
    }
}
fn pair(states: &[u32], k: usize) {
    init();
    let state = states[pick(1, states.len() as u32) as usize];
    let mut ops = [99; K];
    for t in 0..k { ops[t] = pick(2 + t as u32, OPS); if t > 0 { assume(ops[t - 1] <= ops[t]); } }
    let has = |o: u32| ops.iter().any(|x| *x == o);
    let both = |f: fn(u32) -> bool| ops.iter().filter(|x| f(**x)).count() > 1;
    let idle = state == 0; let full = state == 2 || state == 3;
    assume(!has(4) && !has(14) || idle);
    assume(!both(|o| o == 4 || o == 14));
    assume(!has(7) && !has(8) || full);
    assume(!both(|o| o == 7 || o == 8));
    assume(!both(|o| o == 5) && !both(|o| o == 6 || o == 9) && !both(|o| o == 13));
    let (addr, a) = if full || state == 5 { Mailbox::<Act>::bounded(1) } else { Mailbox::unbounded() };
    // a stop request is in the hands of a third actor
    let mut stop = None;
    let mut r_stop = None;
    if has(13) {
        let c = a.clone();
        let mut t = Task::new(addr.send(StopAll { tok: Tok::new(7) }));
        t.poll();
        r_stop = Some(t);
        let mut r = recv(&c);
        check(r.poll(), 128);
        stop = r.out.take();
    }
    let b = a.clone();
    let weak = addr.downgrade();
    let s: &'static mut St = leak(St { weak, strong: Default::default(), kept: None, up: Default::default(), mb: [Some(a), Some(b), None], extra: Default::default(), rx: Default::default(), uni: Default::default(), bc: Default::default(), stop, join: Default::default() });
    let uni = |m: usize| -> Option<Sent> { Some(Task::new(Box::pin(s.weak.send(uni(m, m as u32))) as _)) };
    let cast = |m: usize| -> Option<Cast> { Some(Task::new(Box::pin(s.weak.broadcast(all(m))) as _)) };
    let (mut u, mut c): ([Option<Sent>; NM], [Option<Cast>; NM]) = Default::default();
    match state {
        2 => { u[0] = uni(0); u[1] = uni(1); }
        3 => { c[0] = cast(0); c[1] = cast(1); }
        4 => { u[0] = uni(0); c[1] = cast(1); }
        5 => { u[0] = uni(0); }
        _ => {}
    }
    for m in 0..2 { if let Some(t) = u[m].as_mut() { t.poll(); } if let Some(t) = c[m].as_mut() { t.poll(); } }
    for t in 0..k {
        match ops[t] {
            0 => u[2 + t] = uni(2 + t),
            1 => c[2 + t] = cast(2 + t),
            o @ (2 | 3) => s.rx[2 + t] = Some((o as usize - 2, recv(s.mb[o as usize - 2].as_ref().unwrap()))),
            _ => {}
        }
    }
    s.uni = u; s.bc = c;
    if idle { for i in 0..2 { let mut r = recv(s.mb[i].as_ref().unwrap()); check(!r.poll(), 129); s.rx[i] = Some((i, r)); } }
    let dropped = ops.iter().filter(|o| **o == 10).count();
    if dropped == 0 { s.kept = Some(addr); } else { for t in 0..k { if ops[t] == 10 { s.strong[t] = Some(addr.clone()); } } drop(addr); }
    let p = s as *mut St;
    let th: Vec<u32> = (0..k).map(|t| { let op = ops[t]; spawn(move || act(unsafe { &mut *p }, t, op)) }).collect();
    quiesce();
    check(th.iter().all(|t| finished(*t)), 1608);
    cover(2);
    let s = unsafe { &mut *p };
    let strong = dropped == 0 || s.up.iter().any(|u| u.is_some());
    let stopped = has(13);
    let mut acts = [Act::new(0), Act::new(1), Act::new(2)];
    let mut told = [false; 2];
    // whoever was woken goes on
    loop {
        let mut more = false;
        for k in 0..2 + K { if let Some((i, r)) = s.rx[k].as_mut() { let i = *i;
            if r.done() || r.run() {
                let g = r.out.take().unwrap();
                s.rx[k] = None;
                more = true;
                if g(&mut acts[i]).is_break() { told[i] = true; }
            }
        } }
        for m in 0..NM { if let Some(t) = s.uni[m].as_mut() { if !t.done() && t.polled && t.woken() { t.run(); } } if let Some(t) = s.bc[m].as_mut() { if !t.done() && t.polled && t.woken() { t.run(); } } }
        if !more { break; }
    }
    for i in 0..2 { check(!told[i] || stopped || !strong, 837); }
    // whoever was not has nothing to do
    for k in 0..2 + K { if let Some((i, _)) = s.rx[k].as_ref() {
        let i = *i;
        if let Some(mb) = s.mb[i].as_ref() { let mut r = recv(mb); check(!r.poll(), 700); cover(3); }
        check(!stopped || told[i], 701);
    } }
    // the actors go on until they stop or there is nothing left
    let mut n = 0;
    let mut alive = [s.mb[0].is_some() && !told[0], s.mb[1].is_some() && !told[1]];
    for i in 0..2 { if told[i] { s.mb[i] = None; for k in 0..2 + K { if matches!(s.rx[k], Some((j, _)) if j == i) { s.rx[k] = None; } } } }
    loop {
        let mut more = false;
        for i in 0..2 { if alive[i] {
            let mut r = recv(s.mb[i].as_ref().unwrap());
            if r.poll() {
                more = true;
                let g = r.out.take().unwrap();
                if g(&mut acts[i]).is_break() { check(stopped || !strong, 838); told[i] = true; alive[i] = false; s.mb[i] = None; for k in 0..2 + K { if matches!(s.rx[k], Some((j, _)) if j == i) { s.rx[k] = None; } } }
            }
        } }
        // clones see what was sent after they were made
        for t in 0..K { if let Some(mb) = s.extra[t].take() {
            let mut r = recv(&mb);
            s.extra[t] = Some(mb);
            if r.poll() { more = true; n += 1; check(n < 12, 224); let g = r.out.take().unwrap(); if g(&mut acts[2]).is_break() { check(stopped || !strong, 840); s.extra[t] = None; } }
        } }
        for m in 0..NM { if let Some(t) = s.uni[m].as_mut() { if t.polled { t.run(); } } if let Some(t) = s.bc[m].as_mut() { if t.polled { t.run(); } } }
        if !more { break; }
    }
    for i in 0..2 { if alive[i] { check(strong && !stopped, 839); } }
    let any = alive[0] || alive[1];
    if strong && !stopped { check(s.weak.is_connected() == (any || s.extra.iter().any(|m| m.is_some()) || s.rx.iter().any(|r| r.is_some())), 1416); if alive[0] && alive[1] && !has(9) { check(s.weak.len() == 0, 1512); } }
    for m in 0..2 + K { if s.uni[m].is_none() { check(w().handled[2][m] <= ops.iter().filter(|o| **o == 9).count() as u32, 225); } }
    for k in 0..2 + K { s.rx[k] = None; }
    for m in 0..NM { if let Some(t) = s.uni[m].as_mut() { t.run(); } if let Some(t) = s.bc[m].as_mut() { t.run(); } }
    // no mailbox is left by a thread's choice
    let none = has(5) && has(6);
    for m in 0..2 + K {
        if let Some(t) = s.uni[m].as_mut() {
            if any { check(t.done(), 776); }
            match t.out.take() {
                Some(Ok(v)) => check(v == reply(m as u32) && w().total(m) == 1 && w().total_completed(m) == 1, 130),
                Some(Err(Error::Disconnected)) => check(w().total(m) == 0 && (!strong || stopped || none), 777),
                Some(Err(Error::Interrupted)) => check(w().total(m) == 0 && (stopped || none), 131),
                None => check(w().total(m) == 0, 132),
            }
        }
        if let Some(t) = s.bc[m].as_mut() {
            if any { check(t.done(), 778); }
            match t.out.take() {
                Some(Ok(())) => { cover(4); for i in 0..2 { let n = w().handled[i][m]; check(n <= 1 && (n == 1 || stopped || !strong && (m > 1 || m == 1 && state == 3) || has(5) && i == 1 || has(6) && i == 0), 226); } }
                Some(Err(e)) => check(e == Error::Disconnected && w().total(m) == 0 && (!strong || stopped || none), 779),
                None => check(w().total(m) == 0, 227),
            }
        }
    }
    if has(7) { if let 2 = state { check(w().total(1) <= 1, 1609); } else if alive[0] && alive[1] { check(w().handled[0][1] == w().handled[1][1] && w().handled[0][1] <= 1, 1610); } }
    // everything goes
    s.mb = [None, None, None]; s.extra = Default::default(); s.stop = None;
    for t in 0..K { if let Some(j) = s.join[t].as_mut() { check(j.run(), 1227); } }
    for m in 0..NM { if let Some(t) = s.uni[m].as_mut() { if t.polled { t.run(); } } if let Some(t) = s.bc[m].as_mut() { if t.polled { t.run(); } } }
    if let Some(mut r) = r_stop { check(r.run() && r.out == Some(Ok(78)), 1119); }
    s.kept = None; s.up = Default::default(); s.strong = Default::default(); s.uni = Default::default(); s.bc = Default::default(); s.join = Default::default();
    check(!s.weak.is_connected() && s.weak.len() == 0, 780);
    for m in 0..NM { check(w().made[m] == w().drops[m], 2338); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_c_pair() { pair(&[0, 1, 2, 3, 4, 5], 2) }
#[no_mangle] pub extern "C" fn h_c_tri() { pair(&[0, 1, 2, 3, 4, 5], 3) }
