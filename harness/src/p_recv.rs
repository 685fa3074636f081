//! Several receives at once, on the same mailbox and on two of them: each may be polled (woken or not) and abandoned
//! at any time, between unicast and broadcast messages of any priority and the drop of the last strong address.
//! 126-128 exactly once, 217-219 broadcasts, 310 order, 406 priority, 661-664 progress, 831-833 end, 1708-1709
//! abandoned receives, 2329 destruction.
use crate::vx::*;
use crate::world::*;
use std::ops::ControlFlow;
use xtra::prelude::*;
use xtra::Error;

#[derive(Clone, Copy, PartialEq)]
enum R { None, New, Waiting, Told, Handed(usize), Shut }
#[derive(Clone, Copy, PartialEq)]
enum S { Queued, Handed, Done, Refused }
const NR: usize = 3;
struct X { n: usize, bcast: [bool; NM], prio: [u32; NM], st: [S; NM], again: [bool; NM], sent: [bool; NM], pend: [[bool; 2]; NM], r: [R; NR], mb: [usize; NR], strong: bool }
impl X {
    fn avail(&self, i: usize, m: usize) -> bool { if self.bcast[m] { self.pend[m][i] } else { self.st[m] == S::Queued } }
    /// a unicast message comes in (or back): one of the waiting receives gets it, if there is any
    fn arrives(&mut self, m: usize, woken: [bool; NR]) {
        let mut hit = NR;
        for k in 0..NR { if self.r[k] == R::Waiting && woken[k] { check(hit == NR, 661); hit = k; } }
        check((hit < NR) == self.r.iter().any(|r| *r == R::Waiting), 662);
        if hit < NR { self.r[hit] = R::Handed(m); self.st[m] = S::Handed; } else { self.st[m] = S::Queued; }
    }
}
pub fn recv(steps: usize) {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let two = pick(1, 2) == 1;
    let mb2 = if two { Some(mb.clone()) } else { None };
    let mbs = [Some(&mb), mb2.as_ref()];
    let weak = addr.downgrade();
    let mut strong = Some(addr);
    let mut acts = [Act::new(0), Act::new(1)];
    let mut t: [Option<Task<_>>; NR] = Default::default();
    let mut x = X { n: 0, bcast: [false; NM], prio: [0; NM], st: [S::Done; NM], again: [false; NM], sent: [false; NM], pend: [[false; 2]; NM], r: [R::None; NR], mb: [0; NR], strong: true };
    let mut resp: [Option<Task<_>>; NM] = Default::default();
    for step in 0..steps + NM + NR + 1 {
        let op = if step < steps { pick(2, 6) } else { 2 };
        let woken = |t: &[Option<Task<_>>; NR]| { let mut r = [false; NR]; for k in 0..NR { r[k] = t[k].as_ref().map_or(false, |t: &Task<_>| t.woken()); } r };
        match op {
            0 => {
                let m = x.n; x.n += 1;
                x.prio[m] = any_u32(20 + m as u32);
                let mut s = Task::new(weak.send(uni(m, m as u32)).priority(x.prio[m]).detach());
                check(s.poll(), 663);
                match s.out.take() {
                    Some(Ok(r)) => { check(x.strong, 748); x.arrives(m, woken(&t)); resp[m] = Some(Task::new(r)); }
                    Some(Err(e)) => { check(!x.strong && e == Error::Disconnected, 749); x.st[m] = S::Refused; }
                    None => {}
                }
            }
            1 => {
                let m = x.n; x.n += 1;
                x.prio[m] = any_u32(20 + m as u32);
                x.bcast[m] = true;
                let mut s = Task::new(weak.broadcast(all(m)).priority(x.prio[m]));
                check(s.poll(), 664);
                check(s.out == Some(if x.strong { Ok(()) } else { Err(Error::Disconnected) }), 750);
                if x.strong {
                    x.pend[m] = [true, two]; x.sent[m] = true;
                    let wk = woken(&t);
                    for k in 0..NR { if x.r[k] == R::Waiting { check(wk[k], 665); x.r[k] = R::Told; } }
                }
            }
            2 => { // poll a receive, perhaps a new one
                let k = if step < steps { pick(3, NR as u32) as usize } else {
                    // wind up: whoever was woken goes on; if nobody was, nothing is left for those that wait
                    let k = (0..NR).find(|k| !matches!(x.r[*k], R::None | R::Waiting));
                    match k { Some(k) => k, None => { let k = match (0..NR).find(|k| x.r[*k] == R::None) { Some(k) => k, None => break }; if (0..x.n).any(|m| x.avail(0, m)) { k } else { break } } }
                };
                if x.r[k] == R::None {
                    if step < steps { assume((0..k).all(|j| x.r[j] != R::None)); }
                    x.mb[k] = if two && step < steps { pick(4, 2) as usize } else { 0 };
                    t[k] = Some(Task::new(mbs[x.mb[k]].unwrap().next()));
                    x.r[k] = R::New;
                }
                let i = x.mb[k];
                let task = t[k].as_mut().unwrap();
                let was = x.r[k];
                let done = task.poll();
                let any = (0..x.n).any(|m| x.avail(i, m));
                let bc = (0..x.n).any(|m| x.bcast[m] && x.pend[m][i]);
                let expect = match was { R::Waiting => false, R::Handed(_) | R::Shut => true, _ => any || !x.strong };
                check(done == expect, 1708);
                if !done { x.r[k] = R::Waiting; if was == R::Told { cover(2); } }
                else {
                    x.r[k] = R::None;
                    let before = w().norder[i];
                    let mut d = Task::new(t[k].take().unwrap().out.take().unwrap().dispatch_to(&mut acts[i]));
                    check(d.poll(), 666);
                    if w().norder[i] == before {
                        check(d.out == Some(ControlFlow::Break(())), 831);
                        check(!x.strong && match was { R::Handed(_) => false, _ => !any }, 832);
                        cover(3);
                    } else {
                        check(d.out == Some(ControlFlow::Continue(())), 833);
                        let m = w().order[i][before] as usize;
                        check(m < x.n, 126);
                        match was {
                            R::Handed(h) => check(m == h, 127),
                            _ => {
                                check(x.avail(i, m), 128);
                                let only = was == R::Told && bc; // takes what it was woken for
                                if only { check(x.bcast[m], 219); }
                                let (mut ok, mut fifo) = (true, true);
                                for q in 0..x.n { if q != m && x.avail(i, q) {
                                    if !only || x.bcast[q] { ok &= x.prio[q] <= x.prio[m]; }
                                    if q < m && x.bcast[q] == x.bcast[m] && !x.again[q] && !x.again[m] { fifo &= x.prio[q] != x.prio[m]; }
                                } }
                                check(ok, 406);
                                check(fifo, 310);
                            }
                        }
                        if x.bcast[m] { check(x.pend[m][i], 217); x.pend[m][i] = false; } else { x.st[m] = S::Done; }
                    }
                }
            }
            3 => { // abandon a receive
                let k = pick(3, NR as u32) as usize;
                assume(x.r[k] != R::None);
                let was = x.r[k];
                give_up(t[k].take());
                x.r[k] = R::None;
                if let R::Handed(m) = was { cover(4); check(w().drops[m] == 0, 1709); x.again[m] = true; x.arrives(m, woken(&t)); }
            }
            4 => { // a receive that was made, but not polled yet
                let k = pick(3, NR as u32) as usize;
                assume(x.r[k] == R::None && (0..k).all(|j| x.r[j] != R::None));
                x.mb[k] = if two { pick(4, 2) as usize } else { 0 };
                t[k] = Some(Task::new(mbs[x.mb[k]].unwrap().next()));
                x.r[k] = R::New;
            }
            _ => {
                assume(x.strong);
                give_up(strong.take()); x.strong = false;
                let wk = woken(&t);
                for k in 0..NR { if x.r[k] == R::Waiting { check(wk[k], 835); x.r[k] = R::Shut; } }
            }
        }
        for k in 0..NR { if x.r[k] == R::Waiting { check(!t[k].as_ref().unwrap().woken(), 667); for m in 0..x.n { check(!x.avail(x.mb[k], m), 668); } } }
        let mut len = 0; let mut b = [0; 2];
        for m in 0..x.n { if x.bcast[m] { for i in 0..2 { b[i] += x.pend[m][i] as usize; } } else { len += (x.st[m] == S::Queued) as usize; } }
        check(weak.len() == len + b[0].max(b[1]), 1512);
        for m in 0..x.n {
            if x.bcast[m] { for i in 0..2 { check(w().handled[i][m] == (x.sent[m] && !x.pend[m][i] && (i == 0 || two)) as u32, 218); } }
            else { check(w().total(m) == (x.st[m] == S::Done) as u32, 126); if let Some(r) = resp[m].as_mut() { check(r.run() == (x.st[m] == S::Done), 1147); } }
        }
    }
    if x.r.iter().any(|r| *r == R::None) { for m in 0..x.n { check(!x.avail(0, m), 669); } }
    drop(strong);
    drop(t);
    drop(resp);
    drop((mb, mb2));
    for m in 0..x.n { check(w().made[m] == w().drops[m], 2329); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_recv_4() { recv(4) }
#[no_mangle] pub extern "C" fn h_recv_5() { recv(5) }
#[no_mangle] pub extern "C" fn h_recv_6() { recv(6) }
