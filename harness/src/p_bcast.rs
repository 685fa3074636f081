//! Histories mixing broadcast and unicast messages of arbitrary priority over one or two mailboxes of an
//! address. 2xx broadcast delivery, 4xx priority, 5xx backpressure, 6xx wake-ups, 15xx len, 16xx cancelled
//! sends, 23xx destruction.
use crate::vx::*;
use crate::world::*;
use std::ops::ControlFlow;
use xtra::prelude::*;

#[derive(Clone, Copy, PartialEq)]
enum B { Not, Pend, Done }
#[derive(Clone, Copy, PartialEq)]
enum S { Unsent, Waiting, In, Cancelled }
#[derive(Clone, Copy, PartialEq)]
enum R { Idle, Waits, Direct(usize), Told }

pub fn bcast(steps: usize, ops: u32) {
    init();
    let cap = match pick(1, 3) { 0 => None, 1 => Some(1usize), _ => Some(2) };
    let (addr, mailbox) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let mut mbs: Vec<Option<Mailbox<Act>>> = vec![Some(mailbox)];
    let mut acts = [Act::new(0), Act::new(1)];
    let mut bc = [false; NM];
    let mut st = [S::Unsent; NM];
    let mut to = [[B::Not; 2]; NM]; // per message and mailbox (unicast: column 0 only, shared)
    let mut prio = [0u32; NM];
    let mut ent = [0usize; NM]; // when it entered the mailboxes
    let mut now = 0usize;
    let mut n = 0;
    let mut bsend: [Option<Task<_>>; NM] = Default::default();
    let mut usend: [Option<Task<_>>; NM] = Default::default();
    let mut rcv: [Option<Task<_>>; 2] = [None, None];
    let mut rs = [R::Idle; 2];
    if pick(4, 2) == 1 { let c = mbs[0].as_ref().unwrap().clone(); mbs.push(Some(c)); }
    
    for _ in 0..steps {
        match pick(2, ops) {
            0 | 1 => { // broadcast
                let m = n; n += 1;
                bc[m] = true;
                prio[m] = any_u32(20 + m as u32);
                let longest = longest(&to, &bc, &st, n, &mbs);
                let mut t = Task::new(addr.broadcast(all(m)).priority(prio[m]));
                let done = t.poll();
                let full = cap.map_or(false, |c| longest >= c);
                check(done == !full, 508);
                if done { check(matches!(t.out, Some(Ok(()))), 710); st[m] = S::In; now += 1; ent[m] = now; enter(&mut to, m, &mbs); tell(&mut rs, &rcv); }
                else { st[m] = S::Waiting; }
                bsend[m] = Some(t);
            }
            2 => {
                let m = n; n += 1;
                prio[m] = any_u32(20 + m as u32);
                let mut t = Task::new(addr.send(uni(m, 0)).detach().priority(prio[m]));
                let done = t.poll();
                let waits = (0..2).any(|j| rs[j] == R::Waits);
                if waits {
                    check(done, 614);
                    st[m] = S::In;
                    let mut hit = NM;
                    for j in 0..2 { if rs[j] == R::Waits && rcv[j].as_ref().unwrap().woken() { check(hit == NM, 615); hit = j; } }
                    check(hit != NM, 616);
                    rs[hit] = R::Direct(m);
                } else {
                    let q = (0..n).filter(|q| !bc[*q] && st[*q] == S::In && to[*q][0] == B::Pend).count();
                    let full = cap.map_or(false, |c| q >= c);
                    check(done == !full, 509);
                    if done { st[m] = S::In; now += 1; ent[m] = now; to[m][0] = B::Pend; } else { st[m] = S::Waiting; }
                }
                usend[m] = Some(t);
            }
            3 => { // receive on mailbox j
                let j = if mbs.len() > 1 { pick(3, 2) as usize } else { 0 };
                assume(mbs[j].is_some());
                if rs[j] == R::Idle { rcv[j] = Some(Task::new(mbs[j].as_ref().unwrap().next())); }
                let avail = (0..n).any(|m| st[m] == S::In && to[m][if bc[m] { j } else { 0 }] == B::Pend);
                let done = rcv[j].as_mut().unwrap().poll();
                let expect = match rs[j] { R::Idle => avail, R::Waits => false, _ => true };
                check(done == expect, 617);
                if !done { rs[j] = R::Waits; continue; }
                let before = w().norder[j];
                let msg = rcv[j].take().unwrap().out.take().unwrap();
                let mut d = Task::new(msg.dispatch_to(&mut acts[j]));
                check(d.poll(), 618);
                check(d.out.take() == Some(ControlFlow::Continue(())), 1003);
                drop(d);
                check(w().norder[j] == before + 1, 201);
                let m = w().order[j][before] as usize;
                check(m < n && st[m] == S::In, 202);
                if let R::Direct(x) = rs[j] { check(m == x, 203); rs[j] = R::Idle; continue; }
                let col = if bc[m] { j } else { 0 };
                check(to[m][col] == B::Pend, 204);
                // the most urgent of what this actor could handle (a receive that was woken for a broadcast takes a broadcast)
                let mut ok = true;
                for q in 0..n { if q != m && st[q] == S::In && to[q][if bc[q] { j } else { 0 }] == B::Pend && (rs[j] == R::Idle || bc[q]) { ok &= prio[q] <= prio[m]; } }
                check(ok, 403);
                // the first of those of the same kind and priority (several let in at once count as one)
                let mut ok = true;
                for q in 0..n { if q != m && bc[q] == bc[m] && st[q] == S::In && to[q][col] == B::Pend && ent[q] < ent[m] { ok &= prio[q] != prio[m]; } }
                check(ok, 306);
                rs[j] = R::Idle;
                to[m][col] = B::Done;
                if bc[m] {
                    // room for a waiting broadcast once the slowest mailbox has room
                    let l = longest(&to, &bc, &st, n, &mbs);
                    let room = cap.map_or(false, |c| l < c);
                    let was = st;
                    admit(&mut bsend, &mut st, &prio, n, room, 510);
                    for q in 0..n { if was[q] != st[q] { now += 1; ent[q] = now; enter(&mut to, q, &mbs); tell(&mut rs, &rcv); } }
                } else {
                    let q = (0..n).filter(|q| !bc[*q] && st[*q] == S::In && to[*q][0] == B::Pend).count();
                    let room = cap.map_or(false, |c| q < c);
                    let was: [S; NM] = st;
                    admit(&mut usend, &mut st, &prio, n, room, 512);
                    for q in 0..n { if was[q] != st[q] { now += 1; ent[q] = now; to[q][0] = B::Pend; } }
                }
            }
            4 => { // cancel a waiting send
                let mut c = NM;
                for q in 0..n { if st[q] == S::Waiting { c = q; } }
                assume(c != NM);
                give_up((bsend[c].take(), usend[c].take()));
                st[c] = S::Cancelled;
                check(w().drops[c] == 1 && w().made[c] == 1, 1603);
                cover(4);
            }
            5 => { // another mailbox
                assume(mbs.len() < 2);
                let c = mbs[0].as_ref().unwrap().clone(); mbs.push(Some(c));
            }
            _ => { // one of two mailboxes goes away (nothing waits on it)
                assume(mbs.len() == 2 && mbs[0].is_some() && mbs[1].is_some());
                let j = pick(3, 2) as usize;
                assume(rs[j] == R::Idle);
                let l0 = longest(&to, &bc, &st, n, &mbs);
                give_up(mbs[j].take());
                let l1 = longest(&to, &bc, &st, n, &mbs);
                for q in 0..n { if bc[q] && to[q][j] == B::Pend { to[q][j] = B::Not; } }
                if l1 < l0 {
                    // what it had not handled no longer holds anybody up
                                        cover(5);
                    let waiting = (0..n).filter(|q| bc[*q] && st[*q] == S::Waiting).count();
                    let room = cap.map_or(0, |c| if c > l1 { c - l1 } else { 0 });
                    let k = if room < waiting { room } else { waiting };
                    let was = st;
                    admit_k(&mut bsend, &mut st, &prio, n, k, 522);
                    for q in 0..n { if was[q] != st[q] { now += 1; ent[q] = now; enter(&mut to, q, &mbs); tell(&mut rs, &rcv); } }
                    check(addr.len() == l1 + k + (0..n).filter(|q| !bc[*q] && st[*q] == S::In && to[*q][0] == B::Pend).count(), 521);
                }
            }
        }
        let q = (0..n).filter(|q| !bc[*q] && st[*q] == S::In && to[*q][0] == B::Pend).count();
        check(addr.len() == q + longest(&to, &bc, &st, n, &mbs), 1507);
        for m in 0..n { if bc[m] {
            for j in 0..2 { check(w().handled[j][m] == (to[m][j] == B::Done) as u32, 205); }
        } else { check(w().total(m) <= 1, 206); } }
    }
    // Wind up: everybody catches up.
    for j in 0..2 { if rs[j] == R::Waits || rs[j] == R::Told { rcv[j] = None; } else if let R::Direct(_) = rs[j] {
        let mut t = rcv[j].take().unwrap(); check(t.run(), 619);
        let mut d = Task::new(t.out.take().unwrap().dispatch_to(&mut acts[j])); check(d.poll(), 620); } }
    for _ in 0..NM { for j in 0..mbs.len() { if let Some(mb) = &mbs[j] { step(mb, &mut acts[j]); } } }
    let (mut nb, mut nu) = (0, 0);
    for m in 0..n {
        if st[m] == S::Cancelled { check(w().total(m) == 0, 1604); continue; }
        if bc[m] {
            nb += 1;
            let waiting = st[m] == S::Waiting;
            if let Some(t) = bsend[m].as_mut() { check(t.run(), 621); }
            for j in 0..mbs.len() { if mbs[j].is_some() { check(w().handled[j][m] == (to[m][j] != B::Not || waiting) as u32, 207); } }
        } else {
            nu += 1;
            if let Some(t) = usend[m].as_mut() { check(t.run(), 622); }
            check(w().total(m) == 1, 208);
        }
    }
    bsend = Default::default(); usend = Default::default();
    drop((bsend, usend));
    drop(mbs);
    for m in 0..n { check(w().made[m] == w().drops[m], 2309); }
    check(addr.len() == 0, 1508);
    if nb > 0 && nu > 0 { cover(2); }
    if nb > 1 { cover(3); }
    cover(1);
}
/// unhandled broadcasts of the slowest mailbox
fn longest(to: &[[B; 2]; NM], bc: &[bool; NM], st: &[S; NM], n: usize, mbs: &Vec<Option<Mailbox<Act>>>) -> usize {
    let mut l = 0;
    for j in 0..mbs.len() { if mbs[j].is_some() { l = l.max((0..n).filter(|q| bc[*q] && st[*q] == S::In && to[*q][j] == B::Pend).count()); } }
    l
}
fn enter(to: &mut [[B; 2]; NM], m: usize, mbs: &Vec<Option<Mailbox<Act>>>) { for j in 0..mbs.len() { if mbs[j].is_some() { to[m][j] = B::Pend; } } }
fn tell<T: std::future::Future>(rs: &mut [R; 2], rcv: &[Option<Task<T>>; 2]) {
    for j in 0..2 { if rs[j] == R::Waits { check(rcv[j].as_ref().unwrap().woken(), 623); rs[j] = R::Told; } }
}
/// A waiting sender is let in if there is room: exactly one, the most urgent, and it is woken.
fn admit<T: std::future::Future>(sends: &mut [Option<Task<T>>; NM], st: &mut [S; NM], prio: &[u32; NM], n: usize, room: bool, code: u32) {
    let any = (0..n).any(|q| st[q] == S::Waiting && sends[q].is_some());
    admit_k(sends, st, prio, n, (room && any) as usize, code)
}
/// Exactly the k most urgent waiting senders are let in, and woken.
fn admit_k<T: std::future::Future>(sends: &mut [Option<Task<T>>; NM], st: &mut [S; NM], prio: &[u32; NM], n: usize, k: usize, code: u32) {
    let mut adm = [false; NM]; let mut c = 0;
    for q in 0..n { if st[q] == S::Waiting { if let Some(t) = sends[q].as_mut() {
        let wk = t.woken();
        if t.poll() { check(wk, 624); adm[q] = true; c += 1; } else { check(!wk, 625); }
    } } }
    check(c == k, code);
    let mut ok = true;
    for a in 0..n { if adm[a] { for q in 0..n { if !adm[q] && st[q] == S::Waiting && sends[q].is_some() { ok &= prio[q] <= prio[a]; } } } }
    check(ok, 404);
    let mut ok = true;
    for a in 0..n { if adm[a] { for q in 0..a { if !adm[q] && st[q] == S::Waiting && sends[q].is_some() { ok &= prio[q] != prio[a]; } } } }
    check(ok, 307);
    for q in 0..n { if adm[q] { st[q] = S::In; } }
}
#[no_mangle] pub extern "C" fn h_bcast_4() { bcast(4, 6) }
#[no_mangle] pub extern "C" fn h_bcast_5() { bcast(5, 6) }
#[no_mangle] pub extern "C" fn h_bcast_6() { bcast(6, 6) }
#[no_mangle] pub extern "C" fn h_bcast_m4() { bcast(4, 7) }
#[no_mangle] pub extern "C" fn h_bcast_m5() { bcast(5, 7) }
#[no_mangle] pub extern "C" fn h_bcast_m6() { bcast(6, 7) }
