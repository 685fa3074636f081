//! Histories of operations on one address and one mailbox, against a reference model.
//! Decides, by code range: 1xx exactly-once, 3xx FIFO, 4xx priority, 5xx backpressure, 6xx progress,
//! 11xx responses, 15xx accounting, 16xx cancelled sends, 17xx cancelled receives, 23xx destruction.
use crate::vx::*;
use crate::world::*;
use crate::p_refs::{handle, Det, H};
use xtra::prelude::*;

#[derive(Clone, Copy, PartialEq)]
enum St { Unsent, Waiting, Queued, Direct, Handled, Cancelled }

pub fn history(steps: usize, with_cancel: bool, chan: bool) {
    init();
    let cap = match pick(1, 3) { 0 => None, 1 => Some(1usize), _ => Some(2) };
    let (addr, mailbox) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let weak = addr.downgrade();
    let ch = if chan { let k = pick(4, 8); handle(&weak, if k < 4 { Some(&addr) } else { None }, if k < 4 { k + 1 } else { k - 3 }) } else { H::W(weak.clone()) };
    check(addr.capacity() == cap && ch.capacity() == cap, 1501);
    let mut act = Act::new(0);
    let mut st = [St::Unsent; NM];
    let mut prio = [0u32; NM];
    let mut val = [0u32; NM];
    let mut n = 0; // messages sent
    let mut sends: [Option<Task<_>>; NM] = Default::default();
    let mut resp: [Option<Task<_>>; NM] = Default::default();
    let mut rcv: Option<Task<_>> = None; // a receive that is still waiting
    let mut requeued = 0usize; // messages handed back by cancelled receives (may exceed the capacity)
    for _ in 0..steps {
        let op = pick(2, if with_cancel { 5 } else { 3 });
        match op {
            0 | 2 => { // send: default priority, or an arbitrary one
                let m = n; n += 1;
                val[m] = any_u32(10 + m as u32);
                let p = if op == 2 { prio[m] = any_u32(20 + m as u32); Some(prio[m]) } else { None };
                let mut t = Task::new(if chan { ch.send(uni(m, val[m]), p) } else {
                    let f = addr.send(uni(m, val[m]));
                    match p { Some(p) => Box::pin(f.priority(p).detach()) as Det, None => Box::pin(f.detach()) as Det }
                });
                let queued = st.iter().filter(|s| **s == St::Queued).count();
                let direct = rcv.is_some() && !st.contains(&St::Direct);
                let full = cap.map_or(false, |c| queued >= c);
                let done = t.poll();
                if direct { check(done, 601); } else { check(done == !full, 501); }
                if done {
                    st[m] = if direct { St::Direct } else { St::Queued };
                    match t.out.take().unwrap() { Ok(r) => resp[m] = Some(Task::new(r)), Err(_) => check(false, 701) }
                } else { st[m] = St::Waiting; check(!t.woken(), 502); }
                sends[m] = Some(t);
                if direct { check(rcv.as_ref().unwrap().woken(), 602); }
            }
            1 => { // receive
                let mut t = rcv.take().unwrap_or_else(|| Task::new(mailbox.next()));
                let avail = st.iter().any(|s| *s == St::Queued || *s == St::Direct);
                let done = t.poll();
                check(done == avail, 603);
                if done {
                    let before = w().norder[0];
                    let mut d = Task::new(t.out.take().unwrap().dispatch_to(&mut act));
                    check(d.poll(), 604);
                    check(d.out.take() == Some(std::ops::ControlFlow::Continue(())), 1001);
                    check(w().norder[0] == before + 1, 101);
                    let m = w().order[0][before] as usize;
                    check(m < n, 102);
                    // a message handed straight to a waiting receive was the only one around at that time
                    let was_direct = st[m] == St::Direct;
                    check(st[m] == St::Queued || was_direct, 103);
                    check(!(!was_direct && st.contains(&St::Direct)), 104);
                    if !was_direct {
                        let mut ok_prio = true; let mut ok_fifo = true;
                        for q in 0..n { if q != m && st[q] == St::Queued {
                            ok_prio &= prio[q] <= prio[m];
                            ok_fifo &= !((prio[q] == prio[m]) & (q < m));
                        } }
                        check(ok_prio, 401);
                        check(ok_fifo | (requeued > 0), 301);
                    }
                    st[m] = St::Handled;
                    // room was made: a waiting sender is let in, the most urgent first
                    let queued = st.iter().filter(|s| **s == St::Queued).count();
                    let waiting = st.iter().filter(|s| **s == St::Waiting).count();
                    let mut admitted = NM;
                    for q in 0..n { if st[q] == St::Waiting {
                        let t = sends[q].as_mut().unwrap();
                        let woken = t.woken();
                        let done = t.poll();
                        check(woken == done, 605);
                        if done {
                            check(admitted == NM, 503);
                            admitted = q;
                            match t.out.take().unwrap() { Ok(r) => resp[q] = Some(Task::new(r)), Err(_) => check(false, 702) }
                        }
                    } }
                    let room = cap.map_or(false, |c| queued < c);
                    check((admitted != NM) == (room && waiting > 0), 504);
                    if admitted != NM {
                        let mut ok_prio = true; let mut ok_fifo = true;
                        for q in 0..n { if st[q] == St::Waiting {
                            ok_prio &= prio[q] <= prio[admitted];
                            ok_fifo &= !((prio[q] == prio[admitted]) & (q < admitted));
                        } }
                        check(ok_prio, 402);
                        check(ok_fifo, 302);
                        st[admitted] = St::Queued;
                    }
                } else { rcv = Some(t); }
            }
            3 => { // cancel a send that is still waiting
                let k = pick(3, 2); // the oldest or the newest one
                let mut c = NM;
                for q in 0..n { if st[q] == St::Waiting && (c == NM || k == 1) { c = q; } }
                assume(c != NM);
                let before = w().drops[c];
                give_up(sends[c].take());
                st[c] = St::Cancelled;
                check(before == 0 && w().drops[c] == 1, 1601);
            }
            _ => { // cancel a waiting receive
                assume(rcv.is_some());
                give_up(rcv.take());
                for q in 0..n { if st[q] == St::Direct { st[q] = St::Queued; requeued += 1; } }
            }
        }
        let queued = st.iter().filter(|s| **s == St::Queued).count();
        check(addr.len() == queued, 1502);
        check(addr.is_empty() == (queued == 0), 1503);
        if chan { check(ch.len() == queued && ch.is_empty() == (queued == 0) && ch.connected(), 2501); }
        for m in 0..n {
            check(w().total(m) == (st[m] == St::Handled) as u32, 105);
            check(w().made[m] == 1, 2301);
            check(w().drops[m] == (st[m] == St::Handled || st[m] == St::Cancelled) as u32, 2302);
        }
    }
    // Finish: the mailbox is drained, every waiting send is let in.
    if let Some(mut t) = rcv.take() {
        if t.run() { let mut d = Task::new(t.out.take().unwrap().dispatch_to(&mut act)); d.poll(); }
    }
    for _ in 0..NM { if step(&mailbox, &mut act).is_none() { break; } }
    for m in 0..n {
        if let Some(t) = sends[m].as_mut() {
            if st[m] == St::Waiting {
                check(t.run(), 606);
                match t.out.take() { Some(Ok(r)) => resp[m] = Some(Task::new(r)), _ => check(false, 703) }
            }
        }
        if st[m] == St::Cancelled { check(w().total(m) == 0, 1602); }
        else {
            check(w().total(m) == 1 && w().total_completed(m) == 1, 106);
            let r = resp[m].as_mut();
            check(r.is_some(), 1101);
            let r = r.unwrap();
            check(r.poll(), 1102);
            check(r.out == Some(Ok(reply(val[m]))), 1103);
        }
        check(w().drops[m] == 1, 2303);
    }
    check(addr.len() == 0, 1504);
    if requeued > 0 { cover(3); }
    if st.contains(&St::Cancelled) { cover(2); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_uni_a3() { history(3, false, false) }
#[no_mangle] pub extern "C" fn h_uni_a4() { history(4, false, false) }
#[no_mangle] pub extern "C" fn h_uni_a5() { history(5, false, false) }
#[no_mangle] pub extern "C" fn h_uni_a6() { history(6, false, false) }
#[no_mangle] pub extern "C" fn h_uni_c4() { history(4, true, false) }
#[no_mangle] pub extern "C" fn h_uni_c5() { history(5, true, false) }
#[no_mangle] pub extern "C" fn h_uni_c6() { history(6, true, false) }
#[no_mangle] pub extern "C" fn h_uni_a7() { history(7, false, false) }
#[no_mangle] pub extern "C" fn h_uni_c7() { history(7, true, false) }
#[no_mangle] pub extern "C" fn h_chan_3() { history(3, true, true) }
#[no_mangle] pub extern "C" fn h_chan_4() { history(4, true, true) }
#[no_mangle] pub extern "C" fn h_chan_5() { history(5, true, true) }
#[no_mangle] pub extern "C" fn h_chan_6() { history(6, true, true) }
