//! Histories of sends, receives (which may wait, and be abandoned), and of addresses and mailboxes coming and
//! going, against a reference model. 7xx disconnection, 8xx end of life by last strong address, 6xx wake-ups,
//! 1xx exactly-once, 11xx responses, 12xx join, 14xx connectedness, 15xx len, 17xx receive cancellation, 23xx destruction.
use crate::vx::*;
use crate::world::*;
use std::ops::ControlFlow;
use crate::p_refs::handle;
use xtra::prelude::*;
use xtra::Error;

#[derive(Clone, Copy, PartialEq)]
enum St { Unsent, Waiting, Queued, Direct(usize), Handled, Lost, Refused }
struct Rc<T: std::future::Future> { t: Task<T>, mb: usize, live: bool, assigned: bool, told: bool }

pub fn disc(steps: usize, kinds: &[u32]) {
    init();
    let cap = if pick(1, 2) == 0 { None } else { Some(1usize) };
    let (addr, mailbox) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let up = addr.downgrade();
    let kind = if kinds.len() > 1 { kinds[pick(4, kinds.len() as u32) as usize] } else { kinds[0] };
    let weak = handle(&up, None, kind);
    let mut strongs = vec![handle(&up, Some(&addr), kind)];
    drop(addr);
    let mut mbs: Vec<Option<Mailbox<Act>>> = vec![Some(mailbox)];
    let mut act = Act::new(0);
    let mut st = [St::Unsent; NM];
    let mut n = 0;
    let mut sends: [Option<Task<_>>; NM] = Default::default();
    let mut resp: [Option<Task<_>>; NM] = Default::default();
    let mut rcv: Vec<Rc<_>> = Vec::new();
    let mut join = Task::new(weak.join());
    check(!join.poll(), 1202);
    let mut disconnected = false;
    for _ in 0..steps {
        let nmb = mbs.iter().filter(|m| m.is_some()).count();
        match pick(2, 6) {
            0 => { // send (through the weak address, which keeps nothing alive)
                let m = n; n += 1;
                let mut t = Task::new(weak.send(uni(m, m as u32), None));
                let done = t.poll();
                let queued = st.iter().filter(|s| **s == St::Queued).count();
                let idle = rcv.iter().any(|r| r.live && !r.assigned && !r.told);
                if strongs.is_empty() || disconnected {
                    check(done, 701);
                    check(matches!(t.out, Some(Err(Error::Disconnected))), 702);
                    st[m] = St::Refused;
                    check(w().drops[m] == 1, 2304);
                    t.out = None;
                } else if idle {
                    check(done, 607);
                    // exactly one of the waiting receives is woken for it
                    let mut hit = NM;
                    for (k, r) in rcv.iter_mut().enumerate() { if r.live && !r.assigned && r.t.woken() { check(hit == NM, 608); hit = k; } }
                    check(hit != NM, 609);
                    rcv[hit].assigned = true;
                    st[m] = St::Direct(hit);
                } else {
                    let full = cap.map_or(false, |c| queued >= c);
                    check(done == !full, 505);
                    st[m] = if done { St::Queued } else { St::Waiting };
                }
                if let Some(o) = t.out.take() { match o { Ok(r) => resp[m] = Some(Task::new(r)), Err(_) => check(false, 703) } }
                sends[m] = Some(t);
            }
            1 => { // receive: go on with a waiting one, or start another
                assume(nmb > 0);
                let j = if mbs.len() > 1 && mbs[0].is_some() && mbs[1].is_some() { pick(3, 2) as usize } else if mbs[0].is_some() { 0 } else { 1 };
                let mut k = NM;
                for (i, r) in rcv.iter().enumerate() { if r.live && r.mb == j { k = i; } }
                if k == NM { k = rcv.len(); rcv.push(Rc { t: Task::new(mbs[j].as_ref().unwrap().next()), mb: j, live: true, assigned: false, told: false }); }
                let mine = st.iter().position(|s| *s == St::Direct(k));
                let queued = st.iter().filter(|s| **s == St::Queued).count();
                let fresh = !rcv[k].t.polled;
                let done = rcv[k].t.poll();
                // a receive that already waits is only ever completed by being handed something
                let expect = if fresh { queued > 0 || strongs.is_empty() } else { mine.is_some() || rcv[k].told };
                check(done == expect, 610);
                if done {
                    let before = w().norder[0];
                    let mut d = Task::new(rcv[k].t.out.take().unwrap().dispatch_to(&mut act));
                    check(d.poll(), 611);
                    let flow = d.out.take().unwrap();
                    rcv[k].live = false;
                    if w().norder[0] == before {
                        // nothing to handle: told to stop, which needs every strong address gone and nothing queued when it was decided
                        check(flow == ControlFlow::Break(()), 803);
                        check(strongs.is_empty() && mine.is_none(), 804);
                        check(queued == 0, 805);
                    } else {
                        check(flow == ControlFlow::Continue(()), 1002);
                        check(w().norder[0] == before + 1, 107);
                        let m = w().order[0][before] as usize;
                        check(m < n, 108);
                        if let Some(x) = mine { check(m == x, 109); } else { check(st[m] == St::Queued, 110); }
                        let wasq = st[m] == St::Queued;
                        st[m] = St::Handled;
                        if let Some(t) = resp[m].as_mut() { check(t.poll(), 1104); check(t.out == Some(Ok(reply(m as u32))), 1105); } else { check(false, 1106); }
                        // a waiting send takes the place
                        let left = st.iter().filter(|s| **s == St::Queued).count();
                        let mut adm = 0;
                        for q in 0..n { if st[q] == St::Waiting {
                            let t = sends[q].as_mut().unwrap();
                            let wk = t.woken();
                            if t.poll() { check(wk, 612); adm += 1; st[q] = St::Queued; match t.out.take() { Some(Ok(r)) => resp[q] = Some(Task::new(r)), _ => check(false, 704) } }
                            else { check(!wk, 613); }
                        } }
                        let waiting = st.iter().filter(|s| **s == St::Waiting).count() + adm;
                        check((adm > 0) == (wasq && waiting > 0 && cap.map_or(false, |c| left < c)), 506);
                        check(adm <= 1, 507);
                    }
                }
            }
            2 => { // abandon a waiting receive, keeping the mailbox
                let mut k = NM;
                for (i, r) in rcv.iter().enumerate() { if r.live && (k == NM || r.assigned) { k = i; } }
                assume(k != NM);
                abandon(&mut rcv, k, &mut st);
            }
            3 => { // a mailbox goes away, with the receive waiting on it
                assume(nmb > 0);
                let j = if mbs[0].is_some() && mbs.len() > 1 && mbs[1].is_some() { pick(3, 2) as usize } else if mbs[0].is_some() { 0 } else { 1 };
                for k in 0..rcv.len() { if rcv[k].live && rcv[k].mb == j { abandon(&mut rcv, k, &mut st); } }
                give_up(mbs[j].take());
                if nmb == 1 {
                    disconnected = true;
                    cover(2);
                    for q in 0..n {
                        if st[q] == St::Queued {
                            st[q] = St::Lost;
                            let r = resp[q].as_mut().unwrap();
                            check(r.poll(), 705);
                            check(r.out == Some(Err(Error::Interrupted)), 706);
                            check(w().drops[q] == 1, 2305);
                        }
                        if st[q] == St::Waiting {
                            st[q] = St::Refused;
                            cover(3);
                            let t = sends[q].as_mut().unwrap();
                            check(t.woken(), 707);
                            check(t.poll(), 708);
                            check(matches!(t.out, Some(Err(Error::Disconnected))), 709);
                            t.out = None;
                            check(w().drops[q] == 1, 2306);
                        }
                    }
                    check(join.woken(), 1203);
                    check(join.run(), 1204);
                }
            }
            4 => { // a strong address goes away
                assume(!strongs.is_empty());
                give_up(strongs.pop());
                if strongs.is_empty() {
                    for r in rcv.iter_mut() { if r.live && !r.assigned { check(r.t.woken(), 806); r.told = true; cover(4); } }
                } else { for r in rcv.iter() { if r.live && !r.assigned { check(!r.t.woken(), 807); } } }
            }
            _ => { // another mailbox, or another strong address
                if pick(3, 2) == 0 { assume(mbs.len() < 2 && mbs[0].is_some()); let c = mbs[0].as_ref().unwrap().clone(); mbs.push(Some(c)); }
                else { let u = up.try_upgrade(); check(u.is_some() == !strongs.is_empty(), 808); assume(strongs.len() == 1); strongs.push(handle(&up, u.as_ref(), kind)); }
            }
        }
        let queued = st.iter().filter(|s| **s == St::Queued).count();
        check(weak.len() == queued, 1506);
        check(weak.connected() == (!disconnected && !strongs.is_empty()), 1404);
        if !disconnected { check(!join.woken() && !join.poll(), 1205); }
        for m in 0..n {
            check(w().total(m) == (st[m] == St::Handled) as u32, 111);
            check(w().drops[m] == matches!(st[m], St::Handled | St::Lost | St::Refused) as u32, 2307);
        }
    }
    // Wind up: with every strong address gone, whoever still has a mailbox drains it and is then told to stop.
    strongs.clear();
    for k in 0..rcv.len() { if rcv[k].live { abandon(&mut rcv, k, &mut st); } }
    if !disconnected {
        let mb = mbs.iter().find(|m| m.is_some()).unwrap().as_ref().unwrap();
        let pending = st.iter().filter(|s| matches!(s, St::Queued | St::Waiting)).count();
        for _ in 0..pending { check(step(mb, &mut act) == Some(ControlFlow::Continue(())), 809); }
        check(step(mb, &mut act) == Some(ControlFlow::Break(())), 810);
        for m in 0..n { if matches!(st[m], St::Queued | St::Waiting) { check(w().total(m) == 1 && w().total_completed(m) == 1, 112); cover(5); } }
    }
    for m in 0..n { if st[m] == St::Waiting { sends[m] = None; } check(w().drops[m] == 1, 2308); }
    cover(1);
}
/// A receive is dropped. What it had been handed already goes to another waiting receive, or back into the mailbox.
fn abandon<T: std::future::Future>(rcv: &mut Vec<Rc<T>>, k: usize, st: &mut [St; NM]) {
    rcv[k].live = false;
    rcv[k].t.cancel();
    if let Some(m) = st.iter().position(|s| *s == St::Direct(k)) {
        cover(6);
        let mut hit = NM; let mut idle = false;
        for (i, r) in rcv.iter().enumerate() { if r.live && !r.assigned && !r.told { idle = true; if r.t.woken() { check(hit == NM, 1701); hit = i; } } }
        check((hit != NM) == idle, 1702);
        if hit != NM { rcv[hit].assigned = true; st[m] = St::Direct(hit); cover(7); } else { st[m] = St::Queued; }
        check(w().drops[m] == 0, 1703);
    }
}
#[no_mangle] pub extern "C" fn h_disc_4() { disc(4, &[0]) }
#[no_mangle] pub extern "C" fn h_disc_5() { disc(5, &[0]) }
#[no_mangle] pub extern "C" fn h_disc_6() { disc(6, &[0]) }
#[no_mangle] pub extern "C" fn h_disc_7() { disc(7, &[0]) }
#[no_mangle] pub extern "C" fn h_disc_e5() { disc(5, &[1]) }
#[no_mangle] pub extern "C" fn h_disc_e6() { disc(6, &[1]) }
#[no_mangle] pub extern "C" fn h_dchan_4() { disc(4, &[2, 3, 4]) }
#[no_mangle] pub extern "C" fn h_dchan_5() { disc(5, &[2, 3, 4]) }
#[no_mangle] pub extern "C" fn h_dchan_6() { disc(6, &[2, 3, 4]) }
