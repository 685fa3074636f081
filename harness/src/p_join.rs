//! Waiting for an actor to stop, and tasks scoped to it: histories of several waiters, completions of the scoped
//! futures, drops of mailboxes and addresses, against a model (12xx); the same with threads.
use crate::p_refs::{handle, H};
use crate::p_sel::{Await, Later, Sig};
use crate::vx::*;
use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use xtra::prelude::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Out { Gone, Value(u32) }
type Fut = Pin<Box<dyn Future<Output = Out>>>;
const MW: usize = 3;

fn waiter(h: &H, sig: Option<*mut Sig>) -> Fut {
    macro_rules! sc { ($a:expr, $s:expr) => {{ let f = xtra::scoped($a, Await { sig: $s, id: 0 }); Box::pin(async move { match f.await { Some(v) => Out::Value(v), None => Out::Gone } }) }} }
    match sig {
        None => { let j = h.join(); Box::pin(async move { j.await; Out::Gone }) }
        Some(s) => match h { H::S(a) => sc!(a, s), H::W(a) => sc!(a, s), H::E(a) => sc!(a, s), _ => { let j = h.join(); Box::pin(async move { j.await; Out::Gone }) } },
    }
}
pub fn join(steps: usize) {
    init();
    let (addr, mb) = match pick(1, 2) { 0 => Mailbox::<Act>::unbounded(), _ => Mailbox::bounded(1) };
    let mut mbs = [Some(mb.clone()), if pick(2, 2) == 1 { Some(mb.clone()) } else { None }];
    drop(mb);
    let weak = addr.downgrade();
    let mut strong = Some(addr);
    let mut n = 0;
    let mut t: [Option<Task<Fut>>; MW] = Default::default();
    let mut sig: [Option<*mut Sig>; MW] = [None; MW];
    let mut early = [false; MW]; // created with the mailboxes already gone (or the last strong address)
    for _ in 0..steps {
        let gone = mbs.iter().all(|m| m.is_none());
        match pick(3, 6) {
            0 => { // another waiter, through a handle of any kind that is gone right afterwards
                assume(n < MW);
                let k = pick(4, 6); // strong/weak/either-address, strong/weak/either-channel
                let strength = if k < 3 { strong.as_ref() } else { None };
                assume(k >= 3 || strength.is_some());
                let h = handle(&weak, strength, k % 3);
                let scoped = pick(5, 2) == 1;
                assume(!scoped || k % 3 < 2);
                if scoped { sig[n] = Some(leak(Sig { done: false, v: any_u32(10 + n as u32), waker: None, polls: 0 })); }
                early[n] = gone || strong.is_none();
                t[n] = Some(Task::new(waiter(&h, sig[n])));
                n += 1;
            }
            1 => { // poll one
                let k = pick(6, MW as u32) as usize;
                assume(t[k].is_some());
                let task = t[k].as_mut().unwrap();
                assume(!task.done());
                let value = sig[k].map(|s| unsafe { &*s }).filter(|s| s.done).map(|s| s.v);
                let woken = task.woken(); let before = task.polled;
                let done = task.poll();
                let expect = if gone || early[k] { Some(Out::Gone) } else { value.map(Out::Value) };
                if before { check(!expect.is_some() || woken, 652); }
                check(done == expect.is_some(), 1210);
                check(!done || task.out == expect, 1211);
                if let Some(s) = sig[k] { if done && expect == Some(Out::Gone) { check(unsafe { &*s }.polls <= 1 + before as u32 * 9, 1212); } }
                match expect { Some(Out::Value(_)) => cover(2), Some(Out::Gone) if before => cover(3), Some(Out::Gone) => cover(4), _ => {} }
            }
            2 => { // a scoped future completes
                let k = pick(6, MW as u32) as usize;
                assume(sig[k].is_some());
                let s = unsafe { &mut *sig[k].unwrap() };
                assume(!s.done);
                s.done = true;
                if let Some(w) = s.waker.take() { w.wake(); }
            }
            3 => { // a mailbox goes
                let j = pick(7, 2) as usize;
                assume(mbs[j].is_some());
                give_up(mbs[j].take());
            }
            4 => { assume(strong.is_some()); give_up(strong.take()); }
            _ => { // a waiter is given up
                let k = pick(6, MW as u32) as usize;
                assume(t[k].as_ref().map_or(false, |t| !t.done()));
                give_up(t[k].take());
                cover(5);
            }
        }
        // nobody is forgotten
        let gone = mbs.iter().all(|m| m.is_none());
        for k in 0..n { if let Some(task) = &t[k] { if task.polled && !task.done() {
            let fin = sig[k].map_or(false, |s| unsafe { &*s }.done);
            check(task.woken() >= (gone || fin), 1213);
        } } }
        check(weak.is_connected() == (!gone && strong.is_some()), 1214);
    }
    drop(mbs);
    for k in 0..n { if let Some(task) = t[k].as_mut() {
        check(task.run(), 1215);
        let _ = task;
    } }
    let _ = strong.take();
    drop(t);
    for s in sig { if let Some(s) = s { unleak(s); } }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_join_4() { join(4) }
#[no_mangle] pub extern "C" fn h_join_5() { join(5) }
#[no_mangle] pub extern "C" fn h_join_6() { join(6) }
#[no_mangle] pub extern "C" fn h_join_7() { join(7) }

/// Two waiters (one of them a scoped task) set up their waits while the last mailbox goes.
#[no_mangle] pub extern "C" fn h_c_join() {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let t1 = spawn(move || block_on(addr.join()));
    let sig: *mut Sig = leak(Sig { done: false, v: 5, waker: None, polls: 0 });
    let t2 = spawn(move || { let r = block_on(xtra::scoped(&weak, Await { sig, id: 0 })); check(r == None, 1216); });
    let t3 = spawn(move || drop(mb));
    quiesce();
    check(finished(t3), 1217);
    check(finished(t1), 1218);
    check(finished(t2), 1219);
    cover(1);
}
/// The last two mailboxes go at the same time, one by way of an abandoned receive.
#[no_mangle] pub extern "C" fn h_c_join2() {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mb2 = mb.clone();
    let rcv = pick(1, 2) == 1;
    let t1 = spawn(move || block_on(addr.join()));
    let t2 = spawn(move || drop(mb));
    let t3 = spawn(move || { if rcv { let mut t = Task::new(mb2.next()); drop(mb2); t.poll(); t.cancel(); } else { drop(mb2) } });
    quiesce();
    check(finished(t2) && finished(t3), 1220);
    check(finished(t1), 1221);
    cover(1);
}
/// An actor that is stopped, by itself or by its last address, with a waiter and a sender of its own.
#[no_mangle] pub extern "C" fn h_c_joinrun() {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let own = pick(1, 2) == 1;
    let t1 = spawn(move || { if own { let _ = block_on(addr.send(StopSelf { tok: Tok::new(0) }).detach()); std::mem::forget(addr); } });
    let t2 = spawn(move || { block_on(weak.join()); check(!weak.is_connected(), 1222); });
    let t3 = spawn(move || { let r = block_on(xtra::run(mb, Act::new(0))); check(r == 0, 1223); });
    quiesce();
    check(finished(t1) && finished(t3), 1224);
    check(finished(t2), 1225);
    check(w().stopped[0] == 1 && w().drops[0] == w().made[0], 1226);
    cover(1);
}

/// A scoped task that completes just as the actor goes away.
#[no_mangle] pub extern "C" fn h_c_scoped() {
    init();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let how = pick(1, 2);
    let later = Later::new(17);
    let weak = addr.downgrade();
    let t1 = spawn(move || {
        let r = block_on(xtra::scoped(&weak, later));
        check(r == Some(17) || r == None, 1240);
        if r == None { check(!weak.is_connected(), 1241); }
    });
    let t2 = spawn(move || later.complete());
    let t3 = spawn(move || match how {
        0 => drop(mb),
        _ => { let mut t = Task::new(mb.next()); drop(mb); t.poll(); t.cancel(); }
    });
    quiesce();
    check(finished(t2) && finished(t3), 1242);
    check(finished(t1), 1243);
    drop(addr);
    cover(1);
}
