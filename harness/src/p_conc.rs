//! Threads against one another, every interleaving of the shared-memory accesses up to the preemption bound.
//! Each harness ends in quiescence: whoever is not finished by then would wait forever.
use crate::vx::*;
use crate::world::*;
use std::ops::ControlFlow;
use xtra::prelude::*;
use xtra::Error;

fn mk(k: u32) -> (Address<Act>, Mailbox<Act>) { match k { 0 => Mailbox::unbounded(), c => Mailbox::bounded(c as usize) } }
fn run_actor(mb: Mailbox<Act>, id: usize) -> u32 { spawn(move || { let r = block_on(xtra::run(mb, Act::new(id))); check(r == id, 1004); }) }
fn sent(m: usize) { check(w().total(m) == 1 && w().total_completed(m) == 1, 113); check(w().made[m] == 1 && w().drops[m] == 1, 2310); }

fn once(m: usize) { check(w().total(m) == 1 && w().total_completed(m) == 1, 130); check(w().made[m] == w().drops[m], 2331); }

/// Two senders awaiting their responses, one actor.
#[no_mangle] pub extern "C" fn h_c_2s1a() {
    init();
    let (addr, mb) = mk(pick(1, 2));
    let a2 = addr.clone();
    let t1 = spawn(move || { let r = block_on(addr.send(uni(0, 7))); check(r == Ok(reply(7)), 1107); });
    let t2 = spawn(move || { let r = block_on(a2.send(uni(1, 9))); check(r == Ok(reply(9)), 1108); });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2), 626);
    check(finished(t3), 811);
    sent(0); sent(1);
    check(w().started[0] == 1 && w().stopped[0] == 1, 1005);
    cover(1);
}
/// One sender filling a bounded mailbox (two messages, the second may have to wait), two actors sharing it.
#[no_mangle] pub extern "C" fn h_c_1s2a() {
    init();
    let (addr, mb) = mk(1);
    let mb2 = mb.clone();
    let t1 = spawn(move || {
        check(block_on(addr.send(fire(0)).detach()).is_ok(), 711);
        check(block_on(addr.send(fire(1)).detach()).is_ok(), 712);
    });
    let t2 = run_actor(mb, 0);
    let t3 = run_actor(mb2, 1);
    quiesce();
    check(finished(t1), 627);
    check(finished(t2) && finished(t3), 812);
    sent(0); sent(1);
    if w().handled[0][0] == 1 && w().handled[1][1] == 1 { cover(2); }
    if w().handled[0][0] == 1 && w().handled[0][1] == 1 { check(w().pos(0, 0) < w().pos(0, 1), 303); }
    if w().handled[1][0] == 1 && w().handled[1][1] == 1 { check(w().pos(1, 0) < w().pos(1, 1), 304); }
    cover(1);
}
/// The only mailbox goes away while messages are being sent (into room, or waiting for it).
#[no_mangle] pub extern "C" fn h_c_mbdrop() {
    init();
    let full = pick(1, 2) == 1;
    let (addr, mb) = mk(1);
    if full { let mut t = Task::new(addr.send(fire(2)).detach()); check(t.poll(), 713); }
    let weak = addr.downgrade();
    let t1 = spawn(move || {
        let r = block_on(addr.send(uni(0, 7)));
        check(matches!(r, Err(Error::Disconnected) | Err(Error::Interrupted)), 714);
        check(block_on(addr.send(uni(1, 7))) == Err(Error::Disconnected) || addr.is_connected(), 715);
        std::mem::forget(addr); // the address outlives everything
    });
    let t2 = spawn(move || drop(mb));
    let t3 = spawn(move || block_on(weak.join()));
    quiesce();
    check(finished(t2), 716);
    check(finished(t1), 717);
    check(finished(t3), 1206);
    for m in 0..3 { check(w().total(m) == 0, 114); check(w().drops[m] == w().made[m], 2311); }
    cover(1);
}
/// The same for broadcasts.
#[no_mangle] pub extern "C" fn h_c_mbdrop_b() {
    init();
    let full = pick(1, 2) == 1;
    let (addr, mb) = mk(1);
    if full { let mut t = Task::new(addr.broadcast(all(2))); check(t.poll(), 718); }
    let t1 = spawn(move || { let _ = block_on(addr.broadcast(all(0))); check(addr.is_connected() || block_on(addr.broadcast(all(1))) == Err(Error::Disconnected), 719); std::mem::forget(addr); });
    let t2 = spawn(move || drop(mb));
    quiesce();
    check(finished(t1) && finished(t2), 720);
    for m in 0..3 { check(w().total(m) == 0, 209); check(w().drops[m] == w().made[m], 2312); }
    cover(1);
}
/// A waiting receive is abandoned while a message arrives; a second sender may follow.
#[no_mangle] pub extern "C" fn h_c_rcancel() {
    init();
    let two = pick(1, 2) == 1;
    let (addr, mb) = mk(pick(2, 2));
    let mb2: &'static Mailbox<Act> = Box::leak(Box::new(mb));
    let mut t = Task::new(mb2.next());
    check(!t.poll(), 628);
    let addr: &'static Address<Act> = Box::leak(Box::new(addr));
    let t1 = spawn(move || t.cancel());
    let t2 = spawn(move || { check(block_on(addr.send(fire(0)).detach()).is_ok(), 721); if two { check(block_on(addr.send(fire(1)).detach()).is_ok(), 722); } });
    quiesce();
    check(finished(t1), 629);
    let mut act = Act::new(0);
    let mut k = 0;
    while let Some(f) = step(mb2, &mut act) { check(f == ControlFlow::Continue(()), 1006); k += 1; if k > 3 { break; } }
    quiesce();
    check(finished(t2), 630);
    step(mb2, &mut act); step(mb2, &mut act);
    check(w().total(0) == 1, 1704);
    check(w().total(1) == two as u32, 1705);
    check(w().drops[0] == 1 && w().drops[1] == two as u32, 2313);
    check(addr.len() == 0, 1509);
    cover(1);
}
/// A waiting receive is abandoned while a message arrives and another actor waits.
#[no_mangle] pub extern "C" fn h_c_rcancel2() {
    init();
    let (addr, mb) = mk(1);
    let mb2 = mb.clone();
    let mb: &'static Mailbox<Act> = Box::leak(Box::new(mb));
    let mut t = Task::new(mb.next());
    check(!t.poll(), 631);
    let addr: &'static Address<Act> = Box::leak(Box::new(addr));
    let t1 = spawn(move || t.cancel());
    let t2 = spawn(move || { check(block_on(addr.send(fire(0)).detach()).is_ok(), 723); });
    let t3 = spawn(move || { let mut act = Act::new(1); let m = block_on(mb2.next()); block_on(m.dispatch_to(&mut act)); });
    quiesce();
    check(finished(t1) && finished(t2), 632);
    check(finished(t3), 1706);
    check(w().handled[1][0] == 1, 1707);
    cover(1);
}
/// Broadcasts to two running actors, through a mailbox with room for one.
fn c_bcast(two: bool) {
    init();
    let (addr, mb) = mk(1);
    let mb2 = mb.clone();
    let t1 = spawn(move || { check(block_on(addr.broadcast(all(0))).is_ok(), 724); if two { check(block_on(addr.broadcast(all(1))).is_ok(), 725); } });
    let t2 = run_actor(mb, 0);
    let t3 = run_actor(mb2, 1);
    quiesce();
    check(finished(t1), 633);
    check(finished(t2) && finished(t3), 813);
    for m in 0..1 + two as usize { check(w().handled[0][m] == 1 && w().handled[1][m] == 1, 210); check(w().made[m] == w().drops[m], 2314); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_c_bcast1() { c_bcast(false) }
#[no_mangle] pub extern "C" fn h_c_bcast2() { c_bcast(true) }
/// A broadcast and a unicast message race towards one idle actor.
#[no_mangle] pub extern "C" fn h_c_mixed() {
    init();
    let (addr, mb) = mk(1);
    let a2 = addr.clone();
    let t1 = spawn(move || check(block_on(addr.broadcast(all(0))).is_ok(), 726));
    let t2 = spawn(move || check(block_on(a2.send(uni(1, 5))) == Ok(reply(5)), 1109));
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2), 634);
    check(finished(t3), 814);
    check(w().handled[0][0] == 1 && w().handled[0][1] == 1, 211);
    cover(1);
}
/// The last strong address goes away while a weak one is being upgraded and the actor runs.
#[no_mangle] pub extern "C" fn h_c_last() {
    init();
    let (addr, mb) = mk(0);
    let weak = addr.downgrade();
    let t1 = spawn(move || drop(addr));
    let t2 = spawn(move || {
        if let Some(a) = weak.try_upgrade() {
            cover(2);
            check(a.is_connected(), 815);
            check(block_on(a.send(uni(0, 3)).detach()).is_ok(), 816);
        } else { cover(3); check(block_on(weak.send(uni(0, 3)).detach()).is_err(), 817); check(!weak.is_connected(), 1405); w().bad = 1; }
    });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2), 818);
    check(finished(t3), 819);
    check(w().stopped[0] == 1, 820);
    check(w().total(0) == 1 - w().bad, 821);
    check(w().drops[0] == 1, 2315);
    cover(1);
}
/// Two threads give up the last two strong addresses at the same time.
#[no_mangle] pub extern "C" fn h_c_last2() {
    init();
    let (addr, mb) = mk(0);
    let a2 = addr.clone();
    let weak = addr.downgrade();
    let t1 = spawn(move || { let c = addr.clone(); drop(addr); drop(c); });
    let t2 = spawn(move || { let c = a2.as_either(); drop(a2); drop(c); });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2) && finished(t3), 822);
    check(w().stopped[0] == 1, 823);
    check(weak.try_upgrade().is_none() && !weak.is_connected(), 824);
    cover(1);
}
/// One actor stops all, while another message is on its way.
#[no_mangle] pub extern "C" fn h_c_stopall() {
    init();
    let (addr, mb) = mk(1);
    let mb2 = mb.clone();
    let a2 = addr.clone();
    let t1 = spawn(move || { let r = block_on(addr.send(StopAll { tok: Tok::new(0) })); check(r == Ok(78), 1110); std::mem::forget(addr); });
    let t2 = spawn(move || { let r = block_on(a2.send(uni(1, 5))); check(r == Ok(reply(5)) || matches!(r, Err(_)), 1111); if r.is_ok() { check(w().total(1) == 1, 1112); } std::mem::forget(a2); });
    let t3 = run_actor(mb, 0);
    let t4 = run_actor(mb2, 1);
    quiesce();
    check(finished(t3) && finished(t4), 901);
    check(finished(t1) && finished(t2), 635);
    check(w().stopped[0] == 1 && w().stopped[1] == 1, 902);
    check(w().total(1) <= 1 && w().total(0) == 1, 115);
    check(w().drops[0] == 1 && w().drops[1] == 1, 2316);
    cover(1);
}
/// An actor stops itself while a message is on its way: the sender hears back, one way or the other.
#[no_mangle] pub extern "C" fn h_c_stopself() {
    init();
    let (addr, mb) = mk(1);
    let a2 = addr.clone();
    let t1 = spawn(move || { let r = block_on(addr.send(StopSelf { tok: Tok::new(0) })); check(r == Ok(77), 1113); std::mem::forget(addr); });
    let t2 = spawn(move || { let r = block_on(a2.send(uni(1, 5))); check(r == Ok(reply(5)) || r.is_err(), 1114); std::mem::forget(a2); });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t3), 1007);
    check(finished(t1) && finished(t2), 727);
    check(w().stopped[0] == 1, 1008);
    check(w().total(1) <= 1, 116);
    check(w().drops[0] == 1 && w().drops[1] == 1, 2317);
    cover(1);
}
/// A waiting send is given up just as the actor makes room; another sender waits too.
#[no_mangle] pub extern "C" fn h_c_scancel() {
    init();
    let (addr, mb) = mk(1);
    let mut f = Task::new(addr.send(fire(0)).detach());
    check(f.poll(), 636);
    let mut t = Task::new(addr.send(fire(1)).detach());
    check(!t.poll(), 515);
    let mut u = Task::new(addr.send(fire(2)).detach());
    check(!u.poll(), 516);
    let t1 = spawn(move || t.cancel());
    let t2 = spawn(move || { u.flag().wait(); check(u.run(), 637); check(matches!(u.out, Some(Ok(_))), 728); });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2), 638);
    drop(addr);
    quiesce();
    check(finished(t3), 825);
    check(w().total(0) == 1 && w().total(2) == 1, 117);
    check(w().total(1) <= 1 && w().drops[1] == 1, 1605);
    if w().total(1) == 0 { cover(2); } else { cover(3); }
    cover(1);
}
/// The mailbox is cloned while a broadcast is sent.
#[no_mangle] pub extern "C" fn h_c_clone() {
    init();
    let (addr, mb) = mk(pick(1, 2));
    let mb: &'static Mailbox<Act> = Box::leak(Box::new(mb));
    let got = Flag::new();
    let t1 = spawn(move || { check(block_on(addr.broadcast(all(0))).is_ok(), 729); got.set(); });
    let t2 = spawn(move || { let early = !got.get(); let c = mb.clone(); let later = got.get(); let mut a = Act::new(1); while let Some(ControlFlow::Continue(())) = step(&c, &mut a) {} let _ = (early, later); std::mem::forget(c); });
    let t3 = spawn(move || { let mut a = Act::new(0); let m = block_on(mb.next()); block_on(m.dispatch_to(&mut a)); });
    quiesce();
    check(finished(t1) && finished(t2), 639);
    check(finished(t3), 640);
    check(w().handled[0][0] == 1 && w().handled[1][0] <= 1, 212);
    cover(1);
}
/// Two senders into a mailbox with room for one, received by hand: nobody is forgotten.
#[no_mangle] pub extern "C" fn h_c_pull() {
    init();
    let (addr, mb) = mk(1);
    let a2 = addr.clone();
    let t1 = spawn(move || { check(block_on(addr.send(fire(0)).detach()).is_ok(), 730); check(block_on(addr.send(fire(1)).detach()).is_ok(), 731); });
    let t2 = spawn(move || { check(block_on(a2.send(fire(2)).detach()).is_ok(), 732); });
    let t3 = spawn(move || { let mut a = Act::new(0); for _ in 0..3 { let m = block_on(mb.next()); block_on(m.dispatch_to(&mut a)); } });
    quiesce();
    check(finished(t1) && finished(t2), 641);
    check(finished(t3), 642);
    for m in 0..3 { sent(m); }
    check(w().pos(0, 0) < w().pos(0, 1), 305);
    cover(1);
}
/// Two senders and one free place: exactly one of them gets it; nobody is forgotten when the messages are taken.
#[no_mangle] pub extern "C" fn h_c_cap() {
    init();
    let kind = pick(1, 3); // two unicasts, two broadcasts, one each
    let (addr, mb) = mk(1);
    let a2 = addr.clone();
    let t1 = spawn(move || { if kind == 1 { check(block_on(addr.broadcast(all(0))).is_ok(), 754) } else { check(block_on(addr.send(fire(0)).detach()).is_ok(), 755) }; std::mem::forget(addr); });
    let t2 = spawn(move || { if kind != 0 { check(block_on(a2.broadcast(all(1))).is_ok(), 756) } else { check(block_on(a2.send(fire(1)).detach()).is_ok(), 757) }; std::mem::forget(a2); });
    quiesce();
    check(finished(t1) as u32 + finished(t2) as u32 == if kind == 2 { 2 } else { 1 }, 532);
    check(mb.address().len() == if kind == 2 { 2 } else { 1 }, 533);
    let t3 = spawn(move || { let mut a = Act::new(0); for _ in 0..2 { let m = block_on(mb.next()); block_on(m.dispatch_to(&mut a)); } });
    quiesce();
    check(finished(t1) && finished(t2), 670);
    check(finished(t3), 671);
    once(0); once(1);
    cover(1);
}
/// Two receives of the same mailbox on two threads, a broadcast and a unicast message.
#[no_mangle] pub extern "C" fn h_c_same() {
    init();
    let two = pick(1, 2) == 1;
    let (addr, mb) = mk(pick(2, 2));
    let addr: &'static Address<Act> = Box::leak(Box::new(addr));
    let mb: &'static Mailbox<Act> = Box::leak(Box::new(mb));
    let first = move || check(block_on(addr.broadcast(all(0))).is_ok(), 758);
    let early = pick(3, 2) == 1;
    if early { first(); }
    let t1 = spawn(move || { if !early { first(); } check(if two { block_on(addr.broadcast(all(1))).is_ok() } else { block_on(addr.send(fire(1)).detach()).is_ok() }, 759); });
    let r = |id| move || { let mut a = Act::new(id); let m = block_on(mb.next()); block_on(m.dispatch_to(&mut a)); };
    let t2 = spawn(r(0));
    let t3 = spawn(r(1));
    quiesce();
    check(finished(t1), 672);
    check(finished(t2) && finished(t3), 673);
    once(0); once(1);
    check(addr.len() == 0, 1513);
    cover(1);
}
/// A waiting send and a waiting receive that are polled again without having been woken (as select! does).
#[no_mangle] pub extern "C" fn h_c_respur() {
    init();
    let (addr, mb) = mk(1);
    let addr: &'static Address<Act> = Box::leak(Box::new(addr));
    let mb: &'static Mailbox<Act> = Box::leak(Box::new(mb));
    let full = pick(1, 2) == 1;
    if full { let mut f = Task::new(addr.send(fire(0)).detach()); check(f.poll(), 674); }
    let t1 = spawn(move || {
        let mut u = Task::new(addr.send(fire(1)).detach());
        u.poll(); u.poll();
        while !u.run() { u.flag().wait(); }
        check(matches!(u.out, Some(Ok(_))), 760);
    });
    let t2 = spawn(move || {
        let mut a = Act::new(0);
        for _ in 0..1 + full as u32 {
            let mut r = Task::new(mb.next());
            r.poll(); r.poll();
            while !r.run() { r.flag().wait(); }
            block_on(r.out.take().unwrap().dispatch_to(&mut a));
        }
    });
    quiesce();
    check(finished(t1), 675);
    check(finished(t2), 676);
    sent(1);
    cover(1);
}
/// The mailbox that lags behind goes away while a broadcast waits for it, and the other one receives.
#[no_mangle] pub extern "C" fn h_c_lag() {
    init();
    let (addr, mb) = mk(1);
    let mb2 = mb.clone();
    let mut f = Task::new(addr.broadcast(all(0)));
    check(f.poll(), 761);
    let t1 = spawn(move || { check(block_on(addr.broadcast(all(1))).is_ok(), 762); std::mem::forget(addr); });
    let t2 = spawn(move || drop(mb2));
    let t3 = spawn(move || { let mut a = Act::new(0); for _ in 0..2 { let m = block_on(mb.next()); block_on(m.dispatch_to(&mut a)); } std::mem::forget(mb); });
    quiesce();
    check(finished(t2), 763);
    check(finished(t1), 677);
    check(finished(t3), 678);
    check(w().handled[0][0] == 1 && w().handled[0][1] == 1, 220);
    check(w().drops[0] == w().made[0] && w().drops[1] == w().made[1], 2330);
    cover(1);
}
/// A caller stops waiting for its response just as the message is being handled.
#[no_mangle] pub extern "C" fn h_c_giveup() {
    init();
    let (addr, mb) = mk(1);
    let mut t = Task::new(addr.send(uni(0, 5)));
    check(!t.poll(), 129);
    let t1 = spawn(move || t.cancel());
    let t2 = spawn(move || { check(block_on(addr.send(uni(1, 6))) == Ok(reply(6)), 1126); });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2), 679);
    check(finished(t3), 834);
    sent(0); sent(1);
    cover(1);
}
/// One message waits for room already, another comes just as room is being made: first come, first served.
#[no_mangle] pub extern "C" fn h_c_fair() {
    init();
    let bc = pick(1, 2) == 1;
    let (addr, mb) = mk(1);
    let snd = |a: &Address<Act>, m: usize| -> Task<std::pin::Pin<Box<dyn std::future::Future<Output = bool>>>> {
        let a = a.clone();
        if bc { Task::new(Box::pin(async move { a.broadcast(all(m)).await.is_ok() })) } else { Task::new(Box::pin(async move { a.send(fire(m)).detach().await.is_ok() })) }
    };
    let mut f = snd(&addr, 0);
    check(f.poll(), 765);
    let mut t = snd(&addr, 1);
    check(!t.poll(), 766);
    let mut u = snd(&addr, 2);
    let t1 = spawn(move || { while !u.poll() { u.flag().wait(); } check(u.out == Some(true), 767); });
    let t2 = spawn(move || { let mut a = Act::new(0); for _ in 0..3 { let m = block_on(mb.next()); block_on(m.dispatch_to(&mut a)); } std::mem::forget(mb); });
    quiesce();
    check(finished(t1), 693);
    check(finished(t2), 694);
    check(t.woken() && t.poll() && t.out == Some(true), 695);
    for m in 0..3 { check(w().total(m) == 1 && w().pos(0, m) == m, 320); }
    cover(1);
}
/// Something urgent comes while something else is being received.
#[no_mangle] pub extern "C" fn h_c_prio() {
    init();
    let kind = pick(1, 3); // what is urgent, and what is not, may be broadcast
    let (addr, mb) = mk(pick(2, 2));
    let (p, q) = (any_u32(3), any_u32(4));
    assume(p < q);
    if kind == 1 { let mut f = Task::new(addr.broadcast(all(0)).priority(p)); check(f.poll(), 768); }
    else { let mut f = Task::new(addr.send(fire(0)).priority(p).detach()); check(f.poll(), 769); }
    let there = Flag::new();
    let unbounded = addr.capacity().is_none();
    let t1 = spawn(move || {
        if kind == 2 { check(block_on(addr.broadcast(all(1)).priority(q)).is_ok(), 770); }
        else { check(block_on(addr.send(fire(1)).priority(q).detach()).is_ok(), 771); }
        there.set();
        std::mem::forget(addr);
    });
    let t2 = spawn(move || {
        let mut a = Act::new(0);
        for k in 0..2 {
            let known = there.get();
            let m = block_on(mb.next());
            block_on(m.dispatch_to(&mut a));
            if k == 0 && known && (unbounded || kind != 0) { check(w().pos(0, 1) == 0, 410); cover(2); }
        }
        std::mem::forget(mb);
    });
    quiesce();
    check(finished(t1) && finished(t2), 696);
    once(0); once(1);
    cover(1);
}
/// A broadcast waiting for room is given up just as there is some; another one still waits.
#[no_mangle] pub extern "C" fn h_c_bcancel() {
    init();
    let (addr, mb) = mk(1);
    let mut f = Task::new(addr.broadcast(all(0)));
    check(f.poll(), 772);
    let mut t = Task::new(addr.broadcast(all(1)));
    check(!t.poll(), 773);
    let mut u = Task::new(addr.broadcast(all(2)));
    check(!u.poll(), 774);
    let t1 = spawn(move || t.cancel());
    let t2 = spawn(move || { u.flag().wait(); check(u.run(), 697); check(u.out == Some(Ok(())), 775); });
    let t3 = run_actor(mb, 0);
    quiesce();
    check(finished(t1) && finished(t2), 698);
    drop(addr);
    quiesce();
    check(finished(t3), 836);
    check(w().total(0) == 1 && w().total(2) == 1, 223);
    check(w().total(1) <= 1, 1607);
    for m in 0..3 { check(w().drops[m] == w().made[m], 2336); }
    if w().total(1) == 0 { cover(2); } else { cover(3); }
    cover(1);
}
/// Handles of every kind come and go on three threads at once; what is left is counted right.
#[no_mangle] pub extern "C" fn h_c_count() {
    init();
    let num = |d: &str, what: &str| { let p = d.find(what).unwrap() + what.len(); d.as_bytes()[p..].iter().take_while(|c| c.is_ascii_digit()).fold(0usize, |a, c| a * 10 + (*c - b'0') as usize) };
    let (addr, mb) = mk(0);
    let kind = pick(1, 4);
    let weak = addr.downgrade();
    let (a1, a2, m2) = (addr.clone(), addr.clone(), mb.clone());
    // what thread 1 leaves: one more strong handle, or one less
    let t1 = spawn(move || match kind {
        0 => { std::mem::forget(a1.clone()); std::mem::forget(a1) }
        1 => { std::mem::forget(a1.as_either()); drop(a1) }
        2 => { let w = a1.downgrade(); drop(a1); std::mem::forget(w.try_upgrade()) }
        _ => { let c: MessageChannel<Uni, u32> = MessageChannel::new(a1); std::mem::forget(c.clone()); std::mem::forget(c.downgrade()); drop(c) }
    });
    let t2 = spawn(move || { let b = a2.as_either(); drop(a2); std::mem::forget(b.clone()); drop(b); });
    let t3 = spawn(move || { let a = m2.address(); std::mem::forget(m2.clone()); drop(m2); drop(a); });
    quiesce();
    check(finished(t1) && finished(t2) && finished(t3), 699);
    let d = format!("{:?}", weak);
    check(num(&d, "addresses: ") == 1 + if kind == 0 { 2 } else { 1 } + 1, 1412);
    check(num(&d, "mailboxes: ") == 2, 1413);
    check(weak.is_connected() && addr.is_connected(), 1414);
    drop(mb);
    check(weak.is_connected(), 1415);
    cover(1);
}
