//! Operations that are begun and abandoned, or done and over with, again and again: what is held does not grow. 29xx.
use crate::p_sel::Later;
use crate::vx::*;
use crate::world::*;
use std::future::Future;
use xtra::message_channel::MessageChannel;
use xtra::prelude::*;
use futures_sink::Sink;
use futures_util::future::Either;
use std::pin::Pin;
use std::task::Poll;

struct Sys { addr: Address<Act>, mb: Mailbox<Act>, mb2: Mailbox<Act>, flag: &'static Flag }
const RECV: u32 = 0; const RECV2: u32 = 1; const WORK: u32 = 2; const BCAST: u32 = 3; const GIVEUP: u32 = 4;
const SEND: u32 = 5; const BSEND: u32 = 6; const JOIN: u32 = 7; const MB: u32 = 8; const REFS: u32 = 9; const FRESH: u32 = 10; const SCOPED: u32 = 11; const CHAN: u32 = 12;
const DETACH: u32 = 13; const SINK: u32 = 14; const NEXT: u32 = 15; const LOOP: u32 = 16; const SELECT: u32 = 17;
/// An operation under way.
trait Op { fn again(&mut self) {} }
struct Held<T>(T);
impl<T> Op for Held<T> {}
impl<F: Future> Op for Task<F> { fn again(&mut self) { check(!self.poll(), 2919); } }
fn held<T: 'static>(t: T) -> Box<dyn Op> { Box::new(Held(t)) }
fn begun<F: Future + 'static>(f: F, code: u32) -> Box<dyn Op> where F::Output: 'static { let mut t = Task::new(f); check(!t.poll(), code); Box::new(t) }
fn same(base: (usize, usize)) -> bool { live() <= base.0 + 20 && live_bytes() <= base.1 + 1200 }
/// Begins the operation; dropping the result abandons it.
fn begin(op: u32, x: &Sys, later: &'static Later) -> Box<dyn Op> {
    match op {
        RECV => begun(x.mb.next(), 2901),
        RECV2 => begun(x.mb2.next(), 2902),
        WORK => { // sent, handled, answered
            let mut t = Task::new(x.addr.send(uni(0, 7)));
            check(!t.poll(), 2903);
            let mut a = Act::new(0);
            let m = block_on(x.mb.next());
            block_on(m.dispatch_to(&mut a));
            check(t.poll() && t.out == Some(Ok(reply(7))), 2904);
            held(t)
        }
        BCAST => { // sent to both, handled by both
            check(Task::new(x.addr.broadcast(all(0))).poll(), 2905);
            let mut a = Act::new(0);
            let m = block_on(x.mb.next()); block_on(m.dispatch_to(&mut a));
            let m = block_on(x.mb2.next()); block_on(m.dispatch_to(&mut a));
            held(())
        }
        GIVEUP => { // handled although nobody waits for the response any more
            let mut t = Task::new(x.addr.send(uni(0, 7)));
            check(!t.poll(), 2906);
            let t = Box::new(t);
            let m = block_on(x.mb2.next());
            drop(t);
            let mut a = Act::new(0);
            block_on(m.dispatch_to(&mut a));
            held(())
        }
        SEND => begun(x.addr.send(uni(0, 7)).priority(any_u32(9)), 2907),
        BSEND => begun(x.addr.broadcast(all(0)).priority(any_u32(9)), 2908),
        JOIN => begun(x.addr.join(), 2909),
        MB => held(x.mb.clone()),
        REFS => { let w = x.addr.downgrade(); let s = w.try_upgrade(); check(s.is_some(), 2910); held((w.as_either(), x.addr.as_either(), s, w)) }
        FRESH => held((x.addr.send(uni(0, 7)), x.addr.broadcast(all(0)), x.mb.next())),
        SCOPED => begun(xtra::scoped(&x.addr, later), 2911),
        CHAN => { let c = MessageChannel::<Uni, u32>::new(x.addr.clone()); let d = c.downgrade(); let e = c.as_either(); held((c, d.clone(), d, e)) }
        DETACH => begun(x.addr.send(uni(0, 7)).detach(), 2915),
        SINK => { // an item waits for room
            let mut s = Box::pin(x.addr.clone().into_sink::<Fire>());
            let wk = x.flag.waker(); let mut cx = std::task::Context::from_waker(&wk);
            check(s.as_mut().poll_ready(&mut cx) == Poll::Ready(Ok(())) && s.as_mut().start_send(fire(0)).is_ok() && s.as_mut().poll_flush(&mut cx) == Poll::Pending, 2916);
            held(s)
        }
        LOOP => begun(xtra::run(x.mb.clone(), Act::new(0)), 2917), // an event loop, cancelled while it waits
        SELECT => { let mb = x.mb.clone(); begun(async move { let mut a = Act::new(0); let r = matches!(xtra::select(&mb, &mut a, later).await, Either::Left(_)); drop(mb); r }, 2918) }
        _ => { let m = x.mb.clone(); begun(m.next(), 2912) } // a receive on a mailbox of its own
    }
}
fn grow(cycles: usize, many: bool) {
    init();
    let full = pick(1, 2) == 1;
    let (addr, mb) = if full { Mailbox::<Act>::bounded(1) } else { match pick(2, 2) { 0 => Mailbox::unbounded(), _ => Mailbox::bounded(2) } };
    let mb2 = mb.clone();
    let x = Sys { addr, mb, mb2, flag: Flag::new() };
    let later = Later::new(1);
    let mut queued = None;
    if full { // a message and a broadcast are queued, there is no room for another
        let mut t = Task::new(x.addr.send(uni(1, 7))); check(!t.poll(), 2913); queued = Some(t);
        check(Task::new(x.addr.broadcast(all(2))).poll(), 2914);
    }
    // others wait meanwhile
    let others = pick(3, 2) == 1;
    let mut keep: Vec<Box<dyn Op>> = Vec::new();
    if others { keep.push(begin(if full { SEND } else { RECV }, &x, later)); keep.push(begin(if full { BSEND } else { RECV2 }, &x, later)); keep.push(begin(JOIN, &x, later)); }
    let ok = |op: u32| if full { op >= SEND && op < NEXT } else { (op < SEND || op >= JOIN && op != DETACH && op != SINK) && !(others && (op == WORK || op == BCAST || op == GIVEUP)) };
    let a = pick(4, 18);
    let b = if many { pick(5, 18) } else { a };
    assume(ok(a) && ok(b));
    let works = |op: u32| op == WORK || op == BCAST || op == GIVEUP;
    let how = pick(6, 4); // 3: begun once, and polled again and again
    assume(how == 0 || !(works(a) || works(b)));
    let mut old: [Option<Box<dyn Op>>; 2] = [None, None];
    let mut base = (0, 0);
    if how == 3 { old[0] = Some(begin(a, &x, later)); old[1] = Some(begin(b, &x, later)); }
    for i in 0..cycles {
        match how {
            0 => { drop(begin(a, &x, later)); drop(begin(b, &x, later)); }
            1 => { let p = begin(a, &x, later); let q = begin(b, &x, later); drop(p); drop(q); }
            3 => for o in &mut old { o.as_mut().unwrap().again(); },
            _ => { old[0] = Some(begin(a, &x, later)); old[1] = Some(begin(b, &x, later)); } // the next one begins before the last one is given up
        }
        if i == 9 { base = (live(), live_bytes()); }
    }
    check(same(base), 2920);
    // and everything works as before
    old = [None, None];
    keep.clear();
    let mut act = Act::new(1);
    if full {
        for _ in 0..2 { let m = block_on(x.mb.next()); block_on(m.dispatch_to(&mut act)); }
        check(queued.as_mut().unwrap().poll() && w().handled[1][1] == 1 && w().handled[1][2] == 1, 2921);
    }
    let mut t = Task::new(x.addr.send(uni(3, 9)));
    check(!t.poll(), 2922);
    let m = block_on(x.mb.next()); block_on(m.dispatch_to(&mut act));
    check(t.poll() && t.out == Some(Ok(reply(9))), 2923);
    if others { cover(2); }
    if full { cover(3); } else { cover(4); }
    cover(1);
    drop(old);
}
/// An actor that goes on for long, in one event loop, select or join, handling one message after the other.
fn live_on(cycles: usize) {
    init();
    let cap = pick(1, 2);
    let (addr, mb) = match cap { 0 => Mailbox::<Act>::unbounded(), _ => Mailbox::bounded(1) };
    let weak = addr.downgrade();
    let later = Later::new(3);
    let mode = pick(2, 4);
    type Fut = Pin<Box<dyn Future<Output = u32>>>;
    let mut t = Task::new(match mode {
        0 => Box::pin(async move { xtra::run(mb, Act::new(0)).await as u32 }) as Fut,
        1 => Box::pin(async move { let mut a = Act::new(0); match xtra::select(&mb, &mut a, later).await { Either::Left(v) => v, Either::Right(_) => 0 } }),
        2 => Box::pin(async move { let mut a = Act::new(0); xtra::join(&mb, &mut a, later).await }),
        _ => Box::pin(async move { let mut a = Act::new(0); while xtra::yield_once(&mb, &mut a).await.is_continue() {} 0 }),
    });
    check(!t.run(), 2930);
    let kind = pick(3, 7);
    let mut sink = Box::pin(weak.clone().into_sink::<Fire>());
    let flag = Flag::new();
    let chan = MessageChannel::<Uni, u32>::new(addr.clone());
    let prio = any_u32(9);
    let mut base = (0, 0);
    for i in 0..cycles {
        w().reset(0);
        match kind {
            0 => { let mut s = Task::new(addr.send(uni(0, 7)).priority(prio)); check(!s.poll() && !t.run() && s.run() && s.out == Some(Ok(reply(7))), 2931); }
            1 => { check(Task::new(weak.broadcast(all(0)).priority(prio)).poll() && !t.run(), 2932); }
            2 => { let mut s = Task::new(chan.send(uni(0, 7)).detach()); check(s.poll() && !t.run(), 2933); let mut r = Task::new(s.out.take().unwrap().unwrap()); check(r.poll() && r.out == Some(Ok(reply(7))), 2934); }
            3 => { // nobody waits for the response
                let mut s = Task::new(addr.send(uni(0, 7)));
                check(!s.poll(), 2935);
                drop(s);
                check(!t.run(), 2936);
            }
            4 => {
                let wk = flag.waker();
                let mut cx = std::task::Context::from_waker(&wk);
                check(sink.as_mut().poll_ready(&mut cx) == Poll::Ready(Ok(())) && sink.as_mut().start_send(fire(0)).is_ok(), 2937);
                check(sink.as_mut().poll_flush(&mut cx) == Poll::Pending && !t.run() && sink.as_mut().poll_flush(&mut cx) == Poll::Ready(Ok(())), 2938);
            }
            5 => check(!t.poll(), 2939), // woken for nothing
            _ => { // two at a time, of which the second may have to wait
                let mut s = Task::new(addr.send(uni(0, 7)));
                let mut u = Task::new(addr.send(fire(1)));
                check(!s.poll() && !u.poll() && !t.run(), 2940);
                check(s.run() && u.run() && s.out == Some(Ok(reply(7))) && u.out == Some(Ok(())), 2941);
                w().reset(1);
            }
        }
        check(kind == 5 || w().handled[0][0] == 1 && w().made[0] == w().drops[0], 2942);
        if i == 9 { base = (live(), live_bytes()); }
    }
    check(same(base), 2943);
    if mode == 1 || mode == 2 { later.complete(); check(t.run() && t.out == Some(3), 2944); }
    else { drop(addr); drop(chan); check(t.run() && t.out == Some(0), 2945); }
    cover(5);
}
#[no_mangle] pub extern "C" fn h_grow_one() { grow(70, false) }
#[no_mangle] pub extern "C" fn h_grow_two() { grow(70, true) }
#[no_mangle] pub extern "C" fn h_grow_more() { grow(150, true) }
#[no_mangle] pub extern "C" fn h_grow_live() { live_on(70) }
#[no_mangle] pub extern "C" fn h_grow_live_more() { live_on(400) }
