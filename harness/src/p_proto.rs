//! Futures used beyond their contract: priorities set late, futures polled again after they completed. Nothing may
//! come of it but a panic for the one who does it. Codes 28xx.
use crate::vx::*;
use crate::world::*;
use futures_util::future::FusedFuture;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context as Cx, Poll};
use xtra::prelude::*;

#[derive(Clone, Copy, PartialEq)]
enum S { Fresh, Waiting, Queued, Handled, Gone }

struct Rig { mb: Mailbox<Act>, q: Vec<usize>, prio: [u32; 2], st: S, bounded: bool }
impl Rig {
    /// Message 0 is waiting for room or stays so.
    fn admit(&mut self) { if self.st == S::Waiting && !(self.bounded && self.q.len() >= 1) { self.st = S::Queued; self.q.push(0); } }
    fn send(&mut self) { self.st = S::Waiting; self.admit(); }
    fn take(&mut self, again: u32) {
        let mut t = self.mb.next();
        check(!t.is_terminated(), 2801);
        let flag = Flag::new();
        let wk = flag.waker();
        let mut cx = Cx::from_waker(&wk);
        let r = Pin::new(&mut t).poll(&mut cx);
        check(t.is_terminated() == r.is_ready(), 2802);
        check(r.is_ready() == !self.q.is_empty(), 2803);
        let Poll::Ready(msg) = r else { return };
        // the older one, unless the newer one is more urgent
        let i = (self.q.len() == 2 && self.prio[self.q[1]] > self.prio[self.q[0]]) as usize;
        let m = self.q.remove(i);
        self.admit();
        if again == 1 { // a finished receive is polled once more: it has nothing to give, and takes nothing
            let r = catch_unwind(AssertUnwindSafe(|| Pin::new(&mut t).poll(&mut cx).is_ready()));
            check(r.is_err(), 2804);
            check(t.is_terminated(), 2805);
            check(self.mb.address().len() == self.q.len(), 2806);
            cover(1);
        }
        if again != 3 { drop(t) }
        let mut act = Act::new(0);
        let before = w().norder[0];
        let mut d = msg.dispatch_to(&mut act);
        check(Pin::new(&mut d).poll(&mut cx).is_ready(), 2807);
        check(w().norder[0] == before + 1 && w().order[0][before] as usize == m, 2808);
        if again == 2 { // a finished handler likewise
            let r = catch_unwind(AssertUnwindSafe(|| Pin::new(&mut d).poll(&mut cx).is_ready()));
            check(r.is_err(), 2809);
            check(w().norder[0] == before + 1, 2810);
            cover(2);
        }
        if m == 0 { self.st = S::Handled; }
    }
}

macro_rules! life {
    ($rig:ident, $steps:ident, $new:expr, $queued_is_done:expr) => {{
        let rig = &mut $rig;
        let mut s = Some($new);
        let (mut polled, mut done) = (false, false);
        for _ in 0..$steps {
            match pick(5, 7) {
                0 => { // polled, by whatever task
                    assume(s.is_some());
                    let flag = Flag::new();
                    let wk = flag.waker();
                    let mut cx = Cx::from_waker(&wk);
                    if done {
                        let f = s.as_mut().unwrap();
                        let r = catch_unwind(AssertUnwindSafe(|| matches!(Pin::new(f).poll(&mut cx), Poll::Ready(Ok(_)))));
                        check(!matches!(r, Ok(true)), 2811); // it has delivered what it had to deliver
                        check(rig.mb.address().len() == rig.q.len(), 2812);
                        cover(3);
                    } else {
                        if rig.st == S::Fresh { rig.send(); }
                        polled = true;
                        let r = Pin::new(s.as_mut().unwrap()).poll(&mut cx);
                        let over = rig.st == S::Handled || ($queued_is_done && rig.st == S::Queued);
                        check(matches!(r, Poll::Ready(Ok(_))) == over, 2813);
                        check(!matches!(r, Poll::Ready(Err(_))), 2814);
                        done = over;
                    }
                }
                1 => {
                    assume(s.is_some());
                    let p = any_u32(30);
                    let f = s.take().unwrap();
                    let r = catch_unwind(AssertUnwindSafe(|| f.priority(p)));
                    check(r.is_err() == polled, 2815);
                    match r {
                        Ok(f) => { rig.prio[0] = p; s = Some(f); }
                        Err(_) => { if rig.st == S::Waiting { rig.st = S::Gone; } cover(4); } // as if dropped
                    }
                }
                2 => { assume(s.is_some()); s = None; if matches!(rig.st, S::Fresh | S::Waiting) { rig.st = S::Gone; } }
                k => rig.take(k - 3),
            }
            check(rig.mb.address().len() == rig.q.len() + (rig.st == S::Waiting) as usize || rig.st == S::Waiting, 2816);
        }
        drop(s);
        if matches!(rig.st, S::Fresh | S::Waiting) { rig.st = S::Gone; }
        while !rig.q.is_empty() { rig.take(3); }
        rig.take(3);
    }};
}

fn history(steps: usize) {
    init();
    let bounded = pick(1, 2) == 1;
    let (addr, mb) = if bounded { Mailbox::bounded(1) } else { Mailbox::unbounded() };
    let mut rig = Rig { mb, q: Vec::new(), prio: [0, 0], st: S::Fresh, bounded };
    let kind = pick(2, 4);
    let mut filler = None;
    if pick(3, 2) == 1 { // one is there already
        if kind == 1 {
            let p = any_u32(31);
            rig.prio[1] = p;
            let mut t = Task::new(addr.broadcast(all(1)).priority(p));
            check(t.poll(), 2820);
        } else {
            let p = any_u32(31);
            rig.prio[1] = p;
            let mut t = Task::new(addr.send(uni(1, 7)).priority(p));
            check(!t.poll(), 2821);
            filler = Some(t);
        }
        rig.q.push(1);
    }
    match kind {
        0 => life!(rig, steps, addr.send(uni(0, 9)), false),
        1 => life!(rig, steps, addr.broadcast(all(0)), true),
        2 => { let ch: MessageChannel<Uni, u32> = MessageChannel::new(addr.clone()); life!(rig, steps, ch.send(uni(0, 9)), false) }
        _ => life!(rig, steps, addr.send(uni(0, 9)).detach(), true),
    }
    // what was sent was handled once
    check(w().handled[0][0] == (rig.st == S::Handled) as u32, 2822);
    if let Some(mut t) = filler { check(t.poll() && t.out == Some(Ok(reply(7))), 2823); }
    drop(addr);
    drop(rig);
    for m in 0..2 { check(w().drops[m] == w().made[m], 2824); }
    cover(5);
}
#[no_mangle] pub extern "C" fn h_proto_3() { history(3) }
#[no_mangle] pub extern "C" fn h_proto_4() { history(4) }
#[no_mangle] pub extern "C" fn h_proto_5() { history(5) }
#[no_mangle] pub extern "C" fn h_proto_6() { history(6) }
#[no_mangle] pub extern "C" fn h_proto_7() { history(7) }
