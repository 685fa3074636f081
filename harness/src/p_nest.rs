//! Handlers that go on receiving while they run: select, join and yield_once through the handler's own context.
//! 11xx responses, 1xx/2xx deliveries, 14xx counts, 15xx length, 6xx progress, 23xx destruction (see specs.py).
use crate::p_sel::{Await, Sig};
use crate::vx::*;
use crate::world::*;
use futures_util::future::Either;
use std::future::Future;
use std::pin::Pin;
use xtra::prelude::*;
use xtra::Error;

pub struct Nest { pub tok: Tok, pub sig: *mut Sig, pub mode: u32 }
unsafe impl Send for Nest {}
struct Fut(Await);
unsafe impl Send for Fut {}
impl Future for Fut { type Output = u32; fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<u32> { Pin::new(&mut self.0).poll(cx) } }
impl Handler<Nest> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Nest, ctx: &mut Context<Self>) -> u32 {
        w().begin(self.id, m.tok.0);
        let Nest { tok, sig, mode } = m;
        let f = Fut(Await { sig, id: 17 });
        let r = match mode {
            0 => match xtra::select(ctx.mailbox(), self, f).await { Either::Left(v) => v, Either::Right(_) => 1000 },
            1 => xtra::join(ctx.mailbox(), self, f).await,
            _ => { drop(f); xtra::yield_once(ctx.mailbox(), self).await.is_continue() as u32 }
        };
        w().completed[self.id][tok.0] += 1;
        r
    }
}
fn count(d: &str) -> usize { let p = d.find("mailboxes: ").unwrap() + 11; d.as_bytes()[p..].iter().take_while(|c| c.is_ascii_digit()).fold(0, |a, c| a * 10 + (*c - b'0') as usize) }

pub fn nest(steps: usize) {
    init();
    let cap = match pick(1, 3) { 0 => None, k => Some(k as usize) };
    let (addr, mb) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let mode = pick(2, 3);
    let mut other = if pick(3, 2) == 1 { Some(mb.clone()) } else { None };
    let mut act1 = Act::new(1);
    let sig: *mut Sig = leak(Sig { done: false, v: any_u32(4), waker: None, polls: 0 });
    let s = unsafe { &mut *sig };
    let mut t = Some(Task::new(xtra::run(mb, Act::new(0))));
    let mut r0 = Task::new(addr.send(Nest { tok: Tok::new(0), sig, mode }));
    let mut n = 1;
    let mut uni_: [Option<Task<Pin<Box<dyn Future<Output = Result<u32, Error>>>>>>; NM] = Default::default();
    let mut bc: [Option<Task<Pin<Box<dyn Future<Output = Result<(), Error>>>>>>; NM] = Default::default();
    let mut took = [false; NM];
    check(!r0.poll(), 1141);
    t.as_mut().unwrap().run();
    check(w().handled[0][0] == 1 && w().completed[0][0] == 0, 1142);
    for _ in 0..steps {
        match pick(5, 6) {
            0 => {
                let m = n; n += 1;
                let mut f: Task<Pin<Box<dyn Future<Output = Result<u32, Error>>>>> = Task::new(Box::pin(addr.send(uni(m, m as u32))) as _);
                check(!f.poll(), 1143);
                uni_[m] = Some(f);
                // the actor, if it waits, is told
                if let Some(t) = &t { check(t.woken(), 653); }
            }
            1 => {
                let m = n; n += 1;
                let mut f: Task<Pin<Box<dyn Future<Output = Result<(), Error>>>>> = Task::new(Box::pin(addr.broadcast(all(m))) as _);
                f.poll();
                check(f.done() || cap.is_some(), 531);
                if f.done() { check(f.out == Some(Ok(())) && t.as_ref().map_or(true, |t| t.woken()), 654); }
                bc[m] = Some(f);
            }
            2 => { // run the event loop
                assume(t.is_some());
                let k = t.as_mut().unwrap();
                check(!k.run(), 829);
                for m in 1..n {
                    if let Some(f) = uni_[m].as_mut() { check(f.run(), 655); check(f.out == Some(Ok(reply(m as u32))), 1144); check(w().total(m) == 1 && w().handled[0][m] == 1, 124); }
                    if let Some(f) = bc[m].as_mut() { f.run(); check(w().handled[0][m] == f.done() as u32, 215); check(f.done() || other.is_some(), 656); }
                }
                let inner = w().completed[0][0] == 0;
                if mode == 2 { if inner { check(n == 1, 657); } } else { check(inner == !s.done, 1145); }
                if inner { cover(2); } else { check(r0.run(), 658); check(r0.out == Some(Ok(if mode == 2 { 1 } else { s.v })), 1146); cover(3); }
                // its mailbox, that of the handler, that of the pending receive
                check(count(&format!("{:?}", addr)) == 2 + inner as usize + other.is_some() as usize, 1411);
            }
            3 => { assume(!s.done && mode != 2); s.done = true; check(s.waker.is_some(), 1840); if let Some(w) = s.waker.take() { w.wake(); } check(t.as_ref().map_or(true, |t| t.woken()), 1841); }
            4 => { // the other actor takes the next broadcast
                assume(other.is_some() && (1..n).all(|m| uni_[m].is_none() || w().total(m) == 1));
                if step_bc(other.as_ref().unwrap(), &mut act1, &mut took, &bc) { cover(4); }
            }
            _ => { assume(other.is_some()); other = None; }
        }
        let mut len = 0;
        for m in 1..n { if let Some(f) = &bc[m] { if f.done() && other.is_some() && !took[m] { len += 1; } } }
        if t.as_ref().map_or(false, |t| !t.woken()) { check(addr.len() == len, 1511); }
        for m in 1..n { if bc[m].is_some() { check(w().handled[0][m] <= 1 && w().handled[1][m] == took[m] as u32, 216); } }
    }
    // in the end everything was handled, in order, once
    drop(other);
    s.done = true;
    if let Some(w) = s.waker.take() { w.wake(); }
    for _ in 0..3 {
        if let Some(t) = t.as_mut() { t.run(); }
        for m in 1..n { if let Some(f) = uni_[m].as_mut() { f.run(); } if let Some(f) = bc[m].as_mut() { f.run(); } }
    }
    for m in 1..n {
        check(w().handled[0][m] == 1 && w().completed[0][m] == 1, 125);
        if let Some(f) = uni_[m].as_mut() { check(f.done(), 659); }
        if let Some(f) = bc[m].as_mut() { check(f.out == Some(Ok(())), 660); }
        for q in 1..m { if uni_[m].is_some() == uni_[q].is_some() { check(w().pos(0, q) < w().pos(0, m), 309); } }
    }
    let last = pick(6, 2) == 1;
    if last { drop(t.take()); }
    drop(addr);
    if let Some(mut t) = t.take() { check(t.run() && t.out == Some(0), 830); }
    drop((uni_, bc, r0));
    unleak(sig);
    for q in 0..n { check(w().made[q] == w().drops[q], 2328); }
    cover(1);
}
fn step_bc<F: Future>(mb: &Mailbox<Act>, act: &mut Act, took: &mut [bool; NM], bc: &[Option<Task<F>>; NM]) -> bool {
    let before = w().norder[1];
    if step(mb, act).is_none() { for m in 0..NM { if let Some(f) = &bc[m] { check(!f.done() || took[m], 213); } } return false; }
    let m = w().order[1][before] as usize;
    for q in 0..m { if bc[q].is_some() { check(took[q], 308); } }
    check(bc[m].is_some() && !took[m], 214);
    took[m] = true;
    true
}
#[no_mangle] pub extern "C" fn h_nest_3() { nest(3) }
#[no_mangle] pub extern "C" fn h_nest_4() { nest(4) }
#[no_mangle] pub extern "C" fn h_nest_5() { nest(5) }
