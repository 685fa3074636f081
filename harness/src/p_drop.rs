//! Messages, responses and actors whose destructors use the library, destroyed in every place where that can happen. 19xx.
use crate::vx::*;
use crate::world::*;
use std::future::Future;
use std::pin::Pin;
use xtra::prelude::*;
use xtra::{Error, WeakAddress};

#[derive(Clone, Copy, PartialEq)]
enum Act2 { Nothing, Ask, Send, SendFull, Broadcast, Upgrade, Strong, Recv, Join }
const KINDS: [Act2; 9] = [Act2::Nothing, Act2::Ask, Act2::Send, Act2::SendFull, Act2::Broadcast, Act2::Upgrade, Act2::Strong, Act2::Recv, Act2::Join];

static mut DESTROYED: u32 = 0;
static mut CREATED: u32 = 0;
static mut DEPTH: u32 = 0;
/// What the destructor does.
struct Evil { kind: Act2, weak: WeakAddress<E>, strong: Option<Address<E>>, mb: Option<&'static Mailbox<E>> }
impl Evil {
    fn new(kind: Act2, weak: &WeakAddress<E>, mb: Option<&'static Mailbox<E>>) -> Evil {
        unsafe { CREATED += 1; }
        let strong = if kind == Act2::Strong { weak.try_upgrade() } else { None };
        Evil { kind, weak: weak.clone(), strong, mb }
    }
}
impl Clone for Evil { fn clone(&self) -> Self { self.meddle(); unsafe { CREATED += 1; } Evil { kind: self.kind, weak: self.weak.clone(), strong: self.strong.clone(), mb: self.mb } } }
impl Drop for Evil { fn drop(&mut self) { unsafe { DESTROYED += 1; } self.meddle(); } }
impl Evil {
    /// What is done when it is destroyed, or cloned.
    fn meddle(&self) {
        unsafe { DEPTH += 1; }
        let a = &self.weak;
        match self.kind {
            Act2::Nothing | Act2::Strong => {} // (drops the address it owns)
            Act2::Ask => { let (l, c) = (a.len(), a.is_connected()); check(a.is_empty() == (l == 0) && (c || !a.is_connected()), 1901); let _ = a.capacity(); let ch: MessageChannel<Msg, Evil2, xtra::refcount::Weak> = a.clone().into(); check(ch.len() == l && ch == ch.clone(), 1902); }
            Act2::Send | Act2::SendFull => {
                let mut t = Task::new(a.send(Msg(Evil::new(Act2::Nothing, a, None), 0)).detach());
                let r = t.poll();
                if !a.is_connected() { check(r && matches!(t.out, Some(Err(Error::Disconnected))), 1903); }
                if self.kind == Act2::SendFull && !r { KEEP.with(t); }
            }
            Act2::Broadcast => {
                let mut t = Task::new(a.broadcast(Bc(Evil::new(Act2::Nothing, a, None))));
                let r = t.poll();
                if !a.is_connected() { check(r && t.out == Some(Err(Error::Disconnected)), 1904); }
            }
            Act2::Upgrade => { let up = a.try_upgrade(); if let Some(b) = &up { let c = b.clone(); drop(c); } drop(up); }
            Act2::Recv => { if let Some(mb) = self.mb { let mut t = Task::new(mb.next()); t.poll(); drop(t); let c = mb.clone(); drop(c); } }
            Act2::Join => { let mut t = Task::new(a.join()); let r = t.poll(); check(r || a.is_connected(), 1905); }
        }
        unsafe { DEPTH -= 1; }
    }
}
/// Sends that are still waiting when the destructor is done: they wait on.
struct Keep(std::cell::UnsafeCell<Vec<Box<dyn std::any::Any>>>);
unsafe impl Sync for Keep {}
static KEEP: Keep = Keep(std::cell::UnsafeCell::new(Vec::new()));
impl Keep { fn with<T: 'static>(&self, t: T) { unsafe { (*self.0.get()).push(Box::new(t)) } } fn clear(&self) { let v = unsafe { std::mem::take(&mut *self.0.get()) }; drop(v) } }

type Evil2 = Evil;
struct Msg(Evil, u32);
#[derive(Clone)]
struct Bc(Evil);
struct E { own: Option<Evil> }
impl Actor for E { type Stop = (); async fn stopped(self) {} }
static mut BUSY: bool = false;
impl Handler<Msg> for E {
    type Return = Evil; // the response is the message itself
    async fn handle(&mut self, m: Msg, ctx: &mut Context<Self>) -> Evil {
        if m.1 == 1 { let g = Flag::new(); Gate(g).await; }
        if m.1 == 2 { ctx.stop_self(); }
        m.0
    }
}
impl Handler<Bc> for E { type Return = (); async fn handle(&mut self, _: Bc, _: &mut Context<Self>) {} }

type Det = Pin<Box<dyn Future<Output = Result<xtra::Receiver<Evil>, Error>>>>;
pub fn evil(steps: usize) {
    init();
    let cap = if pick(1, 2) == 0 { None } else { Some(1) };
    let (addr, mb0) = match cap { None => Mailbox::<E>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let weak = addr.downgrade();
    let mut strong = Some(addr);
    let kind = KINDS[pick(2, KINDS.len() as u32) as usize];
    let mut mb = Some(Box::new(mb0));
    let mut mb2: Option<Mailbox<E>> = None;
    let mut sends: Vec<Task<Det>> = Vec::new();
    let mut bsends: Vec<Task<Pin<Box<dyn Future<Output = Result<(), Error>>>>>> = Vec::new();
    let mut rcv: Option<Task<_>> = None;
    let mut msg = None;
    let mut act = E { own: None };
    for _ in 0..steps {
        // (a mailbox for the destructor: only as long as it is certain to be there)
        match pick(3, 10) {
            0 => { // send; the future is polled, and kept if it waits
                let slow = 0;
                let mut t: Task<Det> = Task::new(Box::pin(weak.send(Msg(Evil::new(kind, &weak, None), slow)).detach()));
                t.poll();
                sends.push(t);
            }
            1 => { // broadcast
                let mut t: Task<Pin<Box<dyn Future<Output = Result<(), Error>>>>> = Task::new(Box::pin(weak.broadcast(Bc(Evil::new(kind, &weak, None)))));
                t.poll();
                bsends.push(t);
            }
            2 => { // never sent at all
                let f = weak.send(Msg(Evil::new(kind, &weak, None), 0));
                drop(f);
            }
            3 => { // a response, or a waiting send, is given up
                assume(!sends.is_empty() || !bsends.is_empty());
                if !sends.is_empty() && (bsends.is_empty() || pick(4, 2) == 0) { drop(sends.remove(0)); } else { drop(bsends.remove(0)); }
            }
            4 => { // receive
                assume(mb.is_some() && msg.is_none());
                let mut t = rcv.take().unwrap_or_else(|| Task::new(mb.as_ref().unwrap().next()));
                if t.poll() { msg = t.out.take(); } else { rcv = Some(t); }
            }
            5 => { // give up a receive, or what it received
                assume(rcv.is_some() || msg.is_some());
                if msg.is_some() { cover(2); }
                rcv = None; msg = None;
            }
            6 => { // handle what was received: to the end, or not
                assume(msg.is_some());
                let mut t = Task::new(msg.take().unwrap().dispatch_to(&mut act));
                if pick(5, 2) == 0 { t.poll(); }
                drop(t);
            }
            7 => { assume(mb.is_some() && rcv.is_none()); mb = None; if msg.is_none() { cover(3); } }
            8 => { assume(strong.is_some()); strong = None; cover(4); }
            _ => { // a second mailbox comes, or goes; or an actor that owns such a thing dies
                if pick(6, 2) == 0 { if mb2.is_some() { mb2 = None; cover(5); } else { assume(mb.is_some()); mb2 = Some((**mb.as_ref().unwrap()).clone()); } }
                else {
                    assume(mb.is_some() && kind == Act2::Recv);
                    let p: &'static Mailbox<E> = unsafe { &*(&**mb.as_ref().unwrap() as *const Mailbox<E>) };
                    let e = Evil::new(kind, &weak, Some(p));
                    act.own = Some(e);
                    act.own = None;
                }
            }
        }
    }
    // all gone, in an order of the solver's choice
    let mut act = Some(act);
    let first = pick(7, 5);
    for i in 0..5 {
        match (first + i) % 5 {
            0 => { mb = None; rcv = None; msg = None; }
            1 => strong = None,
            2 => { sends.clear(); bsends.clear(); }
            3 => mb2 = None,
            _ => act = None,
        }
    }
    mb = None; rcv = None; msg = None; strong = None; sends.clear(); bsends.clear(); mb2 = None; act = None;
    KEEP.clear();
    check(!weak.is_connected() && weak.len() == 0, 1906);
    unsafe { check(DEPTH == 0, 1907); check(CREATED == DESTROYED, 1908); }
    drop((mb, rcv, msg, strong, sends, bsends, mb2, act));
    cover(1);
}
#[no_mangle] pub extern "C" fn h_evil_3() { evil(3) }
#[no_mangle] pub extern "C" fn h_evil_4() { evil(4) }
#[no_mangle] pub extern "C" fn h_evil_5() { evil(5) }
#[no_mangle] pub extern "C" fn h_evil_6() { evil(6) }

/// Destructors racing with the rest: what is destroyed is destroyed with nothing locked.
const RACY: [Act2; 4] = [Act2::Send, Act2::Broadcast, Act2::Upgrade, Act2::Strong];
fn pull(mb: &Mailbox<E>) { let mut e = E { own: None }; let mut t = Task::new(mb.next()); if t.poll() { let m = t.out.take().unwrap(); let mut d = Task::new(m.dispatch_to(&mut e)); d.poll(); } }
/// A waiting send is given up while an actor makes room for it.
#[no_mangle] pub extern "C" fn h_c_evil_s() {
    init();
    let (addr, mb) = Mailbox::<E>::bounded(1);
    let mb: &'static Mailbox<E> = leak(mb);
    let weak = addr.downgrade();
    let kind = RACY[pick(1, 4) as usize];
    let bc = pick(2, 2) == 1;
    let t1 = if bc {
        let mut f = Task::new(addr.broadcast(Bc(Evil::new(Act2::Nothing, &weak, None)))); check(f.poll(), 1930);
        let mut t = Task::new(addr.broadcast(Bc(Evil::new(kind, &weak, None)))); check(!t.poll(), 1931);
        spawn(move || t.cancel())
    } else {
        let mut f = Task::new(addr.send(Msg(Evil::new(Act2::Nothing, &weak, None), 0)).detach()); check(f.poll(), 1932);
        let mut t = Task::new(addr.send(Msg(Evil::new(kind, &weak, None), 0)).detach()); check(!t.poll(), 1933);
        spawn(move || t.cancel())
    };
    let t2 = spawn(move || pull(mb));
    quiesce();
    check(finished(t1), 1934);
    check(finished(t2), 1935);
    for _ in 0..4 { pull(mb); }
    check(addr.is_empty(), 1936);
    check(unsafe { CREATED == DESTROYED }, 1937);
    cover(1);
}
/// A message is sent while the last mailbox goes (perhaps with a receive of its own still waiting).
#[no_mangle] pub extern "C" fn h_c_evil_m() {
    init();
    let (addr, mb) = Mailbox::<E>::bounded(1);
    let weak = addr.downgrade();
    let kind = RACY[pick(1, 4) as usize];
    let bc = pick(2, 2) == 1;
    let full = pick(3, 2) == 1;
    if full {
        let mut f = Task::new(addr.send(Msg(Evil::new(Act2::Upgrade, &weak, None), 0)).detach()); check(f.poll(), 1938);
        let mut f = Task::new(addr.broadcast(Bc(Evil::new(Act2::Upgrade, &weak, None)))); check(f.poll(), 1939);
    }
    let rcv = !full && pick(4, 2) == 1;
    let mut t = if rcv { let mut t = Task::new(mb.next()); check(!t.poll(), 1940); Some(t) } else { None };
    let t1 = spawn(move || {
        if bc { let r = block_on(addr.broadcast(Bc(Evil::new(kind, &addr.downgrade(), None)))); let _ = r; }
        else { let r = block_on(addr.send(Msg(Evil::new(kind, &addr.downgrade(), None), 0))); check(r.is_err(), 1941); }
        let c = addr.clone(); drop(addr); drop(c);
    });
    let t2 = spawn(move || { drop(mb); if let Some(t) = t.as_mut() { t.cancel(); } drop(t); });
    quiesce();
    check(finished(t1), 1942);
    check(finished(t2), 1943);
    check(unsafe { CREATED == DESTROYED }, 1944);
    check(!weak.is_connected() && weak.is_empty(), 1945);
    cover(1);
}
