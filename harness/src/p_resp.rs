//! Responses, and messages that are received but not handled to the end. 11xx responses, 22xx abandoned handlers
//! and undispatched messages, 5xx/7xx capacity and disconnection, 15xx length, 23xx destruction.
use crate::vx::*;
use crate::world::*;
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use xtra::prelude::*;
use xtra::Error;

#[derive(Clone, Copy, PartialEq, Debug)]
enum S { Waiting, Queued, Held, Running, Done, Lost, Refused }

type Resp = Pin<Box<dyn Future<Output = Result<u32, Error>>>>;
type Det = Pin<Box<dyn Future<Output = Result<xtra::Receiver<u32>, Error>>>>;

struct X { st: [S; NM], slow: [bool; NM], v: [u32; NM], n: usize, r: [Option<Task<Resp>>; NM], d: [Option<Task<Det>>; NM], eager: bool, wanted: [bool; NM] }
impl X {
    fn queued(&self) -> usize { (0..self.n).filter(|q| self.st[*q] == S::Queued).count() }
    fn expect(&self, m: usize) -> Option<Result<u32, Error>> {
        match self.st[m] {
            S::Waiting | S::Queued | S::Held | S::Running => None,
            S::Done => Some(Ok(if self.slow[m] { 79 } else { reply(self.v[m]) })),
            S::Lost => Some(Err(Error::Interrupted)),
            S::Refused => Some(Err(Error::Disconnected)),
        }
    }
    /// the response of m is what it has to be, and a task waiting for it was woken
    fn look(&mut self, m: usize) {
        if let Some(t) = self.d[m].as_mut() {
            if self.st[m] == S::Waiting { check(!t.woken() && !t.poll(), 518); return; }
            check(t.woken(), 650);
            check(t.poll(), 519);
            match t.out.take().unwrap() {
                Ok(rx) => { check(self.st[m] != S::Refused, 749); self.r[m] = Some(Task::new(Box::pin(rx) as Resp)); }
                Err(e) => check(self.st[m] == S::Refused && e == Error::Disconnected, 750),
            }
            self.d[m] = None;
        }
        let e = self.expect(m);
        if let Some(t) = self.r[m].as_mut() {
            if t.done() { return; }
            if t.polled { check(t.woken() >= e.is_some(), 1122); }
            let done = t.poll();
            check(done == e.is_some(), 1123);
            if done { check(t.out == e, 1124); }
        }
    }
}

pub fn resp(steps: usize) {
    init();
    let cap = if pick(1, 2) == 0 { None } else { Some(1usize) };
    let (addr, mb) = match cap { None => Mailbox::<Act>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let mut mb = Some(mb);
    let act: *mut Act = leak(Act::new(0));
    let gate = Flag::new();
    let mut x = X { st: [S::Refused; NM], slow: [false; NM], v: [0; NM], n: 0, r: Default::default(), d: Default::default(), eager: pick(3, 2) == 1, wanted: [true; NM] };
    let mut held = None;
    let mut run = None;
    let mut hm = NM; // the message held, or being handled
    let mut joined = Task::new(addr.join());
    check(!joined.poll(), 1207);
    for _ in 0..steps {
        let connected = mb.is_some() || hm < NM;
        match pick(2, 6) {
            0 => { // send; the response is awaited together with the send, or separately, or not wanted
                let m = x.n; x.n += 1;
                x.slow[m] = pick(4, 2) == 1;
                x.v[m] = any_u32(20 + m as u32);
                let full = cap.map_or(false, |c| x.queued() >= c);
                x.st[m] = if !connected { S::Refused } else if full { S::Waiting } else { S::Queued };
                match pick(5, 3) {
                    0 => {
                        let mut t: Task<Resp> = if x.slow[m] { Task::new(Box::pin(addr.send(Slow { tok: Tok::new(m), gate })) as Resp) } else { Task::new(Box::pin(addr.send(uni(m, x.v[m]))) as Resp) };
                        check(t.poll() == !connected, 1125);
                        if !connected { check(t.out == Some(Err(Error::Disconnected)), 751); }
                        x.r[m] = Some(t);
                    }
                    k => {
                        let mut t: Task<Det> = if x.slow[m] { Task::new(Box::pin(addr.send(Slow { tok: Tok::new(m), gate }).detach()) as Det) } else { Task::new(Box::pin(addr.send(uni(m, x.v[m])).detach()) as Det) };
                        check(t.poll() == (x.st[m] != S::Waiting), 523);
                        if x.st[m] == S::Waiting { x.d[m] = Some(t); }
                        else { match t.out.take().unwrap() {
                            Ok(rx) => { check(connected, 752); if k == 1 { x.r[m] = Some(Task::new(Box::pin(rx) as Resp)); } else { x.wanted[m] = false; cover(2); } }
                            Err(e) => check(!connected && e == Error::Disconnected, 753),
                        } }
                    }
                }
            }
            1 => { // receive
                assume(hm == NM && mb.is_some());
                let mut t = Task::new(mb.as_ref().unwrap().next());
                let got = t.poll();
                check(got == (x.queued() > 0), 651);
                if got {
                    let m = (0..x.n).find(|q| x.st[*q] == S::Queued).unwrap();
                    x.st[m] = S::Held; hm = m;
                    held = Some(t.out.take().unwrap());
                    if let Some(q) = (0..x.n).find(|q| x.st[*q] == S::Waiting) { x.st[q] = S::Queued; }
                }
            }
            2 => { // handle the message held, as far as it goes
                if let Some(msg) = held.take() {
                    let mut f = Task::new(msg.dispatch_to(unsafe { &mut *act }));
                    if x.slow[hm] && pick(6, 2) == 1 { cover(3); } // not even polled yet
                    else {
                        x.st[hm] = if x.slow[hm] && !gate.get() { S::Running } else { S::Done };
                        check(f.poll() == (x.st[hm] == S::Done), 2201);
                        if f.done() { check(f.out == Some(ControlFlow::Continue(())), 1030); }
                    }
                    if x.st[hm] == S::Done { drop(f); hm = NM; } else { run = Some(f); }
                } else {
                    assume(hm < NM);
                    gate.set();
                    let mut f: Task<_> = run.take().unwrap();
                    check(f.poll(), 2202);
                    check(f.out == Some(ControlFlow::Continue(())), 1031);
                    drop(f);
                    x.st[hm] = S::Done; hm = NM;
                    gate.clear();
                }
            }
            3 => { // give up on it
                assume(hm < NM);
                if held.is_some() { cover(4); } else { cover(5); }
                give_up((held.take(), run.take()));
                check(w().drops[hm] == 1 && w().completed[0][hm] == 0, 2203);
                x.st[hm] = S::Lost;
                hm = NM;
            }
            4 => { // nobody wants the response any more
                assume(x.n > 0);
                let m = pick(7, x.n as u32) as usize;
                assume(x.r[m].is_some() && x.st[m] != S::Waiting);
                give_up(x.r[m].take());
                cover(6);
            }
            _ => { assume(mb.is_some()); give_up(mb.take()); if hm < NM { cover(7); } }
        }
        if mb.is_none() && hm == NM { for q in 0..x.n {
            if x.st[q] == S::Queued { x.st[q] = S::Lost; }
            if x.st[q] == S::Waiting { x.st[q] = S::Refused; }
        } }
        let connected = mb.is_some() || hm < NM;
        check(addr.is_connected() == connected, 1410);
        check(joined.poll() == !connected, 1208);
        check(addr.len() == x.queued(), 1510);
        for m in 0..x.n {
            check(w().drops[m] == !matches!(x.st[m], S::Waiting | S::Queued | S::Held | S::Running) as u32, 2322);
            check(w().completed[0][m] == (x.st[m] == S::Done) as u32, 122);
            if x.eager { x.look(m); }
        }
    }
    for m in 0..x.n { x.look(m); }
    // nothing is left behind by what was abandoned: the rest is handled as usual
    held = None; run = None;
    if hm < NM { x.st[hm] = S::Lost; }
    if mb.is_none() { for q in 0..x.n { if x.st[q] == S::Queued { x.st[q] = S::Lost; } if x.st[q] == S::Waiting { x.st[q] = S::Refused; } } }
    if let Some(mb) = &mb {
        gate.set();
        for m in 0..x.n { if x.st[m] == S::Queued || x.st[m] == S::Waiting {
            check(step(mb, unsafe { &mut *act }) == Some(ControlFlow::Continue(())), 2204);
            x.st[m] = S::Done;
        } }
        check(step(mb, unsafe { &mut *act }).is_none(), 2205);
    }
    for m in 0..x.n { x.look(m); check(w().drops[m] == 1 && w().made[m] == 1, 2323); check(w().completed[0][m] == (x.st[m] == S::Done) as u32, 123); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_resp_3() { resp(3) }
#[no_mangle] pub extern "C" fn h_resp_4() { resp(4) }
#[no_mangle] pub extern "C" fn h_resp_5() { resp(5) }
#[no_mangle] pub extern "C" fn h_resp_6() { resp(6) }

/// A send that was polled before it is detached (or given a priority), at every stage of its message.
fn detach(chan: bool) {
    init();
    let bounded = pick(1, 2) == 1;
    let (addr, mb) = if bounded { Mailbox::<Act>::bounded(1) } else { Mailbox::unbounded() };
    let ch: MessageChannel<Uni, u32> = MessageChannel::new(addr.clone());
    let act: *mut Act = leak(Act::new(0));
    let v = any_u32(20);
    let other = Task::new(addr.send(fire(1)).detach()).poll();
    check(other, 524);
    macro_rules! go { ($a:expr) => {{
        let mut mb = Some(mb);
        let mut f = $a.send(uni(0, v));
        let early = any_u32(21);
        if pick(2, 2) == 1 { f = f.priority(early); }
        // 0: not polled, else what became of the message
        let mut st = None;
        let polls = pick(3, 3);
        if polls > 0 { st = Some(if bounded { S::Waiting } else { S::Queued }); check(poll_once(&mut f).is_pending(), 1130); }
        let mut events = |st: &mut Option<S>, mb: &mut Option<Mailbox<Act>>, k: u32| {
            for _ in 0..k { if pick(4, 3) == 2 { *mb = None; } else if let Some(mb) = mb { step(mb, unsafe { &mut *act }); } }
            let handled = w().completed[0][0] == 1;
            if let Some(s) = st { match *s {
                S::Waiting | S::Queued => *s = if handled { S::Done } else if mb.is_none() { if *s == S::Waiting && w().handled[0][1] == 0 { S::Refused } else { S::Lost } } else if w().handled[0][1] == 1 { S::Queued } else { *s },
                _ => {}
            } }
        };
        events(&mut st, &mut mb, pick(5, 3));
        if polls > 1 { match st {
            Some(S::Waiting) | Some(S::Queued) => check(poll_once(&mut f).is_pending(), 1131),
            _ => assume(false), // complete: it may not be polled any more
        } }
        if pick(6, 3) == 0 { // too late for a priority, unless it was not polled yet
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let f = f.priority(3); drop(f); }));
            check(r.is_err() == (polls > 0), 1132);
            cover(2);
            cover(1);
            return;
        }
        let mut d = Task::new(f.detach());
        let n = pick(7, 2); events(&mut st, &mut mb, n);
        let connected = mb.is_some();
        let room = !bounded || w().handled[0][1] == 1;
        if st.is_none() { st = Some(if !connected { S::Refused } else if room { S::Queued } else { S::Waiting }); }
        let done = d.poll();
        check(done == (st != Some(S::Waiting)), 1133);
        if !done {
            if let Some(mb) = &mb { step(mb, unsafe { &mut *act }); }
            st = Some(S::Queued);
            check(d.woken() && d.poll(), 1134);
            cover(3);
        }
        if st == Some(S::Refused) { check(matches!(d.out, Some(Err(Error::Disconnected))), 1135); cover(4); }
        else {
            check(matches!(d.out, Some(Ok(_))), 1136);
            let mut r = Task::new(d.out.take().unwrap().ok().unwrap());
            if st == Some(S::Queued) {
                check(!r.poll(), 1137);
                if pick(8, 2) == 0 { mb = None; st = Some(S::Lost); } else { let m = mb.as_ref().unwrap(); step(m, unsafe { &mut *act }); step(m, unsafe { &mut *act }); st = Some(S::Done); }
                check(r.woken(), 1138);
            }
            check(r.poll(), 1139);
            check(r.out == Some(if st == Some(S::Done) { Ok(reply(v)) } else { Err(Error::Interrupted) }), 1140);
            if polls == 2 { cover(5); }
        }
        drop(mb);
        check(w().made[0] == 1 && w().drops[0] == 1, 2325);
        cover(1);
    }} }
    if chan { go!(ch) } else { go!(addr) }
}
#[no_mangle] pub extern "C" fn h_detach_a() { detach(false) }
#[no_mangle] pub extern "C" fn h_detach_c() { detach(true) }
