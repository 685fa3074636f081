//! Sinks made from addresses and message channels. 20xx.
use crate::vx::*;
use crate::world::*;
use futures_sink::Sink;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::task::Poll;
use xtra::message_channel::MessageChannel;
use xtra::prelude::*;
use xtra::Error;

#[derive(Clone, Copy, PartialEq)]
enum S { Held, Waiting, Queued, Handed, Running, Done, Lost, Refused }
type DynSink = Pin<Box<dyn Sink<Slow, Error = Error>>>;
/// Ordinary handlers for `Slow`, without a response.
pub struct Snk;
impl Actor for Snk { type Stop = (); async fn stopped(self) {} }
impl Handler<Slow> for Snk {
    type Return = ();
    async fn handle(&mut self, m: Slow, _: &mut Context<Self>) { w().begin(0, m.tok.0); Gate(m.gate).await; w().completed[0][m.tok.0] += 1; }
}
impl Handler<Fire> for Snk { type Return = (); async fn handle(&mut self, m: Fire, _: &mut Context<Self>) { w().begin(0, m.tok.0); w().completed[0][m.tok.0] += 1; } }

pub fn sink(steps: usize) {
    init();
    let cap = if pick(1, 2) == 0 { None } else { Some(1usize) };
    let (addr, mb) = match cap { None => Mailbox::<Snk>::unbounded(), Some(c) => Mailbox::bounded(c) };
    let weak = addr.downgrade();
    let kind = pick(2, 5);
    let keeps = kind == 0 || kind == 2 || kind == 4;
    let mut strong = if kind == 0 || kind == 2 || kind == 4 { None } else { Some(addr.clone()) };
    let mut sk: Option<DynSink> = Some(match kind {
        0 => Box::pin(addr.into_sink::<Slow>()),
        1 => { let w = addr.downgrade(); drop(addr); Box::pin(w.into_sink::<Slow>()) }
        2 => { let c = MessageChannel::<Slow, ()>::new(addr); Box::pin(c.into_sink()) }
        3 => { let c = MessageChannel::<Slow, ()>::new(addr).downgrade(); Box::pin(c.into_sink()) }
        _ => { let c = addr.as_either(); drop(addr); Box::pin(c.into_sink::<Slow>()) as DynSink }
    });
    let mut mb = Some(mb);
    let act: *mut Snk = leak(Snk);
    let gate = Flag::new();
    let flag = Flag::new(); // the task that drives the sink
    let waker = flag.waker();
    let mut st = [S::Refused; NM];
    let mut mine = [false; NM]; // sent through the sink
    let mut since = [0u32; NM]; let mut tick = 0;
    let mut n = 0;
    let mut infl = NM; // the item accepted and not yet known to be done
    let mut failed = false;
    let mut others: [Option<Task<_>>; NM] = Default::default();
    let mut run = None;
    let mut cur = NM;
    let quick = pick(7, 2) == 1; // handlers do not suspend
    if quick { gate.set(); }
    let mut parked = false; // the sink's task waits to be woken
    for _ in 0..steps {
        let alive = |sk: &Option<DynSink>, strong: &Option<Address<Snk>>| strong.is_some() || (keeps && sk.is_some());
        let connected = alive(&sk, &strong) && (mb.is_some() || cur < NM);
        macro_rules! drive { ($ready:expr) => {{
                let mut cx = std::task::Context::from_waker(&waker);
                flag.clear();
                let s = sk.as_mut().unwrap().as_mut();
                let r = if $ready { s.poll_ready(&mut cx) } else { s.poll_flush(&mut cx) };
                // the item is sent when the sink is first polled after accepting it
                if infl < NM && st[infl] == S::Held {
                    let q = st.iter().filter(|s| **s == S::Queued).count();
                    st[infl] = if !connected { S::Refused } else if cap.map_or(false, |c| q >= c) { S::Waiting } else { S::Queued };
                    tick += 1; since[infl] = tick;
                }
                let expect = if infl == NM { Poll::Ready(Ok(())) } else { match st[infl] {
                    S::Done => Poll::Ready(Ok(())), S::Lost => Poll::Ready(Err(Error::Interrupted)), S::Refused => Poll::Ready(Err(Error::Disconnected)), _ => Poll::Pending,
                } };
                check(r == expect, 2001);
                parked = r == Poll::Pending;
                match r { Poll::Pending => {} Poll::Ready(x) => { if x.is_err() { failed = true; cover(2); } infl = NM; } }
        }} }
        match pick(3, 8) {
            op @ (0 | 1) => { assume(sk.is_some() && !failed); drive!(op == 0); } // poll_ready or poll_flush
            2 => { // the next item, once the sink is ready
                assume(sk.is_some() && !failed);
                drive!(true);
                assume(!failed && infl == NM);
                let m = n; n += 1;
                mine[m] = true;
                check(sk.as_mut().unwrap().as_mut().start_send(Slow { tok: Tok::new(m), gate }) == Ok(()), 2003);
                st[m] = S::Held; infl = m;
                if pick(6, 2) == 0 { drive!(false); }
            }
            3 => { // somebody else sends as well
                let m = n; n += 1;
                let mut t = Task::new(weak.send(fire(m)).detach());
                let r = t.poll();
                let q = st.iter().filter(|s| **s == S::Queued).count();
                st[m] = if !connected { S::Refused } else if cap.map_or(false, |c| q >= c) { S::Waiting } else { S::Queued };
                tick += 1; since[m] = tick;
                check(r == (st[m] != S::Waiting), 2004);
                others[m] = Some(t);
            }
            4 => { // the actor takes a message
                assume(mb.is_some() && cur == NM);
                let mut t = Task::new(mb.as_ref().unwrap().next());
                let q = (0..n).filter(|q| st[*q] == S::Queued).min_by_key(|q| since[*q]);
                let r = t.poll();
                check(r == (q.is_some() || !alive(&sk, &strong)), 2005);
                if r {
                    let before = w().norder[0];
                    let mut d = Task::new(t.out.take().unwrap().dispatch_to(unsafe { &mut *act }));
                    let f = d.poll();
                    match q {
                        None => check(d.out == Some(ControlFlow::Break(())), 2006),
                        Some(m) => {
                            check(w().norder[0] == before + 1 && w().order[0][before] as usize == m, 2007); // in the order accepted
                            st[m] = if mine[m] && !gate.get() { S::Running } else { S::Done };
                            check(f == (st[m] == S::Done), 2008);
                            if let Some(q) = (0..n).filter(|q| st[*q] == S::Waiting).min_by_key(|q| since[*q]) { st[q] = S::Queued; tick += 1; since[q] = tick; }
                            if f { drop(d); } else { cur = m; run = Some(d); }
                        }
                    }
                }
            }
            5 => { // it finishes, or is interrupted
                assume(cur < NM);
                let mut d: Task<_> = run.take().unwrap();
                if pick(4, 2) == 0 { gate.set(); check(d.poll(), 2009); st[cur] = S::Done; if !quick { gate.clear(); } } else { st[cur] = S::Lost; }
                give_up(d);
                cur = NM;
            }
            6 => { // the mailbox goes
                assume(mb.is_some());
                give_up(mb.take());
            }
            _ => { // the sink goes, or the other address
                if pick(5, 2) == 0 {
                    assume(sk.is_some());
                    give_up(sk.take());
                    if infl < NM { if st[infl] == S::Held || st[infl] == S::Waiting { st[infl] = S::Refused; cover(3); } infl = NM; }
                    parked = false;
                } else { assume(strong.is_some()); give_up(strong.take()); }
            }
        }
        if mb.is_none() && cur == NM { for q in 0..n { match st[q] { S::Queued => st[q] = S::Lost, S::Waiting => st[q] = S::Refused, _ => {} } } }
        check(weak.is_connected() == ((strong.is_some() || (keeps && sk.is_some())) && (mb.is_some() || cur < NM)), 2010);
        if parked && infl < NM && matches!(st[infl], S::Done | S::Lost | S::Refused) { check(flag.get(), 2011); }
        for m in 0..n {
            check(w().total(m) == matches!(st[m], S::Running | S::Done) as u32 || st[m] == S::Lost, 2012);
            check(w().completed[0][m] == (st[m] == S::Done) as u32, 2013);
            check(w().drops[m] == matches!(st[m], S::Done | S::Lost | S::Refused) as u32, 2014);
        }
    }
    if (0..n).filter(|q| mine[*q] && st[*q] == S::Done).count() > 1 { cover(4); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_sink_4() { sink(4) }
#[no_mangle] pub extern "C" fn h_sink_5() { sink(5) }
#[no_mangle] pub extern "C" fn h_sink_6() { sink(6) }
#[no_mangle] pub extern "C" fn h_sink_7() { sink(7) }

/// A sink on one thread, the actor on another, and a third that sends, or takes the mailbox away.
#[no_mangle] pub extern "C" fn h_c_sink() {
    init();
    let (addr, mb) = match pick(1, 2) { 0 => Mailbox::<Snk>::unbounded(), _ => Mailbox::bounded(1) };
    let weak = addr.downgrade();
    let other = pick(2, 2);
    let chan = pick(3, 2) == 1;
    let mut sk: Pin<Box<dyn Sink<Fire, Error = Error>>> = if chan { Box::pin(MessageChannel::<Fire, ()>::new(addr).into_sink()) } else { Box::pin(addr.into_sink::<Fire>()) };
    let t1 = spawn(move || {
        let mut lost = NM;
        for m in 0..2 {
            let r = block_on(std::future::poll_fn(|cx| sk.as_mut().poll_ready(cx)));
            if r.is_err() { lost = m; break; }
            if m > 0 { check(w().completed[0][m - 1] == 1, 2080); } // ready only once the last one is done
            check(sk.as_mut().start_send(Fire { tok: Tok::new(m) }).is_ok(), 2081);
        }
        if lost == NM {
            let r = block_on(std::future::poll_fn(|cx| sk.as_mut().poll_close(cx)));
            check(r.is_ok() == (w().completed[0][1] == 1), 2082);
            if other == 0 { check(r.is_ok(), 2083); }
        } else { check(other == 1, 2084); }
        drop(sk);
    });
    let t2 = spawn(move || {
        if other == 0 { block_on(xtra::run(mb, Snk)); } else {
            let mut a = Snk;
            let m = block_on(mb.next());
            block_on(m.dispatch_to(&mut a)); // one message, then the mailbox is gone
        }
    });
    let t3 = if other == 0 { Some(spawn(move || { let r = block_on(weak.send(Fire { tok: Tok::new(2) })); check(r.is_ok() == (w().completed[0][2] == 1), 2085); })) } else { None };
    quiesce();
    check(finished(t1) && t3.map_or(true, finished), 2086);
    check(finished(t2), 2087);
    if other == 0 {
        check(w().handled[0][0] == 1 && w().handled[0][1] == 1, 2088);
        check(w().pos(0, 0) < w().pos(0, 1), 2089);
    } else { check(w().handled[0][0] == 1 && w().handled[0][1] == 0, 2090); }
    for q in 0..3 { check(w().made[q] == w().drops[q], 2091); }
    cover(1);
}
