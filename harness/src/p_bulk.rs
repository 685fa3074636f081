//! Large numbers: every capacity (a symbolic 64-bit number) against many messages, and hundreds of messages,
//! waiting senders, mailboxes, addresses, receives, joiners and responses at once.
use crate::vx::*;
use crate::world::All;
use std::future::Future;
use std::ops::ControlFlow;
use std::pin::Pin;
use xtra::prelude::*;
use xtra::{Error, WeakAddress};

struct Bw { log: Vec<u32>, made: u32, drops: u32, stops: u32 }
static mut BW: Bw = Bw { log: Vec::new(), made: 0, drops: 0, stops: 0 };
fn bw() -> &'static mut Bw { unsafe { &mut *std::ptr::addr_of_mut!(BW) } }
struct Tk(u32);
impl Tk { fn new(m: usize) -> Tk { bw().made += 1; Tk(m as u32) } }
impl Clone for Tk { fn clone(&self) -> Tk { Tk::new(self.0 as usize) } }
impl Drop for Tk { fn drop(&mut self) { bw().drops += 1; } }
struct B;
impl Actor for B { type Stop = u32; async fn stopped(self) -> u32 { bw().stops += 1; 77 } }
struct Mu(Tk);
impl Handler<Mu> for B { type Return = u32; async fn handle(&mut self, m: Mu, _: &mut Context<Self>) -> u32 { bw().log.push(m.0 .0); 1000 + m.0 .0 } }
#[derive(Clone)]
struct Mb(Tk);
impl Handler<Mb> for B { type Return = (); async fn handle(&mut self, m: Mb, _: &mut Context<Self>) { bw().log.push(m.0 .0); } }
impl Handler<All> for B { type Return = (); async fn handle(&mut self, _: All, _: &mut Context<Self>) {} }

/// The number of the message taken, if there was one.
fn take(mb: &Mailbox<B>) -> Option<u32> {
    let n = bw().log.len();
    let mut t = Task::new(mb.next());
    if !t.poll() { return None; }
    let m = t.out.take().unwrap();
    let mut a = B;
    let mut d = Task::new(m.dispatch_to(&mut a));
    check(d.poll() && d.out == Some(ControlFlow::Continue(())), 140);
    check(bw().log.len() == n + 1, 141);
    Some(bw().log[n])
}
type Sent = Task<Pin<Box<dyn Future<Output = Result<u32, Error>>>>>;
fn send(a: &WeakAddress<B>, m: usize, all: bool, p: u32) -> Sent {
    Task::new(if all { let f = a.broadcast(Mb(Tk::new(m))).priority(p); Box::pin(async move { f.await.map(|()| 1000 + m as u32) }) as _ } else { Box::pin(a.send(Mu(Tk::new(m))).priority(p)) as _ })
}
/// `n` sends into a mailbox of any capacity; then everything is taken. A few are given up while they wait.
fn cap(n: usize) {
    init();
    let all = pick(1, 2) == 1;
    let c = any_u64(2) as usize;
    if c == 0 { return none(all, n); }
    let gone = pick(3, 3) as usize; // nobody gives up; every second one of those waiting; all from some number on
    let (addr, mb) = Mailbox::<B>::bounded(c);
    let w = addr.downgrade();
    check(addr.capacity() == Some(c), 1520);
    let mut s: Vec<Option<Sent>> = Vec::new();
    let mut k = 0; // let in at once
    for m in 0..n {
        let mut t = send(&w, m, all, 0);
        let done = t.poll();
        let room = m < c;
        if all { check(done == room, 540); }
        if room { k = m + 1; }
        check(w.len() == k, 1521);
        s.push(Some(t));
    }
    if k < n { cover(2); } else { cover(3); }
    let mut want: Vec<usize> = Vec::new();
    for m in 0..n { if m >= k && (gone == 1 && (m - k) % 2 == 1 || gone == 2 && m > k) { s[m] = None; cover(4); } else { want.push(m); } }
    check(w.len() == k, 1522);
    for i in 0..want.len() {
        let next = i + k; // the one there is room for now
        if next < want.len() { check(!s[want[next]].as_ref().unwrap().woken(), 541); }
        check(take(&mb) == Some(want[i] as u32), 320);
        if next < want.len() { check(s[want[next]].as_mut().unwrap().woken(), 640); let t = s[want[next]].as_mut().unwrap(); check(t.poll() == all, 641); }
        if next + 1 < want.len() { check(!s[want[next + 1]].as_ref().unwrap().woken(), 542); }
        check(w.len() == k.min(want.len() - i - 1), 1523);
        let t = s[want[i]].as_mut().unwrap();
        check(t.run(), 648); check(t.out == Some(Ok(1000 + want[i] as u32)), 1150);
    }
    check(take(&mb).is_none() && w.is_empty(), 142);
    drop(s);
    check(bw().made == bw().drops, 2340);
    cover(1);
}
/// A mailbox of capacity 0 takes nothing but what an actor is waiting for.
fn none(all: bool, n: usize) {
    let (addr, mb) = Mailbox::<B>::bounded(0);
    check(addr.capacity() == Some(0) && addr.is_empty(), 1520);
    let w = addr.downgrade();
    let mut r = Task::new(mb.next());
    if !all {
        check(!r.poll(), 641);
        let mut t = send(&w, 0, false, 0);
        check(!t.poll() && r.woken() && r.poll(), 640);
        check(w.is_empty(), 1521);
        let mut a = B;
        let mut d = Task::new(r.out.take().unwrap().dispatch_to(&mut a));
        check(d.poll(), 140);
        drop(d);
        check(t.run() && t.out == Some(Ok(1000)), 1150);
    }
    drop(r);
    let mut s: Vec<Sent> = Vec::new();
    for m in 1..=n {
        let mut t = send(&w, m, all, 0);
        check(!t.poll(), 540);
        check(w.is_empty(), 1521);
        s.push(t);
    }
    drop(s.remove(0));
    drop(mb);
    for t in s.iter_mut() { check(t.woken() && t.run() && t.out == Some(Err(Error::Disconnected)), 745); }
    drop(s);
    check(bw().made == bw().drops, 2340);
    cover(5);
}
/// `n` of everything.
fn many(n: usize) {
    init();
    let kind = pick(1, 10);
    let p = any_u32(2);
    let (addr, mb) = if kind == 1 { Mailbox::<B>::bounded(n / 2) } else { Mailbox::unbounded() };
    let w = addr.downgrade();
    let hot = n / 2 + 3; // sent with priority p
    let mut s: Vec<Sent> = Vec::new();
    let mut actor = move |mb: Mailbox<B>| Task::new(Box::pin(xtra::run(mb, B)));
    match kind {
        // the event loop handles all messages, in order
        0 | 1 | 2 => {
            let all = kind == 2;
            for m in 0..n { let mut t = send(&w, m, all, if m == hot { p } else { 0 }); t.poll(); s.push(t); }
            let c = if kind == 1 { n / 2 } else { n };
            check(w.len() == c, 1524);
            let mut a = actor(mb);
            check(!a.run(), 143);
            for _ in 0..2 { for t in s.iter_mut() { t.run(); } a.run(); }
            for (m, t) in s.iter_mut().enumerate() { check(t.run(), 645); check(t.out == Some(Ok(1000 + m as u32)), 1151); }
            check(bw().log.len() == n && w.len() == 0, 144);
            let mut next = 0;
            for (i, x) in bw().log.iter().enumerate() {
                if *x as usize == hot { check(p == 0 || i == if kind == 1 { 1 } else { 0 }, 420); check(p > 0 || i == hot, 321); } else { if next == hot { next += 1; } check(*x as usize == next, 322); next += 1; }
            }
            drop(addr);
            check(a.run() && a.out == Some(77), 1034);
        }
        // addresses come and go; the actor stops after the last one
        3 => {
            let mut a = actor(mb);
            check(!a.run(), 145);
            let mut v = vec![addr];
            for i in 1..n { let x = if i % 2 == 0 { v[i - 1].clone() } else { w.try_upgrade().unwrap() }; v.push(x); }
            let mut weak: Vec<WeakAddress<B>> = Vec::new();
            for x in &v { weak.push(x.downgrade()); }
            for i in 0..n - 1 { drop(v.remove(if i % 3 == 0 { 0 } else { v.len() - 1 })); }
            check(!a.run() && w.is_connected() && w.try_upgrade().is_some(), 841);
            let mut t = send(&w, 0, false, p);
            t.poll(); a.run();
            check(t.run() && t.out == Some(Ok(1000)), 842);
            v.clear();
            check(a.run() && a.out == Some(77), 843);
            check(w.try_upgrade().is_none() && !weak[n - 1].is_connected(), 844);
        }
        // as many mailboxes, each of which handles a broadcast
        4 | 5 => {
            let mut v = vec![mb];
            for _ in 1..n { let c = v[v.len() - 1].clone(); v.push(c); }
            if kind == 4 {
                let mut a: Vec<_> = v.drain(..).map(|m| actor(m)).collect();
                for x in a.iter_mut() { check(!x.run(), 146); }
                let mut t = send(&w, 5, true, p);
                check(t.run(), 543);
                for x in a.iter_mut() { check(x.woken() && !x.run(), 642); }
                check(bw().log.len() == n && bw().log.iter().all(|x| *x == 5), 230);
                // as many messages, one each
                for m in 0..n { let mut t = send(&w, m, false, 0); t.poll(); check(w.len() == 0, 1525); s.push(t); }
                for x in a.iter_mut() { check(x.woken() && !x.run(), 643); }
                for (m, t) in s.iter_mut().enumerate() { check(t.run(), 646); check(t.out == Some(Ok(1000 + m as u32)), 1152); }
                check(bw().log.len() == 2 * n, 147);
                drop(addr);
                for x in a.iter_mut() { check(x.run() && x.out == Some(77), 845); }
                check(bw().stops == n as u32, 1035);
            } else {
                // all but the last go; it still gets everything, and then nobody is there
                let last = v.pop().unwrap();
                let mut t = send(&w, 5, true, p); check(t.run(), 544);
                v.clear();
                check(w.is_connected() && w.len() == 1 && take(&last) == Some(5), 231);
                let mut t = send(&w, 6, false, p); t.poll();
                drop(last);
                check(t.run() && t.out == Some(Err(Error::Interrupted)) && !w.is_connected() && w.len() == 0, 783);
            }
        }
        // as many waiting receives of one mailbox; every third is given up; the others share the messages
        6 => {
            let mut r: Vec<Task<_>> = Vec::new();
            for _ in 0..n { let mut t = Task::new(mb.next()); check(!t.poll(), 148); r.push(t); }
            for i in (0..n).step_by(3) { r[i].cancel(); }
            let left = n - (n + 2) / 3;
            for m in 0..left { let mut t = send(&w, m, false, p); t.poll(); check(w.len() == 0, 1526); s.push(t); }
            let mut t = send(&w, 999, false, p); t.poll(); check(w.len() == 1, 1527); s.push(t);
            let mut m = 0;
            for t in r.iter_mut() { if t.fut.is_some() { check(t.woken() && t.poll(), 644); let x = t.out.take().unwrap(); let mut a = B; let mut d = Task::new(x.dispatch_to(&mut a)); check(d.poll(), 149); check(*bw().log.last().unwrap() == m, 323); m += 1; } }
            check(take(&mb) == Some(999), 150);
            for t in s.iter_mut() { check(t.run(), 647); check(t.out.as_ref().unwrap().is_ok(), 1153); }
        }
        // as many joiners and weak addresses
        7 => {
            let mut j: Vec<Task<_>> = (0..n).map(|i| Task::new(if i % 2 == 0 { addr.join() } else { w.join() })).collect();
            for t in j.iter_mut() { check(!t.poll(), 1230); }
            for i in (0..n).step_by(5) { j[i].cancel(); }
            let mut a = actor(mb);
            check(!a.run(), 151);
            drop(addr);
            check(a.run(), 846);
            for (i, t) in j.iter_mut().enumerate() { if i % 5 != 0 { check(t.woken() && t.poll(), 1231); } }
        }
        // a mailbox of that many places
        8 => {
            let (addr2, mb2) = Mailbox::<B>::bounded(n);
            let w2 = addr2.downgrade();
            let all = pick(3, 2) == 1;
            for m in 0..n + 2 { let mut t = send(&w2, m, all, p); let d = t.poll(); check(d == (all && m < n), 545); check(w2.len() == n.min(m + 1), 1529); s.push(t); }
            for m in 0..n + 2 { check(take(&mb2) == Some(m as u32), 324); if m < 2 { check(s[n + m].woken() && s[n + m].poll() == all, 649); } }
            for t in s.iter_mut() { check(t.run(), 650); check(t.out.as_ref().unwrap().is_ok(), 1154); }
        }
        // senders wait on a full mailbox and learn that it is gone
        _ => {
            let (addr2, mb2) = Mailbox::<B>::bounded(1);
            let w2 = addr2.downgrade();
            for m in 0..n { let mut t = send(&w2, m, m % 2 == 1, p); t.poll(); s.push(t); }
            check(w2.len() == 2, 1528);
            drop(mb2);
            for (m, t) in s.iter_mut().enumerate() { check(t.run(), 784); check(t.out == Some(if m == 0 { Err(Error::Interrupted) } else if m == 1 { Ok(1001) } else { Err(Error::Disconnected) }), 785); }
            check(w2.len() == 0 && !w2.is_connected(), 786);
        }
    }
    drop(s);
    check(bw().made == bw().drops, 2341);
    cover(1);
}
#[no_mangle] pub extern "C" fn h_bulk_cap_16() { cap(16) }
#[no_mangle] pub extern "C" fn h_bulk_cap_40() { cap(40) }
#[no_mangle] pub extern "C" fn h_bulk_many() { many(300) }
#[no_mangle] pub extern "C" fn h_bulk_more() { many(520) }

/// More than 2^16 of everything.
fn huge(n: usize) {
    init();
    let kind = pick(1, 4);
    let (addr, mb) = if kind == 2 { Mailbox::<B>::bounded(n) } else { Mailbox::unbounded() };
    let w = addr.downgrade();
    let flag = Flag::new();
    let waker = flag.waker();
    let mut cx = std::task::Context::from_waker(&waker);
    match kind {
        0 | 1 | 2 => { // queued, then handled in order
            bw().log.reserve(n + 1);
            for m in 0..n {
                if kind == 1 { check(Pin::new(&mut w.broadcast(Mb(Tk::new(m)))).poll(&mut cx).is_ready(), 546); }
                else { check(Pin::new(&mut w.send(Mu(Tk::new(m)))).poll(&mut cx).is_pending(), 547); }
            }
            check(w.len() == n, 1535);
            if kind == 2 { // no room for another
                let mut t = send(&w, n, false, 0); check(!t.poll() && w.len() == n, 548);
                check(take(&mb) == Some(0) && t.woken() && !t.poll() && w.len() == n, 549);
            }
            let mut a = Task::new(Box::pin(xtra::run(mb, B)));
            check(!a.run() && w.len() == 0, 152);
            check(bw().log.len() == n + (kind == 2) as usize, if kind == 1 { 232 } else { 153 });
            for (i, x) in bw().log.iter().enumerate() { check(*x as usize == i, 325); }
            drop(addr);
            check(a.run() && a.out == Some(77), 1036);
        }
        _ => { // addresses and mailboxes
            let v: Vec<_> = (0..n).map(|_| addr.clone()).collect();
            let m: Vec<_> = (0..n).map(|_| w.try_upgrade()).collect();
            check(m.iter().all(|x| x.is_some()), 847);
            drop(addr);
            let mut a = Task::new(Box::pin(xtra::run(mb, B)));
            check(!a.run(), 848);
            drop(v);
            check(w.is_connected() && !a.run(), 849);
            drop(m);
            check(!w.is_connected() && a.run() && a.out == Some(77), 850);
        }
    }
    check(bw().made == bw().drops, 2342);
    cover(1);
}
#[no_mangle] pub extern "C" fn h_bulk_64k() { huge(66000) }
