//! Actors handed to a runtime by xtra::spawn_*: histories of messages, stops, polls of the spawned tasks in any
//! order and the drop of the address. The runtimes are stand-ins (stubs/): a spawned task is kept for the harness
//! to poll; a dropped handle detaches it, or cancels it with smol. Codes 27xx.
use crate::vx::*;
use crate::world::*;
use xtra::prelude::*;

pub struct Wk { id: usize }
impl Actor for Wk {
    type Stop = ();
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), ()> { w().started[self.id] += 1; Ok(()) }
    async fn stopped(self) { w().stopped[self.id] += 1; }
}
impl Handler<Uni> for Wk {
    type Return = u32;
    async fn handle(&mut self, m: Uni, _: &mut Context<Self>) -> u32 { w().begin(self.id, m.tok.0); w().completed[self.id][m.tok.0] += 1; reply(m.v) }
}
impl Handler<StopSelf> for Wk {
    type Return = u32;
    async fn handle(&mut self, m: StopSelf, c: &mut Context<Self>) -> u32 { w().begin(self.id, m.tok.0); c.stop_self(); w().completed[self.id][m.tok.0] += 1; 77 }
}

fn hand_over(rt: u32, id: usize, am: (Address<Wk>, Mailbox<Wk>), tasks: &mut Vec<Task<xrt::Fut>>) -> Address<Wk> {
    let a = match rt {
        0 => xtra::spawn_tokio(Wk { id }, am),
        1 => xtra::spawn_async_std(Wk { id }, am),
        2 => xtra::spawn_smol(Wk { id }, am),
        _ => xtra::spawn_wasm_bindgen(Wk { id }, am),
    };
    let mut n = 0;
    for s in xrt::take() {
        check(s.runtime == rt, 2701);
        if s.cancelled() { continue; } // as the runtime would
        n += 1;
        tasks.push(Task::new(s.fut));
    }
    check(n > 0, 2702);
    a
}

fn history(steps: usize) {
    init();
    let rt = pick(1, 4);
    let two = pick(2, 2) == 1;
    let (addr, mb) = if pick(3, 2) == 1 { Mailbox::bounded(1) } else { Mailbox::unbounded() };
    let weak = addr.downgrade();
    let n = 1 + two as u32;
    let mut tasks = Vec::new();
    let mb2 = mb.clone();
    let a = hand_over(rt, 0, (addr, mb), &mut tasks);
    check(a.downgrade() == weak && a.is_connected(), 2703);
    if two {
        let b = hand_over(rt, 1, (a.clone(), mb2), &mut tasks);
        check(b.downgrade() == weak, 2704);
    } else { drop(mb2); }
    let mut addr = Some(a);
    let (mut k, mut stops) = (0, 0);
    let mut resp: [Option<Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, xtra::Error>>>>>>; NM] = Default::default();
    let mut want: [Option<bool>; NM] = [None; NM]; // Some(is a stop) where the message has to be handled
    let mut sent = [0u32; NM];
    for step in 0..steps + 1 {
        let op = if step < steps { pick(4, 5) } else { 9 };
        match op {
            0 | 1 => { // the runtime polls one of its tasks
                let i = op as usize;
                assume(i < tasks.len() && !tasks[i].done() && (!tasks[i].polled || tasks[i].woken()));
                tasks[i].poll();
            }
            2 | 3 => {
                assume(addr.is_some());
                let m = k; k += 1;
                sent[m] = any_u32(20 + m as u32);
                let a = addr.as_ref().unwrap();
                let mut t: Task<std::pin::Pin<Box<dyn std::future::Future<Output = Result<u32, xtra::Error>>>>> =
                    if op == 2 { Task::new(Box::pin(a.send(uni(m, sent[m])))) } else { Task::new(Box::pin(a.send(StopSelf { tok: Tok::new(m) }))) };
                t.poll();
                if stops < n { want[m] = Some(op == 3); if op == 3 { stops += 1; } }
                resp[m] = Some(t);
                cover(if op == 2 { 2 } else { 3 });
            }
            4 => { assume(addr.is_some()); addr = None; cover(4); }
            _ => {}
        }
        if op != 9 { continue; }
        // the runtime runs whatever it can
        loop {
            let mut any = false;
            for t in tasks.iter_mut() { if !t.done() && (!t.polled || t.woken()) { t.poll(); any = true; } }
            for r in resp.iter_mut().flatten() { if !r.done() && (!r.polled || r.woken()) { r.poll(); any = true; } }
            if !any { break; }
        }
        let over = addr.is_none() || stops == n;
        for t in &tasks { if over { check(t.done(), 2705); } }
        let ended = if addr.is_none() { n } else { stops };
        check(w().stopped[0] + w().stopped[1] == ended && w().stopped[0] <= 1 && w().stopped[1] <= 1, 2706);
        check(w().started[0] == 1 && w().started[1] == two as u32, 2707);
        for m in 0..k {
            check(w().total(m) == want[m].is_some() as u32, 2708);
            check(w().drops[m] == 1, 2709);
            match (want[m], &resp[m].as_ref().unwrap().out) {
                (Some(false), Some(Ok(v))) => check(*v == reply(sent[m]), 2710),
                (Some(true), Some(Ok(v))) => check(*v == 77, 2711),
                (None, Some(Err(_))) => { cover(5); }
                _ => check(false, 2712),
            }
        }
        check(weak.is_connected() == !over, 2713);
        check(weak.try_upgrade().is_some() == addr.is_some(), 2714);
    }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_spawn_4() { history(4) }
#[no_mangle] pub extern "C" fn h_spawn_5() { history(5) }
#[no_mangle] pub extern "C" fn h_spawn_6() { history(6) }
#[no_mangle] pub extern "C" fn h_spawn_7() { history(7) }
#[no_mangle] pub extern "C" fn h_spawn_8() { history(8) }
