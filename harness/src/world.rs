//! Actors, messages and logs shared by the harnesses.
use crate::vx::*;
use xtra::prelude::*;

pub const NM: usize = 8; // messages per harness
pub const NA: usize = 4; // actors per harness

/// What happened, as seen by the user's code. One log per process; plain memory (each cell is written
/// by one thread only, or under the actor's own exclusive access).
pub struct World {
    pub handled: [[u32; NM]; NA],     // times actor a started handling message m
    pub completed: [[u32; NM]; NA],   // times that handler ran to completion
    pub order: [[u8; 16]; NA],        // messages in order of handling
    pub norder: [usize; NA],
    pub drops: [u32; NM],             // message values destroyed
    pub made: [u32; NM],              // message values created (with clones)
    pub started: [u32; NA],
    pub stopped: [u32; NA],
    pub payload: [u32; NM],
    pub bad: u32,
}
pub static mut W: World = NEW;
pub const NEW: World = World {
    handled: [[0; NM]; NA], completed: [[0; NM]; NA], order: [[0xff; 16]; NA], norder: [0; NA], drops: [0; NM], made: [0; NM],
    started: [0; NA], stopped: [0; NA], payload: [0; NM], bad: 0,
};
pub fn w() -> &'static mut World { unsafe { &mut *std::ptr::addr_of_mut!(W) } }
impl World {
    pub fn total(&self, m: usize) -> u32 { let mut s = 0; for a in 0..NA { s += self.handled[a][m]; } s }
    pub fn total_completed(&self, m: usize) -> u32 { let mut s = 0; for a in 0..NA { s += self.completed[a][m]; } s }
    pub fn begin(&mut self, a: usize, m: usize) {
        self.handled[a][m] += 1;
        let k = self.norder[a];
        if k < 16 { self.order[a][k] = m as u8; }
        self.norder[a] = k + 1;
    }
    /// Forget what happened to m.
    pub fn reset(&mut self, m: usize) { for a in 0..NA { self.handled[a][m] = 0; self.completed[a][m] = 0; self.norder[a] = 0; } self.made[m] = 0; self.drops[m] = 0; }
    /// position of m in actor a's log (or 99)
    pub fn pos(&self, a: usize, m: usize) -> usize { for k in 0..self.norder[a] { if self.order[a][k] as usize == m { return k; } } 99 }
}

/// A message value: counts its destruction.
pub struct Tok(pub usize);
impl Tok { pub fn new(m: usize) -> Tok { w().made[m] += 1; Tok(m) } }
impl Clone for Tok { fn clone(&self) -> Self { Tok::new(self.0) } }
impl Drop for Tok { fn drop(&mut self) { w().drops[self.0] += 1; } }

pub struct Act { pub id: usize }
impl Act { pub fn new(id: usize) -> Act { Act { id } } }
impl Actor for Act {
    type Stop = usize;
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), usize> { w().started[self.id] += 1; Ok(()) }
    async fn stopped(self) -> usize { w().stopped[self.id] += 1; self.id }
}

/// Unicast message; the handler returns a value derived from its payload.
pub struct Uni { pub tok: Tok, pub v: u32 }
pub fn uni(m: usize, v: u32) -> Uni { Uni { tok: Tok::new(m), v } }
pub fn reply(v: u32) -> u32 { v.wrapping_mul(3) ^ 0x55 }
impl Handler<Uni> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Uni, _: &mut Context<Self>) -> u32 {
        w().begin(self.id, m.tok.0);
        w().completed[self.id][m.tok.0] += 1;
        reply(m.v)
    }
}
/// Unicast message without a return value.
pub struct Fire { pub tok: Tok }
pub fn fire(m: usize) -> Fire { Fire { tok: Tok::new(m) } }
impl Handler<Fire> for Act {
    type Return = ();
    async fn handle(&mut self, m: Fire, _: &mut Context<Self>) { w().begin(self.id, m.tok.0); w().completed[self.id][m.tok.0] += 1; }
}
/// Broadcast message.
#[derive(Clone)]
pub struct All { pub tok: Tok }
pub fn all(m: usize) -> All { All { tok: Tok::new(m) } }
impl Handler<All> for Act {
    type Return = ();
    async fn handle(&mut self, m: All, _: &mut Context<Self>) { w().begin(self.id, m.tok.0); w().completed[self.id][m.tok.0] += 1; }
}
/// Stop requests.
pub struct StopSelf { pub tok: Tok }
impl Handler<StopSelf> for Act {
    type Return = u32;
    async fn handle(&mut self, m: StopSelf, ctx: &mut Context<Self>) -> u32 { w().begin(self.id, m.tok.0); ctx.stop_self(); w().completed[self.id][m.tok.0] += 1; 77 }
}
pub struct StopAll { pub tok: Tok }
impl Handler<StopAll> for Act {
    type Return = u32;
    async fn handle(&mut self, m: StopAll, ctx: &mut Context<Self>) -> u32 { w().begin(self.id, m.tok.0); ctx.stop_all(); w().completed[self.id][m.tok.0] += 1; 78 }
}
/// A handler that waits for an external event before completing.
pub struct Slow { pub tok: Tok, pub gate: &'static Flag }
impl Handler<Slow> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Slow, _: &mut Context<Self>) -> u32 {
        w().begin(self.id, m.tok.0);
        Gate(m.gate).await;
        w().completed[self.id][m.tok.0] += 1;
        79
    }
}
/// Resolves once the flag is set (polled explicitly by the harness, registers no waker).
pub struct Gate(pub &'static Flag);
impl std::future::Future for Gate {
    type Output = ();
    fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0.get() { std::task::Poll::Ready(()) } else { std::task::Poll::Pending }
    }
}
/// A handler that panics.
pub struct Boom { pub tok: Tok }
impl Handler<Boom> for Act {
    type Return = u32;
    async fn handle(&mut self, m: Boom, _: &mut Context<Self>) -> u32 { w().begin(self.id, m.tok.0); panic!("boom") }
}

/// Receive one message and dispatch it, as a hand-written event loop would. None: nothing to receive.
pub fn step(mb: &Mailbox<Act>, act: &mut Act) -> Option<std::ops::ControlFlow<()>> {
    let mut t = Task::new(mb.next());
    if !t.poll() { t.cancel(); return None; }
    let m = t.out.take().unwrap();
    let mut d = Task::new(m.dispatch_to(act));
    d.poll();
    d.out.take()
}
