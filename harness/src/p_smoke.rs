use crate::vx::*;
use xtra::prelude::*;
pub struct A { sum: u32 }
impl Actor for A { type Stop = u32; async fn stopped(self) -> u32 { self.sum } }
pub struct M(u32);
impl Handler<M> for A { type Return = u32; async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u32 { self.sum = self.sum.wrapping_add(m.0); m.0 ^ 5 } }

#[no_mangle]
pub extern "C" fn h_smoke_seq() {
    init();
    let (addr, mailbox) = Mailbox::<A>::unbounded();
    let x = any_u32(1);
    let mut s = Task::new(addr.send(M(x)));
    check(!s.poll(), 1);
    drop(addr);
    let mut r = Task::new(xtra::run(mailbox, A { sum: 0 }));
    check(r.run(), 2);
    check(s.run(), 3);
    check(s.out == Some(Ok(x ^ 5)), 4);
    check(r.out == Some(x), 5);
    note(1, x as u64);
    cover(1);
}
#[no_mangle]
pub extern "C" fn h_smoke_par() {
    init();
    let (addr, mailbox) = Mailbox::<A>::bounded(1);
    let a2 = addr.clone();
    let r: &'static mut [Option<Result<u32, xtra::Error>>; 2] = Box::leak(Box::new([None, None]));
    let p = r.as_mut_ptr();
    let t1 = spawn(move || { let v = block_on(addr.send(M(1))); unsafe { *p = Some(v) } });
    let t2 = spawn(move || { let v = block_on(a2.send(M(2))); unsafe { *p.add(1) = Some(v) } });
    let t3 = spawn(move || { let v = block_on(xtra::run(mailbox, A { sum: 0 })); check(v == 3, 9); });
    quiesce();
    check(finished(t1), 1); check(finished(t2), 2); check(finished(t3), 3);
    check(r[0] == Some(Ok(4)), 4); check(r[1] == Some(Ok(7)), 5);
    cover(1);
}
