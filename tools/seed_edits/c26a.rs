use std::cell::Cell;
#[derive(xtra_macros::Actor)]
struct Holder<V> { v: V }
struct Get;
impl Handler<Get> for Holder<Cell<u32>> { type Return = u32; async fn handle(&mut self, _: Get, _: &mut Context<Self>) -> u32 { self.v.get() } }
fn main() {
    let (a, m) = Mailbox::unbounded();
    let mut s = T::new(a.send(Get));
    s.poll();
    drop(a);
    ensure(now(xtra::run(m, Holder { v: Cell::new(4) })) == Some(()), "the actor does not run to its end");
    s.poll();
    ensure(s.out == Some(Ok(4)), "no response");
}
