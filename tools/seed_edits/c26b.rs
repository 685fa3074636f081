#[derive(xtra_macros::Actor)]
struct Ring<const N: usize, V> { v: [V; N] }
struct Get;
impl<V: Copy + Send + 'static> Handler<Get> for Ring<2, V> { type Return = V; async fn handle(&mut self, _: Get, _: &mut Context<Self>) -> V { self.v[1] } }
fn main() {
    let (a, m) = Mailbox::unbounded();
    let mut s = T::new(a.send(Get));
    s.poll();
    drop(a);
    ensure(now(xtra::run(m, Ring { v: [4, 5] })) == Some(()), "the actor does not run to its end");
    s.poll();
    ensure(s.out == Some(Ok(5)), "no response");
}
