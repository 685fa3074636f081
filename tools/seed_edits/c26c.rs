#[derive(xtra_macros::Actor)]
struct Two<A, B> where A: Clone { a: A, b: B }
struct Get;
impl<A: Clone + Send + 'static, B: Copy + Send + 'static> Handler<Get> for Two<A, B> { type Return = B; async fn handle(&mut self, _: Get, _: &mut Context<Self>) -> B { self.b } }
fn main() {
    let (a, m) = Mailbox::unbounded();
    let mut s = T::new(a.send(Get));
    s.poll();
    drop(a);
    ensure(now(xtra::run(m, Two { a: 4, b: 5 })) == Some(()), "the actor does not run to its end");
    s.poll();
    ensure(s.out == Some(Ok(5)), "no response");
}
