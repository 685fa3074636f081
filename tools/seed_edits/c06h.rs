#[derive(Clone)]
struct Bc;
impl Handler<Bc> for Act { type Return = (); async fn handle(&mut self, _: Bc, _: &mut Context<Self>) {} }
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut a = T::new(mb.next());
    a.poll();
    a.f = None; // say, a timeout
    let mut b = T::new(mb.next());
    b.poll();
    now(addr.broadcast(Bc));
    ensure(b.woken(), "the actor is not woken for a broadcast");
}
