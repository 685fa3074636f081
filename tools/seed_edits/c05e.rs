#[derive(Clone)]
struct Bc;
impl Handler<Bc> for Act { type Return = (); async fn handle(&mut self, _: Bc, _: &mut Context<Self>) {} }
fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(300);
    for _ in 0..300 { ensure(now(addr.broadcast(Bc)).is_some(), "a broadcast waits although the mailbox has room"); }
    ensure(now(addr.broadcast(Bc)).is_none(), "a broadcast is let in although the mailbox is full");
    drop(mb);
}
