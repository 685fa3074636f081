#[derive(Clone)]
struct Bc;
impl Handler<Bc> for Act { type Return = (); async fn handle(&mut self, _: Bc, _: &mut Context<Self>) {} }
fn main() {
    let (addr, a) = Mailbox::<Act>::unbounded();
    let b = a.clone();
    let c = a.clone();
    ensure(now(addr.broadcast(Bc)).is_some(), "sent");
    let mut act = Act(Log::default());
    now(now(a.next()).unwrap().dispatch_to(&mut act));
    ensure(addr.len() == 1, "two mailboxes have yet to take the broadcast but len says there is none");
    drop((b, c));
}
