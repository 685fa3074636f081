#[derive(Clone)]
struct Bc;
impl Handler<Bc> for Act { type Return = (); async fn handle(&mut self, _: Bc, _: &mut Context<Self>) {} }
fn main() {
    let (addr, a) = Mailbox::<Act>::unbounded();
    let b = a.clone();
    now(addr.send(StopAll));
    let mut act = Act(Log::default());
    now(now(a.next()).unwrap().dispatch_to(&mut act));
    ensure(addr.len() == 1, "the request to stop is not counted while it is pending");
    drop(b);
}
