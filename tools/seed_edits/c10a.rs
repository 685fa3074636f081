#[derive(Clone)]
struct StopB;
impl Handler<StopB> for Act { type Return = (); async fn handle(&mut self, _: StopB, c: &mut Context<Self>) { c.stop_self() } }
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    now(addr.broadcast(StopB)); now(addr.broadcast(B(1)));
    let l = Log::default();
    let mut r = T::new(xtra::run(mb, Act(l.clone())));
    r.poll();
    ensure(r.out.is_some() && l.str() == "stopped", &format!("the actor did not stop itself: {}", l.str()));
}
