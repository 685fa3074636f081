struct Nested;
impl Handler<Nested> for Act {
    type Return = ();
    async fn handle(&mut self, _: Nested, c: &mut Context<Self>) { xtra::yield_once(c.mailbox(), self).await; }
}
fn main() {
    let log = Log::default();
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut run = T::new(xtra::run(mb, Act(log.clone())));
    let mut n = T::new(addr.send(Nested));
    n.poll();
    run.poll(); // the handler of Nested now waits for the next message on its own
    ensure(now(addr.broadcast(B(1))).is_some(), "sent");
    ensure(now(addr.broadcast(B(2))).is_some(), "sent");
    run.poll();
    drop(addr);
    run.poll();
    ensure(log.str() == "b1,b2,stopped", &format!("each broadcast is handled once, in order: {}", log.str()));
}
