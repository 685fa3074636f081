impl Handler<u8> for Act { type Return = (); async fn handle(&mut self, _: u8, _: &mut Context<Self>) {} }
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let ch = xtra::message_channel::MessageChannel::<u8, ()>::new(addr.clone()).downgrade().as_either();
    let mut run = T::new(xtra::run(mb, Act(Log::default())));
    run.poll();
    drop(addr);
    ensure(run.poll(), "a weak channel keeps the actor alive");
    drop(ch);
}
