struct Own(WeakAddress, Arc<()>);
type WeakAddress = xtra::WeakAddress<Act>;
impl Handler<Own> for Act { type Return = (); async fn handle(&mut self, _: Own, _: &mut Context<Self>) {} }
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let probe = Arc::new(());
    now(addr.send(Own(addr.downgrade(), probe.clone())));
    drop(addr);
    drop(mb);
    ensure(Arc::strong_count(&probe) == 1, "everything is gone but the message is never destroyed");
}
