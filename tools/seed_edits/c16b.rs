struct Own(#[allow(dead_code)] Arc<()>);
impl Handler<Own> for Act { type Return = (); async fn handle(&mut self, _: Own, _: &mut Context<Self>) {} }
fn main() {
    let (addr, _mb) = Mailbox::<Act>::bounded(1);
    ensure(now(addr.send(Fire(1)).detach()).is_some(), "queued");
    let it = Arc::new(());
    let mut s = T::new(addr.send(Own(it.clone())));
    ensure(!s.poll(), "waits");
    drop(s);
    ensure(Arc::strong_count(&it) == 1, "the message of a cancelled send is kept");
}
