#[derive(Clone)]
struct Own(Address<Act>);
impl Handler<Own> for Act { type Return = (); async fn handle(&mut self, _: Own, _: &mut Context<Self>) {} }
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    ensure(now(addr.broadcast(Own(addr.clone()))).is_some(), "queued");
    drop(addr);
    let t = std::thread::spawn(move || drop(mb));
    std::thread::sleep(std::time::Duration::from_millis(1500));
    ensure(t.is_finished(), "dropping the mailbox deadlocks");
}
