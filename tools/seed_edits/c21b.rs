struct OwnBoom(Address<Act>);
impl Handler<OwnBoom> for Act { type Return = (); async fn handle(&mut self, _m: OwnBoom, _: &mut Context<Self>) { panic!("boom") } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mb2 = mb.clone();
    ensure(now(addr.send(OwnBoom(addr.clone())).detach()).is_some(), "queued");
    drop(addr);
    let msg = now(mb.next()).unwrap();
    let mut other = T::new(xtra::run(mb2, Act(Log::default())));
    other.poll();
    ensure(!other.woken(), "idle");
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let mut a = Act(Log::default()); now(msg.dispatch_to(&mut a)); }));
    ensure(e.is_err(), "the panic reaches the executor");
    ensure(other.woken(), "the other actor never learns that the last strong address is gone");
    other.poll();
    ensure(other.out.is_some(), "it stops");
}
