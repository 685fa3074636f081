struct Wk(Arc<AtomicUsize>);
impl Actor for Wk { type Stop = (); async fn stopped(self) { self.0.fetch_add(100, SeqCst); } }
impl Handler<M> for Wk { type Return = u32; async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u32 { self.0.fetch_add(1, SeqCst); m.0 } }
fn main() {
    // runtime: spawn_async_std (smol::block_on drives the sends)
    let n = Arc::new(AtomicUsize::new(0));
    let a = xtra::spawn_async_std(Wk(n.clone()), Mailbox::unbounded());
    ensure(smol::block_on(async { a.send(M(7)).await }) == Ok(7), "answered");
    std::thread::sleep(std::time::Duration::from_millis(3000));
    ensure(a.is_connected(), "the actor lives as long as its address");
    ensure(smol::block_on(async { a.send(M(8)).await }) == Ok(8), "answered later");
    drop(a);
    for _ in 0..800 { if n.load(SeqCst) == 102 { return; } std::thread::sleep(std::time::Duration::from_millis(10)); }
    ensure(false, "the actor did not stop");
}
