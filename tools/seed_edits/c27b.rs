struct Wk(Arc<AtomicUsize>);
impl Actor for Wk { type Stop = (); async fn stopped(self) { self.0.fetch_add(100, SeqCst); } }
impl Handler<M> for Wk { type Return = u32; async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u32 { self.0.fetch_add(1, SeqCst); m.0 } }
fn main() {
    // runtime: async_std (and smol for block_on)
    let n = Arc::new(AtomicUsize::new(0));
    let a = xtra::spawn_async_std(Wk(n.clone()), Mailbox::unbounded());
    let r = smol::block_on(a.send(M(7)));
    ensure(r == Ok(7), &format!("a spawned actor does not answer: {r:?}"));
    drop(a);
    for _ in 0..500 { if n.load(SeqCst) == 101 { return; } std::thread::sleep(std::time::Duration::from_millis(10)); }
    ensure(false, "the actor does not stop although the last address is gone");
}
