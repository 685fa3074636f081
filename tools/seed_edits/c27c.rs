struct Wk(Arc<AtomicUsize>);
impl Actor for Wk { type Stop = (); async fn stopped(self) { self.0.fetch_add(100, SeqCst); } }
impl Handler<M> for Wk { type Return = u32; async fn handle(&mut self, m: M, _: &mut Context<Self>) -> u32 { self.0.fetch_add(1, SeqCst); m.0 } }
fn main() {
    // runtime: spawn_smol, with its threads busy
    std::env::set_var("SMOL_THREADS", "1");
    let n = Arc::new(AtomicUsize::new(0));
    for _ in 0..4 { smol::spawn(async { std::thread::sleep(std::time::Duration::from_millis(500)) }).detach(); }
    std::thread::sleep(std::time::Duration::from_millis(100));
    let a = xtra::spawn_smol(Wk(n.clone()), Mailbox::unbounded());
    ensure(now(a.send(M(7)).detach()).is_some(), "sent");
    drop(a);
    for _ in 0..800 { if n.load(SeqCst) == 101 { return; } std::thread::sleep(std::time::Duration::from_millis(10)); }
    ensure(false, "the message was not handled");
}
