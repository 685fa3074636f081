struct Bad(Arc<Flag>);
impl Actor for Bad {
    type Stop = u32;
    async fn started(&mut self, _: &Mailbox<Self>) -> Result<(), u32> { Err(5) }
    async fn stopped(self) -> u32 { self.0.0.store(1, SeqCst); 6 }
}
fn main() {
    let (_addr, mb) = Mailbox::<Bad>::unbounded();
    let stopped = Flag::new();
    ensure(now(xtra::run(mb, Bad(stopped.clone()))) == Some(5), "the result of the failed start");
    ensure(stopped.get() == 0, "stopped is called although the start failed");
}
