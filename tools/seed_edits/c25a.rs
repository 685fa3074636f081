fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let ch: MessageChannel<M, u32> = MessageChannel::new(addr);
    let f = ch.send(M(1)); // not polled yet: owns an address, as for Address::send
    let l = Log::default();
    let mut run = T::new(xtra::run(mb, Act(l.clone())));
    run.poll();
    drop(ch);
    run.poll();
    let mut f = T::new(f);
    f.poll();
    run.poll();
    f.poll();
    ensure(f.out == Some(Ok(1)), &format!("the send ended with {:?}", f.out));
}
