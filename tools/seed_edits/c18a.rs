struct Fin(Arc<Flag>, Address<Act>, Arc<Flag>);
impl Future for Fin { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<()> {
    if self.0.get() == 0 { return Poll::Pending; }
    Poll::Ready(()) } }
fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let l = Log::default();
    let mut a = Act(l.clone());
    let (fin, gate) = (Flag::new(), Flag::new());
    let mut s = T::new(xtra::select(&mb, &mut a, Fin(fin.clone(), addr.clone(), gate.clone())));
    ensure(!s.poll(), "nothing to do yet");
    let mut r = T::new(addr.send(Slow(1, gate.clone())));
    r.poll(); // handed to the receive inside of select
    fin.0.store(1, SeqCst); // and the future completes before select is polled again
    s.poll();
    gate.0.store(1, SeqCst);
    s.poll();
    ensure(s.out.is_some(), "select completes");
    r.poll();
    ensure(r.out == Some(Ok(1)), &format!("the response of the final message is {:?}, log {}", r.out, l.str()));
}
