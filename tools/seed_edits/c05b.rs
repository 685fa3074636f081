fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(Log::default());
    let mut r = T::new(mb.next());
    r.poll();
    now(addr.send(M(0)).detach()); // goes to the receive
    now(addr.send(M(1)).detach()); // is queued, the mailbox is full
    drop(r); // M(0) goes back to the mailbox, which now holds one more than its capacity
    let mut t = T::new(addr.send(M(2)).detach());
    ensure(!t.poll(), "full");
    step(&mb, &mut a);
    ensure(addr.len() == 1, &format!("the mailbox of capacity 1 holds {} messages", addr.len()));
    ensure(!t.poll(), "still full");
    step(&mb, &mut a);
    ensure(t.poll(), "room");
}
