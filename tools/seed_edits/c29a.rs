fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(1);
    let mut a = Act(Log::default());
    let mut first = T::new(addr.send(M(1)));
    first.poll();
    let mut second = T::new(addr.send(M(2)));
    let task = Flag::new();
    for _ in 0..100 { ensure(!second.poll_with(&task), "no room yet"); }
    let held = Arc::strong_count(&task);
    step(&mb, &mut a); step(&mb, &mut a);
    ensure(second.poll_with(&task) && second.out == Some(Ok(2)) && task.get() > 0, "delivered in the end");
    ensure(held <= 10, "the waiting send holds on to one waker for each time it was polled");
}
