fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    let mut one = T::new(xtra::run(mb.clone(), Act(Log::default())));
    let mut two = T::new(xtra::run(mb, Act(Log::default())));
    one.poll(); two.poll();
    drop(addr);
    ensure(one.woken() && two.woken(), "an idle actor is not woken when the last address is dropped");
    ensure(one.poll() && two.poll(), "both stop");
}
