fn main() {
    for pause in [0, 600] {
        let (addr, mb) = Mailbox::<Act>::bounded(1);
        let mut act = Act(Log::default());
        ensure(now(addr.send(Fire(1)).detach()).is_some(), "room for one");
        let mut s = T::new(addr.send(Fire(2)).detach());
        ensure(!s.poll(), "no room for two");
        std::thread::sleep(std::time::Duration::from_millis(pause));
        ensure(step(&mb, &mut act).is_some(), "the first is there");
        ensure(s.poll() && matches!(s.out, Some(Ok(_))), "the second was let in");
        ensure(step(&mb, &mut act).is_some(), "the second is there");
        ensure(act.0.str() == "1,2", "both were handled");
    }
}
