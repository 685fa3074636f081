fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    for i in 0..70_000 { ensure(now(addr.broadcast(B(i))).is_some(), "queued at once"); }
    ensure(addr.len() == 70_000, "the length is wrong");
    drop(mb);
}
