fn main() {
    let (addr, mb) = Mailbox::<Act>::bounded(2);
    now(addr.broadcast(B(1)));
    now(addr.broadcast(B(2)));
    ensure(now(addr.send(Fire(1)).detach()).is_some(), "room for the first");
    ensure(now(addr.send(Fire(2)).detach()).is_some(), "a send waits although there is room");
    drop(mb);
}
