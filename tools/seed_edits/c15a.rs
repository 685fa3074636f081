fn main() {
    let (addr, mb) = Mailbox::<Act>::unbounded();
    now(addr.broadcast(B(0))); now(addr.send(M(1)).detach());
    ensure(addr.len() == 2, &format!("len is {}", addr.len()));
}
