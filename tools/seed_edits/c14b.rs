fn main() {
    let (addr, _mb) = Mailbox::<Act>::unbounded();
    let weak = addr.downgrade();
    let w2 = weak.clone();
    let t = std::thread::spawn(move || { let mut v = Vec::new(); for _ in 0..2_000_000 { v.push(w2.try_upgrade().unwrap()); if v.len() > 50 { v.clear(); } } v.clear(); });
    let mut v = Vec::new();
    for _ in 0..2_000_000 { v.push(weak.try_upgrade().unwrap()); if v.len() > 50 { v.clear(); } if !weak.is_connected() { break; } }
    v.clear();
    ensure(t.join().is_ok(), "an upgrade fails although a strong address exists");
    ensure(format!("{:?}", addr).contains("addresses: 1,"), "the number of addresses is wrong");
}
