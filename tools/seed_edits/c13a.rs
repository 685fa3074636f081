fn main() {
    let (addr, _mb) = Mailbox::<Act>::unbounded();
    let (s, w) = (addr.as_either(), addr.downgrade().as_either());
    ensure(s != w, "a strong and a weak either-address differ");
    ensure(s.partial_cmp(&w) == Some(s.cmp(&w)), "partial_cmp and cmp disagree");
    ensure(s.partial_cmp(&w) != Some(std::cmp::Ordering::Equal), "different addresses compare as equal");
}
