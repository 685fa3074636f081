use std::hash::{Hash, Hasher};
use xtra::message_channel::MessageChannel as Mc;
fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let (addr, _mb) = Mailbox::<Act>::unbounded();
    let a: Mc<M, u32, xtra::refcount::Either> = Mc::new(addr.as_either());
    let b: Mc<M, u32, xtra::refcount::Either> = Mc::new(addr.downgrade().as_either());
    ensure(a != b, "a strong and a weak channel are not equal");
    ensure(a.clone() == a && h(&a.clone()) == h(&a), "clones are");
    ensure(a != b || h(&a) == h(&b), "equal channels have equal hashes");
}
