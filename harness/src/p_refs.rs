//! Histories of handle operations (clone, drop, downgrade, upgrade, convert, clone/drop mailbox) against a
//! reference count model. 14xx counts and connectedness, 8xx weak addresses, 13xx equality, order, hashing.
use crate::vx::*;
use crate::world::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::WeakAddress;

type ChS = MessageChannel<Uni, u32, Strong>;
type ChW = MessageChannel<Uni, u32, Weak>;
type ChE = MessageChannel<Uni, u32, Either>;
/// Any kind of handle through which messages can be sent.
pub enum H { S(Address<Act>), W(WeakAddress<Act>), E(Address<Act, Either>), CS(ChS), CW(ChW), CE(ChE) }

pub type Det = std::pin::Pin<Box<dyn std::future::Future<Output = Result<xtra::Receiver<u32>, xtra::Error>>>>;
/// A handle of kind k (address, either-address, channel, either-channel), strong or weak.
pub fn handle(a: &WeakAddress<Act>, strong: Option<&Address<Act>>, k: u32) -> H {
    match (strong, k) {
        (None, 0) => H::W(a.clone()), (None, 1) => H::E(a.as_either()), (None, 2) => H::CW(a.clone().into()), (None, 3) => H::CE(ChW::new(a.clone()).as_either()), (None, _) => { let u = a.try_upgrade().unwrap(); H::CW(ChS::new(u).downgrade()) }
        (Some(a), 0) => H::S(a.clone()), (Some(a), 1) => H::E(a.as_either()), (Some(a), 2) => H::CS(a.clone().into()), (Some(a), 3) => H::CE(ChS::new(a.clone()).as_either()), (Some(a), _) => H::CS(ChS::new(a.clone()).clone()),
    }
}
impl H {
    pub fn send(&self, m: Uni, prio: Option<u32>) -> Det {
        let first = m.tok.0 & 1 == 0;
        macro_rules! go { ($a:expr) => {{ let f = $a.send(m); match prio { None => Box::pin(f.detach()), Some(p) => if first { Box::pin(f.priority(p).detach()) as Det } else { Box::pin(f.detach().priority(p)) as Det } } }} }
        match self { H::S(a) => go!(a), H::W(a) => go!(a), H::E(a) => go!(a), H::CS(a) => go!(a), H::CW(a) => go!(a), H::CE(a) => go!(a) }
    }
    pub fn clone(&self) -> H {
        match self { H::S(a) => H::S(a.clone()), H::W(a) => H::W(a.clone()), H::E(a) => H::E(a.clone()), H::CS(a) => H::CS(a.clone()), H::CW(a) => H::CW(a.clone()), H::CE(a) => H::CE(a.clone()) }
    }
    /// weak counterpart, where the API offers one
    pub fn downgrade(&self) -> Option<H> {
        match self { H::S(a) => Some(H::W(a.downgrade())), H::E(a) => Some(H::W(a.downgrade())), H::CS(a) => Some(H::CW(a.downgrade())), H::CE(a) => Some(H::CW(a.downgrade())), _ => None }
    }
    pub fn either(&self) -> Option<H> {
        match self { H::S(a) => Some(H::E(a.as_either())), H::W(a) => Some(H::E(a.as_either())), H::E(a) => Some(H::E(a.as_either())),
            H::CS(a) => Some(H::CE(a.as_either())), H::CW(a) => Some(H::CE(a.as_either())), H::CE(a) => Some(H::CE(a.as_either())) }
    }
    pub fn channel(&self) -> Option<H> {
        match self { H::S(a) => Some(H::CS(MessageChannel::new(a.clone()))), H::W(a) => Some(H::CW(a.clone().into())), H::E(a) => Some(H::CE(a.clone().into())), _ => None }
    }
    pub fn connected(&self) -> bool {
        match self { H::S(a) => a.is_connected(), H::W(a) => a.is_connected(), H::E(a) => a.is_connected(), H::CS(a) => a.is_connected(), H::CW(a) => a.is_connected(), H::CE(a) => a.is_connected() }
    }
    pub fn len(&self) -> usize {
        match self { H::S(a) => a.len(), H::W(a) => a.len(), H::E(a) => a.len(), H::CS(a) => a.len(), H::CW(a) => a.len(), H::CE(a) => a.len() }
    }
    pub fn is_empty(&self) -> bool {
        match self { H::S(a) => a.is_empty(), H::W(a) => a.is_empty(), H::E(a) => a.is_empty(), H::CS(a) => a.is_empty(), H::CW(a) => a.is_empty(), H::CE(a) => a.is_empty() }
    }
    pub fn capacity(&self) -> Option<usize> {
        match self { H::S(a) => a.capacity(), H::W(a) => a.capacity(), H::E(a) => a.capacity(), H::CS(a) => a.capacity(), H::CW(a) => a.capacity(), H::CE(a) => a.capacity() }
    }
    pub fn debug(&self) -> String {
        match self { H::S(a) => format!("{:?}", a), H::W(a) => format!("{:?}", a), H::E(a) => format!("{:?}", a), H::CS(a) => format!("{:?}", a), H::CW(a) => format!("{:?}", a), H::CE(a) => format!("{:?}", a) }
    }
    pub fn join(&self) -> xtra::address::ActorJoinHandle {
        match self { H::S(a) => a.join(), H::W(a) => a.join(), H::E(a) => a.join(), H::CS(a) => a.join(), H::CW(a) => a.join(), H::CE(a) => a.join() }
    }
}
fn ends(s: &str, addresses: usize, mailboxes: usize) -> bool { s.ends_with(&format!("{{ addresses: {}, mailboxes: {} }}", addresses, mailboxes)) }

pub fn refs(steps: usize) {
    init();
    let (a, m) = Mailbox::<Act>::unbounded();
    let mut hs: Vec<(H, bool)> = vec![(H::S(a), true)];
    let mut mbs = vec![m];
    let mut upgraded_dead = false;
    let mut fs: Vec<(Det, bool)> = Vec::new(); // sends that were never polled: they own an address like the one they were made from
    let mut sent = 0;
    for _ in 0..steps {
        let nh = hs.len(); let nm = mbs.len();
        match pick(1, 11) {
            0 => { assume(nh > 0 && nh < 4); let k = pick(2, nh as u32) as usize; let n = (hs[k].0.clone(), hs[k].1); hs.push(n); }
            1 => { assume(nh > 0); let k = pick(2, nh as u32) as usize; give_up(hs.swap_remove(k)); }
            2 => { assume(nh > 0 && nh < 4); let k = pick(2, nh as u32) as usize; let d = hs[k].0.downgrade(); assume(d.is_some()); hs.push((d.unwrap(), false)); }
            3 => { assume(nh > 0 && nh < 4); let k = pick(2, nh as u32) as usize; let d = hs[k].0.either(); let s = hs[k].1; hs.push((d.unwrap(), s)); }
            4 => { assume(nh > 0 && nh < 4); let k = pick(2, nh as u32) as usize; let d = hs[k].0.channel(); assume(d.is_some()); let s = hs[k].1; hs.push((d.unwrap(), s)); }
            5 => { // upgrade: a weak address held by the user, or a fresh one from the mailbox
                assume(nh < 4);
                let k = pick(2, nh as u32 + 1) as usize;
                let w = if k < nh { match &hs[k].0 { H::W(w) => Some(w.clone()), _ => None } } else if nm > 0 { Some(mbs[0].address()) } else { None };
                assume(w.is_some());
                let alive = hs.iter().any(|h| h.1) || fs.iter().any(|f| f.1);
                let up = w.unwrap().try_upgrade();
                check(up.is_some() == alive, 801);
                if !alive { upgraded_dead = true; }
                if let Some(a) = up { hs.push((H::S(a), true)); }
            }
            6 => { assume(nm > 0 && nm < 3); let k = pick(2, nm as u32) as usize; let n = mbs[k].clone(); mbs.push(n); }
            7 => { assume(nm > 0); let k = pick(2, nm as u32) as usize; give_up(mbs.swap_remove(k)); }
            8 => { assume(nh > 0 && fs.len() < 2); let k = pick(2, nh as u32) as usize; let f = (hs[k].0.send(uni(sent, 0), None), hs[k].1); sent += 1; fs.push(f); }
            9 => { assume(fs.len() > 0); let k = pick(2, fs.len() as u32) as usize; give_up(fs.swap_remove(k)); cover(4); }
            _ => {
                assume(fs.len() > 0); let k = pick(2, fs.len() as u32) as usize;
                let conn = nm > 0 && (hs.iter().any(|h| h.1) || fs.iter().any(|f| f.1));
                let mut t = Task::new(fs.swap_remove(k).0);
                check(t.poll(), 1407);
                check(matches!(t.out, Some(Ok(_))) == conn, 1408);
                if !conn { check(matches!(t.out, Some(Err(xtra::Error::Disconnected))), 1409); }
                let before = w().norder[0];
                if conn { check(step(&mbs[0], &mut Act::new(0)) == Some(std::ops::ControlFlow::Continue(())) && w().norder[0] == before + 1, 107); }
                cover(5);
            }
        }
        let strong = hs.iter().filter(|h| h.1).count() + fs.iter().filter(|f| f.1).count();
        for (h, _) in &hs {
            check(h.connected() == (strong > 0 && mbs.len() > 0), 1401);
            check(h.len() == 0 && h.is_empty() && h.capacity().is_none(), 1505);
        }
        if let Some((h, _)) = hs.last() { check(ends(&h.debug(), strong, mbs.len()), 1402); }
        if mbs.len() > 0 {
            // a receive future counts for as long as it lives
            let f = mbs[0].next();
            if let Some((h, _)) = hs.first() { check(h.connected() == (strong > 0), 1403); }
            drop(f);
            // the actor is told to stop exactly when no strong address is left
            let mut act = Act::new(0);
            let r = step(&mbs[mbs.len() - 1], &mut act);
            check(r == if strong == 0 { Some(std::ops::ControlFlow::Break(())) } else { None }, 802);
        }
        if let Some((h, _)) = hs.last() {
            // join completes at once on a disconnected address, and not on a connected one
            let mut j = Task::new(h.join());
            check(j.poll() == !(strong > 0 && mbs.len() > 0), 1201);
        }
    }
    if upgraded_dead { cover(2); }
    if hs.iter().any(|h| matches!(h.0, H::CE(_))) { cover(3); }
    cover(1);
}
#[no_mangle] pub extern "C" fn h_refs_3() { refs(3) }
#[no_mangle] pub extern "C" fn h_refs_4() { refs(4) }
#[no_mangle] pub extern "C" fn h_refs_5() { refs(5) }
#[no_mangle] pub extern "C" fn h_refs_6() { refs(6) }

/// Records everything hashed (std's own hasher would make all of this depend on SipHash).
struct Rec([u8; 40], usize);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { if self.1 < 40 { self.0[self.1] = *x; self.1 += 1; } } }
}
fn hash_of<T: Hash>(t: &T) -> ([u8; 40], usize) { let mut r = Rec([0; 40], 0); t.hash(&mut r); (r.0, r.1) }
fn same_hash(a: &([u8; 40], usize), b: &([u8; 40], usize)) -> bool { let mut r = a.1 == b.1; for i in 0..40 { r &= a.0[i] == b.0[i]; } r }

/// Three handles of the same dynamic type (so that every law can be stated), over two actors.
fn eitherh(a: &Address<Act>, k: u32) -> Address<Act, Either> { if k == 0 { a.as_either() } else { a.downgrade().as_either() } }
#[no_mangle] pub extern "C" fn h_eq() {
    init();
    let (a, _m) = Mailbox::<Act>::unbounded();
    let (b, _n) = Mailbox::<Act>::bounded(1);
    let base = [&a, &b];
    let mut ids = [(0u32, 0u32); 3];
    let mut e: Vec<Address<Act, Either>> = Vec::new();
    for i in 0..3 { let k = pick(1, 4); ids[i] = (k / 2, k % 2); e.push(eitherh(base[(k / 2) as usize], k % 2)); }
    for i in 0..3 { for j in 0..3 {
        let same = ids[i] == ids[j];
        let (x, y) = (&e[i], &e[j]);
        check((x == y) == same, 1301);
        check((x != y) == !same, 1302);
        check(x.same_actor(y) == (ids[i].0 == ids[j].0), 1303);
        let c = x.cmp(y);
        check((c == Ordering::Equal) == same, 1304);
        check(c == y.cmp(x).reverse(), 1305);
        check(x.partial_cmp(y) == Some(c), 1306);
        check((x < y) == (c == Ordering::Less) && (x <= y) == (c != Ordering::Greater), 1307);
        if same { check(same_hash(&hash_of(x), &hash_of(y)), 1308); }
        for k in 0..3 {
            let z = &e[k];
            if c != Ordering::Greater && y.cmp(z) != Ordering::Greater { check(x.cmp(z) != Ordering::Greater, 1309); }
            if c == Ordering::Less && y.cmp(z) != Ordering::Greater { check(x.cmp(z) == Ordering::Less, 1310); }
        }
        // against the statically strong and weak addresses
        let (ys, yw) = (base[ids[j].0 as usize], base[ids[j].0 as usize].downgrade());
        let sa = ids[i].0 == ids[j].0;
        check((x == ys) == (sa && ids[i].1 == 0) && (ys == x) == (x == ys), 1311);
        check((x == &yw) == (sa && ids[i].1 == 1) && (&yw == x) == (x == &yw), 1312);
        check(ys != &yw && yw != *ys, 1313);
        check(x.partial_cmp(ys) == ys.partial_cmp(x).map(|o| o.reverse()), 1314);
        check(x.partial_cmp(&yw) == yw.partial_cmp(x).map(|o| o.reverse()), 1315);
        check((x.partial_cmp(ys) == Some(Ordering::Equal)) == (x == ys), 1316);
        // clones and conversions
        check(&x.clone() == x && x.clone().cmp(x) == Ordering::Equal, 1317);
        check(x.downgrade() == e[j].downgrade() || !sa, 1318);
        // message channels
        let cx: ChE = x.clone().into(); let cy: ChE = y.clone().into();
        check((cx == cy) == same, 1320);
        check(cx.same_actor(&cy) == sa, 1321);
        if same { check(same_hash(&hash_of(&cx), &hash_of(&cy)), 1322); }
        let cs: ChS = ys.clone().into(); let cw: ChW = yw.clone().into();
        check(cx.same_actor(&cs) == sa && cx.same_actor(&cw) == sa && cs.same_actor(&cw), 1323);
        check(cx.downgrade() == cy.downgrade() || !sa, 1324);
        check(cs.as_either() == cx || !(sa && ids[i].1 == 0), 1325);
        check(cs.as_either() != cx || (sa && ids[i].1 == 0), 1326);
        check(cx.as_either() == cx && cx.clone() == cx, 1327);
        let ss = base[ids[i].0 as usize];
        check((ss == ys) == sa && ss.cmp(ys) == ss.partial_cmp(ys).unwrap() && (ss.cmp(ys) == Ordering::Equal) == sa, 1328);
        check(same_hash(&hash_of(ss), &hash_of(ys)) || !sa, 1329);
        // whatever is equal hashes alike, also across the kinds of addresses
        check(same_hash(&hash_of(x), &hash_of(ys)) || x != ys, 1330);
        check(same_hash(&hash_of(x), &hash_of(&yw)) || x != &yw, 1331);
    } }
    cover(1);
}
