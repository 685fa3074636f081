static ROUND: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicUsize = AtomicUsize::new(0);
fn pause(n: usize) { for k in 0..n { std::hint::black_box(k); } }
fn main() {
    // One message is queued, the mailbox is full. While another one is sent, the queued one is taken.
    let slot: Arc<Mutex<Option<Mailbox<Act>>>> = Default::default();
    let s2 = slot.clone();
    let n = 200_000usize;
    let h = std::thread::spawn(move || for i in 0..n {
        while ROUND.load(SeqCst) < 3 * i + 1 { std::hint::spin_loop(); }
        let mb = s2.lock().unwrap().take().unwrap();
        let mut r = T::new(mb.next());
        ROUND.store(3 * i + 2, SeqCst);
        while ROUND.load(SeqCst) < 3 * i + 3 { std::hint::spin_loop(); }
        pause(i % 97);
        r.poll();
        DONE.store(i + 1, SeqCst);
        while ROUND.load(SeqCst) < 3 * i + 4 { std::hint::spin_loop(); }
    });
    for i in 0..n {
        let (addr, mb) = Mailbox::<Act>::bounded(1);
        ensure(now(addr.send(Fire(0)).detach()).is_some(), "room for one");
        let mut s = T::new(addr.send(Fire(1)).detach());
        *slot.lock().unwrap() = Some(mb);
        ROUND.store(3 * i + 1, SeqCst);
        while ROUND.load(SeqCst) < 3 * i + 2 { std::hint::spin_loop(); }
        ROUND.store(3 * i + 3, SeqCst);
        pause((i / 97) % 97);
        let done = s.poll();
        while DONE.load(SeqCst) < i + 1 { std::hint::spin_loop(); }
        ensure(done || s.woken(), "a send waits although the mailbox is empty");
    }
    ROUND.store(3 * n + 9, SeqCst);
    h.join().unwrap();
}
