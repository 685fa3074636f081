use xtra::WeakAddress;
fn main() {
    // The last strong address is dropped while another thread upgrades a weak one: whoever has got a strong one must have a running actor.
    let turn = Arc::new(AtomicUsize::new(0));
    let slot: Arc<Mutex<Option<(WeakAddress<Act>, Arc<Flag>)>>> = Default::default();
    let done = Arc::new(AtomicUsize::new(0));
    let (t2, s2, d2) = (turn.clone(), slot.clone(), done.clone());
    let n = 400_000;
    let h = std::thread::spawn(move || for i in 0..n {
        while t2.load(SeqCst) != 2 * i + 1 { std::hint::spin_loop(); }
        let (weak, flag) = s2.lock().unwrap().take().unwrap();
        t2.store(2 * i + 2, SeqCst);
        for _ in 0..i % 64 { std::hint::spin_loop(); }
        if let Some(s) = weak.try_upgrade() {
            for _ in 0..200 { std::hint::spin_loop(); }
            ensure(flag.get() == 0, "an address to a stopped actor was upgraded");
            drop(s);
        }
        drop(weak);
        d2.store(i + 1, SeqCst);
    });
    for i in 0..n {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let mut rx = T::new(mb.next());
        ensure(!rx.poll(), "nothing to receive");
        *slot.lock().unwrap() = Some((addr.downgrade(), rx.flag.clone()));
        turn.store(2 * i + 1, SeqCst);
        while turn.load(SeqCst) != 2 * i + 2 { std::hint::spin_loop(); }
        for _ in 0..(i / 64) % 64 { std::hint::spin_loop(); }
        drop(addr);
        while done.load(SeqCst) != i + 1 { std::hint::spin_loop(); }
    }
    h.join().unwrap();
}
