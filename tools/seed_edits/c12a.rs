fn main() {
    for i in 0..400_000u32 {
        let (addr, mb) = Mailbox::<Act>::unbounded();
        let go = Arc::new(AtomicUsize::new(0));
        static POOL: std::sync::OnceLock<Mutex<std::sync::mpsc::Sender<(Mailbox<Act>, Arc<AtomicUsize>)>>> = std::sync::OnceLock::new();
        let p = POOL.get_or_init(|| { let (t, r) = std::sync::mpsc::channel::<(Mailbox<Act>, Arc<AtomicUsize>)>(); std::thread::spawn(move || for (mb, go) in r { go.store(1, SeqCst); while go.load(SeqCst) < 2 { } for _ in 0..0 { } drop(mb); go.store(3, SeqCst); }); Mutex::new(t) });
        p.lock().unwrap().send((mb, go.clone())).unwrap();
        while go.load(SeqCst) < 1 { }
        go.store(2, SeqCst);
        for _ in 0..(i % 64) { std::hint::spin_loop(); }
        let mut j = T::new(addr.join());
        while go.load(SeqCst) < 3 { std::thread::yield_now(); }
        ensure(j.poll(), &format!("join still waits for an actor that is gone (round {i})"));
    }
}
