from lib import *
sub(X+'chan.rs', ('''        self.chan
            .lock()
            .unwrap()
            .send_broadcast(Arc::new(Shutdown::new()));
''','''        let mut inner = self.chan.lock().unwrap();

        // Not a message, hence does not count
        let tail = inner.broadcast_tail;
        inner.send_broadcast(Arc::new(Shutdown::new()));
        inner.broadcast_tail = tail;
'''))
