from lib import *
sub(X+'chan.rs', ('''        self.chan
            .lock()
            .unwrap()
            .send_broadcast(Arc::new(Shutdown::new()));
''','''        // Without any senders, all receivers are about to stop anyway
        if self.is_connected() {
            self.chan
                .lock()
                .unwrap()
                .send_broadcast(Arc::new(Shutdown::new()));
        }
'''))
