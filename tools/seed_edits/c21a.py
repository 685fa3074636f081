from lib import *
sub(X+'chan.rs', ('''        atomic::fence(atomic::Ordering::Acquire);

        self.shutdown_waiting_senders();
''','''        atomic::fence(atomic::Ordering::Acquire);

        // The queues may be in any state
        if std::thread::panicking() {
            return;
        }

        self.shutdown_waiting_senders();
'''))
