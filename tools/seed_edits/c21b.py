from lib import *
sub(X+'chan.rs', ('''        atomic::fence(atomic::Ordering::Acquire);

        self.shutdown_waiting_receivers();
''','''        atomic::fence(atomic::Ordering::Acquire);

        // Do not take locks while unwinding
        if !std::thread::panicking() {
            self.shutdown_waiting_receivers();
        }
'''))
