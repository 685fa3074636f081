from lib import *
sub(X+'chan.rs', ('''        if self.sender_count.fetch_sub(1, atomic::Ordering::Release) != 1 {
            return;
        }
''','''        if self.sender_count.load(atomic::Ordering::Acquire) > 1 {
            // Not the last one
            self.sender_count.fetch_sub(1, atomic::Ordering::Release);
            return;
        }

        self.sender_count.store(0, atomic::Ordering::Release);
'''))
