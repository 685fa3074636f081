from lib import *
sub(X+'chan.rs', ('''        if self.receiver_count.fetch_sub(1, atomic::Ordering::Release) != 1 {
            return;
        }
''','''        let others = self.receiver_count.load(atomic::Ordering::Acquire) > 1;
        self.receiver_count.fetch_sub(1, atomic::Ordering::Release);

        if others {
            return;
        }
'''))
