# counters: compare-and-swap loops, other orderings
from lib import *
sub(X+'chan.rs', ('''        // Memory orderings copied from Arc::drop
        if self.receiver_count.fetch_sub(1, atomic::Ordering::Release) != 1 {
            return;
        }

        atomic::fence(atomic::Ordering::Acquire);

        self.shutdown_waiting_senders();''','''        let before = self
            .receiver_count
            .fetch_update(atomic::Ordering::AcqRel, atomic::Ordering::Acquire, |n| {
                n.checked_sub(1)
            })
            .expect("a receiver to be counted");

        if before == 1 {
            self.shutdown_waiting_senders();
        }'''),('''        // Memory orderings copied from Arc::drop
        if self.sender_count.fetch_sub(1, atomic::Ordering::Release) != 1 {
            return;
        }

        atomic::fence(atomic::Ordering::Acquire);

        self.shutdown_waiting_receivers();''','''        let mut count = self.sender_count.load(atomic::Ordering::Relaxed);
        while let Err(now) = self.sender_count.compare_exchange_weak(
            count,
            count - 1,
            atomic::Ordering::AcqRel,
            atomic::Ordering::Relaxed,
        ) {
            count = now;
        }

        match count {
            1 => self.shutdown_waiting_receivers(),
            _ => (),
        }'''))
sub(X+'chan/ptr.rs', ('''        let mut n = inner.sender_count.load(Relaxed);

        loop {
            if n == 0 {
                return None;
            }
''','''        let mut n = inner.sender_count.load(SeqCst);

        while n != 0 {
'''),('''                Ok(_) => return Some(TxStrong(())), // 0-case checked above
                Err(old) => n = old,
            }
        }
''','''                Ok(_) => return Some(TxStrong(())), // 0-case checked above
                Err(old) => n = old,
            }
        }

        None
'''))
