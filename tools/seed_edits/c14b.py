from lib import *
sub(X+'chan/ptr.rs', ('''            match inner
                .sender_count
                .compare_exchange_weak(n, n + 1, Acquire, Relaxed)
            {
                Ok(_) => return Some(TxStrong(())), // 0-case checked above
                Err(old) => n = old,
            }''','''            let now = inner.sender_count.load(Relaxed);

            if now == n {
                inner.sender_count.store(n + 1, Release);
                return Some(TxStrong(())); // 0-case checked above
            }

            n = now;'''))
