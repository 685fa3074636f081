from lib import *
sub(X+'mailbox.rs', ('''            inner: self.inner.clone(),
            broadcast_mailbox: self.inner.new_broadcast_mailbox(),
        }
    }
}
''','''            inner: self.inner.clone(),
            broadcast_mailbox: {
                let mailbox = self.inner.new_broadcast_mailbox();
                self.inner
                    .copy_broadcasts(&self.broadcast_mailbox, &mailbox);
                mailbox
            },
        }
    }
}
'''))
sub(X+'chan.rs', ('''    pub fn next_broadcast_message(
''','''    /// Whoever clones a mailbox expects the new one to pick up where the old one is.
    pub fn copy_broadcasts(&self, from: &BroadcastQueue<A>, to: &BroadcastQueue<A>) {
        let mut inner = self.chan.lock().unwrap();
        let mut queued: Vec<_> = from.lock().iter().map(|m| m.item.clone()).collect();
        queued.reverse();

        for m in queued {
            let seq = inner.next_seq();
            to.lock().push(ByPriority::new(m, seq));
        }
    }

    pub fn next_broadcast_message(
'''))
