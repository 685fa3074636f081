from lib import *
# 16 bits ought to be enough
sub(X+'chan.rs',
('''        inner.broadcast_tail + inner.unicast_queue.len()
''','''        usize::from(inner.broadcast_tail) + inner.unicast_queue.len()
'''),
('''    broadcast_tail: usize,
''','''    broadcast_tail: u16,
'''),
('''    fn longest_broadcast_queue(&self) -> usize {
''','''    fn longest_broadcast_queue(&self) -> u16 {
'''),
('''        longest
    }
''','''        u16::try_from(longest).unwrap_or(u16::MAX)
    }
'''),
('''        self.broadcast_tail += 1;
''','''        self.broadcast_tail = self.broadcast_tail.saturating_add(1);
'''),
('''            .map_or(false, |cap| self.broadcast_tail >= cap)
''','''            .map_or(false, |cap| usize::from(self.broadcast_tail) >= cap)
'''))
