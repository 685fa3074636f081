from lib import *
sub(X+'chan.rs', ('''        self.capacity
            .map_or(false, |cap| self.unicast_queue.len() >= cap)
''','''        self.capacity.map_or(false, |cap| {
            self.unicast_queue.len() + self.broadcast_tail.saturating_sub(cap / 2) >= cap
        })
'''))
