from lib import *
sub(X+'chan.rs', ('''            .map_or(false, |cap| self.broadcast_tail >= cap)
''','''            .map_or(false, |cap| self.broadcast_tail as u8 >= cap.min(u8::MAX as usize) as u8)
'''))
