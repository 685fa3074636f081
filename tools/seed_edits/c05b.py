from lib import *
sub(X+'chan.rs', ('''        if !self.is_unicast_full() {
            if let Some(msg) = self.try_take_waiting_unicast_message() {
                self.push_unicast(msg)
            }
        }
''','''        // There is a free place now
        if let Some(msg) = self.try_take_waiting_unicast_message() {
            self.push_unicast(msg)
        }
'''))
