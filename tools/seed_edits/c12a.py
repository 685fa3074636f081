from lib import *
sub(X+'chan.rs', ('''        let listener = self.on_shutdown.listen();

        if self.is_connected() {
            Some(listener)
        } else {
            None
        }
''','''        if !self.is_connected() {
            return None;
        }

        Some(self.on_shutdown.listen())
'''))
