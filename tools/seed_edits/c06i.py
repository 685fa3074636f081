from lib import *
sub(X+'chan/waiting_sender.rs', ('''        let mut this = self.get_mut().0.lock();

        match &mut *this {
''','''        let this = self.get_mut();

        // Somebody else is about to change the state and will wake us
        let mut this = match this.0.try_lock() {
            Some(this) => this,
            None => return Poll::Pending,
        };

        match &mut *this {
'''))
