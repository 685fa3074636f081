from lib import *
sub(X+'chan.rs', ('''            Some(q) => {
                q.lock()''','''            Some(q) if self.capacity.map_or(true, |cap| q.lock().len() < cap) => {
                q.lock()'''),('''            None => false, // The''','''            Some(_) => true,
            None => false, // The'''))
