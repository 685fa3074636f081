from lib import *
sub(X+'chan.rs', ('    queue.retain(|handle| handle.is_active()); // Only process handles which are still active.\n\n',''),
('''        loop {
            if let Some(msg) =
                find_remove_highest_priority(&mut self.waiting_send_to_one)?.take_message()
            {
                return Some(msg);
            }
        }
''','''        find_remove_highest_priority(&mut self.waiting_send_to_one)?.take_message()
'''))
