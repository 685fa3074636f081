from lib import *
sub(X+'chan.rs', ('''    fn try_take_waiting_unicast_message(&mut self) -> Option<MessageToOne<A>> {
        loop {
            if let Some(msg) =
                find_remove_highest_priority(&mut self.waiting_send_to_one)?.take_message()
            {
                return Some(msg);
            }
        }
    }
''','''    fn try_take_waiting_unicast_message(&mut self) -> Option<MessageToOne<A>> {
        // Cancelled ones have been sorted out
        find_remove_highest_priority(&mut self.waiting_send_to_one)?.take_message()
    }
'''))
