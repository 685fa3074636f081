from lib import *
sub(X+'message_channel.rs', ('''    fn is_connected(&self) -> bool {
        self.is_connected()
    }''','''    fn is_connected(&self) -> bool {
        self.receiver_count() > 0
    }'''))
