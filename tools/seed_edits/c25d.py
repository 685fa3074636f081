from lib import *
sub(X+'message_channel.rs', ('''        Box::new(Address(self.0.to_tx_either()))
''','''        match self.0.try_to_tx_strong() {
            Some(strong) => Box::new(Address(strong.to_tx_either())),
            None => Box::new(Address(self.0.to_tx_either())),
        }
'''))
