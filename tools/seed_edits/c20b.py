from lib import *
sub(X+'address.rs', ('''        futures_util::sink::unfold((), move |(), message| self.send(message))''','''        let address = self.0.to_tx_weak();

        futures_util::sink::unfold((), move |(), message| Address(address.clone()).send(message))'''))
