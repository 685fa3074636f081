from lib import *
sub(X+'address.rs', ('''        futures_util::sink::unfold((), move |(), message| self.send(message))
    }
}
''','''        // Somebody waits for each item
        futures_util::sink::unfold((), move |(), message| self.send(message).priority(1))
    }
}
'''))
