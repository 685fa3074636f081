from lib import *
sub(X+'chan.rs', ('''            self.on_shutdown.notify(usize::MAX);''','''            self.on_shutdown.notify(1);'''))
