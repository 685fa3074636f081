from lib import *
sub(X+'message_channel.rs', ('''        futures_util::sink::unfold((), move |(), message| self.send(message))
''','''        use futures_util::FutureExt;

        futures_util::sink::unfold((), move |(), message| {
            self.send(message).detach().map(|sent| sent.map(|_| ()))
        })
'''))
