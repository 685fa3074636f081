from lib import *
sub(X+'message_channel.rs', ('''        futures_util::sink::unfold((), move |(), message| self.send(message))
''','''        futures_util::sink::unfold((), move |(), message| {
            let send = self.send(message).detach();
            async move {
                // Only an actor that is gone is an error
                let _ = send.await?.await;
                Ok(())
            }
        })
'''))
