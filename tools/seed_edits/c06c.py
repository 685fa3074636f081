from lib import *
sub(X+'chan.rs', ('''        // Lock `ChanInner` as the first thing.''','''        let no_senders = self.sender_count.load(atomic::Ordering::SeqCst) == 0;

        // Lock `ChanInner` as the first thing.'''),('''                if self.sender_count.load(atomic::Ordering::SeqCst) == 0 {
                    return Ok(ActorMessage::Shutdown);''','''                if no_senders {
                    return Ok(ActorMessage::Shutdown);'''))
