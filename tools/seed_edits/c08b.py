from lib import *
sub(X+'chan/waiting_receiver.rs', ('''                None => return Poll::Ready(None),
            },''','''                None => ActorMessage::Shutdown,
            },'''))
