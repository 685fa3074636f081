from lib import *
sub(X+'chan/waiting_receiver.rs', ('''            Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
''','''            // Do not touch the channel while unwinding, it may be poisoned.
            Ok(Some(CtrlMsg::NewMessage(msg))) if !std::thread::panicking() => Some(msg),
'''))
