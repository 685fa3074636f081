from lib import *
sub(X+'lib.rs', ('                        msg.dispatch_to(actor).await;\n','                        let _ = msg.dispatch_to(actor).now_or_never();\n'))
