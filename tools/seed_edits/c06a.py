from lib import *
sub(X+'chan/waiting_sender.rs', ('                *waker = Some(cx.waker().clone());\n','                waker.get_or_insert_with(|| cx.waker().clone());\n'))
