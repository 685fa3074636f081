from lib import *
sub(X+'lib.rs', ('''    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}

    actor.stopped().await''','''    let mut msg = mailbox.next().await;

    loop {
        let flow = msg.dispatch_to(&mut actor).await;
        let next = mailbox.next().now_or_never();

        if flow.is_break() {
            break;
        }

        msg = match next {
            Some(msg) => msg,
            None => mailbox.next().await,
        };
    }

    actor.stopped().await'''))
