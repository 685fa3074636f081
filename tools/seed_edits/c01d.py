from lib import *
sub(X+'lib.rs', ('''    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}

    actor.stopped().await''','''    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}

    // Let the senders of messages that are still queued know right away
    for _ in 0..mailbox.address().len() {
        drop(mailbox.next().now_or_never());
    }

    actor.stopped().await'''))
