from lib import *
sub(X+'lib.rs', ('''    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}

    actor.stopped()''','''    let mut budget = 64;
    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {
        budget -= 1;
        if budget == 0 {
            // Give other tasks a chance to run
            budget = 64;
            let mut yielded = false;
            future::poll_fn(|_| {
                if std::mem::replace(&mut yielded, true) {
                    std::task::Poll::Ready(())
                } else {
                    std::task::Poll::Pending
                }
            })
            .await;
        }
    }

    actor.stopped()'''))
