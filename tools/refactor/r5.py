# event loop, select, join rewritten
from lib import *
sub(X+'lib.rs', ('''    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}

    actor.stopped().await''','''    loop {
        let message = mailbox.next().await;

        if message.dispatch_to(&mut actor).await.is_break() {
            break;
        }
    }

    actor.stopped().await'''),('''    let mut control_flow = ControlFlow::Continue(());

    while control_flow.is_continue() {
        let (msg, unfinished) = {
            let mut next_msg = mailbox.next();
            match future::select(fut, &mut next_msg).await {
                Either::Left((future_res, _)) => {
                    if let Some(msg) = next_msg.now_or_never() {
                        msg.dispatch_to(actor).await;
                    }

                    return Either::Left(future_res);
                }
                Either::Right(tuple) => tuple,
            }
        };

        control_flow = msg.dispatch_to(actor).await;
        fut = unfinished;
    }

    Either::Right(fut)''','''    loop {
        let mut next_msg = mailbox.next();
        let first = future::poll_fn(|cx| {
            if let std::task::Poll::Ready(value) = std::pin::Pin::new(&mut fut).poll(cx) {
                return std::task::Poll::Ready(Either::Left(value));
            }

            std::pin::Pin::new(&mut next_msg).poll(cx).map(Either::Right)
        })
        .await;

        match first {
            Either::Left(value) => {
                match next_msg.now_or_never() {
                    Some(msg) => drop(msg.dispatch_to(actor).await),
                    None => {}
                }

                return Either::Left(value);
            }
            Either::Right(msg) => match msg.dispatch_to(actor).await {
                ControlFlow::Continue(()) => continue,
                ControlFlow::Break(()) => return Either::Right(fut),
            },
        }
    }'''))
