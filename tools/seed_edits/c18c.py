from lib import *
sub(X+'lib.rs', ('''    futures_util::pin_mut!(fut);
    match select(mailbox, actor, fut).await {
        Either::Left(res) => res,
        Either::Right(fut) => fut.await,
    }
''','''    futures_util::pin_mut!(fut);

    loop {
        match select(mailbox, actor, fut).await {
            Either::Left(res) => return res,
            Either::Right(unfinished) => fut = unfinished,
        }
    }
'''))
