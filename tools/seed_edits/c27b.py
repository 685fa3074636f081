from lib import *
sub(X+'spawn.rs', ('''    async_std::task::spawn(crate::run(mailbox, actor));
''','''    let keep = address.clone();
    async_std::task::spawn(async move {
        crate::run(mailbox, actor).await;

        // Not before the actor is done, messages may still be on their way
        drop(keep);
    });
'''))
