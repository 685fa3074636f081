from lib import *
sub(X+'spawn.rs', ('''    async_std::task::spawn(crate::run(mailbox, actor));
''','''    async_std::task::spawn(async move {
        // The start of an actor must not take for ever
        let running = crate::run(mailbox, actor);
        async_std::future::timeout(std::time::Duration::from_secs(2), running).await
    });
'''))
