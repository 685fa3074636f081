from lib import *
sub(X+'lib.rs', ('''    if let Err(stop) = actor.started(&mailbox).await {
        return stop;
    }
''','''    if let Err(stop) = actor.started(&mailbox).await {
        // Have it clean up what it has started
        actor.stopped().await;
        return stop;
    }
'''))
