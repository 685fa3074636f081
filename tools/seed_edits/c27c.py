from lib import *
sub(X+'spawn.rs', ('''    smol::spawn(crate::run(mailbox, actor)).detach();
''','''    let weak = address.downgrade();
    smol::spawn(async move {
        // Nobody can reach the actor any more
        if weak.is_connected() {
            crate::run(mailbox, actor).await;
        }
    })
    .detach();
'''))
