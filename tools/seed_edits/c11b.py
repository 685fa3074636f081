from lib import *
sub(X+'envelope.rs', ('''        let fut = async move {
            let mut ctx = Context {
                running: true,
                mailbox,
            };
            let r = act.handle(message, &mut ctx).await;
''','''        let sender = mailbox.address();
        let fut = async move {
            let mut ctx = Context {
                running: true,
                mailbox,
            };
            let r = act.handle(message, &mut ctx).await;
'''),('''            // We don't actually care if the receiver is listening
            let _ = result_sender.send(r);
            flow
''','''            // Without any addresses, nobody is left to care about the response
            if sender.is_connected() || flow.is_break() {
                let _ = result_sender.send(r);
            }
            flow
'''))
