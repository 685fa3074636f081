from lib import *
sub(X+'envelope.rs', ('''            act.handle(msg, &mut ctx).await;

            if ctx.running {
                ControlFlow::Continue(())
            } else {
                ControlFlow::Break(())
            }
''','''            act.handle(msg, &mut ctx).await;

            // The other actors go on
            ControlFlow::Continue(())
'''))
