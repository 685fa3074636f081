from lib import *
sub(X+'dispatch_future.rs', ('''            state => DispatchFuture { state, span },
''','''            // Nothing but waiting for the handler to complete is left
            state => DispatchFuture {
                state,
                span: Span::none(),
            },
'''))
