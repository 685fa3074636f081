from lib import *
sub(X+'chan/waiting_sender.rs',
('            Inner::Active { mut waker, message } => {\n', '            Inner::Active { mut waker, message, since } => {\n'),
('''                    waker.wake();
                }

                Some(message)
''','''                    waker.wake();
                }

                // Nobody expects an answer after that long
                Some(message).filter(|_| since.elapsed() < Duration::from_millis(400))
'''),
('    Active { waker: Option<Waker>, message: M },\n','''    Active {
        waker: Option<Waker>,
        message: M,
        since: Instant,
    },
'''),
('''            waker: None,
            message,
''','''            waker: None,
            message,
            since: Instant::now(),
'''),
('use std::task::{Context, Poll, Waker};\n','use std::task::{Context, Poll, Waker};\nuse std::time::{Duration, Instant};\n'))
