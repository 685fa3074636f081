from lib import *
sub(X+'chan.rs', ('''            mem::take(&mut inner.waiting_receivers_handles)
        };

        for rx in waiting_rx {
            rx.notify_channel_shutdown();
        }''','''            // The others will find out once they look for the next message
            inner.waiting_receivers_handles.pop_front()
        };

        if let Some(rx) = waiting_rx {
            rx.notify_channel_shutdown();
        }'''))
