from lib import *
# the wakers of those who join in a list of our own
sub(X+'chan.rs',
('''use event_listener::{Event, EventListener};
''',''),
('''    on_shutdown: Event,
''','''    on_shutdown: Arc<Joiners>,
'''),
('''            on_shutdown: Event::new(),
''','''            on_shutdown: Arc::default(),
'''),
('''            self.on_shutdown.notify(usize::MAX);
''','''            self.on_shutdown.notify();
'''),
('''    pub fn disconnect_listener(&self) -> Option<EventListener> {
''','''    pub fn disconnect_listener(&self) -> Option<Arc<Joiners>> {
'''),
('''        let listener = self.on_shutdown.listen();
''','''        let listener = self.on_shutdown.clone();
'''),
('''/// An error returned in case the mailbox of an actor is full.
''','''/// Everybody who waits for the actor to stop.
#[derive(Default)]
pub struct Joiners(Mutex<(bool, Vec<std::task::Waker>)>);

impl Joiners {
    fn notify(&self) {
        let mut this = self.0.lock().unwrap();
        this.0 = true;

        for waker in mem::take(&mut this.1) {
            waker.wake();
        }
    }

    pub fn poll(&self, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        let mut this = self.0.lock().unwrap();

        if this.0 {
            return std::task::Poll::Ready(());
        }

        if !this.1.iter().any(|waker| waker.will_wake(cx.waker())) {
            this.1.push(cx.waker().clone());
        }

        std::task::Poll::Pending
    }
}

/// An error returned in case the mailbox of an actor is full.
'''))
sub(X+'address.rs',
('''use event_listener::EventListener;
''','''use std::sync::Arc;
'''),
('''pub struct ActorJoinHandle(Option<EventListener>);
''','''pub struct ActorJoinHandle(Option<Arc<crate::chan::Joiners>>);
'''),
('''            Some(mut listener) => match listener.poll_unpin(cx) {
''','''            Some(listener) => match listener.poll(cx) {
'''))
