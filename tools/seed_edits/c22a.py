from lib import *
sub(X+'dispatch_future.rs', ('''impl<'a, A> Future for DispatchFuture<'a, A> {
''','''impl<'a, A> Drop for DispatchFuture<'a, A> {
    fn drop(&mut self) {
        // Never polled, so nobody has seen the message yet: do not lose it
        if let State::New { msg, mailbox, .. } = mem::replace(&mut self.state, State::Done) {
            if let ActorMessage::ToOneActor(msg) = msg {
                mailbox.put_back(msg);
            }
        }
    }
}

impl<'a, A> Future for DispatchFuture<'a, A> {
'''))
sub(X+'mailbox.rs', ('''    pub(crate) fn from_parts(
''','''    pub(crate) fn put_back(&self, msg: chan::MessageToOne<A>) {
        self.inner.put_back(msg);
    }

    pub(crate) fn from_parts(
'''))
sub(X+'chan.rs', ('''    pub fn next_broadcast_message(
''','''    pub fn put_back(&self, msg: MessageToOne<A>) {
        if let Ok(mut inner) = self.chan.lock() {
            if let Err(msg) = inner.try_fulfill_receiver(msg) {
                inner.push_unicast(msg);
            }
        }
    }

    pub fn next_broadcast_message(
'''))
