# send future: one helper for both kinds; receive future with a flag; dispatch with a loop
from lib import *
p=X+'send_future.rs'; s=open(p).read()
a='''                Sending::WaitingToSend(mut waiting) => {
                    return match waiting.poll_unpin(cx)? {
                        Poll::Ready(()) => Poll::Ready(Ok(())),
                        Poll::Pending => {
                            *this = Sending::WaitingToSend(waiting);
                            Poll::Pending
                        }
                    };
                }
'''
b='''                Sending::WaitingToSend(mut waiting) => {
                    let result = waiting.poll_unpin(cx);

                    if result.is_pending() {
                        *this = Sending::WaitingToSend(waiting);
                    }

                    return result;
                }
'''
assert s.count(a)==2
s=s.replace(a,b)
open(p,'w').write(s)
sub(X+'dispatch_future.rs', ('''        match mem::replace(&mut self.state, State::Done) {
            State::New { msg, act, mailbox } => {
                *self = DispatchFuture::running(msg, act, mailbox);
                self.poll(cx)
            }
            State::Running { mut fut, phantom } => {
                match self.span.in_scope(|| fut.poll_unpin(cx)) {
                    Poll::Ready(flow) => Poll::Ready(flow),
                    Poll::Pending => {
                        self.state = State::Running { fut, phantom };
                        Poll::Pending
                    }
                }
            }
            State::Done => panic!("Polled after completion"),
        }''','''        let this = &mut *self;

        loop {
            match mem::replace(&mut this.state, State::Done) {
                State::New { msg, act, mailbox } => {
                    *this = DispatchFuture::running(msg, act, mailbox);
                }
                State::Running { mut fut, phantom } => {
                    let result = this.span.in_scope(|| fut.poll_unpin(cx));
                    if result.is_pending() {
                        this.state = State::Running { fut, phantom };
                    }
                    return result;
                }
                State::Done => panic!("Polled after completion"),
            }
        }'''))
sub(X+'recv_future.rs', ('''                Receiving::New {
                    channel,
                    broadcast_mailbox,
                } => match channel.try_recv(&broadcast_mailbox) {
                    Ok(inner) => {
                        return Poll::Ready(Message {
                            inner,
                            channel,
                            broadcast_mailbox,
                        })
                    }
                    Err(waiting) => {
                        *this = Receiving::Waiting(Waiting {
                            channel: Some(channel),
                            broadcast_mailbox: Some(broadcast_mailbox),
                            waiting_receiver: Some(waiting),
                        });
                    }
                },''','''                Receiving::New {
                    channel,
                    broadcast_mailbox,
                } => {
                    let waiting = match channel.try_recv(&broadcast_mailbox) {
                        Err(waiting) => waiting,
                        Ok(inner) => {
                            return Poll::Ready(Message {
                                inner,
                                channel,
                                broadcast_mailbox,
                            })
                        }
                    };

                    *this = Receiving::Waiting(Waiting {
                        waiting_receiver: Some(waiting),
                        broadcast_mailbox: Some(broadcast_mailbox),
                        channel: Some(channel),
                    });
                }'''))
