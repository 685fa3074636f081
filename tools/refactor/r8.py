# macro, spawn helpers, envelopes with a shared context helper, channels, context, scoped, join handle, run/select
from lib import *
sub('macros/src/lib.rs', ('''    let where_clause = match where_clause.cloned() {
        None => parse_quote! { where #(#send_and_static_bounds),* },
        Some(mut existing) => {
            existing.predicates.extend(send_and_static_bounds);

            existing
        }
    };
''','''    let existing = where_clause
        .map(|clause| clause.predicates.clone())
        .unwrap_or_default();
    let existing = existing.into_iter().collect::<Vec<WherePredicate>>();
    let where_clause: syn::WhereClause =
        parse_quote! { where #(#existing,)* #(#send_and_static_bounds),* };
'''),
('''        .filter_map(|gp| match gp {
            GenericParam::Type(tp) => Some(&tp.ident),
            GenericParam::Lifetime(_) => None,
            GenericParam::Const(_) => None,
        })
        .map(|ident| {
            parse_quote! {
                #ident: Send + 'static
            }
        })
        .collect::<Vec<WherePredicate>>()''','''        .filter_map(|gp| {
            if let GenericParam::Type(tp) = gp {
                let ident = &tp.ident;
                Some(parse_quote! { #ident: 'static + Send })
            } else {
                None
            }
        })
        .collect()'''))
p=X+'spawn.rs'; s=open(p).read()
s=s.replace('    address\n','    with_spawned(address)\n')
s+='''
#[allow(dead_code)]
fn with_spawned<A>(address: crate::Address<A>) -> crate::Address<A> {
    address
}
'''
s=s.replace('tokio::spawn(crate::run(mailbox, actor));','let task = crate::run(mailbox, actor);\n    let _handle = tokio::spawn(task);')
open(p,'w').write(s)
p=X+'envelope.rs'; s=open(p).read()
a='''            let mut ctx = Context {
                running: true,
                mailbox,
            };
'''
assert s.count(a)==2
s=s.replace(a,'            let mut ctx = Context::running(mailbox);\n')
a='''
            if ctx.running {
                (r, ControlFlow::Continue(()))
            } else {
                (r, ControlFlow::Break(()))
            }
'''
assert a in s
s=s.replace(a,'\n            (r, ctx.flow())\n')
a='''
            if ctx.running {
                ControlFlow::Continue(())
            } else {
                ControlFlow::Break(())
            }
'''
assert a in s
s=s.replace(a,'\n            ctx.flow()\n')
open(p,'w').write(s)
sub(X+'context.rs',('''use crate::{Actor, Mailbox};''','''use std::ops::ControlFlow;

use crate::{Actor, Mailbox};'''),('''    /// Stop this actor as soon''','''    pub(crate) fn running(mailbox: Mailbox<A>) -> Self {
        Context {
            running: true,
            mailbox,
        }
    }

    pub(crate) fn flow(&self) -> ControlFlow<(), ()> {
        match self.running {
            true => ControlFlow::Continue(()),
            false => ControlFlow::Break(()),
        }
    }

    /// Stop this actor as soon'''),
('''self.mailbox.address().0.shutdown_all_receivers();''','''let address = self.mailbox.address();
        address.0.shutdown_all_receivers();'''))
sub(X+'message_channel.rs',('''        self.same_actor(other) && (self.inner.is_strong() == other.inner.is_strong())''',
'''        if self.inner.is_strong() != other.inner.is_strong() {
            return false;
        }

        self.same_actor(other)'''),
('''        state.write_usize(self.0.inner_ptr() as *const _ as usize);
        state.write_u8(self.0.is_strong() as u8);
        state.finish();''','''        let address = self.0.inner_ptr() as *const () as usize;
        state.write_usize(address);
        state.write_u8(if self.0.is_strong() { 1 } else { 0 });'''),
('''        Self {
            inner: Box::new(address),
        }''','''        let inner = Box::new(address);
        Self { inner }'''))
sub(X+'scoped_task.rs',('''        match this.join_handle.poll_unpin(cx) {
            Poll::Ready(()) => Poll::Ready(None),
            Poll::Pending => match this.fut.poll(cx) {
                Poll::Ready(v) => Poll::Ready(Some(v)),
                Poll::Pending => Poll::Pending,
            },
        }''','''        if this.join_handle.poll_unpin(cx).is_ready() {
            return Poll::Ready(None);
        }

        this.fut.poll(cx).map(Some)'''))
sub(X+'address.rs',('''        match self.0.take() {
            Some(mut listener) => match listener.poll_unpin(cx) {
                Poll::Ready(()) => Poll::Ready(()),
                Poll::Pending => {
                    self.0 = Some(listener);
                    Poll::Pending
                }
            },
            None => Poll::Ready(()),
        }''','''        if let Some(listener) = self.0.as_mut() {
            if listener.poll_unpin(cx).is_pending() {
                return Poll::Pending;
            }
        }

        self.0 = None;
        Poll::Ready(())'''),
('''        Some(match self.0.inner_ptr().cmp(&other.0.inner_ptr()) {
            Ordering::Equal => self.0.is_strong().cmp(&other.0.is_strong()),
            ord => ord,
        })''','''        let mine = (self.0.inner_ptr(), self.0.is_strong());
        let theirs = (other.0.inner_ptr(), other.0.is_strong());

        mine.partial_cmp(&theirs)'''),
('''        self.0
            .inner_ptr()
            .cmp(&other.0.inner_ptr())
            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))''','''        match self.0.inner_ptr().cmp(&other.0.inner_ptr()) {
            Ordering::Equal => self.0.is_strong().cmp(&other.0.is_strong()),
            unequal => unequal,
        }'''))
sub(X+'lib.rs',('''    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}

    actor.stopped().await''','''    loop {
        if yield_once(&mailbox, &mut actor).await.is_break() {
            break actor.stopped().await;
        }
    }'''),
('''    let mut control_flow = ControlFlow::Continue(());

    while control_flow.is_continue() {
        let (msg''','''    loop {
        let (msg'''),
('''        control_flow = msg.dispatch_to(actor).await;
        fut = unfinished;
    }

    Either::Right(fut)''','''        fut = unfinished;

        if msg.dispatch_to(actor).await.is_break() {
            return Either::Right(fut);
        }
    }'''))
