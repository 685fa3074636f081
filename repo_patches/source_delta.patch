From 165dc91f5d3ec5ef17ac386ade562c8f69d75eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 01/10] fix: handle messages of equal priority in send order

---
 xtra/src/chan.rs          | 30 ++++++++++++++++++++++++------
 xtra/src/chan/priority.rs | 24 ++++++++++++++++++++----
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..16e0a38 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -290,7 +290,7 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.push_unicast(msg);
         }
     }
 
@@ -310,6 +310,8 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    /// Sequence number for the next message to be queued, keeps messages of equal priority in order.
+    next_seq: u64,
 }
 
 impl<A> Inner<A> {
@@ -322,15 +324,27 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            next_seq: 0,
         }
     }
 
+    fn next_seq(&mut self) -> u64 {
+        let seq = self.next_seq;
+        self.next_seq += 1;
+        seq
+    }
+
+    fn push_unicast(&mut self, msg: MessageToOne<A>) {
+        let seq = self.next_seq();
+        self.unicast_queue.push(ByPriority::new(msg, seq));
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
-        let msg = self.unicast_queue.pop()?.0;
+        let msg = self.unicast_queue.pop()?.item;
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
@@ -341,7 +355,7 @@ impl<A> Inner<A> {
         &mut self,
         broadcast_mailbox: &BroadcastQueue<A>,
     ) -> Option<Arc<dyn BroadcastEnvelope<Actor = A>>> {
-        let message = broadcast_mailbox.lock().pop()?.0;
+        let message = broadcast_mailbox.lock().pop()?.item;
 
         self.broadcast_tail = self.longest_broadcast_queue();
 
@@ -367,9 +381,10 @@ impl<A> Inner<A> {
     }
 
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
+        let seq = self.next_seq();
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
+                q.lock().push(ByPriority::new(m.clone(), seq));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
@@ -432,9 +447,12 @@ where
 {
     queue.retain(|handle| handle.is_active()); // Only process handles which are still active.
 
+    // `max_by_key` returns the last one of several equal elements, hence look from the back in order to
+    // find the sender that has been waiting the longest.
     let pos = queue
         .iter()
         .enumerate()
+        .rev()
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..0c185d9 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -17,14 +17,27 @@ pub trait HasPriority {
 }
 
 /// A wrapper struct that allows comparison and ordering for anything thas has a priority, i.e. implements [`HasPriority`].
-pub struct ByPriority<T>(pub T);
+///
+/// Items of equal priority are ordered by when they were queued: the one queued first is the greater
+/// one, so that a max-heap hands out items of the same priority in FIFO order.
+pub struct ByPriority<T> {
+    pub item: T,
+    seq: u64,
+}
+
+impl<T> ByPriority<T> {
+    /// `seq` must be greater than that of any item queued earlier.
+    pub fn new(item: T, seq: u64) -> Self {
+        ByPriority { item, seq }
+    }
+}
 
 impl<T> HasPriority for ByPriority<T>
 where
     T: HasPriority,
 {
     fn priority(&self) -> Priority {
-        self.0.priority()
+        self.item.priority()
     }
 }
 
@@ -33,7 +46,7 @@ where
     T: HasPriority,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.0.priority().eq(&other.0.priority())
+        self.cmp(other) == Ordering::Equal
     }
 }
 
@@ -53,6 +66,9 @@ where
     T: HasPriority,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.priority().cmp(&other.0.priority())
+        self.item
+            .priority()
+            .cmp(&other.item.priority())
+            .then_with(|| other.seq.cmp(&self.seq))
     }
 }
-- 
2.43.0


From 1f10775656506982e69b0128c75babd2b7884cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 02/10] fix: make Ord for Address agree with its Eq and
 PartialOrd

---
 xtra/src/address.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..752b6d3 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,10 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        self.0
+            .inner_ptr()
+            .cmp(&other.0.inner_ptr())
+            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From 519ae23b0049be3caf091c2fda02466c220ae56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 03/10] fix: do not queue a message once the last mailbox is
 gone

---
 xtra/src/chan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 16e0a38..dd1d8d9 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver may have been dropped since the check above, in which case nobody is left to
+        // clear the queues. With `inner` locked, a receiver seen here will find this message.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +152,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // See `try_send_to_one`.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From b1f36c5a456d25df8823a0c60e96ed53cebeb59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 04/10] fix: do not lose a message handed to a receive future
 while it is dropped

---
 xtra/src/chan.rs                  | 17 +++++++++++------
 xtra/src/chan/waiting_receiver.rs |  5 +++--
 xtra/src/recv_future.rs           | 19 +++++++++++--------
 3 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index dd1d8d9..69a77d6 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -287,21 +287,26 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given [`WaitingReceiver`], re-queueing the message it was given, if any.
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
-    /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// that this process gets cancelled. In that case, this function re-queues the message so it does
+    /// not get lost.
+    ///
+    /// Receivers are only ever given a message with `inner` locked, so no message can get lost between
+    /// looking for one and the receiver being gone.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, receiver: WaitingReceiver<A>) {
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
-        if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.push_unicast(msg);
+        if let Some(msg) = receiver.cancel() {
+            if let Err(msg) = inner.try_fulfill_receiver(msg) {
+                inner.push_unicast(msg);
+            }
         }
     }
 
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..e971964 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -59,8 +59,9 @@ impl<A> WaitingReceiver<A> {
     /// receiver has not been polled since.
     ///
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
-    /// message would otherwise be dropped.
-    pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
+    /// message would otherwise be dropped. The channel must be locked, see
+    /// [`Chan::cancel_receiver`](crate::chan::Chan::cancel_receiver).
+    pub fn cancel(mut self) -> Option<MessageToOne<A>> {
         match self.0.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..8830fd8 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -79,7 +79,7 @@ enum Receiving<A> {
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
-    waiting_receiver: WaitingReceiver<A>,
+    waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
@@ -91,7 +91,12 @@ impl<A> Future for Waiting<A> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
 
-        let maybe_message = futures_util::ready!(this.waiting_receiver.poll(
+        let waiting_receiver = this
+            .waiting_receiver
+            .as_mut()
+            .expect("to not be polled after completion");
+
+        let maybe_message = futures_util::ready!(waiting_receiver.poll(
             this.channel
                 .as_mut()
                 .expect("to not be polled after completion"),
@@ -121,11 +126,9 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        // Both are there unless we have been polled to completion.
+        if let (Some(channel), Some(receiver)) = (&self.channel, self.waiting_receiver.take()) {
+            channel.cancel_receiver(receiver);
         }
     }
 }
@@ -153,7 +156,7 @@ impl<A> Future for Receiving<A> {
                         *this = Receiving::Waiting(Waiting {
                             channel: Some(channel),
                             broadcast_mailbox: Some(broadcast_mailbox),
-                            waiting_receiver: waiting,
+                            waiting_receiver: Some(waiting),
                         });
                     }
                 },
-- 
2.43.0


From 651ff2319db851804061e61ee6d7b97a0e8a49d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 05/10] fix: do not drop messages while the channel is locked

---
 xtra/src/chan.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 69a77d6..ac0cc9f 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -253,20 +253,31 @@ impl<A> Chan<A> {
 
     /// Shutdown all [`WaitingSender`]s in this channel.
     fn shutdown_waiting_senders(&self) {
-        let mut inner = match self.chan.lock() {
-            Ok(lock) => lock,
-            Err(_) => return, // Poisoned, ignore
-        };
+        // User-defined messages must only be dropped once `inner` is unlocked again, as they may well own an
+        // address (possibly the last one) of this very channel.
+        let (unicast_queue, waiting_send_to_one, waiting_send_to_all) = {
+            let mut inner = match self.chan.lock() {
+                Ok(lock) => lock,
+                Err(_) => return, // Poisoned, ignore
+            };
+
+            self.on_shutdown.notify(usize::MAX);
 
-        self.on_shutdown.notify(usize::MAX);
+            inner.broadcast_queues.clear();
+
+            (
+                mem::take(&mut inner.unicast_queue),
+                mem::take(&mut inner.waiting_send_to_one),
+                mem::take(&mut inner.waiting_send_to_all),
+            )
+        };
 
         // Let any outstanding messages drop
-        inner.unicast_queue.clear();
-        inner.broadcast_queues.clear();
+        drop(unicast_queue);
 
         // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        drop(waiting_send_to_one);
+        drop(waiting_send_to_all);
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
-- 
2.43.0


From b87d82312c85842f9825e88624c0c0c38a2ec95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 06/10] fix: do not let a dropped mailbox hold up broadcasts

---
 xtra/src/chan.rs        | 61 +++++++++++++++++++++++++++++++++++------
 xtra/src/chan/ptr.rs    |  7 ++++-
 xtra/src/mailbox.rs     |  6 ++--
 xtra/src/recv_future.rs | 16 +++++------
 4 files changed, 69 insertions(+), 21 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index ac0cc9f..187eb94 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -8,6 +8,7 @@ mod waiting_sender;
 
 use std::cmp::Ordering;
 use std::collections::{BinaryHeap, VecDeque};
+use std::ops::Deref;
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc, Mutex, Weak};
 use std::{cmp, mem};
@@ -25,6 +26,39 @@ pub type MessageToOne<A> = Box<dyn MessageEnvelope<Actor = A>>;
 pub type MessageToAll<A> = Arc<dyn BroadcastEnvelope<Actor = A>>;
 pub type BroadcastQueue<A> = spin::Mutex<BinaryHeap<ByPriority<MessageToAll<A>>>>;
 
+/// The broadcast queue of one mailbox. Dropping it removes the queue from the channel.
+pub struct BroadcastMailbox<A> {
+    queue: Arc<BroadcastQueue<A>>,
+    chan: Arc<Chan<A>>,
+}
+
+impl<A> BroadcastMailbox<A> {
+    fn new(chan: Arc<Chan<A>>) -> Self {
+        let queue = Arc::new(spin::Mutex::new(BinaryHeap::new()));
+        chan.chan
+            .lock()
+            .unwrap()
+            .broadcast_queues
+            .push(Arc::downgrade(&queue));
+
+        BroadcastMailbox { queue, chan }
+    }
+}
+
+impl<A> Deref for BroadcastMailbox<A> {
+    type Target = BroadcastQueue<A>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.queue
+    }
+}
+
+impl<A> Drop for BroadcastMailbox<A> {
+    fn drop(&mut self) {
+        self.chan.remove_broadcast_queue(&self.queue);
+    }
+}
+
 /// Create an actor mailbox, returning a sender and receiver for it.
 ///
 /// The given capacity is applied separately for unicast and broadcast messages.
@@ -90,16 +124,25 @@ impl<A> Chan<A> {
         self.shutdown_waiting_receivers();
     }
 
-    /// Creates a new broadcast mailbox on this channel.
-    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastQueue<A>> {
-        let mailbox = Arc::new(spin::Mutex::new(BinaryHeap::new()));
-        self.chan
-            .lock()
-            .unwrap()
-            .broadcast_queues
-            .push(Arc::downgrade(&mailbox));
+    /// Callback to be invoked every time a broadcast mailbox is destroyed.
+    fn remove_broadcast_queue(&self, removed: &Arc<BroadcastQueue<A>>) {
+        let mut inner = match self.chan.lock() {
+            Ok(lock) => lock,
+            Err(_) => return, // Poisoned, ignore
+        };
 
-        mailbox
+        inner
+            .broadcast_queues
+            .retain(|queue| queue.as_ptr() != Arc::as_ptr(removed));
+        inner.broadcast_tail = inner.longest_broadcast_queue();
+
+        // The removed queue may have been the only full one
+        while !inner.broadcast_queues.is_empty() && !inner.is_broadcast_full() {
+            match inner.try_take_waiting_broadcast_message() {
+                Some(m) => inner.send_broadcast(m),
+                None => break,
+            }
+        }
     }
 
     pub fn try_send_to_one(
diff --git a/xtra/src/chan/ptr.rs b/xtra/src/chan/ptr.rs
index 9d4dd67..ec47698 100644
--- a/xtra/src/chan/ptr.rs
+++ b/xtra/src/chan/ptr.rs
@@ -3,7 +3,7 @@ use std::sync::{atomic, Arc};
 
 use private::RefCounter as _;
 
-use crate::chan::Chan;
+use crate::chan::{BroadcastMailbox, Chan};
 
 /// A reference-counted pointer to the channel that is generic over its reference counting policy.
 ///
@@ -36,6 +36,11 @@ impl<A> Ptr<A, Rx> {
 
         Self { ref_counter, inner }
     }
+
+    /// Creates a new broadcast mailbox on this channel.
+    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastMailbox<A>> {
+        Arc::new(BroadcastMailbox::new(self.inner.clone()))
+    }
 }
 
 impl<A, Rc> Ptr<A, Rc>
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e75e966..6e180b6 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::chan::{self, BroadcastQueue, Rx};
+use crate::chan::{self, BroadcastMailbox, Rx};
 use crate::recv_future::ReceiveFuture;
 use crate::{Address, WeakAddress};
 
@@ -10,7 +10,7 @@ use crate::{Address, WeakAddress};
 /// Think of [`Address`] and [`Mailbox`] as an MPMC channel.
 pub struct Mailbox<A> {
     inner: chan::Ptr<A, Rx>,
-    broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> Mailbox<A> {
@@ -57,7 +57,7 @@ impl<A> Mailbox<A> {
 
     pub(crate) fn from_parts(
         chan: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self {
             inner: chan,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 8830fd8..8b9f454 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use futures_core::FusedFuture;
 use futures_util::FutureExt;
 
-use crate::chan::{self, ActorMessage, BroadcastQueue, Rx, WaitingReceiver};
+use crate::chan::{self, ActorMessage, BroadcastMailbox, Rx, WaitingReceiver};
 
 /// A future which will resolve to the next message to be handled by the actor.
 ///
@@ -31,13 +31,13 @@ pub struct Message<A> {
     pub(crate) inner: ActorMessage<A>,
 
     pub(crate) channel: chan::Ptr<A, Rx>,
-    pub(crate) broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    pub(crate) broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> ReceiveFuture<A> {
     pub(crate) fn new(
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self(Receiving::New {
             channel,
@@ -62,7 +62,7 @@ impl<A> Future for ReceiveFuture<A> {
 enum Receiving<A> {
     New {
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     },
     Waiting(Waiting<A>),
     Done,
@@ -78,14 +78,14 @@ enum Receiving<A> {
 #[must_use = "Futures do nothing unless polled"]
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
-    broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
+    broadcast_mailbox: Option<Arc<BroadcastMailbox<A>>>,
     waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
     type Output = Result<
-        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
-        (chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
+        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
+        (chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
     >;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
@@ -144,7 +144,7 @@ impl<A> Future for Receiving<A> {
                 Receiving::New {
                     channel,
                     broadcast_mailbox,
-                } => match channel.try_recv(broadcast_mailbox.as_ref()) {
+                } => match channel.try_recv(&broadcast_mailbox) {
                     Ok(inner) => {
                         return Poll::Ready(Message {
                             inner,
-- 
2.43.0


From 93e0194df7c31d8477ddb042ff366b919369d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 07/10] fix: do not drop the message of a cancelled send while
 the channel is locked

---
 xtra/src/chan/waiting_sender.rs | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..50d1a23 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -10,26 +10,39 @@ use crate::Error;
 #[must_use = "Futures do nothing unless polled"]
 pub struct WaitingSender<M>(Arc<spin::Mutex<Inner<M>>>);
 
-pub struct Handle<M>(Weak<spin::Mutex<Inner<M>>>);
+pub struct Handle<M> {
+    inner: Weak<spin::Mutex<Inner<M>>>,
+    /// Copied from the message. Looking at the message itself would keep it alive meanwhile, and thus might
+    /// drop it with the channel locked if its [`WaitingSender`] goes away at the same time.
+    priority: Priority,
+}
 
-impl<M> WaitingSender<M> {
+impl<M> WaitingSender<M>
+where
+    M: HasPriority,
+{
     pub fn new(msg: M) -> (Handle<M>, WaitingSender<M>) {
+        let priority = msg.priority();
         let inner = Arc::new(spin::Mutex::new(Inner::new(msg)));
+        let handle = Handle {
+            inner: Arc::downgrade(&inner),
+            priority,
+        };
 
-        (Handle(Arc::downgrade(&inner)), WaitingSender(inner))
+        (handle, WaitingSender(inner))
     }
 }
 
 impl<M> Handle<M> {
     pub fn is_active(&self) -> bool {
-        Weak::strong_count(&self.0) > 0
+        Weak::strong_count(&self.inner) > 0
     }
 
     /// Take the message out of the paired [`WaitingSender`].
     ///
     /// This may return `None` in case the [`WaitingSender`] is no longer active, has already been closed or the message was already taken.
     pub fn take_message(self) -> Option<M> {
-        let inner = self.0.upgrade()?;
+        let inner = self.inner.upgrade()?;
         let mut this = inner.lock();
 
         match mem::replace(&mut *this, Inner::Delivered) {
@@ -47,7 +60,7 @@ impl<M> Handle<M> {
 
 impl<M> Drop for Handle<M> {
     fn drop(&mut self) {
-        if let Some(inner) = self.0.upgrade() {
+        if let Some(inner) = self.inner.upgrade() {
             let mut this = inner.lock();
 
             match &*this {
@@ -64,18 +77,9 @@ impl<M> Drop for Handle<M> {
     }
 }
 
-impl<M> Handle<M>
-where
-    M: HasPriority,
-{
-    pub fn priority(&self) -> Option<Priority> {
-        let inner = self.0.upgrade()?;
-        let this = inner.lock();
-
-        match &*this {
-            Inner::Active { message, .. } => Some(message.priority()),
-            Inner::Closed | Inner::Delivered => None,
-        }
+impl<M> HasPriority for Handle<M> {
+    fn priority(&self) -> Priority {
+        self.priority
     }
 }
 
-- 
2.43.0


From a43cad38dfb1c6d315490a9b53b9454487c0ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 08/10] fix: let stop_all stop the actors when no strong
 address is left

Messages may still be queued then, and the actors went on handling them all.
---
 xtra/src/context.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index cb60ce3..082a2ac 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -28,10 +28,9 @@ impl<A: Actor> Context<A> {
     /// for other broadcast messages, during which time other messages may be handled by actors (i.e
     /// the shutdown may be delayed by a lagging actor).
     pub fn stop_all(&self) {
-        // We only need to shut down if there are still any strong senders left
-        if let Some(address) = self.mailbox.address().try_upgrade() {
-            address.0.shutdown_all_receivers();
-        }
+        // This is needed even if there are no strong senders left: in that case, the actors would stop on
+        // their own, but not before they have handled all messages that are still queued.
+        self.mailbox.address().0.shutdown_all_receivers();
     }
 
     /// Get a reference to the [`Mailbox`] of this actor.
-- 
2.43.0


From c8a75f8e06a640339e335ceeeded61ec8450c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 09/10] fix: do not shut down past a message that was put back
 into the mailbox

A cancelled receive puts its message back; a receive that had been told to shut down by then ended
its event loop without that message having been handled.
---
 xtra/src/chan/waiting_receiver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index e971964..7ad24ea 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -86,7 +86,9 @@ impl<A> WaitingReceiver<A> {
 
         let actor_message = match ctrl_msg {
             CtrlMsg::NewMessage(msg) => ActorMessage::ToOneActor(msg),
-            CtrlMsg::Shutdown => ActorMessage::Shutdown,
+            // A message may have been put back into the mailbox since (see `Chan::cancel_receiver`), so have
+            // another look before shutting down.
+            CtrlMsg::Shutdown => return Poll::Ready(None),
             CtrlMsg::NewBroadcast => match chan.next_broadcast_message(broadcast_mailbox) {
                 Some(msg) => ActorMessage::ToAllActors(msg),
                 None => return Poll::Ready(None),
-- 
2.43.0


From 824f7adf31e89cac66ffbd2a8f636108b7f6db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 10/10] fix: do not pile up the handles of cancelled sends and
 receives

They stayed queued until there was room in the mailbox, or a message arrived,
for which an idle or stuck actor waits indefinitely. Retrying sends with a
timeout, or selecting between the next message and a timer, grew the queues
without bound.
---
 xtra/src/chan.rs                  | 24 +++++++++++++++++++++---
 xtra/src/chan/waiting_receiver.rs | 30 +++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187eb94..382ba35 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -171,7 +171,7 @@ impl<A> Chan<A> {
 
         if inner.is_unicast_full() {
             let (handle, waiting) = WaitingSender::new(unfulfilled_msg);
-            inner.waiting_send_to_one.push_back(handle);
+            push_waiting(&mut inner.waiting_send_to_one, handle);
 
             return Ok(Err(MailboxFull(waiting)));
         }
@@ -202,7 +202,7 @@ impl<A> Chan<A> {
 
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
-            inner.waiting_send_to_all.push_back(handle);
+            push_waiting(&mut inner.waiting_send_to_all, handle);
 
             return Ok(Err(MailboxFull(waiting)));
         }
@@ -242,7 +242,7 @@ impl<A> Chan<A> {
                     return Ok(ActorMessage::Shutdown);
                 }
 
-                let (receiver, handle) = WaitingReceiver::new();
+                let (receiver, handle) = WaitingReceiver::new(inner.next_seq());
 
                 inner.waiting_receivers_handles.push_back(handle);
                 Err(receiver)
@@ -357,6 +357,11 @@ impl<A> Chan<A> {
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        // Handles of cancelled receivers must not pile up while no message arrives.
+        inner
+            .waiting_receivers_handles
+            .retain(|handle| !receiver.belongs_to(handle));
+
         if let Some(msg) = receiver.cancel() {
             if let Err(msg) = inner.try_fulfill_receiver(msg) {
                 inner.push_unicast(msg);
@@ -509,6 +514,19 @@ impl<A> Inner<A> {
     }
 }
 
+/// Queues `handle`, in the place of handles that are no longer active if there are any to be had: those of
+/// cancelled sends must not pile up while there is no room in the mailbox.
+fn push_waiting<M>(
+    queue: &mut VecDeque<waiting_sender::Handle<M>>,
+    handle: waiting_sender::Handle<M>,
+) {
+    if queue.len() == queue.capacity() {
+        queue.retain(|handle| handle.is_active());
+    }
+
+    queue.push_back(handle);
+}
+
 fn find_remove_highest_priority<M>(
     queue: &mut VecDeque<waiting_sender::Handle<M>>,
 ) -> Option<waiting_sender::Handle<M>>
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index 7ad24ea..1e2b0b0 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -7,18 +7,24 @@ use crate::chan::{self, ActorMessage, BroadcastQueue, MessageToOne, Rx};
 /// A [`WaitingReceiver`] is handed out by the channel any time [`Chan::try_recv`](crate::chan::Chan::try_recv) is called on an empty mailbox.
 ///
 /// [`WaitingReceiver`] implements [`Future`](std::future::Future) which will resolve once a message lands in the mailbox.
-pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>);
+pub struct WaitingReceiver<A> {
+    receiver: catty::Receiver<CtrlMsg<A>>,
+    id: u64,
+}
 
 /// A [`Handle`] is the counter-part to a [`WaitingReceiver`].
 ///
 /// It is stored internally in the channel and used by the channel implementation to notify a
 /// [`WaitingReceiver`] once a new message hits the mailbox.
-pub struct Handle<A>(catty::Sender<CtrlMsg<A>>);
+pub struct Handle<A> {
+    sender: catty::Sender<CtrlMsg<A>>,
+    id: u64,
+}
 
 impl<A> Handle<A> {
     /// Notify the connected [`WaitingReceiver`] that the channel is shutting down.
     pub fn notify_channel_shutdown(self) {
-        let _ = self.0.send(CtrlMsg::Shutdown);
+        let _ = self.sender.send(CtrlMsg::Shutdown);
     }
 
     /// Notify the connected [`WaitingReceiver`] about a new broadcast message.
@@ -26,7 +32,7 @@ impl<A> Handle<A> {
     /// Broadcast mailboxes are stored outside of the main channel implementation which is why this
     /// messages does not take any arguments.
     pub fn notify_new_broadcast(self) -> Result<(), ()> {
-        self.0.send(CtrlMsg::NewBroadcast).map_err(|_| ())
+        self.sender.send(CtrlMsg::NewBroadcast).map_err(|_| ())
     }
 
     /// Notify the connected [`WaitingReceiver`] about a new message.
@@ -37,7 +43,7 @@ impl<A> Handle<A> {
     /// This function will return the message in an `Err` if the [`WaitingReceiver`] has since called
     /// [`cancel`](WaitingReceiver::cancel) and is therefore unable to handle the message.
     pub fn notify_new_message(self, msg: MessageToOne<A>) -> Result<(), MessageToOne<A>> {
-        self.0
+        self.sender
             .send(CtrlMsg::NewMessage(msg))
             .map_err(|reason| match reason {
                 CtrlMsg::NewMessage(msg) => msg,
@@ -47,10 +53,16 @@ impl<A> Handle<A> {
 }
 
 impl<A> WaitingReceiver<A> {
-    pub fn new() -> (WaitingReceiver<A>, Handle<A>) {
+    /// `id` must differ from that of any other [`WaitingReceiver`] of the channel.
+    pub fn new(id: u64) -> (WaitingReceiver<A>, Handle<A>) {
         let (sender, receiver) = catty::oneshot();
 
-        (WaitingReceiver(receiver), Handle(sender))
+        (WaitingReceiver { receiver, id }, Handle { sender, id })
+    }
+
+    /// Whether this is the [`WaitingReceiver`] that `handle` is the counter-part to.
+    pub fn belongs_to(&self, handle: &Handle<A>) -> bool {
+        self.id == handle.id
     }
 
     /// Cancel this [`WaitingReceiver`].
@@ -62,7 +74,7 @@ impl<A> WaitingReceiver<A> {
     /// message would otherwise be dropped. The channel must be locked, see
     /// [`Chan::cancel_receiver`](crate::chan::Chan::cancel_receiver).
     pub fn cancel(mut self) -> Option<MessageToOne<A>> {
-        match self.0.try_recv() {
+        match self.receiver.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
         }
@@ -79,7 +91,7 @@ impl<A> WaitingReceiver<A> {
         broadcast_mailbox: &BroadcastQueue<A>,
         cx: &mut Context<'_>,
     ) -> Poll<Option<ActorMessage<A>>> {
-        let ctrl_msg = match futures_util::ready!(self.0.poll_unpin(cx)) {
+        let ctrl_msg = match futures_util::ready!(self.receiver.poll_unpin(cx)) {
             Ok(reason) => reason,
             Err(_) => return Poll::Ready(None), // TODO: Not sure if this is correct.
         };
-- 
2.43.0

