From 9ecca850d7e4646251fe947482ad032160c79820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 01/13] Add a guarded hook that lets a simulator replace std
 (cfg xtra_sim, off by default)

---
 xtra/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 8803bcc..62ec30c 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -3,6 +3,11 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![deny(unsafe_code, missing_docs)]
 
+// Verification hook, off by default: under `--cfg xtra_sim` every `std::` path of this crate resolves
+// to a facade of the standard library whose locks, atomics and scheduling points are simulated.
+#[cfg(xtra_sim)]
+extern crate spin as std;
+
 use std::fmt;
 use std::future::Future;
 use std::ops::ControlFlow;
-- 
2.43.0


From a8d30e75d2875876638ff3771c7970efc49dc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 02/13] fix: a send racing with the last mailbox's drop must
 not strand its message

---
 xtra/src/chan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..d05b1e5 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver may have gone away (and cleared the queues) before inner was locked, in
+        // which case the message must not be stranded in a dead mailbox.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +152,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // Check again now that inner is locked, see `try_send_to_one`
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From b4c24ca0f29b8eb18b585ecfe56e33f64d656d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 03/13] fix: a message handed to a receive future while it is
 being dropped must not be lost

---
 xtra/src/chan.rs                  | 10 +++++++---
 xtra/src/chan/waiting_receiver.rs |  5 ++++-
 xtra/src/recv_future.rs           | 18 ++++++++++--------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index d05b1e5..a9191ef 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -287,19 +287,23 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given [`WaitingReceiver`], re-queueing its message.
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
     /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// message (if there is one) so it does not get lost.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_waiting_receiver(&self, receiver: WaitingReceiver<A>) {
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        // Messages are only sent to receivers with inner locked, and it's locked here until the
+        // receiver is gone, so no race
+        let Some(msg) = receiver.cancel() else { return };
+
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
             inner.unicast_queue.push(ByPriority(msg));
         }
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..c6c0860 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -60,7 +60,10 @@ impl<A> WaitingReceiver<A> {
     ///
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
     /// message would otherwise be dropped.
-    pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
+    ///
+    /// This must be called with the channel locked, such that no message can be sent to this receiver
+    /// after it was checked for one.
+    pub fn cancel(mut self) -> Option<MessageToOne<A>> {
         match self.0.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..effdd3b 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -79,7 +79,7 @@ enum Receiving<A> {
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
-    waiting_receiver: WaitingReceiver<A>,
+    waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
@@ -91,7 +91,12 @@ impl<A> Future for Waiting<A> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
 
-        let maybe_message = futures_util::ready!(this.waiting_receiver.poll(
+        let waiting_receiver = this
+            .waiting_receiver
+            .as_mut()
+            .expect("to not be polled after completion");
+
+        let maybe_message = futures_util::ready!(waiting_receiver.poll(
             this.channel
                 .as_mut()
                 .expect("to not be polled after completion"),
@@ -121,11 +126,8 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        if let (Some(channel), Some(waiting)) = (&self.channel, self.waiting_receiver.take()) {
+            channel.cancel_waiting_receiver(waiting);
         }
     }
 }
@@ -153,7 +155,7 @@ impl<A> Future for Receiving<A> {
                         *this = Receiving::Waiting(Waiting {
                             channel: Some(channel),
                             broadcast_mailbox: Some(broadcast_mailbox),
-                            waiting_receiver: waiting,
+                            waiting_receiver: Some(waiting),
                         });
                     }
                 },
-- 
2.43.0


From 32c9258e2b4b5c4aab83e42803ca985c21d69d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 04/13] fix: handle queued messages of equal priority in send
 order

---
 xtra/src/chan.rs          | 23 +++++++++++++++++++----
 xtra/src/chan/priority.rs | 10 +++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index a9191ef..88630b0 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -133,7 +133,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -305,7 +305,7 @@ impl<A> Chan<A> {
         let Some(msg) = receiver.cancel() else { return };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.push_unicast(msg);
         }
     }
 
@@ -325,6 +325,7 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    next_seq: u64,
 }
 
 impl<A> Inner<A> {
@@ -337,15 +338,27 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            next_seq: 0,
         }
     }
 
+    /// The sequence number for the next message that is queued.
+    fn next_seq(&mut self) -> u64 {
+        self.next_seq += 1;
+        self.next_seq
+    }
+
+    fn push_unicast(&mut self, msg: MessageToOne<A>) {
+        let seq = self.next_seq();
+        self.unicast_queue.push(ByPriority(msg, seq));
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
         let msg = self.unicast_queue.pop()?.0;
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
@@ -382,9 +395,11 @@ impl<A> Inner<A> {
     }
 
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
+        let seq = self.next_seq();
+
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
+                q.lock().push(ByPriority(m.clone(), seq));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..ebed77d 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -17,7 +17,10 @@ pub trait HasPriority {
 }
 
 /// A wrapper struct that allows comparison and ordering for anything thas has a priority, i.e. implements [`HasPriority`].
-pub struct ByPriority<T>(pub T);
+///
+/// Among equal priorities, the one with the lower sequence number (the second field) is the greater,
+/// such that they come out of a heap in the order in which they were numbered.
+pub struct ByPriority<T>(pub T, pub u64);
 
 impl<T> HasPriority for ByPriority<T>
 where
@@ -33,7 +36,7 @@ where
     T: HasPriority,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.0.priority().eq(&other.0.priority())
+        self.cmp(other).is_eq()
     }
 }
 
@@ -53,6 +56,7 @@ where
     T: HasPriority,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.priority().cmp(&other.0.priority())
+        let by_priority = self.0.priority().cmp(&other.0.priority());
+        by_priority.then_with(|| other.1.cmp(&self.1))
     }
 }
-- 
2.43.0


From b1a726e2234f9686fb5731285fa9819ef3af02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 05/13] fix: of waiting senders with equal priority, admit the
 one waiting the longest

---
 xtra/src/chan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 88630b0..f54dae8 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -465,6 +465,7 @@ where
     let pos = queue
         .iter()
         .enumerate()
+        .rev() // Of several maxima, `max_by_key` returns the last: take the one waiting the longest.
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
-- 
2.43.0


From 44cd5eb6398b33e524239dbf7c29d31e22531734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 06/13] fix: a mailbox of capacity zero must hand over messages
 rather than hang

---
 xtra/src/chan.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index f54dae8..ecb196f 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -194,6 +194,11 @@ impl<A> Chan<A> {
             Ordering::Less => Ok(inner.pop_broadcast(broadcast_mailbox).unwrap().into()),
             // Equal, but both are empty, so wait or exit if shutdown
             _ => {
+                // If the capacity is zero, messages are only ever held by waiting senders
+                if let Some(msg) = inner.try_take_waiting_unicast_message() {
+                    return Ok(msg.into());
+                }
+
                 // on_shutdown is only notified with inner locked, and it's locked here, so no race
                 if self.sender_count.load(atomic::Ordering::SeqCst) == 0 {
                     return Ok(ActorMessage::Shutdown);
@@ -445,7 +450,7 @@ impl<A> Inner<A> {
 
     fn is_broadcast_full(&self) -> bool {
         self.capacity
-            .map_or(false, |cap| self.broadcast_tail >= cap)
+            .map_or(false, |cap| self.broadcast_tail >= cmp::max(cap, 1))
     }
 
     fn is_unicast_full(&self) -> bool {
-- 
2.43.0


From bc00bf20572a6111ed01c928f8bd76c175b7f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 07/13] fix: an actor that is gone must not hold back
 broadcasts

---
 xtra/src/chan.rs                   | 41 ++++++++++++++++++++++++------
 xtra/src/chan/broadcast_mailbox.rs | 38 +++++++++++++++++++++++++++
 xtra/src/mailbox.rs                |  6 ++---
 xtra/src/recv_future.rs            | 14 +++++-----
 4 files changed, 81 insertions(+), 18 deletions(-)
 create mode 100644 xtra/src/chan/broadcast_mailbox.rs

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index ecb196f..9ef8827 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -1,6 +1,7 @@
 //! Latency is prioritised over most accurate prioritisation. Specifically, at most one low priority
 //! message may be handled before piled-up higher priority messages will be handled.
 
+mod broadcast_mailbox;
 mod priority;
 mod ptr;
 mod waiting_receiver;
@@ -12,6 +13,7 @@ use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc, Mutex, Weak};
 use std::{cmp, mem};
 
+pub use broadcast_mailbox::BroadcastMailbox;
 use event_listener::{Event, EventListener};
 pub use priority::{ByPriority, HasPriority, Priority};
 pub use ptr::{Ptr, RefCounter, Rx, TxEither, TxStrong, TxWeak};
@@ -37,6 +39,20 @@ pub fn new<A>(capacity: Option<usize>) -> (Ptr<A, TxStrong>, Ptr<A, Rx>) {
     (tx, rx)
 }
 
+impl<A> Ptr<A, Rx> {
+    /// Creates a new broadcast mailbox on this channel.
+    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastMailbox<A>> {
+        let mailbox = Arc::new(BroadcastMailbox::new(self.to_tx_weak()));
+        self.chan
+            .lock()
+            .unwrap()
+            .broadcast_queues
+            .push(Arc::downgrade(&mailbox.queue));
+
+        mailbox
+    }
+}
+
 // Public because of private::RefCounterInner. This should never actually be exported, though.
 pub struct Chan<A> {
     chan: Mutex<Inner<A>>,
@@ -90,16 +106,25 @@ impl<A> Chan<A> {
         self.shutdown_waiting_receivers();
     }
 
-    /// Creates a new broadcast mailbox on this channel.
-    pub fn new_broadcast_mailbox(&self) -> Arc<BroadcastQueue<A>> {
-        let mailbox = Arc::new(spin::Mutex::new(BinaryHeap::new()));
-        self.chan
-            .lock()
-            .unwrap()
+    /// Removes the queue of a broadcast mailbox that is being dropped from this channel, and lets in
+    /// the waiting broadcasts which it has held back.
+    fn remove_broadcast_queue(&self, queue: &Arc<BroadcastQueue<A>>) {
+        let mut inner = match self.chan.lock() {
+            Ok(lock) => lock,
+            Err(_) => return, // Poisoned, ignore
+        };
+
+        inner
             .broadcast_queues
-            .push(Arc::downgrade(&mailbox));
+            .retain(|it| it.as_ptr() != Arc::as_ptr(queue));
+        inner.broadcast_tail = inner.longest_broadcast_queue();
 
-        mailbox
+        while !inner.is_broadcast_full() {
+            match inner.try_take_waiting_broadcast_message() {
+                Some(msg) => inner.send_broadcast(msg),
+                None => break,
+            }
+        }
     }
 
     pub fn try_send_to_one(
diff --git a/xtra/src/chan/broadcast_mailbox.rs b/xtra/src/chan/broadcast_mailbox.rs
new file mode 100644
index 0000000..ea10ab6
--- /dev/null
+++ b/xtra/src/chan/broadcast_mailbox.rs
@@ -0,0 +1,38 @@
+use std::collections::BinaryHeap;
+use std::ops::Deref;
+use std::sync::Arc;
+
+use crate::chan::{BroadcastQueue, Ptr, TxWeak};
+
+/// The broadcast mailbox of a single actor.
+///
+/// The channel only keeps weak references to the queues of broadcast mailboxes. A queue is removed
+/// from the channel along with its [`BroadcastMailbox`], such that an actor which is gone does not
+/// hold back any broadcasts.
+pub struct BroadcastMailbox<A> {
+    pub(super) queue: Arc<BroadcastQueue<A>>,
+    chan: Ptr<A, TxWeak>,
+}
+
+impl<A> BroadcastMailbox<A> {
+    pub(super) fn new(chan: Ptr<A, TxWeak>) -> Self {
+        Self {
+            queue: Arc::new(spin::Mutex::new(BinaryHeap::new())),
+            chan,
+        }
+    }
+}
+
+impl<A> Deref for BroadcastMailbox<A> {
+    type Target = BroadcastQueue<A>;
+
+    fn deref(&self) -> &Self::Target {
+        &self.queue
+    }
+}
+
+impl<A> Drop for BroadcastMailbox<A> {
+    fn drop(&mut self) {
+        self.chan.remove_broadcast_queue(&self.queue);
+    }
+}
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e75e966..6e180b6 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::chan::{self, BroadcastQueue, Rx};
+use crate::chan::{self, BroadcastMailbox, Rx};
 use crate::recv_future::ReceiveFuture;
 use crate::{Address, WeakAddress};
 
@@ -10,7 +10,7 @@ use crate::{Address, WeakAddress};
 /// Think of [`Address`] and [`Mailbox`] as an MPMC channel.
 pub struct Mailbox<A> {
     inner: chan::Ptr<A, Rx>,
-    broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> Mailbox<A> {
@@ -57,7 +57,7 @@ impl<A> Mailbox<A> {
 
     pub(crate) fn from_parts(
         chan: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self {
             inner: chan,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index effdd3b..370eeac 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -7,7 +7,7 @@ use std::task::{Context, Poll};
 use futures_core::FusedFuture;
 use futures_util::FutureExt;
 
-use crate::chan::{self, ActorMessage, BroadcastQueue, Rx, WaitingReceiver};
+use crate::chan::{self, ActorMessage, BroadcastMailbox, Rx, WaitingReceiver};
 
 /// A future which will resolve to the next message to be handled by the actor.
 ///
@@ -31,13 +31,13 @@ pub struct Message<A> {
     pub(crate) inner: ActorMessage<A>,
 
     pub(crate) channel: chan::Ptr<A, Rx>,
-    pub(crate) broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    pub(crate) broadcast_mailbox: Arc<BroadcastMailbox<A>>,
 }
 
 impl<A> ReceiveFuture<A> {
     pub(crate) fn new(
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     ) -> Self {
         Self(Receiving::New {
             channel,
@@ -62,7 +62,7 @@ impl<A> Future for ReceiveFuture<A> {
 enum Receiving<A> {
     New {
         channel: chan::Ptr<A, Rx>,
-        broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        broadcast_mailbox: Arc<BroadcastMailbox<A>>,
     },
     Waiting(Waiting<A>),
     Done,
@@ -78,14 +78,14 @@ enum Receiving<A> {
 #[must_use = "Futures do nothing unless polled"]
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
-    broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
+    broadcast_mailbox: Option<Arc<BroadcastMailbox<A>>>,
     waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
     type Output = Result<
-        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
-        (chan::Ptr<A, Rx>, Arc<BroadcastQueue<A>>),
+        (ActorMessage<A>, chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
+        (chan::Ptr<A, Rx>, Arc<BroadcastMailbox<A>>),
     >;
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-- 
2.43.0


From c2bf853185c06ae981eb847f0cb5043703ff3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:19 +0000
Subject: [PATCH 08/13] fix: a dead mailbox must not run message destructors
 with its lock held

---
 xtra/src/chan.rs                | 15 ++++-----
 xtra/src/chan/waiting_sender.rs | 55 +++++++++++++++++----------------
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 9ef8827..c8e270a 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -290,13 +290,14 @@ impl<A> Chan<A> {
 
         self.on_shutdown.notify(usize::MAX);
 
-        // Let any outstanding messages drop
-        inner.unicast_queue.clear();
-        inner.broadcast_queues.clear();
-
-        // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        // Let any outstanding messages drop, and close (and potentially wake) outstanding waiting
+        // senders. This must only happen once inner is unlocked, since messages may hold addresses.
+        let _unicast_queue = mem::take(&mut inner.unicast_queue);
+        let _broadcast_queues = mem::take(&mut inner.broadcast_queues);
+        let _waiting_send_to_one = mem::take(&mut inner.waiting_send_to_one);
+        let _waiting_send_to_all = mem::take(&mut inner.waiting_send_to_all);
+
+        drop(inner);
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..61d75d6 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -10,26 +10,41 @@ use crate::Error;
 #[must_use = "Futures do nothing unless polled"]
 pub struct WaitingSender<M>(Arc<spin::Mutex<Inner<M>>>);
 
-pub struct Handle<M>(Weak<spin::Mutex<Inner<M>>>);
+pub struct Handle<M> {
+    inner: Weak<spin::Mutex<Inner<M>>>,
+    priority: Priority,
+}
 
-impl<M> WaitingSender<M> {
+impl<M> WaitingSender<M>
+where
+    M: HasPriority,
+{
     pub fn new(msg: M) -> (Handle<M>, WaitingSender<M>) {
+        let priority = msg.priority();
         let inner = Arc::new(spin::Mutex::new(Inner::new(msg)));
+        let handle = Handle {
+            inner: Arc::downgrade(&inner),
+            priority,
+        };
 
-        (Handle(Arc::downgrade(&inner)), WaitingSender(inner))
+        (handle, WaitingSender(inner))
     }
 }
 
 impl<M> Handle<M> {
+    pub fn priority(&self) -> Priority {
+        self.priority
+    }
+
     pub fn is_active(&self) -> bool {
-        Weak::strong_count(&self.0) > 0
+        Weak::strong_count(&self.inner) > 0
     }
 
     /// Take the message out of the paired [`WaitingSender`].
     ///
     /// This may return `None` in case the [`WaitingSender`] is no longer active, has already been closed or the message was already taken.
     pub fn take_message(self) -> Option<M> {
-        let inner = self.0.upgrade()?;
+        let inner = self.inner.upgrade()?;
         let mut this = inner.lock();
 
         match mem::replace(&mut *this, Inner::Delivered) {
@@ -47,38 +62,26 @@ impl<M> Handle<M> {
 
 impl<M> Drop for Handle<M> {
     fn drop(&mut self) {
-        if let Some(inner) = self.0.upgrade() {
+        if let Some(inner) = self.inner.upgrade() {
             let mut this = inner.lock();
 
-            match &*this {
-                Inner::Active { waker, .. } => {
+            match mem::replace(&mut *this, Inner::Closed) {
+                Inner::Active { waker, message } => {
+                    drop(this); // The message may hold on to this very sender
+
                     if let Some(waker) = waker {
-                        waker.wake_by_ref();
+                        waker.wake();
                     }
-                    *this = Inner::Closed;
+
+                    drop(message);
                 }
-                Inner::Delivered => {}
+                Inner::Delivered => *this = Inner::Delivered,
                 Inner::Closed => {}
             }
         };
     }
 }
 
-impl<M> Handle<M>
-where
-    M: HasPriority,
-{
-    pub fn priority(&self) -> Option<Priority> {
-        let inner = self.0.upgrade()?;
-        let this = inner.lock();
-
-        match &*this {
-            Inner::Active { message, .. } => Some(message.priority()),
-            Inner::Closed | Inner::Delivered => None,
-        }
-    }
-}
-
 impl<A> Future for WaitingSender<A> {
     type Output = Result<(), Error>;
 
-- 
2.43.0


From 2e25f8d27c87b1feb43aecd3faf2f277e870d292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 09/13] fix: reset the broadcast count of a dead mailbox along
 with its queues

---
 xtra/src/chan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index c8e270a..6c983a4 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -296,6 +296,7 @@ impl<A> Chan<A> {
         let _broadcast_queues = mem::take(&mut inner.broadcast_queues);
         let _waiting_send_to_one = mem::take(&mut inner.waiting_send_to_one);
         let _waiting_send_to_all = mem::take(&mut inner.waiting_send_to_all);
+        inner.broadcast_tail = 0;
 
         drop(inner);
     }
-- 
2.43.0


From 694ec0f722167472598f6221320f163bbb81578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 10/13] fix: stop_all must stop the actors even if no strong
 address is left

---
 xtra/src/context.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index cb60ce3..d04da03 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -28,10 +28,7 @@ impl<A: Actor> Context<A> {
     /// for other broadcast messages, during which time other messages may be handled by actors (i.e
     /// the shutdown may be delayed by a lagging actor).
     pub fn stop_all(&self) {
-        // We only need to shut down if there are still any strong senders left
-        if let Some(address) = self.mailbox.address().try_upgrade() {
-            address.0.shutdown_all_receivers();
-        }
+        self.mailbox.address().0.shutdown_all_receivers();
     }
 
     /// Get a reference to the [`Mailbox`] of this actor.
-- 
2.43.0


From b1d014ac0db77180adb8dc0acaf32d11dbcbfa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 11/13] fix: make the order of addresses agree with their
 equality

---
 xtra/src/address.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..8127988 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,8 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        let by_ptr = self.0.inner_ptr().cmp(&other.0.inner_ptr());
+        by_ptr.then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From 5e6d223d4535e82ece54aff4b66b7eae305c3a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 12/13] fix: an actor stopped while processing messages through
 select or join must stop

---
 xtra/src/context.rs  |  4 ++++
 xtra/src/envelope.rs |  4 ++--
 xtra/src/lib.rs      | 17 +++++++++++------
 xtra/src/mailbox.rs  | 26 ++++++++++++++++++++++++++
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index d04da03..c602dc9 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -31,6 +31,10 @@ impl<A: Actor> Context<A> {
         self.mailbox.address().0.shutdown_all_receivers();
     }
 
+    pub(crate) fn is_running(&self) -> bool {
+        self.running && !self.mailbox.is_stopping()
+    }
+
     /// Get a reference to the [`Mailbox`] of this actor.
     pub fn mailbox(&self) -> &Mailbox<A> {
         &self.mailbox
diff --git a/xtra/src/envelope.rs b/xtra/src/envelope.rs
index 97816ad..8244cf9 100644
--- a/xtra/src/envelope.rs
+++ b/xtra/src/envelope.rs
@@ -109,7 +109,7 @@ where
             };
             let r = act.handle(message, &mut ctx).await;
 
-            if ctx.running {
+            if ctx.is_running() {
                 (r, ControlFlow::Continue(()))
             } else {
                 (r, ControlFlow::Break(()))
@@ -199,7 +199,7 @@ where
             };
             act.handle(msg, &mut ctx).await;
 
-            if ctx.running {
+            if ctx.is_running() {
                 ControlFlow::Continue(())
             } else {
                 ControlFlow::Break(())
diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 62ec30c..c95a036 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -232,11 +232,13 @@ pub async fn run<A>(mailbox: Mailbox<A>, mut actor: A) -> A::Stop
 where
     A: Actor,
 {
+    let mailbox = mailbox.into_tracking();
+
     if let Err(stop) = actor.started(&mailbox).await {
         return stop;
     }
 
-    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}
+    while !mailbox.is_stopping() && yield_once(&mailbox, &mut actor).await.is_continue() {}
 
     actor.stopped().await
 }
@@ -308,15 +310,15 @@ where
     F: Future<Output = R> + Unpin,
     A: Actor,
 {
-    let mut control_flow = ControlFlow::Continue(());
-
-    while control_flow.is_continue() {
+    while !mailbox.is_stopping() {
         let (msg, unfinished) = {
             let mut next_msg = mailbox.next();
             match future::select(fut, &mut next_msg).await {
                 Either::Left((future_res, _)) => {
                     if let Some(msg) = next_msg.now_or_never() {
-                        msg.dispatch_to(actor).await;
+                        if msg.dispatch_to(actor).await.is_break() {
+                            mailbox.set_stopping();
+                        }
                     }
 
                     return Either::Left(future_res);
@@ -325,8 +327,11 @@ where
             }
         };
 
-        control_flow = msg.dispatch_to(actor).await;
         fut = unfinished;
+        if msg.dispatch_to(actor).await.is_break() {
+            mailbox.set_stopping();
+            break;
+        }
     }
 
     Either::Right(fut)
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index 6e180b6..70b3138 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,3 +1,4 @@
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 use crate::chan::{self, BroadcastMailbox, Rx};
@@ -11,6 +12,10 @@ use crate::{Address, WeakAddress};
 pub struct Mailbox<A> {
     inner: chan::Ptr<A, Rx>,
     broadcast_mailbox: Arc<BroadcastMailbox<A>>,
+    /// Whether the actor was stopped by a message handled through [`select`](crate::select) or
+    /// [`join`](crate::join). `None` if there is no actor that is processing a message (or starting)
+    /// using this very mailbox, and hence nothing to be stopped later on.
+    stopping: Option<AtomicBool>,
 }
 
 impl<A> Mailbox<A> {
@@ -22,6 +27,7 @@ impl<A> Mailbox<A> {
         let mailbox = Mailbox {
             broadcast_mailbox: receiver.new_broadcast_mailbox(),
             inner: receiver,
+            stopping: None,
         };
 
         (address, mailbox)
@@ -37,6 +43,7 @@ impl<A> Mailbox<A> {
         let mailbox = Mailbox {
             broadcast_mailbox: receiver.new_broadcast_mailbox(),
             inner: receiver,
+            stopping: None,
         };
 
         (address, mailbox)
@@ -62,8 +69,26 @@ impl<A> Mailbox<A> {
         Self {
             inner: chan,
             broadcast_mailbox,
+            stopping: Some(AtomicBool::new(false)),
         }
     }
+
+    /// Turns this mailbox into one that keeps track of whether its actor should stop.
+    pub(crate) fn into_tracking(self) -> Self {
+        Self::from_parts(self.inner, self.broadcast_mailbox)
+    }
+
+    pub(crate) fn set_stopping(&self) {
+        if let Some(stopping) = &self.stopping {
+            stopping.store(true, Ordering::Relaxed);
+        }
+    }
+
+    pub(crate) fn is_stopping(&self) -> bool {
+        self.stopping
+            .as_ref()
+            .map_or(false, |stopping| stopping.load(Ordering::Relaxed))
+    }
 }
 
 impl<A> Clone for Mailbox<A> {
@@ -71,6 +96,7 @@ impl<A> Clone for Mailbox<A> {
         Mailbox {
             inner: self.inner.clone(),
             broadcast_mailbox: self.inner.new_broadcast_mailbox(),
+            stopping: None,
         }
     }
 }
-- 
2.43.0


From 838a7b734388bbf7e0742493fe11f56b71b86768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:56 +0000
Subject: [PATCH 13/13] fix: do not keep the handles of cancelled receives and
 waiting sends

The handle of a cancelled receive stayed in the channel until a message came
along, so an actor which is idle apart from, say, a select against a timer
grew the channel with each receive. Likewise for sends and broadcasts which
gave up waiting for room while the mailbox remained full.
---
 xtra/src/chan.rs                  | 22 ++++++++++++++++++++--
 xtra/src/chan/waiting_receiver.rs | 20 ++++++++++++++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 6c983a4..04e89bb 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -153,6 +153,7 @@ impl<A> Chan<A> {
 
         if inner.is_unicast_full() {
             let (handle, waiting) = WaitingSender::new(unfulfilled_msg);
+            make_room(&mut inner.waiting_send_to_one);
             inner.waiting_send_to_one.push_back(handle);
 
             return Ok(Err(MailboxFull(waiting)));
@@ -184,6 +185,7 @@ impl<A> Chan<A> {
 
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
+            make_room(&mut inner.waiting_send_to_all);
             inner.waiting_send_to_all.push_back(handle);
 
             return Ok(Err(MailboxFull(waiting)));
@@ -229,7 +231,7 @@ impl<A> Chan<A> {
                     return Ok(ActorMessage::Shutdown);
                 }
 
-                let (receiver, handle) = WaitingReceiver::new();
+                let (receiver, handle) = WaitingReceiver::new(inner.next_seq());
 
                 inner.waiting_receivers_handles.push_back(handle);
                 Err(receiver)
@@ -332,9 +334,15 @@ impl<A> Chan<A> {
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        let id = receiver.id();
+
         // Messages are only sent to receivers with inner locked, and it's locked here until the
         // receiver is gone, so no race
-        let Some(msg) = receiver.cancel() else { return };
+        let Some(msg) = receiver.cancel() else {
+            // Nobody may ever come to notify this receiver, so its handle must not be left behind
+            inner.waiting_receivers_handles.retain(|it| it.id() != id);
+            return;
+        };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
             inner.push_unicast(msg);
@@ -486,6 +494,16 @@ impl<A> Inner<A> {
     }
 }
 
+/// Rather than letting the queue grow, remove the handles of senders which are gone.
+fn make_room<M>(queue: &mut VecDeque<waiting_sender::Handle<M>>)
+where
+    M: HasPriority,
+{
+    if queue.len() == queue.capacity() {
+        queue.retain(|handle| handle.is_active());
+    }
+}
+
 fn find_remove_highest_priority<M>(
     queue: &mut VecDeque<waiting_sender::Handle<M>>,
 ) -> Option<waiting_sender::Handle<M>>
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index c6c0860..7041797 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -7,15 +7,22 @@ use crate::chan::{self, ActorMessage, BroadcastQueue, MessageToOne, Rx};
 /// A [`WaitingReceiver`] is handed out by the channel any time [`Chan::try_recv`](crate::chan::Chan::try_recv) is called on an empty mailbox.
 ///
 /// [`WaitingReceiver`] implements [`Future`](std::future::Future) which will resolve once a message lands in the mailbox.
-pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>);
+///
+/// It carries an id, which is also that of its [`Handle`].
+pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>, u64);
 
 /// A [`Handle`] is the counter-part to a [`WaitingReceiver`].
 ///
 /// It is stored internally in the channel and used by the channel implementation to notify a
 /// [`WaitingReceiver`] once a new message hits the mailbox.
-pub struct Handle<A>(catty::Sender<CtrlMsg<A>>);
+pub struct Handle<A>(catty::Sender<CtrlMsg<A>>, u64);
 
 impl<A> Handle<A> {
+    /// The id of the connected [`WaitingReceiver`].
+    pub fn id(&self) -> u64 {
+        self.1
+    }
+
     /// Notify the connected [`WaitingReceiver`] that the channel is shutting down.
     pub fn notify_channel_shutdown(self) {
         let _ = self.0.send(CtrlMsg::Shutdown);
@@ -47,10 +54,15 @@ impl<A> Handle<A> {
 }
 
 impl<A> WaitingReceiver<A> {
-    pub fn new() -> (WaitingReceiver<A>, Handle<A>) {
+    pub fn new(id: u64) -> (WaitingReceiver<A>, Handle<A>) {
         let (sender, receiver) = catty::oneshot();
 
-        (WaitingReceiver(receiver), Handle(sender))
+        (WaitingReceiver(receiver, id), Handle(sender, id))
+    }
+
+    /// The id of this [`WaitingReceiver`] and its [`Handle`].
+    pub fn id(&self) -> u64 {
+        self.1
     }
 
     /// Cancel this [`WaitingReceiver`].
-- 
2.43.0

