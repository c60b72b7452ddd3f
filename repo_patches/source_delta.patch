From 2d2a355eb68132504f398bb38d936af3b716225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 01/38] fix: receiver link counters must not overflow and
 follow the announced credit

---
 src/rcvlink.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..10a6831 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -290,7 +290,7 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
+        self.credit = self.credit.max(credit);
         self.session
             .inner
             .get_mut()
@@ -356,7 +356,7 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -423,7 +423,7 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
-- 
2.43.0


From 124badde88cbde2570f80930abda8e862f106472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 02/38] fix: receiver link enforces max-message-size on every
 transfer and honours aborted

---
 src/rcvlink.rs | 49 +++++++++++++++++++++++++++++++++++--------------
 src/session.rs |  1 +
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 10a6831..a058371 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -33,7 +33,7 @@ pub(crate) struct ReceiverLinkInner {
     delivery_count: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
-    max_message_size: u64,
+    pub(crate) max_message_size: u64,
 }
 
 impl Eq for ReceiverLink {}
@@ -313,10 +313,39 @@ impl ReceiverLinkInner {
             let _ = self.close(Some(err));
             Action::None
         } else {
-            if !transfer.0.more {
+            if !transfer.0.more || transfer.0.aborted {
                 self.credit -= 1;
             }
 
+            // delivery is aborted, it is not visible to the application
+            if transfer.0.aborted {
+                self.delivery_count = self.delivery_count.wrapping_add(1);
+                if self.partial_body.take().is_some()
+                    && let Some((delivery, _)) = self.queue.pop_back()
+                {
+                    // aborted delivery is settled
+                    self.session
+                        .inner
+                        .get_mut()
+                        .unsettled_rcv_deliveries
+                        .remove(&delivery.id());
+                }
+                return Action::None;
+            }
+
+            // check message size
+            let size = self.partial_body.as_ref().map_or(0, BytesMut::len)
+                + transfer.body().map_or(0, TransferBody::len);
+            if self.max_message_size != 0 && size as u64 > self.max_message_size {
+                let err = Error(Box::new(codec::ErrorInner {
+                    condition: LinkError::MessageSizeExceeded.into(),
+                    description: None,
+                    info: None,
+                }));
+                let _ = self.close(Some(err));
+                return Action::None;
+            }
+
             // handle batched transfer
             if let Some(ref mut body) = self.partial_body {
                 if transfer.0.delivery_id.is_some() {
@@ -336,18 +365,8 @@ impl ReceiverLinkInner {
                     }
                 }
 
-                // merge transfer data and check size
+                // merge transfer data
                 if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-
                     transfer_body.encode(body);
                 }
 
@@ -470,7 +489,9 @@ impl std::ops::Deref for EstablishedReceiverLink {
 
 impl Drop for EstablishedReceiverLink {
     fn drop(&mut self) {
-        self.0.inner.get_mut().closed = true;
+        let inner = self.0.inner.get_mut();
+        inner.closed = true;
+        inner.wake();
     }
 }
 
diff --git a/src/session.rs b/src/session.rs
index 099cfbc..d31a9cc 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -661,6 +661,7 @@ impl SessionInner {
             token as u32,
             &frame,
         ));
+        inner.get_mut().max_message_size = frame.max_message_size().unwrap_or(0);
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
-- 
2.43.0


From 0c98b241ef8d29365c1aff01530cef26382b6293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 03/38] fix: sender link keeps order of transfers and accounts
 every frame in session window

---
 src/delivery.rs |  36 +++++---
 src/session.rs  | 226 +++++++++++++++++++++---------------------------
 src/sndlink.rs  | 147 +++++++++++++++++++------------
 3 files changed, 214 insertions(+), 195 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..cb40e73 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -64,6 +64,24 @@ impl Delivery {
         }
     }
 
+    pub(crate) fn new_snd(
+        id: DeliveryNumber,
+        tag: Bytes,
+        settled: bool,
+        session: Session,
+    ) -> Delivery {
+        Delivery {
+            id,
+            tag,
+            session,
+            flags: StdCell::new(if settled {
+                Flags::SENDER | Flags::LOCAL_SETTLED
+            } else {
+                Flags::SENDER
+            }),
+        }
+    }
+
     pub fn id(&self) -> DeliveryNumber {
         self.id
     }
@@ -339,22 +357,12 @@ impl TransferBuilder {
                 return Err(AmqpProtocolError::BodyTooLarge);
             }
 
-            let (id, tag) = self
-                .sender
+            self.sender
                 .get_mut()
                 .send(self.data, self.tag, self.settled, self.format)
-                .await?;
-
-            Ok(Delivery {
-                id,
-                tag,
-                session: self.sender.get_ref().session.clone(),
-                flags: StdCell::new(if self.settled {
-                    Flags::SENDER | Flags::LOCAL_SETTLED
-                } else {
-                    Flags::SENDER
-                }),
-            })
+                .await
+                .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                .and_then(|v| v)
         }
     }
 }
diff --git a/src/session.rs b/src/session.rs
index d31a9cc..0b9b1b8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -12,7 +12,7 @@ use ntex_amqp_codec::protocol::{
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
-use crate::delivery::DeliveryInner;
+use crate::delivery::{Delivery, DeliveryInner};
 use crate::error::AmqpProtocolError;
 use crate::rcvlink::{
     EstablishedReceiverLink, ReceiverLink, ReceiverLinkBuilder, ReceiverLinkInner,
@@ -32,6 +32,7 @@ pub(crate) struct SessionInner {
     id: usize,
     sink: ConnectionRef,
     next_outgoing_id: TransferNumber,
+    next_delivery_id: DeliveryNumber,
     flags: Flags,
     begin: Begin,
 
@@ -46,12 +47,13 @@ pub(crate) struct SessionInner {
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
 
-    pending_transfers: VecDeque<PendingTransfer>,
+    /// Sender links waiting for session window
+    pending_transfers: VecDeque<Handle>,
     pub(crate) unsettled_snd_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
     pub(crate) unsettled_rcv_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
 
     pub(crate) pool_notify: pool::Pool<()>,
-    pub(crate) pool_credit: pool::Pool<Result<(), AmqpProtocolError>>,
+    pub(crate) pool_credit: pool::Pool<Result<Delivery, AmqpProtocolError>>,
 }
 
 impl fmt::Debug for Session {
@@ -278,9 +280,15 @@ bitflags::bitflags! {
 }
 
 #[derive(Debug)]
-struct PendingTransfer {
-    tx: pool::Sender<Result<(), AmqpProtocolError>>,
-    link_handle: Handle,
+/// Delivery that is not completely sent yet
+pub(crate) struct PendingTransfer {
+    /// Delivery id, it is assigned when the first frame is sent
+    pub(crate) id: Option<DeliveryNumber>,
+    pub(crate) tag: Bytes,
+    pub(crate) body: TransferBody,
+    pub(crate) settled: bool,
+    pub(crate) format: Option<MessageFormat>,
+    pub(crate) tx: pool::Sender<Result<Delivery, AmqpProtocolError>>,
 }
 
 impl SessionInner {
@@ -297,6 +305,7 @@ impl SessionInner {
             remote_outgoing_window: begin.outgoing_window(),
             flags: if local { Flags::LOCAL } else { Flags::empty() },
             next_outgoing_id: INITIAL_NEXT_OUTGOING_ID,
+            next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
             unsettled_snd_deliveries: HashMap::default(),
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
@@ -341,10 +350,8 @@ impl SessionInner {
             self.tag()
         );
 
-        // drop pending transfers
-        for tr in self.pending_transfers.drain(..) {
-            let _ = tr.tx.send(Err(err.clone()));
-        }
+        // pending transfers are dropped with the links
+        self.pending_transfers.clear();
 
         // drop unsettled deliveries
         for (_, mut promise) in self.unsettled_snd_deliveries.drain() {
@@ -976,20 +983,9 @@ impl SessionInner {
                         // remove name
                         self.links_by_name.remove(link.inner.name());
 
-                        // drop pending transfers
-                        let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
-
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
+                        self.pending_transfers.retain(|hnd| *hnd != handle);
                         for delivery in self.unsettled_snd_deliveries.values_mut() {
                             if delivery.handle() == handle {
                                 delivery.set_error(err.clone());
@@ -1145,8 +1141,13 @@ impl SessionInner {
             self.pending_transfers.len(),
         );
 
-        while let Some(tr) = self.pending_transfers.pop_front() {
-            let _ = tr.tx.send(Ok(()));
+        // resume links that wait for session window
+        while self.remote_incoming_window > 0
+            && let Some(handle) = self.pending_transfers.pop_front()
+        {
+            if let Some(link) = self.get_sender_link_by_local_handle(handle) {
+                link.clone().inner.get_mut().send_pending();
+            }
         }
 
         if flow.echo() {
@@ -1193,141 +1194,112 @@ impl SessionInner {
         self.post_frame(flow.into());
     }
 
-    #[allow(clippy::too_many_lines)]
-    pub(crate) async fn send_transfer(
+    /// Send as many frames of the delivery as session window allows.
+    ///
+    /// Returns `true` if the last frame of the delivery is sent, otherwise the link
+    /// get resumed when the remote side opens session window.
+    pub(crate) fn send_transfer(
         &mut self,
         link_handle: Handle,
-        tag: Bytes,
-        body: TransferBody,
-        settled: bool,
-        format: Option<MessageFormat>,
-    ) -> Result<DeliveryNumber, AmqpProtocolError> {
+        delivery: &mut PendingTransfer,
+    ) -> bool {
+        let max_frame_size = self.max_frame_size();
+        let max_frame_size = if max_frame_size > 2048 {
+            max_frame_size - 2048
+        } else if max_frame_size == 0 {
+            u32::MAX
+        } else {
+            max_frame_size
+        } as usize;
+
         loop {
             if self.remote_incoming_window == 0 {
                 log::trace!(
                     "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
                     self.sink.tag()
                 );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
-                rx.await
-                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                    .and_then(|v| v)?;
-                continue;
+                if !self.pending_transfers.contains(&link_handle) {
+                    self.pending_transfers.push_back(link_handle);
+                }
+                return false;
             }
-            break;
-        }
 
-        self.remote_incoming_window -= 1;
+            // every transfer frame takes a place in the session window
+            self.remote_incoming_window -= 1;
+            self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
 
-        let delivery_id = self.next_outgoing_id;
-        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+            let mut transfer = Transfer(Box::default());
+            transfer.0.handle = link_handle;
 
-        let tr_settled = if settled {
-            Some(DeliveryState::Accepted(Accepted {}))
-        } else {
-            None
-        };
-        let message_format = if format.is_none() {
-            body.message_format()
-        } else {
-            format
-        };
+            // delivery attributes are part of the first frame
+            if delivery.id.is_none() {
+                let delivery_id = self.next_delivery_id;
+                self.next_delivery_id = delivery_id.wrapping_add(1);
 
-        let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
-            max_frame_size - 2048
-        } else if max_frame_size == 0 {
-            u32::MAX
-        } else {
-            max_frame_size
-        } as usize;
+                delivery.id = Some(delivery_id);
+                if delivery.format.is_none() {
+                    delivery.format = delivery.body.message_format();
+                }
 
-        // body is larger than allowed frame size, send body as a set of transfers
-        if body.len() > max_frame_size {
-            let mut body = match body {
-                TransferBody::Data(data) => data,
-                TransferBody::Message(msg) => {
-                    let mut buf = self
-                        .sink
-                        .config()
-                        .write_buf()
-                        .buf_with_capacity(msg.encoded_size());
-                    msg.encode(&mut buf);
-                    buf.freeze()
+                transfer.0.delivery_id = Some(delivery_id);
+                transfer.0.delivery_tag = Some(delivery.tag.clone());
+
+                if delivery.settled {
+                    transfer.0.state = Some(DeliveryState::Accepted(Accepted {}));
+                    transfer.0.settled = Some(true);
+                } else {
+                    self.unsettled_snd_deliveries
+                        .insert(delivery_id, DeliveryInner::new(link_handle));
                 }
-            };
+            }
+            transfer.0.message_format = delivery.format;
+
+            // body is larger than allowed frame size, send body as a set of transfers
+            let body = mem::replace(&mut delivery.body, TransferBody::Data(Bytes::new()));
+            if body.len() > max_frame_size {
+                let mut body = match body {
+                    TransferBody::Data(data) => data,
+                    TransferBody::Message(msg) => {
+                        let mut buf = self
+                            .sink
+                            .config()
+                            .write_buf()
+                            .buf_with_capacity(msg.encoded_size());
+                        msg.encode(&mut buf);
+                        buf.freeze()
+                    }
+                };
 
-            let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
+                let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
+                delivery.body = TransferBody::Data(body);
 
-            let mut transfer = Transfer(Box::default());
-            transfer.0.handle = link_handle;
-            transfer.0.body = Some(TransferBody::Data(chunk));
-            transfer.0.more = true;
-            transfer.0.state = tr_settled;
-            transfer.0.batchable = true;
-            transfer.0.delivery_id = Some(delivery_id);
-            transfer.0.delivery_tag = Some(tag.clone());
-            transfer.0.message_format = message_format;
-
-            if settled {
-                transfer.0.settled = Some(true);
+                transfer.0.body = Some(TransferBody::Data(chunk));
+                transfer.0.more = true;
+                transfer.0.batchable = true;
             } else {
-                self.unsettled_snd_deliveries
-                    .insert(delivery_id, DeliveryInner::new(link_handle));
+                transfer.0.body = Some(body);
             }
 
             log::trace!(
                 "{}: Sending transfer over handle {link_handle}. window: {} delivery_id: {:?} delivery_tag: {:?}, more: {:?}, batchable: {:?}, settled: {:?}",
                 self.sink.tag(),
                 self.remote_incoming_window,
-                transfer.delivery_id(),
-                transfer.delivery_tag(),
+                delivery.id,
+                delivery.tag,
                 transfer.more(),
                 transfer.batchable(),
                 transfer.settled(),
             );
-            self.post_frame(Frame::Transfer(transfer));
-
-            loop {
-                // last chunk
-                if body.is_empty() {
-                    log::trace!("{}: Last tranfer for {tag:?} is sent", self.tag());
-                    break;
-                }
 
-                let chunk = body.split_to(cmp::min(max_frame_size, body.len()));
-
-                log::trace!("{}: Sending chunk tranfer for {tag:?}", self.tag());
-                let mut transfer = Transfer(Box::default());
-                transfer.0.handle = link_handle;
-                transfer.0.body = Some(TransferBody::Data(chunk));
-                transfer.0.more = !body.is_empty();
-                transfer.0.batchable = true;
-                transfer.0.message_format = message_format;
-                self.post_frame(Frame::Transfer(transfer));
+            let more = transfer.0.more;
+            self.post_frame(Frame::Transfer(transfer));
+            if !more {
+                return true;
             }
-        } else {
-            let mut transfer = Transfer(Box::default());
-            transfer.0.handle = link_handle;
-            transfer.0.body = Some(body);
-            transfer.0.state = tr_settled;
-            transfer.0.delivery_id = Some(delivery_id);
-            transfer.0.delivery_tag = Some(tag);
-            transfer.0.message_format = message_format;
-
-            if settled {
-                transfer.0.settled = Some(true);
-            } else {
-                self.unsettled_snd_deliveries
-                    .insert(delivery_id, DeliveryInner::new(link_handle));
+            if self.error.is_some() {
+                return false;
             }
-            self.post_frame(Frame::Transfer(transfer));
         }
-
-        Ok(delivery_id)
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..d1d1181 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -1,15 +1,15 @@
-use std::{collections::VecDeque, future::Future};
+use std::{collections::VecDeque, future::Future, mem};
 
 use ntex_amqp_codec::protocol::{
-    self as codec, Attach, DeliveryNumber, Error, Flow, MessageFormat, ReceiverSettleMode, Role,
-    SenderSettleMode, SequenceNo, Target, TerminusDurability, TerminusExpiryPolicy, TransferBody,
+    self as codec, Attach, Error, Flow, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
+    SequenceNo, Target, TerminusDurability, TerminusExpiryPolicy, TransferBody,
 };
 use ntex_bytes::{BufMut, ByteString, Bytes};
 use ntex_util::channel::{condition, oneshot, pool};
 use ntex_util::future::{Either, Ready};
 
-use crate::delivery::TransferBuilder;
-use crate::session::{Session, SessionInner};
+use crate::delivery::{Delivery, TransferBuilder};
+use crate::session::{PendingTransfer, Session, SessionInner};
 use crate::{Handle, cell::Cell, error::AmqpProtocolError};
 
 #[derive(Clone)]
@@ -25,7 +25,7 @@ pub(crate) struct SenderLinkInner {
     delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
-    pending_transfers: VecDeque<pool::Sender<Result<(), AmqpProtocolError>>>,
+    pending_transfers: VecDeque<PendingTransfer>,
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
     pub(crate) max_message_size: Option<u32>,
@@ -230,10 +230,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
@@ -250,13 +246,9 @@ impl SenderLinkInner {
             err
         );
 
-        // drop pending transfers
-        for tx in self.pending_transfers.drain(..) {
-            let _ = tx.send(Err(err.clone()));
-        }
-
         self.closed = true;
-        self.error = Some(err);
+        self.error = Some(err.clone());
+        self.drop_pending(&err);
         self.on_close.notify_and_lock_readiness();
         self.on_credit.notify_and_lock_readiness();
     }
@@ -312,9 +304,7 @@ impl SenderLinkInner {
             self.link_credit = new_credit;
 
             // credit became available => drain pending_transfers
-            while let Some(tx) = self.pending_transfers.pop_front() {
-                let _ = tx.send(Ok(()));
-            }
+            self.send_pending();
 
             // notify available credit waiters
             if self.link_credit > 0 {
@@ -323,51 +313,94 @@ impl SenderLinkInner {
         }
     }
 
-    pub(crate) async fn send<T: Into<TransferBody>>(
+    /// Send delivery
+    ///
+    /// Deliveries are sent in the order of `send()` calls. If delivery cannot be sent
+    /// right now it waits for link credit or for session window.
+    pub(crate) fn send(
         &mut self,
-        body: T,
+        body: TransferBody,
         tag: Option<Bytes>,
         settled: bool,
         format: Option<MessageFormat>,
-    ) -> Result<(DeliveryNumber, Bytes), AmqpProtocolError> {
-        if let Some(ref err) = self.error {
-            Err(err.clone())
-        } else {
-            let body = body.into();
-            let tag = self.get_tag(tag);
-
-            loop {
-                if self.link_credit == 0 || !self.pending_transfers.is_empty() {
-                    log::trace!(
-                        "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
-                        self.session.tag(),
-                        self.link_credit,
-                        self.name,
-                        self.id,
-                        self.remote_handle,
-                        self.pending_transfers.len()
-                    );
-                    let (tx, rx) = self.session.inner.get_ref().pool_credit.channel();
-                    self.pending_transfers.push_back(tx);
-                    rx.await
-                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                        .and_then(|v| v)?;
+    ) -> pool::Receiver<Result<Delivery, AmqpProtocolError>> {
+        let tag = self.get_tag(tag);
+        let (tx, rx) = self.session.inner.get_ref().pool_credit.channel();
+
+        if self.link_credit == 0 || !self.pending_transfers.is_empty() {
+            log::trace!(
+                "{}: Sender link credit is 0({:?}), push to pending queue hnd:{}({} -> {}), queue size: {}",
+                self.session.tag(),
+                self.link_credit,
+                self.name,
+                self.id,
+                self.remote_handle,
+                self.pending_transfers.len()
+            );
+        }
+        self.pending_transfers.push_back(PendingTransfer {
+            tag,
+            body,
+            settled,
+            format,
+            tx,
+            id: None,
+        });
+        self.send_pending();
+        rx
+    }
+
+    /// Send pending deliveries while link credit and session window allow it
+    pub(crate) fn send_pending(&mut self) {
+        while let Some(mut tr) = self.pending_transfers.pop_front() {
+            let started = tr.id.is_some();
+            if !started {
+                // nobody waits for this delivery
+                if tr.tx.is_canceled() {
                     continue;
                 }
-                break;
+                if self.link_credit == 0 {
+                    self.pending_transfers.push_front(tr);
+                    break;
+                }
             }
 
+            let session = self.session.inner.get_mut();
+            let completed = session.send_transfer(self.id as u32, &mut tr);
+
             // reduce link credit
-            self.link_credit -= 1;
-            self.delivery_count = self.delivery_count.wrapping_add(1);
-            let id = self
-                .session
-                .inner
-                .get_mut()
-                .send_transfer(self.id as u32, tag.clone(), body, settled, format)
-                .await?;
+            if !started && tr.id.is_some() {
+                self.link_credit -= 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
+            }
 
-            Ok((id, tag))
+            if let Some(ref err) = self.error {
+                // link is failed during sending
+                let _ = tr.tx.send(Err(err.clone()));
+            } else if let Some(id) = tr.id
+                && completed
+            {
+                let _ = tr.tx.send(Ok(Delivery::new_snd(
+                    id,
+                    tr.tag,
+                    tr.settled,
+                    self.session.clone(),
+                )));
+            } else {
+                self.pending_transfers.push_front(tr);
+                break;
+            }
+        }
+    }
+
+    /// Fail all deliveries that are not sent
+    fn drop_pending(&mut self, err: &AmqpProtocolError) {
+        for tr in mem::take(&mut self.pending_transfers) {
+            if let Some(id) = tr.id {
+                let session = self.session.inner.get_mut();
+                session.unsettled_snd_deliveries.remove(&id);
+            }
+            let _ = tr.tx.send(Err(err.clone()));
         }
     }
 
@@ -413,6 +446,12 @@ impl Drop for EstablishedSenderLink {
             inner.on_close.notify_and_lock_readiness();
             inner.on_credit.notify_and_lock_readiness();
         }
+        if inner.error.is_none() {
+            // link is closed locally
+            let err = AmqpProtocolError::LinkDetached(None);
+            inner.error = Some(err.clone());
+            inner.drop_pending(&err);
+        }
     }
 }
 
-- 
2.43.0


From 0bd80fbff6fc666e54d1985ed7f294c2009f6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:43 +0000
Subject: [PATCH 04/38] fix: flow state is applied in order and never overdraws
 credit or window

---
 src/control.rs    |  13 ++++++
 src/dispatcher.rs |   9 ++--
 src/rcvlink.rs    |  18 ++++++--
 src/session.rs    | 114 +++++++++++++++++++++-------------------------
 src/sndlink.rs    |  52 +++++++++++++++++----
 5 files changed, 125 insertions(+), 81 deletions(-)

diff --git a/src/control.rs b/src/control.rs
index f397489..e04073d 100644
--- a/src/control.rs
+++ b/src/control.rs
@@ -15,6 +15,8 @@ pub struct ControlFrame(pub(super) Cell<FrameInner>);
 pub(super) struct FrameInner {
     pub(super) kind: ControlFrameKind,
     pub(super) session: Option<Cell<SessionInner>>,
+    // sequence number of the link flow
+    pub(super) flow: u32,
 }
 
 impl fmt::Debug for ControlFrame {
@@ -45,6 +47,7 @@ impl ControlFrame {
     pub(crate) fn new(session: Cell<SessionInner>, kind: ControlFrameKind) -> Self {
         ControlFrame(Cell::new(FrameInner {
             session: Some(session),
+            flow: 0,
             kind,
         }))
     }
@@ -52,10 +55,20 @@ impl ControlFrame {
     pub(crate) fn new_kind(kind: ControlFrameKind) -> Self {
         ControlFrame(Cell::new(FrameInner {
             session: None,
+            flow: 0,
             kind,
         }))
     }
 
+    pub(crate) fn new_flow(flow: protocol::Flow, link: SenderLink) -> Self {
+        let seq = link.inner.get_mut().next_flow();
+        ControlFrame(Cell::new(FrameInner {
+            session: Some(link.session().inner.clone()),
+            flow: seq,
+            kind: ControlFrameKind::Flow(flow, link),
+        }))
+    }
+
     pub(crate) fn clone(&self) -> Self {
         ControlFrame(self.0.clone())
     }
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..168c04b 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -200,10 +200,7 @@ where
                     }
                     types::Action::Flow(link, frm) => {
                         // apply flow to specific link
-                        self.call_control_service(ControlFrame::new(
-                            link.session().inner.clone(),
-                            ControlFrameKind::Flow(frm, link.clone()),
-                        ));
+                        self.call_control_service(ControlFrame::new_flow(frm, link));
                     }
                     types::Action::AttachSender(link, frame, pfrm) => {
                         self.call_control_service(ControlFrame::new(
@@ -355,7 +352,9 @@ where
                     );
                 }
                 ControlFrameKind::Flow(ref frm, ref link) => {
-                    frame.session_cell().get_mut().handle_flow(frm, Some(link));
+                    link.inner
+                        .get_mut()
+                        .handle_flow(frm, frame.0.get_ref().flow);
                 }
                 ControlFrameKind::ProtocolError(ref err) => {
                     self.sink.set_error(err.clone());
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index a058371..eb4cabf 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -30,6 +30,7 @@ pub(crate) struct ReceiverLinkInner {
     reader_task: LocalWaker,
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
+    flow_credit: u32,
     delivery_count: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
@@ -238,6 +239,7 @@ impl ReceiverLinkInner {
             closed: false,
             queue: VecDeque::with_capacity(4),
             credit: 0,
+            flow_credit: 0,
             error: None,
             partial_body: None,
             delivery_count: frame.initial_delivery_count().unwrap_or(0),
@@ -291,10 +293,17 @@ impl ReceiverLinkInner {
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
         self.credit = self.credit.max(credit);
-        self.session
-            .inner
-            .get_mut()
-            .rcv_link_flow(self.handle, self.delivery_count, credit);
+        self.flow_credit = credit;
+        self.send_flow();
+    }
+
+    /// Send current flow state of the link
+    pub(crate) fn send_flow(&mut self) {
+        self.session.inner.get_mut().post_flow(Some((
+            self.handle,
+            self.delivery_count,
+            self.flow_credit,
+        )));
     }
 
     #[allow(clippy::unnecessary_unwrap)]
@@ -315,6 +324,7 @@ impl ReceiverLinkInner {
         } else {
             if !transfer.0.more || transfer.0.aborted {
                 self.credit -= 1;
+                self.flow_credit = self.flow_credit.saturating_sub(1);
             }
 
             // delivery is aborted, it is not visible to the application
diff --git a/src/session.rs b/src/session.rs
index 0b9b1b8..db8f3c0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@ use slab::Slab;
 use ntex_amqp_codec::protocol::{
     self as codec, Accepted, Attach, Begin, DeliveryNumber, DeliveryState, Detach, Disposition,
     End, Error, Flow, Frame, Handle, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
-    Source, Transfer, TransferBody, TransferNumber,
+    SequenceNo, Source, Transfer, TransferBody, TransferNumber,
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
@@ -241,7 +241,10 @@ impl Session {
 enum SenderLinkState {
     Established(EstablishedSenderLink),
     OpeningRemote,
-    Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
+    Opening(
+        Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
+        SequenceNo,
+    ),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
@@ -258,12 +261,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl SenderLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, SenderLinkState::Opening(_))
-    }
-}
-
 impl ReceiverLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, ReceiverLinkState::OpeningLocal(_))
@@ -450,7 +447,14 @@ impl SessionInner {
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
-        entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
+
+        // delivery count is initialized by the sender
+        let delivery_count = frame.initial_delivery_count().unwrap_or(0);
+        frame.0.initial_delivery_count = Some(delivery_count);
+        entry.insert(Either::Left(SenderLinkState::Opening(
+            Some(tx),
+            delivery_count,
+        )));
         log::trace!(
             "{}: Local sender link opening: {:?} hnd:{token:?}",
             self.tag(),
@@ -509,7 +513,7 @@ impl SessionInner {
     ) {
         if let Some(Either::Left(link)) = self.links.get_mut(id as usize) {
             match link {
-                SenderLinkState::Opening(_) => {
+                SenderLinkState::Opening(..) => {
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -799,18 +803,29 @@ impl SessionInner {
         if self.error.is_none() {
             match frame {
                 Frame::Flow(flow) => {
+                    // session flow does not depend on the link
+                    self.handle_flow(&flow);
+
                     // apply link flow
-                    if let Some(Either::Left(link)) = flow
+                    match flow
                         .handle()
                         .and_then(|h| self.remote_handles.get(&h).copied())
                         .and_then(|h| self.links.get_mut(h))
                     {
-                        if let SenderLinkState::Established(link) = link {
+                        Some(Either::Left(SenderLinkState::Established(link))) => {
                             return Ok(Action::Flow((*link).clone(), flow));
                         }
-                        log::warn!("{}: Received flow frame", self.tag());
+                        Some(Either::Right(ReceiverLinkState::Established(link))) => {
+                            if flow.echo() {
+                                link.inner.get_mut().send_flow();
+                            }
+                        }
+                        _ => {
+                            if flow.echo() {
+                                self.post_flow(None);
+                            }
+                        }
                     }
-                    self.handle_flow(&flow, None);
                     Ok(Action::None)
                 }
                 Frame::Disposition(disp) => {
@@ -818,6 +833,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -852,7 +869,6 @@ impl SessionInner {
                                 }
                                 ReceiverLinkState::Established(link) => {
                                     // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
@@ -880,7 +896,7 @@ impl SessionInner {
         if let Some(index) = self.links_by_name.get(name) {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
-                    if item.is_opening() {
+                    if let SenderLinkState::Opening(tx, delivery_count) = item {
                         log::trace!(
                             "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
                             self.sink.tag(),
@@ -889,23 +905,19 @@ impl SessionInner {
                         );
 
                         self.remote_handles.insert(attach.handle(), *index);
-                        let delivery_count = attach.initial_delivery_count().unwrap_or(0);
+                        let tx = tx.take();
                         let link = Cell::new(SenderLinkInner::new(
                             *index,
                             name.clone(),
                             attach.handle(),
-                            delivery_count,
+                            *delivery_count,
                             cell,
-                            attach
-                                .max_message_size()
-                                .map(|v| u32::try_from(v).unwrap_or(u32::MAX)),
+                            SenderLinkInner::remote_max_message_size(attach),
                         ));
-                        let local_sender = mem::replace(
-                            item,
-                            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-                        );
+                        *item =
+                            SenderLinkState::Established(EstablishedSenderLink::new(link.clone()));
 
-                        if let SenderLinkState::Opening(Some(tx)) = local_sender {
+                        if let Some(tx) = tx {
                             let _ = tx.send(Ok(link));
                         }
                     }
@@ -964,7 +976,7 @@ impl SessionInner {
         let remove = if let Some(link) = self.links.get_mut(idx) {
             match link {
                 Either::Left(link) => match link {
-                    SenderLinkState::Opening(tx) => {
+                    SenderLinkState::Opening(tx, _) => {
                         if let Some(tx) = tx.take() {
                             let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
                             let _ = tx.send(Err(err));
@@ -1122,16 +1134,16 @@ impl SessionInner {
         }
     }
 
-    pub(crate) fn handle_flow(&mut self, flow: &Flow, link: Option<&SenderLink>) {
+    fn handle_flow(&mut self, flow: &Flow) {
         // # AMQP1.0 2.5.6
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        // window could be smaller than number of transfers that are on the way
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window = flow.incoming_window().saturating_sub(in_flight);
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
@@ -1149,43 +1161,19 @@ impl SessionInner {
                 link.clone().inner.get_mut().send_pending();
             }
         }
-
-        if flow.echo() {
-            let flow = Flow(Box::new(codec::FlowInner {
-                next_incoming_id: if self.flags.contains(Flags::LOCAL) {
-                    Some(self.next_incoming_id)
-                } else {
-                    None
-                },
-                incoming_window: u32::MAX,
-                next_outgoing_id: self.next_outgoing_id,
-                outgoing_window: self.remote_incoming_window,
-                handle: None,
-                delivery_count: None,
-                link_credit: None,
-                available: None,
-                drain: false,
-                echo: false,
-                properties: None,
-            }));
-            self.post_frame(flow.into());
-        }
-
-        // apply link flow
-        if let Some(link) = link {
-            link.inner.get_mut().apply_flow(flow);
-        }
     }
 
-    pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
+    /// Send flow state of the session and optionally state of the link,
+    /// handle, delivery count and credit.
+    pub(crate) fn post_flow(&mut self, link: Option<(Handle, SequenceNo, u32)>) {
         let flow = Flow(Box::new(codec::FlowInner {
             next_incoming_id: Some(self.next_incoming_id),
             incoming_window: u32::MAX,
             next_outgoing_id: self.next_outgoing_id,
             outgoing_window: self.remote_incoming_window,
-            handle: Some(handle),
-            delivery_count: Some(delivery_count),
-            link_credit: Some(credit),
+            handle: link.map(|(handle, _, _)| handle),
+            delivery_count: link.map(|(_, delivery_count, _)| delivery_count),
+            link_credit: link.map(|(_, _, credit)| credit),
             available: None,
             drain: false,
             echo: false,
diff --git a/src/sndlink.rs b/src/sndlink.rs
index d1d1181..1fcdadc 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -22,7 +22,10 @@ pub(crate) struct SenderLinkInner {
     name: ByteString,
     pub(crate) session: Session,
     remote_handle: Handle,
+    initial_delivery_count: SequenceNo,
     delivery_count: SequenceNo,
+    last_flow: u32,
+    applied_flow: u32,
     delivery_tag: u32,
     link_credit: u32,
     pending_transfers: VecDeque<PendingTransfer>,
@@ -188,6 +191,9 @@ impl SenderLinkInner {
             id,
             name,
             delivery_count,
+            initial_delivery_count: delivery_count,
+            last_flow: 0,
+            applied_flow: 0,
             max_message_size,
             session: Session::new(session),
             remote_handle: handle,
@@ -212,9 +218,7 @@ impl SenderLinkInner {
         name.trimdown();
 
         let delivery_count = frame.initial_delivery_count().unwrap_or(0);
-        let max_message_size = frame
-            .max_message_size()
-            .map(|size| u32::try_from(size).unwrap_or(u32::MAX));
+        let max_message_size = SenderLinkInner::remote_max_message_size(frame);
 
         SenderLinkInner::new(
             id,
@@ -226,6 +230,14 @@ impl SenderLinkInner {
         )
     }
 
+    /// Max message size accepted by the remote side, no limit if value is not set or zero
+    pub(crate) fn remote_max_message_size(frame: &Attach) -> Option<u32> {
+        frame
+            .max_message_size()
+            .filter(|size| *size != 0)
+            .map(|size| u32::try_from(size).unwrap_or(u32::MAX))
+    }
+
     pub(crate) fn id(&self) -> u32 {
         self.id as u32
     }
@@ -281,21 +293,43 @@ impl SenderLinkInner {
         }
     }
 
+    /// Sequence number for the flow frame
+    pub(crate) fn next_flow(&mut self) -> u32 {
+        self.last_flow = self.last_flow.wrapping_add(1);
+        self.last_flow
+    }
+
+    pub(crate) fn handle_flow(&mut self, flow: &Flow, seq: u32) {
+        // control service could complete out of order, newest flow has complete state
+        if seq.wrapping_sub(self.applied_flow) < u32::MAX / 2 {
+            self.applied_flow = seq;
+            self.apply_flow(flow);
+        }
+
+        if flow.echo() && self.error.is_none() {
+            self.session.inner.get_mut().post_flow(Some((
+                self.id as Handle,
+                self.delivery_count,
+                self.link_credit,
+            )));
+        }
+    }
+
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // deliveries that are sent but not received yet, they are part of the credit.
+            // receiver does not know delivery count until it gets `Attach` from the sender
+            let delivery_count = flow.delivery_count().unwrap_or(self.initial_delivery_count);
+            let in_flight = self.delivery_count.wrapping_sub(delivery_count);
+            let new_credit = credit.saturating_sub(in_flight);
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
                 self.session.tag(),
                 self.name,
                 new_credit,
-                flow.delivery_count().unwrap_or(0),
+                delivery_count,
                 self.delivery_count,
                 self.pending_transfers.len(),
                 self.link_credit
-- 
2.43.0


From 7f80c9f6086d0d567862fcdff84ff5bd66bce28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 05/38] fix: closed connection and ended session send nothing
 and fail pending operations

---
 src/connection.rs | 41 ++++++++++++++++++++---------------------
 src/session.rs    | 41 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 57 insertions(+), 25 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..774b01d 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -156,9 +156,7 @@ impl ConnectionRef {
 
     /// Gracefully close connection
     pub fn close(&self) -> impl Future<Output = Result<(), AmqpProtocolError>> {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(0, Frame::Close(Close { error: None })));
-        inner.io.close();
+        self.0.get_mut().close(None);
         Ready::Ok(())
     }
 
@@ -167,14 +165,7 @@ impl ConnectionRef {
     where
         Error: From<E>,
     {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(
-            0,
-            Frame::Close(Close {
-                error: Some(err.into()),
-            }),
-        ));
-        inner.io.close();
+        self.0.get_mut().close(Some(err.into()));
         Ready::Ok(())
     }
 
@@ -192,14 +183,7 @@ impl ConnectionRef {
     }
 
     pub(crate) fn post_frame(&self, frame: AmqpFrame) {
-        let inner = self.0.get_mut();
-
-        #[cfg(feature = "frame-trace")]
-        log::trace!("{}: outgoing: {:#?}", inner.io.tag(), frame);
-
-        if let Err(e) = inner.io.encode(frame, &inner.codec) {
-            inner.set_error(e.into());
-        }
+        self.0.get_mut().post_frame(frame);
     }
 
     pub(crate) fn set_error(&self, err: AmqpProtocolError) {
@@ -220,8 +204,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
@@ -235,7 +219,21 @@ impl ConnectionInner {
         self.on_close.notify_and_lock_readiness();
     }
 
+    fn close(&mut self, error: Option<Error>) {
+        if self.state == ConnectionState::Normal {
+            self.post_frame(AmqpFrame::new(0, Frame::Close(Close { error })));
+            self.state = ConnectionState::Closing;
+            self.set_error(AmqpProtocolError::Disconnected);
+        }
+        self.io.close();
+    }
+
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
+        // `Close` is the last frame
+        if self.state != ConnectionState::Normal {
+            return;
+        }
+
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
@@ -372,6 +370,7 @@ impl ConnectionInner {
                     Ok(Action::RemoteClose(err))
                 }
             }
+            Frame::Begin(_) if self.error.is_some() => Ok(Action::None),
             Frame::Begin(begin) => {
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
diff --git a/src/session.rs b/src/session.rs
index db8f3c0..4409b42 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -107,7 +107,7 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
                 inner
@@ -116,6 +116,7 @@ impl Session {
                     .enqueue_frame(ControlFrame::new_kind(
                         crate::ControlFrameKind::LocalSessionEnded(inner.get_all_links()),
                     ));
+                inner.drop_links(&AmqpProtocolError::SessionEnded(None));
             }
             let inner = self.inner.clone();
             Either::Right(async move {
@@ -347,6 +348,15 @@ impl SessionInner {
             self.tag()
         );
 
+        self.drop_links(&err);
+
+        self.error = Some(err);
+        self.flags.insert(Flags::ENDED);
+        self.closed.notify_and_lock_readiness();
+    }
+
+    /// Fail all pending operations and drop links.
+    fn drop_links(&mut self, err: &AmqpProtocolError) {
         // pending transfers are dropped with the links
         self.pending_transfers.clear();
 
@@ -373,14 +383,25 @@ impl SessionInner {
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
+                Either::Right(ReceiverLinkState::Closing(link)) => {
+                    if let Some(tx) = link.take() {
+                        let _ = tx.send(Err(err.clone()));
+                    }
+                }
                 _ => (),
             }
         }
         self.links.clear();
+        self.remote_handles.clear();
+    }
 
-        self.error = Some(err);
-        self.flags.insert(Flags::ENDED);
-        self.closed.notify_and_lock_readiness();
+    /// Session error, new links cannot be attached to failed or ended session
+    fn attach_error(&self) -> Option<AmqpProtocolError> {
+        if self.error.is_none() && self.flags.contains(Flags::ENDING) {
+            Some(AmqpProtocolError::SessionEnded(None))
+        } else {
+            self.error.clone()
+        }
     }
 
     /// End session.
@@ -444,6 +465,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if let Some(err) = self.attach_error() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -662,6 +687,10 @@ impl SessionInner {
         mut frame: Attach,
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
+        if let Some(err) = self.attach_error() {
+            let _ = tx.send(Err(err));
+            return rx;
+        }
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
@@ -1291,6 +1320,10 @@ impl SessionInner {
     }
 
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        // `End` is the last frame of the session
+        if self.flags.intersects(Flags::ENDING | Flags::ENDED) {
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From 55cb265be1172ef5c8d81051108d81dfe54635f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 06/38] fix: links detached while attach is in progress are
 completed

---
 src/connection.rs |   9 +-
 src/dispatcher.rs |   4 +-
 src/rcvlink.rs    |  26 +++--
 src/session.rs    | 260 ++++++++++++++++++++++++++++++++++++++--------
 4 files changed, 242 insertions(+), 57 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 774b01d..98a81fc 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -423,11 +422,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(session.clone(), &attach);
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 168c04b..d9cd4e2 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -340,7 +340,9 @@ where
                             let _ = link.close_with_error(Error::from(err)).await;
                         } else {
                             link.confirm_receiver_link(response);
-                            link.set_link_credit(50);
+                            if link.credit() == 0 {
+                                link.set_link_credit(50);
+                            }
                         }
                     });
                 }
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index eb4cabf..45127ee 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -4,7 +4,7 @@ use std::{
 };
 
 use ntex_amqp_codec::protocol::{
-    self as codec, Attach, Disposition, Error, Handle, LinkError, ReceiverSettleMode, Role,
+    self as codec, Attach, Detach, Disposition, Error, Handle, LinkError, ReceiverSettleMode, Role,
     SenderSettleMode, Source, Symbols, TerminusDurability, TerminusExpiryPolicy, Transfer,
     TransferBody,
 };
@@ -31,6 +31,8 @@ pub(crate) struct ReceiverLinkInner {
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
     flow_credit: u32,
+    /// Link is detached before it get confirmed
+    pub(crate) remote_detach: Option<Detach>,
     delivery_count: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
@@ -240,6 +242,7 @@ impl ReceiverLinkInner {
             queue: VecDeque::with_capacity(4),
             credit: 0,
             flow_credit: 0,
+            remote_detach: None,
             error: None,
             partial_body: None,
             delivery_count: frame.initial_delivery_count().unwrap_or(0),
@@ -260,6 +263,10 @@ impl ReceiverLinkInner {
         &self.name
     }
 
+    pub(crate) fn credit(&self) -> u32 {
+        self.credit
+    }
+
     pub(crate) fn detached(&mut self) {
         // drop pending transfers
         self.queue.clear();
@@ -271,7 +278,7 @@ impl ReceiverLinkInner {
         error: Option<Error>,
     ) -> impl Future<Output = Result<(), AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
-        if self.closed {
+        if self.closed && self.remote_detach.is_none() {
             let _ = tx.send(Ok(()));
         } else {
             self.session
@@ -299,11 +306,16 @@ impl ReceiverLinkInner {
 
     /// Send current flow state of the link
     pub(crate) fn send_flow(&mut self) {
-        self.session.inner.get_mut().post_flow(Some((
-            self.handle,
-            self.delivery_count,
-            self.flow_credit,
-        )));
+        let session = self.session.inner.get_mut();
+
+        // flow is valid only for attached link
+        if !self.closed
+            && session
+                .get_receiver_link_by_local_handle(self.handle)
+                .is_some()
+        {
+            session.post_flow(Some((self.handle, self.delivery_count, self.flow_credit)));
+        }
     }
 
     #[allow(clippy::unnecessary_unwrap)]
diff --git a/src/session.rs b/src/session.rs
index 4409b42..c35d965 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -241,7 +241,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(Box<OpeningRemote>),
     Opening(
         Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
         SequenceNo,
@@ -249,6 +249,18 @@ enum SenderLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
+/// Remote sender link, it waits for confirmation from control service
+#[derive(Debug)]
+struct OpeningRemote {
+    link: Cell<SenderLinkInner>,
+    /// Flow frames received before confirmation
+    flows: Vec<Flow>,
+    /// Link is detached by remote side
+    remote_detach: Option<Detach>,
+    /// Link is detached locally
+    local_detach: Option<Detach>,
+}
+
 #[derive(Debug)]
 enum ReceiverLinkState {
     Opening(Box<Option<(Cell<ReceiverLinkInner>, Option<Source>)>>),
@@ -375,6 +387,9 @@ impl SessionInner {
                 Either::Left(SenderLinkState::Established(link)) => {
                     link.inner.get_mut().remote_detached(err.clone());
                 }
+                Either::Left(SenderLinkState::OpeningRemote(st)) => {
+                    st.link.get_mut().remote_detached(err.clone());
+                }
                 Either::Left(SenderLinkState::Closing(link)) => {
                     if let Some(tx) = link.take() {
                         let _ = tx.send(Err(err.clone()));
@@ -383,6 +398,11 @@ impl SessionInner {
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
+                Either::Right(ReceiverLinkState::Opening(item)) => {
+                    if let Some((inner, _)) = item.take() {
+                        ReceiverLink::new(inner).remote_detached(None);
+                    }
+                }
                 Either::Right(ReceiverLinkState::Closing(link)) => {
                     if let Some(tx) = link.take() {
                         let _ = tx.send(Err(err.clone()));
@@ -434,10 +454,23 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        cell: Cell<SessionInner>,
+        attach: &Attach,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = Cell::new(SenderLinkInner::with(id, attach, cell));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(Box::new(
+            OpeningRemote {
+                link: link.clone(),
+                flows: Vec::new(),
+                remote_detach: None,
+                local_detach: None,
+            },
+        ))));
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -456,7 +489,7 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (SenderLink::new(link), attach)
     }
 
     /// Open sender link
@@ -499,13 +532,31 @@ impl SessionInner {
         attach: &Attach,
         mut response: Attach,
         link: Cell<SenderLinkInner>,
-    ) -> SenderLink {
+    ) {
+        let token = link.id;
+        let Some((flows, remote_detach, local_detach)) = self.take_remote_sender(token) else {
+            log::trace!(
+                "{}: Session is ended, remote sender link is not attached: {:?}",
+                self.tag(),
+                attach.name()
+            );
+            return;
+        };
+
+        *response.handle_mut() = token as Handle;
+        *response.max_message_size_mut() = link.max_message_size().map(u64::from);
+
+        if remote_detach.is_some() || local_detach.is_some() {
+            self.post_frame(response.into());
+            self.detach_remote_sender(&link, remote_detach, local_detach);
+            return;
+        }
+
         log::trace!(
             "{}: Remote sender link attached: {:?}",
             self.tag(),
             attach.name()
         );
-        let token = link.id;
 
         if let Some(source) = attach.source()
             && let Some(ref addr) = source.address
@@ -513,19 +564,69 @@ impl SessionInner {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.remote_handles.insert(attach.handle(), token);
-        *self
-            .links
-            .get_mut(token)
-            .expect("new remote sender entry must exist") = Either::Left(
-            SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
-        );
+        self.links[token] = Either::Left(SenderLinkState::Established(EstablishedSenderLink::new(
+            link.clone(),
+        )));
+        self.post_frame(response.into());
 
-        *response.handle_mut() = token as Handle;
-        *response.max_message_size_mut() = link.max_message_size().map(u64::from);
+        // apply flow frames received during attach process
+        for flow in flows {
+            self.sink
+                .get_control_queue()
+                .enqueue_frame(ControlFrame::new_flow(flow, SenderLink::new(link.clone())));
+        }
+    }
 
-        self.post_frame(response.into());
-        SenderLink::new(link)
+    /// State collected since remote sender link has been requested
+    #[allow(clippy::type_complexity)]
+    fn take_remote_sender(
+        &mut self,
+        token: usize,
+    ) -> Option<(Vec<Flow>, Option<Detach>, Option<Detach>)> {
+        if let Some(Either::Left(SenderLinkState::OpeningRemote(st))) = self.links.get_mut(token) {
+            Some((
+                mem::take(&mut st.flows),
+                st.remote_detach.take(),
+                st.local_detach.take(),
+            ))
+        } else {
+            None
+        }
+    }
+
+    /// Complete detach of remote sender link that is not established
+    fn detach_remote_sender(
+        &mut self,
+        link: &Cell<SenderLinkInner>,
+        remote_detach: Option<Detach>,
+        local_detach: Option<Detach>,
+    ) {
+        let detach = local_detach.unwrap_or_else(|| {
+            Detach(Box::new(codec::DetachInner {
+                handle: link.id as Handle,
+                closed: true,
+                error: None,
+            }))
+        });
+
+        let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
+        self.post_frame(detach.into());
+
+        if let Some(frame) = remote_detach {
+            self.links.remove(link.id);
+            self.sink
+                .get_control_queue()
+                .enqueue_frame(ControlFrame::new_kind(
+                    crate::ControlFrameKind::RemoteDetachSender(
+                        frame,
+                        SenderLink::new(link.clone()),
+                    ),
+                ));
+        } else {
+            // wait for confirmation
+            self.links[link.id] = Either::Left(SenderLinkState::Closing(None));
+            link.get_mut().remote_detached(err);
+        }
     }
 
     /// Detach sender link
@@ -549,6 +650,7 @@ impl SessionInner {
                 }
                 SenderLinkState::Established(sender_link) => {
                     let sender_link = sender_link.clone();
+                    self.pending_transfers.retain(|hnd| *hnd != id);
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -563,12 +665,14 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
+                SenderLinkState::OpeningRemote(st) => {
+                    // link get detached right after confirmation
+                    st.local_detach = Some(Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    })));
                     let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
@@ -595,18 +699,21 @@ impl SessionInner {
         error: Option<Error>,
     ) {
         let token = link.id;
+        let Some((_, remote_detach, _)) = self.take_remote_sender(token) else {
+            return;
+        };
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
             handle: token as Handle,
-            role: attach.0.role,
+            role: Role::Sender,
             snd_settle_mode: SenderSettleMode::Unsettled,
             rcv_settle_mode: ReceiverSettleMode::First,
             source: None,
             target: None,
             unsettled: None,
             incomplete_unsettled: false,
-            initial_delivery_count: None,
+            initial_delivery_count: Some(0),
             max_message_size: None,
             offered_capabilities: None,
             desired_capabilities: None,
@@ -619,11 +726,7 @@ impl SessionInner {
             closed: true,
             error,
         }));
-        self.post_frame(detach.into());
-
-        if self.links.contains(token) {
-            self.links.remove(token);
-        }
+        self.detach_remote_sender(link, remote_detach, Some(detach));
     }
 
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
@@ -724,8 +827,31 @@ impl SessionInner {
             && let Some((l, _)) = l.take()
         {
             *response.max_message_size_mut() = max_message_size;
-            *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(l));
-            self.post_frame(response.into());
+
+            if let Some(frame) = l.get_mut().remote_detach.take() {
+                // link is detached already
+                self.post_frame(response.into());
+                let detach = Detach(Box::new(codec::DetachInner {
+                    handle: token,
+                    closed: true,
+                    error: None,
+                }));
+                self.post_frame(detach.into());
+                self.links.remove(token as usize);
+                self.sink
+                    .get_control_queue()
+                    .enqueue_frame(ControlFrame::new_kind(
+                        crate::ControlFrameKind::RemoteDetachReceiver(frame, ReceiverLink::new(l)),
+                    ));
+            } else {
+                *link = ReceiverLinkState::Established(EstablishedReceiverLink::new(l.clone()));
+                self.post_frame(response.into());
+
+                // credit could be set before confirmation
+                if l.get_ref().credit() > 0 {
+                    l.get_mut().send_flow();
+                }
+            }
             return;
         }
         // TODO: close session
@@ -743,7 +869,9 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
+                    let mut detached = false;
                     if let Some((inner, source)) = inner.take() {
+                        detached = inner.get_mut().remote_detach.take().is_some();
                         let attach = Attach(Box::new(codec::AttachInner {
                             source,
                             max_message_size: None,
@@ -769,8 +897,11 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
+                    if detached {
+                        self.links.remove(id as usize);
+                    } else {
+                        // wait for confirmation
+                        self.links[id as usize] = Either::Right(ReceiverLinkState::Closing(None));
                     }
                 }
                 ReceiverLinkState::Established(receiver_link) => {
@@ -790,15 +921,24 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(item) => {
+                    if let Some((inner, tx)) = item.take() {
+                        inner.get_mut().detached();
+                        let _ = tx.send(Err(AmqpProtocolError::LinkDetached(None)));
+                    }
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        closed,
+                        error,
+                        handle: id,
+                    }));
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -844,6 +984,9 @@ impl SessionInner {
                         Some(Either::Left(SenderLinkState::Established(link))) => {
                             return Ok(Action::Flow((*link).clone(), flow));
                         }
+                        Some(Either::Left(SenderLinkState::OpeningRemote(st))) => {
+                            st.flows.push(flow);
+                        }
                         Some(Either::Right(ReceiverLinkState::Established(link))) => {
                             if flow.echo() {
                                 link.inner.get_mut().send_flow();
@@ -1040,14 +1183,29 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
+                    SenderLinkState::OpeningRemote(st) => {
                         log::warn!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
-                        true
+                        // complete detach after control service confirmation
+                        st.link
+                            .get_mut()
+                            .remote_detached(AmqpProtocolError::LinkDetached(
+                                frame.0.error.clone(),
+                            ));
+                        st.remote_detach = Some(frame);
+                        self.remote_handles.remove(&handle);
+                        false
                     }
                     SenderLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_snd_deliveries.values_mut() {
+                            if delivery.handle() == idx as Handle {
+                                delivery.set_error(err.clone());
+                            }
+                        }
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
                                 let _ = tx.send(Err(AmqpProtocolError::LinkDetached(Some(err))));
@@ -1059,7 +1217,15 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        // complete detach after control service confirmation
+                        if let Some((inner, _)) = &**item {
+                            ReceiverLink::new(inner.clone()).remote_detached(frame.0.error.clone());
+                            inner.get_mut().remote_detach = Some(frame);
+                        }
+                        self.remote_handles.remove(&handle);
+                        false
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
@@ -1101,6 +1267,14 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
+                            if delivery.handle() == idx as Handle {
+                                delivery.set_error(err.clone());
+                            }
+                        }
+
                         // detach confirmation
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
-- 
2.43.0


From 9befb08ac123222639e5d1d04e9265845e3bb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 07/38] fix: link is identified by name and role, stale names
 and handles are dropped

---
 src/rcvlink.rs |  6 ++++++
 src/session.rs | 55 +++++++++++++++++++++++++++++++++++++++-----------
 src/sndlink.rs |  4 ----
 3 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 45127ee..477162f 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -267,6 +267,12 @@ impl ReceiverLinkInner {
         self.credit
     }
 
+    /// Local link is attached by the remote side
+    pub(crate) fn attached(&mut self, attach: &Attach) {
+        self.remote_handle = attach.handle();
+        self.delivery_count = attach.initial_delivery_count().unwrap_or(0);
+    }
+
     pub(crate) fn detached(&mut self) {
         // drop pending transfers
         self.queue.clear();
diff --git a/src/session.rs b/src/session.rs
index c35d965..1e0793c 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -43,6 +43,8 @@ pub(crate) struct SessionInner {
 
     links: Slab<Either<SenderLinkState, ReceiverLinkState>>,
     links_by_name: HashMap<ByteString, usize>,
+    /// Local links waiting for `Attach` response. Link is identified by name and role.
+    links_opening: VecDeque<(ByteString, Role, usize)>,
     remote_handles: HashMap<Handle, usize>,
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
@@ -320,6 +322,7 @@ impl SessionInner {
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
+            links_opening: VecDeque::new(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
             error: None,
@@ -382,6 +385,7 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.links_opening.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -522,6 +526,8 @@ impl SessionInner {
         frame.0.handle = token as Handle;
 
         self.links_by_name.insert(frame.0.name.clone(), token);
+        self.links_opening
+            .push_back((frame.0.name.clone(), Role::Sender, token));
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -613,7 +619,7 @@ impl SessionInner {
         self.post_frame(detach.into());
 
         if let Some(frame) = remote_detach {
-            self.links.remove(link.id);
+            self.remove_link(link.id);
             self.sink
                 .get_control_queue()
                 .enqueue_frame(ControlFrame::new_kind(
@@ -729,6 +735,15 @@ impl SessionInner {
         self.detach_remote_sender(link, remote_detach, Some(detach));
     }
 
+    /// Remove link and everything that refers to it
+    fn remove_link(&mut self, idx: usize) {
+        if self.links.contains(idx) {
+            self.links.remove(idx);
+        }
+        self.links_by_name.retain(|_, id| *id != idx);
+        self.links_opening.retain(|(_, _, id)| *id != idx);
+    }
+
     pub(crate) fn get_sender_link_by_local_handle(&self, hnd: Handle) -> Option<&SenderLink> {
         if let Some(Either::Left(SenderLinkState::Established(link))) = self.links.get(hnd as usize)
         {
@@ -811,7 +826,8 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.links_opening
+            .push_back((frame.0.name.clone(), Role::Receiver, token));
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -837,7 +853,7 @@ impl SessionInner {
                     error: None,
                 }));
                 self.post_frame(detach.into());
-                self.links.remove(token as usize);
+                self.remove_link(token as usize);
                 self.sink
                     .get_control_queue()
                     .enqueue_frame(ControlFrame::new_kind(
@@ -898,7 +914,7 @@ impl SessionInner {
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
                     if detached {
-                        self.links.remove(id as usize);
+                        self.remove_link(id as usize);
                     } else {
                         // wait for confirmation
                         self.links[id as usize] = Either::Right(ReceiverLinkState::Closing(None));
@@ -1065,7 +1081,13 @@ impl SessionInner {
     pub(crate) fn handle_attach(&mut self, attach: &Attach, cell: Cell<SessionInner>) -> bool {
         let name = attach.name();
 
-        if let Some(index) = self.links_by_name.get(name) {
+        let opening = self
+            .links_opening
+            .iter()
+            .position(|(nm, role, _)| nm == name && *role != attach.role());
+
+        if let Some((_, _, index)) = opening.and_then(|pos| self.links_opening.remove(pos)) {
+            let index = &index;
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
                     if let SenderLinkState::Opening(tx, delivery_count) = item {
@@ -1092,6 +1114,9 @@ impl SessionInner {
                         if let Some(tx) = tx {
                             let _ = tx.send(Ok(link));
                         }
+                    } else {
+                        // link is detached before it is attached
+                        self.remote_handles.insert(attach.handle(), *index);
                     }
                 }
                 Some(Either::Right(item)) => {
@@ -1104,6 +1129,7 @@ impl SessionInner {
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
                                 self.remote_handles.insert(attach.handle(), *index);
+                                link.get_mut().attached(attach);
 
                                 *item = ReceiverLinkState::Established(
                                     EstablishedReceiverLink::new(link.clone()),
@@ -1114,6 +1140,9 @@ impl SessionInner {
                                 log::error!("{}: Inconsistent session state, bug", self.tag());
                             }
                         }
+                    } else {
+                        // link is detached before it is attached
+                        self.remote_handles.insert(attach.handle(), *index);
                     }
                 }
                 _ => {
@@ -1134,7 +1163,14 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
+        } else if matches!(
+            self.links.get(frame.handle() as usize),
+            Some(
+                Either::Left(SenderLinkState::Opening(..))
+                    | Either::Right(ReceiverLinkState::OpeningLocal(_))
+            )
+        ) {
+            // remote side rejects link without attach
             frame.handle() as usize
         } else {
             // should not happen, error
@@ -1164,9 +1200,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
                         self.pending_transfers.retain(|hnd| *hnd != handle);
@@ -1292,9 +1325,7 @@ impl SessionInner {
         };
 
         if remove {
-            if self.links.contains(idx) {
-                self.links.remove(idx);
-            }
+            self.remove_link(idx);
             self.remote_handles.remove(&handle);
         }
         action
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 1fcdadc..5c7a528 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -242,10 +242,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From 1daf3791c08d651e57fd1d4f9f0f9dbadcaaab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 08/38] fix: disposition ranges wrap and remotely settled
 deliveries are completed

---
 src/delivery.rs | 29 ++++++++++++++++++++++-------
 src/session.rs  | 18 +++++++++++-------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index cb40e73..bf64346 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -106,11 +106,18 @@ impl Delivery {
 
     pub fn is_remote_settled(&self) -> bool {
         self.is_set(Flags::REMOTE_SETTLED)
+            || self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
     }
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -135,7 +142,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -177,6 +184,9 @@ impl Delivery {
             .unsettled_deliveries(self.is_set(Flags::SENDER))
             .get_mut(&self.id)
         {
+            if inner.settled {
+                self.set_flag(Flags::REMOTE_SETTLED);
+            }
             if let Some(st) = Self::check_inner(inner) {
                 return st;
             }
@@ -216,13 +226,16 @@ impl Delivery {
         inner: &mut DeliveryInner,
     ) -> Option<Result<Option<DeliveryState>, AmqpProtocolError>> {
         if let Some(ref st) = inner.state {
-            if matches!(st, DeliveryState::Modified(..)) {
+            if matches!(st, DeliveryState::Received(..)) {
                 // non terminal state
                 Some(Ok(Some(inner.state.take().unwrap())))
             } else {
                 // return clone of terminal state
                 Some(Ok(Some(st.clone())))
             }
+        } else if inner.settled {
+            // remote side is settled without state
+            Some(Ok(None))
         } else {
             inner.error.as_ref().map(|err| Err(err.clone()))
         }
@@ -234,10 +247,12 @@ impl Drop for Delivery {
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
-        if deliveries.contains_key(&self.id) {
-            deliveries.remove(&self.id);
-
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
+        if let Some(delivery) = deliveries.remove(&self.id) {
+            if !delivery.settled
+                && delivery.error.is_none()
+                && !self.is_set(Flags::REMOTE_SETTLED)
+                && !self.is_set(Flags::LOCAL_SETTLED)
+            {
                 let err = Error::build()
                     .condition(ErrorCondition::Custom(Symbol(Str::from_static(
                         "Internal error",
diff --git a/src/session.rs b/src/session.rs
index 1e0793c..8e1c94a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1353,14 +1353,18 @@ impl SessionInner {
         };
 
         if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
+            // delivery ids are serial numbers, range could wrap
+            let len = to.wrapping_sub(from);
+            let mut ids: Vec<_> = deliveries
+                .keys()
+                .map(|no| no.wrapping_sub(from))
+                .filter(|offset| *offset <= len)
+                .collect();
+            ids.sort_unstable();
+
+            for offset in ids {
+                if let Some(delivery) = deliveries.get_mut(&from.wrapping_add(offset)) {
                     delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
                 }
             }
         } else if let Some(delivery) = deliveries.get_mut(&from) {
-- 
2.43.0


From 4e34c72be8283083a9b38f229d8d57b8ead45ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 09/38] fix: transfer frames fit into small max-frame-size

---
 src/session.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 8e1c94a..fd67e34 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1430,13 +1430,15 @@ impl SessionInner {
         delivery: &mut PendingTransfer,
     ) -> bool {
         let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
+        let max_frame_size = if max_frame_size > 4096 {
             max_frame_size - 2048
         } else if max_frame_size == 0 {
             u32::MAX
         } else {
-            max_frame_size
+            // frame header and transfer attributes are part of the frame
+            max_frame_size.saturating_sub(128)
         } as usize;
+        let max_frame_size = cmp::max(max_frame_size.saturating_sub(delivery.tag.len()), 1);
 
         loop {
             if self.remote_incoming_window == 0 {
-- 
2.43.0


From b7d66f848b46215875226082fcf72fada5223346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:38 +0000
Subject: [PATCH 10/38] fix: router keeps handler alive during calls and
 releases handlers of detached links

---
 src/router.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index f68e36c..5c61951 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -99,10 +99,17 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                         match hnd.create(link).await {
                             Ok(srv) => {
                                 log::trace!("Handler service is created for {}", rcv_link.name());
+                                let srv = Pipeline::new(srv);
+                                if rcv_link.is_closed() {
+                                    // link is detached already
+                                    self.0.get_mut().handlers.remove(&rcv_link);
+                                    ntex_rt::spawn(async move { srv.shutdown().await });
+                                    return Ok(());
+                                }
                                 self.0
                                     .get_mut()
                                     .handlers
-                                    .insert(rcv_link.clone(), Some(Pipeline::new(srv)));
+                                    .insert(rcv_link.clone(), Some(srv));
                                 if let Some((delivery, tr)) = rcv_link.get_delivery() {
                                     service_call(rcv_link, delivery, tr, &self.0).await
                                 } else {
@@ -114,6 +121,7 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                     "Failed to create link service for {} err: {e:?}",
                                     rcv_link.name()
                                 );
+                                self.0.get_mut().handlers.remove(&rcv_link);
                                 Err(e)
                             }
                         }
@@ -199,7 +207,10 @@ async fn service_call<S>(
     tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
+    // link could be detached while handler is running, keep service alive
+    let srv = inner.handlers.get(&link).cloned().flatten();
+
+    if let Some(srv) = srv {
         // check readiness
         if let Err(e) = srv.ready().await {
             log::trace!("Service readiness check failed: {e:?}");
-- 
2.43.0


From 55f5af97c48e39ed95bb8ea53bb05e9cba1d2bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 11/38] fix: detached receiver link is not confirmed on behalf
 of a reused handle

---
 src/rcvlink.rs | 6 +++---
 src/session.rs | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 477162f..305d99e 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -23,10 +23,10 @@ pub struct ReceiverLink {
 #[derive(Debug)]
 pub(crate) struct ReceiverLinkInner {
     name: ByteString,
-    handle: Handle,
+    pub(crate) handle: Handle,
     remote_handle: Handle,
     session: Session,
-    closed: bool,
+    pub(crate) closed: bool,
     reader_task: LocalWaker,
     queue: VecDeque<(Delivery, Transfer)>,
     credit: u32,
@@ -94,7 +94,7 @@ impl ReceiverLink {
             .session
             .inner
             .get_mut()
-            .confirm_receiver_link(inner.handle, response, size);
+            .confirm_receiver_link(&self.inner, response, size);
     }
 
     pub fn set_link_credit(&self, credit: u32) {
diff --git a/src/session.rs b/src/session.rs
index fd67e34..0c913a8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -834,13 +834,16 @@ impl SessionInner {
 
     pub(crate) fn confirm_receiver_link(
         &mut self,
-        token: Handle,
+        inner: &Cell<ReceiverLinkInner>,
         mut response: Attach,
         max_message_size: Option<u64>,
     ) {
+        let token = inner.get_ref().handle;
+
+        // link could be detached already and its handle in use by different link
         if let Some(Either::Right(link)) = self.links.get_mut(token as usize)
             && let ReceiverLinkState::Opening(l) = link
-            && let Some((l, _)) = l.take()
+            && let Some((l, _)) = l.take_if(|(l, _)| std::ptr::eq(l.get_ref(), inner.get_ref()))
         {
             *response.max_message_size_mut() = max_message_size;
 
@@ -888,6 +891,7 @@ impl SessionInner {
                     let mut detached = false;
                     if let Some((inner, source)) = inner.take() {
                         detached = inner.get_mut().remote_detach.take().is_some();
+                        inner.get_mut().closed = true;
                         let attach = Attach(Box::new(codec::AttachInner {
                             source,
                             max_message_size: None,
-- 
2.43.0


From 1a945ebbee71a856d4faeb9af41e24360548d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 12/38] fix: control frames reach the control service in order

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index d9cd4e2..9846001 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -126,7 +126,7 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From cb6842e1f780b4da59d164ee70114893447f08fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:12 +0000
Subject: [PATCH 13/38] fix: ending a session fails when the connection breaks
 before the peer's answer

---
 src/session.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 0c913a8..464d2ff 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -123,10 +123,9 @@ impl Session {
             let inner = self.inner.clone();
             Either::Right(async move {
                 inner.closed.wait().await;
-                if let Some(err @ AmqpProtocolError::SessionEnded(Some(_))) = inner.error.clone() {
-                    Err(err)
-                } else {
-                    Ok(())
+                match inner.error.clone() {
+                    None | Some(AmqpProtocolError::SessionEnded(None)) => Ok(()),
+                    Some(err) => Err(err),
                 }
             })
         }
-- 
2.43.0


From 7a062753049ea0182bdf9137e62a33450ad3003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 14/38] fix: receiver waiting for deliveries is woken when
 unconfirmed link is detached

---
 src/rcvlink.rs | 1 +
 src/session.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 305d99e..a359252 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -277,6 +277,7 @@ impl ReceiverLinkInner {
         // drop pending transfers
         self.queue.clear();
         self.closed = true;
+        self.wake();
     }
 
     pub(crate) fn close(
diff --git a/src/session.rs b/src/session.rs
index 464d2ff..d0dfc74 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -890,7 +890,7 @@ impl SessionInner {
                     let mut detached = false;
                     if let Some((inner, source)) = inner.take() {
                         detached = inner.get_mut().remote_detach.take().is_some();
-                        inner.get_mut().closed = true;
+                        inner.get_mut().detached();
                         let attach = Attach(Box::new(codec::AttachInner {
                             source,
                             max_message_size: None,
-- 
2.43.0


From 799888b5d5bd4ecc1b2d8d4e23ca81b3e60fb983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 15/38] fix: router releases its link handlers when the
 connection ends

---
 src/router.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index 5c61951..d167554 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -83,6 +83,19 @@ impl<S: 'static> Service<Message> for RouterService<S> {
     type Response = ();
     type Error = Error;
 
+    async fn shutdown(&self) {
+        // connection is gone, remaining handlers are not needed anymore
+        let handlers: Vec<_> = self
+            .0
+            .get_mut()
+            .handlers
+            .drain()
+            .filter_map(|(_, srv)| srv)
+            .collect();
+
+        let _ = join_all(handlers.iter().map(Pipeline::shutdown)).await;
+    }
+
     async fn call(&self, msg: Message, _: ServiceCtx<'_, Self>) -> Result<(), Error> {
         match msg {
             Message::Attached(frm, link) => {
@@ -100,7 +113,9 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                             Ok(srv) => {
                                 log::trace!("Handler service is created for {}", rcv_link.name());
                                 let srv = Pipeline::new(srv);
-                                if rcv_link.is_closed() {
+                                if rcv_link.is_closed()
+                                    || !self.0.get_ref().handlers.contains_key(&rcv_link)
+                                {
                                     // link is detached already
                                     self.0.get_mut().handlers.remove(&rcv_link);
                                     ntex_rt::spawn(async move { srv.shutdown().await });
@@ -219,6 +234,11 @@ async fn service_call<S>(
             return Ok(());
         }
 
+        // handler could be released while it was not ready
+        if !inner.handlers.contains_key(&link) {
+            return Ok(());
+        }
+
         if link.credit() == 0 {
             // self.has_credit = self.link.credit() != 0;
             link.set_link_credit(50);
-- 
2.43.0


From 5f541ebec1a330a0a3556b68c5104d0fd672b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 16/38] fix: tell the publish service about locally closed
 receiver links

---
 src/dispatcher.rs | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 9846001..71c94b3 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -9,7 +9,9 @@ use ntex_util::{future::Either, task::LocalWaker};
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame};
 use crate::error::{AmqpDispatcherError, AmqpProtocolError, Error};
-use crate::{ControlFrame, ControlFrameKind, ReceiverLink, connection::Connection, types};
+use crate::{
+    ControlFrame, ControlFrameKind, ReceiverLink, SenderLink, connection::Connection, types,
+};
 
 /// Amqp server dispatcher service.
 pub(crate) struct Dispatcher<Sr: Service<types::Message>, Ctl: Service<ControlFrame>> {
@@ -48,6 +50,23 @@ where
         }
     }
 
+    /// Publish service must know that link is gone, even if it is closed by this side
+    fn notify_local_detach(&self, frame: &ControlFrame) {
+        let msg = match &frame.0.get_ref().kind {
+            ControlFrameKind::LocalDetachReceiver(_, link) => {
+                types::Message::Detached(link.clone())
+            }
+            ControlFrameKind::LocalSessionEnded(links) => {
+                types::Message::DetachedAll(receivers(links))
+            }
+            _ => return,
+        };
+        let fut = self.service.call(msg);
+        spawn(async move {
+            let _ = fut.await;
+        });
+    }
+
     fn call_control_service(&self, frame: ControlFrame) {
         let fut = self.ctl_service.call(frame.clone());
         self.ctl_fut.borrow_mut().push((frame, fut));
@@ -111,6 +130,7 @@ where
 
         // enqueue pending control frames
         queue.pending.borrow_mut().drain(..).for_each(|frame| {
+            self.notify_local_detach(&frame);
             let fut = self.ctl_service.call(frame.clone());
             futs.push((frame, fut));
         });
@@ -232,15 +252,9 @@ where
                         ));
                     }
                     types::Action::SessionEnded(links) => {
-                        let receivers = links
-                            .iter()
-                            .filter_map(|either| match either {
-                                Either::Right(link) => Some(link.clone()),
-                                Either::Left(_) => None,
-                            })
-                            .collect();
-
-                        let fut = self.service.call(types::Message::DetachedAll(receivers));
+                        let fut = self
+                            .service
+                            .call(types::Message::DetachedAll(receivers(&links)));
                         spawn(async move {
                             let _ = fut.await;
                         });
@@ -377,6 +391,16 @@ where
     }
 }
 
+fn receivers(links: &[Either<SenderLink, ReceiverLink>]) -> Vec<ReceiverLink> {
+    links
+        .iter()
+        .filter_map(|either| match either {
+            Either::Right(link) => Some(link.clone()),
+            Either::Left(_) => None,
+        })
+        .collect()
+}
+
 pin_project_lite::pin_project! {
     pub struct ServiceResult<'f, F, E>
     where F: 'f
-- 
2.43.0


From 8c0b5dafed34fd8e85dc131f82484cd089101f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:04 +0000
Subject: [PATCH 17/38] fix: router hands messages over in order and never to a
 released handler

---
 src/router.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index d167554..ee62c7f 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ use ntex_util::{HashMap, future::Ready, future::join_all};
 use crate::codec::protocol::{DeliveryState, Error, Rejected, Transfer};
 use crate::error::LinkError;
 use crate::types::{Link, Message, Outcome};
-use crate::{Delivery, State, cell::Cell, rcvlink::ReceiverLink};
+use crate::{State, cell::Cell, rcvlink::ReceiverLink};
 
 type Handle<S> = boxed::BoxServiceFactory<Link<S>, Transfer, Outcome, Error, Error>;
 type HandleService = boxed::BoxService<Transfer, Outcome, Error>;
@@ -125,8 +125,8 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                     .get_mut()
                                     .handlers
                                     .insert(rcv_link.clone(), Some(srv));
-                                if let Some((delivery, tr)) = rcv_link.get_delivery() {
-                                    service_call(rcv_link, delivery, tr, &self.0).await
+                                if rcv_link.has_deliveries() {
+                                    service_call(rcv_link, &self.0).await
                                 } else {
                                     Ok(())
                                 }
@@ -205,10 +205,8 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                 Ok(())
             }
             Message::Transfer(link) => {
-                if let Some(Some(_)) = self.0.get_ref().handlers.get(&link)
-                    && let Some((delivery, tr)) = link.get_delivery()
-                {
-                    service_call(link, delivery, tr, &self.0).await?;
+                if link.has_deliveries() {
+                    service_call(link, &self.0).await?;
                 }
                 Ok(())
             }
@@ -218,8 +216,6 @@ impl<S: 'static> Service<Message> for RouterService<S> {
 
 async fn service_call<S>(
     link: ReceiverLink,
-    mut delivery: Delivery,
-    tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
     // link could be detached while handler is running, keep service alive
@@ -244,7 +240,12 @@ async fn service_call<S>(
             link.set_link_credit(50);
         }
 
-        match srv.call(tr).await {
+        // service is ready, messages must be delivered in order
+        let Some((mut delivery, tr)) = link.get_delivery() else {
+            return Ok(());
+        };
+
+        match srv.call_nowait(tr).await {
             Ok(outcome) => {
                 log::trace!("Outcome is ready {outcome:?} for {}", link.name());
                 delivery.settle(outcome.into_delivery_state());
@@ -321,7 +322,7 @@ where
         req: Transfer,
         ctx: ServiceCtx<'_, Self>,
     ) -> Result<Self::Response, Self::Error> {
-        match ctx.call(&self.service, req).await {
+        match ctx.call_nowait(&self.service, req).await {
             Ok(v) => Ok(v),
             Err(err) => Outcome::try_from(err),
         }
-- 
2.43.0


From c67b0b5fe0a9aeedc24f3b9fe532395168c73481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 18/38] fix: respect channel-max of both sides

---
 src/connection.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 98a81fc..3f5accd 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,4 +1,4 @@
-use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
+use std::{cmp, fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
@@ -28,7 +28,10 @@ pub(crate) struct ConnectionInner {
     pub(crate) sessions_map: HashMap<u16, usize>,
     pub(crate) on_close: Condition,
     pub(crate) error: Option<AmqpProtocolError>,
+    /// largest channel number a peer can use
     channel_max: u16,
+    /// largest channel number both sides can use
+    session_max: u16,
     pub(crate) max_frame_size: u32,
 }
 
@@ -69,6 +72,7 @@ impl Connection {
             error: None,
             on_close: Condition::new(),
             channel_max: local_config.channel_max,
+            session_max: cmp::min(local_config.channel_max, remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -255,6 +259,9 @@ impl ConnectionInner {
 
         let entry = self.sessions.vacant_entry();
         let local_token = entry.key();
+        if local_token > self.session_max as usize {
+            return Err(AmqpProtocolError::TooManyChannels);
+        }
         let outgoing_window = begin.incoming_window();
 
         let session = Cell::new(SessionInner::new(
@@ -371,6 +378,10 @@ impl ConnectionInner {
             }
             Frame::Begin(_) if self.error.is_some() => Ok(Action::None),
             Frame::Begin(begin) => {
+                if channel_id > self.channel_max {
+                    return Err(AmqpProtocolError::TooManyChannels);
+                }
+
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
@@ -583,7 +594,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.session_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 7956522f9fb3cf992de0104c25f103ddb21a3354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:21 +0000
Subject: [PATCH 19/38] fix: refuse to begin a session on a channel which is in
 use

---
 src/connection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/connection.rs b/src/connection.rs
index 3f5accd..b2f8ced 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -382,6 +382,11 @@ impl ConnectionInner {
                     return Err(AmqpProtocolError::TooManyChannels);
                 }
 
+                // channel is in use
+                if self.sessions_map.contains_key(&channel_id) {
+                    return Err(AmqpProtocolError::Unexpected(Frame::Begin(begin)));
+                }
+
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
-- 
2.43.0


From 5557fbef3bf763eea76a6f123b84f618a4e4d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 20/38] fix: end a session if nobody waits for it anymore

---
 src/connection.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index b2f8ced..4cafa01 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -320,11 +320,16 @@ impl ConnectionInner {
                     ));
                     self.sessions_map.insert(remote_channel_id, local_token);
 
-                    // TODO: send end session if `tx` is None
-                    tx.take()
+                    let dropped = tx
+                        .take()
                         .and_then(|tx| tx.send(Session::new(session.clone())).err());
                     *channel = SessionState::Established(session);
 
+                    // nobody waits for the session anymore
+                    if let Some(session) = dropped {
+                        drop(session.end());
+                    }
+
                     log::trace!(
                         "{}: Session established: local {:?} remote {:?}",
                         self.io.tag(),
-- 
2.43.0


From 82d04177fc9fdf5bffd5938ca2f136d75a02f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:32 +0000
Subject: [PATCH 21/38] fix: keep-alive for idle timeouts that are not whole
 seconds

Remote idle timeout was truncated to seconds, a remote with timeout below
1334ms never got a keep-alive frame.
---
 src/client/connection.rs |  4 ++--
 src/dispatcher.rs        |  2 +-
 src/lib.rs               | 12 ++++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 5 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 71c94b3..a41bdda 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -37,7 +37,7 @@ where
         ctl_service: Pipeline<Ctl>,
         idle_timeout: Millis,
     ) -> Self {
-        let idle_timeout = Millis(cmp::min(idle_timeout.0 >> 1, 1000));
+        let idle_timeout = Millis(cmp::min(idle_timeout.0.div_ceil(2), 1000));
         Dispatcher {
             sink,
             idle_timeout,
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..bfcda43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,8 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    /// Remote idle timeout with some reserve, zero if remote does not have idle timeout
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out - self.idle_time_out / 4)
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 43438abc1c95d80b184d997b031e900f55c5ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:56 +0000
Subject: [PATCH 22/38] fix: keep sending keep-alive frames

Timer was reset but task did not register for it, an idle connection
sent one keep-alive frame only.
---
 src/dispatcher.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index a41bdda..cdc80e9 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -168,6 +168,8 @@ where
             );
             self.sink.post_frame(AmqpFrame::new(0, Frame::Empty));
             self.idle_sleep.reset(self.idle_timeout);
+            // task must be woken up for the next ping as well
+            let _ = self.idle_sleep.poll_elapsed(cx);
         }
 
         Ok(())
-- 
2.43.0


From b14f6241557d8b548166f026ba410330116be594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:13 +0000
Subject: [PATCH 23/38] fix: server must not wait for a sasl frame after the
 outcome

Client continues with the amqp protocol header once it has got the
outcome, negotiation with a challenge round never completed.
---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From 892d784b6316af573662b3475cb3bd788ac6979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:17 +0000
Subject: [PATCH 24/38] fix: connection can not be opened after a refusing sasl
 outcome

A client that ignored the outcome and continued with the open frame got
an open connection.
---
 src/server/sasl.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index 7478882..3562885 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -164,6 +164,7 @@ impl SaslInit {
             .map_err(HandshakeError::from)?;
 
         Ok(SaslSuccess {
+            code,
             state,
             local_config,
         })
@@ -213,6 +214,7 @@ impl SaslResponse {
             .map_err(HandshakeError::from)?;
 
         Ok(SaslSuccess {
+            code,
             state,
             local_config,
         })
@@ -220,6 +222,7 @@ impl SaslResponse {
 }
 
 pub struct SaslSuccess {
+    code: SaslCode,
     state: IoBoxed,
     local_config: Cfg<AmqpServiceConfig>,
 }
@@ -231,7 +234,12 @@ impl SaslSuccess {
     }
 
     /// Wait for connection open frame
+    ///
+    /// Fails if outcome of sasl negotiation is not `SaslCode::Ok`.
     pub async fn open(self) -> Result<HandshakeAmqpOpened, HandshakeError> {
+        if self.code != SaslCode::Ok {
+            return Err(HandshakeError::Sasl(self.code));
+        }
         let state = self.state;
 
         let protocol = state
-- 
2.43.0


From 8aa160aca6e33e57afed559ca93dfc27b5a600f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 25/38] fix: client expects sasl mechanisms frame

Any sasl frame was accepted in its place.
---
 src/client/connector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..80228ee 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,12 +192,16 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let sasl_frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
 
+    if !matches!(sasl_frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        return Err(Error::from(ConnectError::Disconnected));
+    }
+
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
-- 
2.43.0


From 0ebce52aa9ff9c851e370774761abf644e751930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:18 +0000
Subject: [PATCH 26/38] fix: handshake timeout covers negotiation over an
 opened socket

Connector's negotiate() and negotiate_sasl() waited for the server without
limit.
---
 src/client/connector.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index 80228ee..6e6477d 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -117,11 +117,7 @@ where
                 connect_plain_inner(io, self.config.clone(), hostname).await
             }
         };
-        timeout_checked(self.config.handshake_timeout, fut)
-            .await
-            .map_err(|()| Error::from(ConnectError::HandshakeTimeout))
-            .and_then(|res| res)
-            .map_err(|e| e.set_service(self.config.service()))
+        self.limit(fut).await
     }
 }
 
@@ -131,6 +127,18 @@ where
     T: Service<connect::Connect<A>, Error = Error<connect::ConnectError>>,
     IoBoxed: From<T::Response>,
 {
+    /// Negotiation must complete within handshake timeout
+    async fn limit<F>(&self, fut: F) -> Result<Client, Error<ConnectError>>
+    where
+        F: Future<Output = Result<Client, Error<ConnectError>>>,
+    {
+        timeout_checked(self.config.handshake_timeout, fut)
+            .await
+            .map_err(|()| Error::from(ConnectError::HandshakeTimeout))
+            .and_then(|res| res)
+            .map_err(|e| e.set_service(self.config.service()))
+    }
+
     /// Negotiate amqp protocol over opened socket
     pub async fn negotiate(
         &self,
@@ -139,9 +147,8 @@ where
     ) -> Result<Client, Error<ConnectError>> {
         log::trace!("{}: Negotiation client protocol id: Amqp", io.tag());
 
-        connect_plain_inner(io, self.config.clone(), hostname)
+        self.limit(connect_plain_inner(io, self.config.clone(), hostname))
             .await
-            .map_err(|e| e.set_service(self.config.service()))
     }
 
     /// Negotiate amqp sasl protocol over opened socket
@@ -153,9 +160,8 @@ where
     ) -> Result<Client, Error<ConnectError>> {
         log::trace!("{}: Negotiation client protocol id: Amqp", io.tag());
 
-        connect_sasl_inner(io, auth, self.config.clone(), hostname)
+        self.limit(connect_sasl_inner(io, auth, self.config.clone(), hostname))
             .await
-            .map_err(|e| e.set_service(self.config.service()))
     }
 }
 
-- 
2.43.0


From 5f963bc8b28fa2be3ffab928ed1039b5cb23c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 27/38] fix: inbound frame limit holds during negotiation

Configured max frame size was ignored until connection is open.
---
 src/client/connector.rs | 2 +-
 src/server/handshake.rs | 2 +-
 src/server/sasl.rs      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index 6e6477d..1992518 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -195,7 +195,7 @@ async fn connect_sasl_inner(
         )));
     }
 
-    let codec = AmqpCodec::<SaslFrame>::new();
+    let codec = AmqpCodec::<SaslFrame>::new().max_size(config.max_frame_size as usize);
 
     // processing sasl-mechanisms
     let sasl_frame = io
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index bea486a..4c671e6 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -52,7 +52,7 @@ impl HandshakeAmqp {
     pub async fn open(self) -> Result<HandshakeAmqpOpened, HandshakeError> {
         let state = self.state;
         let local_config = self.local_config;
-        let codec = AmqpCodec::<AmqpFrame>::new();
+        let codec = AmqpCodec::<AmqpFrame>::new().max_size(local_config.max_size);
 
         let frame = state.recv(&codec).await?.ok_or_else(|| {
             log::trace!(
diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index 3562885..e9ae972 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -56,7 +56,7 @@ impl Sasl {
         }
         .into();
 
-        let codec = AmqpCodec::<SaslFrame>::new();
+        let codec = AmqpCodec::<SaslFrame>::new().max_size(local_config.max_size);
         state
             .send(frame, &codec)
             .await
@@ -256,7 +256,7 @@ impl SaslSuccess {
                     .map_err(HandshakeError::from)?;
 
                 // Wait for connection open frame
-                let codec = AmqpCodec::<AmqpFrame>::new();
+                let codec = AmqpCodec::<AmqpFrame>::new().max_size(self.local_config.max_size);
                 let frame = state
                     .recv(&codec)
                     .await?
-- 
2.43.0


From 0a200429a82d2706007ae9d96f8608fd5a8b3ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 28/38] fix: maps used as keys of maps could not be hashed

---
 codec/src/types/variant.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..ed39988 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -1,4 +1,4 @@
-use std::hash::{Hash, Hasher};
+use std::hash::{DefaultHasher, Hash, Hasher};
 
 use chrono::{DateTime, Utc};
 use ntex_bytes::{ByteString, Bytes, BytesMut};
@@ -253,8 +253,16 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // equal maps may iterate in a different order
+        let mut sum = 0u64;
+        for entry in &self.map {
+            let mut hasher = DefaultHasher::new();
+            entry.hash(&mut hasher);
+            sum = sum.wrapping_add(hasher.finish());
+        }
+        state.write_usize(self.map.len());
+        state.write_u64(sum);
     }
 }
 
-- 
2.43.0


From 524d607f9f738cb42c4141bc49707a3408f2d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 29/38] fix: message size was cached over changes of the
 message

---
 codec/src/message/message.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..60b9567 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -1,5 +1,3 @@
-use std::cell::Cell;
-
 use ntex_bytes::{Bytes, BytesMut};
 
 use crate::codec::{Decode, Encode};
@@ -23,7 +21,6 @@ pub struct MessageInner {
     pub application_properties: Option<VecStringMap>,
     pub footer: Option<Annotations>,
     pub body: MessageBody,
-    size: Cell<usize>,
 }
 
 impl Message {
@@ -55,7 +52,6 @@ impl Message {
     /// Set message header
     pub fn set_header(&mut self, header: Header) -> &mut Self {
         self.0.header = Some(header);
-        self.0.size.set(0);
         self
     }
 
@@ -79,7 +75,6 @@ impl Message {
             self.0.properties = Some(Properties::default());
         }
 
-        self.0.size.set(0);
         self.0.properties.as_mut().unwrap()
     }
 
@@ -96,7 +91,6 @@ impl Message {
             f(&mut props);
             self.0.properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -138,7 +132,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.application_properties = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -168,7 +161,6 @@ impl Message {
             props.push((key.into(), value.into()));
             self.0.message_annotations = Some(props);
         }
-        self.0.size.set(0);
         self
     }
 
@@ -202,7 +194,6 @@ impl Message {
     where
         F: Fn(Self) -> Self,
     {
-        self.0.size.set(0);
         f(self)
     }
 
@@ -213,7 +204,6 @@ impl Message {
         F: Fn(Self, &T) -> Self,
     {
         if let Some(val) = value {
-            self.0.size.set(0);
             f(self, val)
         } else {
             self
@@ -252,7 +242,6 @@ impl Message {
         F: FnOnce(&mut MessageBody),
     {
         f(&mut self.0.body);
-        self.0.size.set(0);
         self
     }
 
@@ -314,11 +303,6 @@ impl Decode for Message {
 
 impl Encode for Message {
     fn encoded_size(&self) -> usize {
-        let size = self.0.size.get();
-        if size != 0 {
-            return size;
-        }
-
         let mut size = self.0.body.encoded_size();
 
         if let Some(ref h) = self.0.header {
@@ -339,7 +323,6 @@ impl Encode for Message {
         if let Some(ref f) = self.0.footer {
             size += f.encoded_size() + SECTION_PREFIX_LENGTH;
         }
-        self.0.size.set(size);
         size
     }
 
-- 
2.43.0


From 626e9e7bbac0b158cab32589451ca865b155508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 30/38] fix: error of a remote detach was missing in the
 control frame of receiver links

---
 src/session.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index d0dfc74..d25d38b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1162,7 +1162,7 @@ impl SessionInner {
 
     #[allow(clippy::too_many_lines)]
     /// Handle `Detach` frame.
-    pub(crate) fn handle_detach(&mut self, mut frame: Detach) -> Action {
+    pub(crate) fn handle_detach(&mut self, frame: Detach) -> Action {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
@@ -1277,7 +1277,7 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Established(link) => {
-                        let error = frame.0.error.take();
+                        let error = frame.0.error.clone();
 
                         // drop unsettled transfers
                         let err = AmqpProtocolError::LinkDetached(error.clone());
-- 
2.43.0


From 4ff8c7d54d294305050c5ad7427a776112ab9302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 31/38] fix: timestamps before 1970 were decoded wrong

---
 codec/src/codec/decode.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..c55d207 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -609,21 +609,9 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    Utc.timestamp_millis_opt(millis)
+        .earliest()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From 8f9f9046d93a485affdd69dfeec126c1318b0183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:26 +0000
Subject: [PATCH 32/38] fix: malformed compound values could crash the decoder
 or exhaust memory

---
 codec/src/codec/decode.rs | 74 +++++++++++++++++++++++++++++++--------
 codec/src/types/array.rs  |  2 +-
 2 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index c55d207..4883f86 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{cell::Cell, char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -247,8 +247,10 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+        let mut map: collections::HashMap<K, V, S> = collections::HashMap::with_capacity_and_hasher(
+            capacity(count, &map_input),
+            Default::default(),
+        );
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
@@ -263,7 +265,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut array_input = input.split_to(header.size as usize);
+        let elem_ctor = Constructor::decode(&mut array_input)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -271,9 +274,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, &array_input));
         for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
+            let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
         }
         // todo: ensure header.size bytes were read out from input
@@ -287,7 +290,7 @@ impl DecodeFormatted for VecSymbolMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -304,7 +307,7 @@ impl DecodeFormatted for VecStringMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -338,9 +341,11 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, &list_input));
         for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+            let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
         }
         Ok(List(result))
@@ -352,9 +357,11 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
         let header = ListHeader::decode_with_format(input, fmt)?;
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, &list_input));
         for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
@@ -370,6 +377,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
 
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        let _nesting = Nesting::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
@@ -594,7 +602,8 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?;
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,12 +611,49 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?;
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
 }
 
+/// Number of items to reserve space for, the claimed count cannot be trusted
+fn capacity(count: u32, input: &Bytes) -> usize {
+    (count as usize).min(input.len())
+}
+
+/// Guards decoding of nested values
+struct Nesting;
+
+/// Max depth of nested values
+const MAX_NESTING: usize = 128;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+impl Nesting {
+    fn enter() -> Result<Nesting, AmqpParseError> {
+        NESTING.with(|depth| {
+            if depth.get() >= MAX_NESTING {
+                Err(AmqpParseError::UnexpectedType("value is nested too deep"))
+            } else {
+                depth.set(depth.get() + 1);
+                Ok(Nesting)
+            }
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     Utc.timestamp_millis_opt(millis)
         .earliest()
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..0cf8198 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -39,7 +39,7 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity((self.count as usize).min(buf.len()));
         for _ in 0..self.count {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
-- 
2.43.0


From 96475f17acbef610c13e40c804069749f62a3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:59 +0000
Subject: [PATCH 33/38] fix: trimming the name of a link could overflow

---
 src/rcvlink.rs | 4 ++--
 src/sndlink.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index a359252..767a7e5 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -230,8 +230,8 @@ impl ReceiverLinkInner {
         remote_handle: Handle,
         frame: &Attach,
     ) -> ReceiverLinkInner {
-        let mut name = frame.name().clone();
-        name.trimdown();
+        // copy, does not keep read buffer alive
+        let name = ByteString::from(frame.name().as_str());
 
         ReceiverLinkInner {
             name,
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 5c7a528..594be85 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -214,8 +214,8 @@ impl SenderLinkInner {
         {
             name = Some(addr.clone());
         }
-        let mut name = name.unwrap_or_default();
-        name.trimdown();
+        // copy, does not keep read buffer alive
+        let name = ByteString::from(name.unwrap_or_default().as_str());
 
         let delivery_count = frame.initial_delivery_count().unwrap_or(0);
         let max_message_size = SenderLinkInner::remote_max_message_size(frame);
-- 
2.43.0


From 532bda1eb6174460c1fbb1bab1ad3fc44602a3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:29 +0000
Subject: [PATCH 34/38] fix: array without data could claim any number of
 elements

---
 codec/src/codec/decode.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 4883f86..8d59f32 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -568,15 +568,16 @@ impl DecodeFormatted for MapHeader {
 
 impl DecodeFormatted for ArrayHeader {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
-        match fmt {
-            codec::FORMATCODE_ARRAY8 => {
-                decode_compound8(input).map(|(size, count)| ArrayHeader { count, size })
-            }
-            codec::FORMATCODE_ARRAY32 => {
-                decode_compound32(input).map(|(size, count)| ArrayHeader { count, size })
-            }
-            _ => Err(AmqpParseError::InvalidFormatCode(fmt)),
+        let (size, count) = match fmt {
+            codec::FORMATCODE_ARRAY8 => decode_compound8(input)?,
+            codec::FORMATCODE_ARRAY32 => decode_compound32(input)?,
+            _ => return Err(AmqpParseError::InvalidFormatCode(fmt)),
+        };
+        // elements could have no data at all
+        if count > size.max(MAX_EMPTY_ITEMS) {
+            return Err(AmqpParseError::InvalidSize);
         }
+        Ok(ArrayHeader { count, size })
     }
 }
 
@@ -628,6 +629,9 @@ fn capacity(count: u32, input: &Bytes) -> usize {
 /// Guards decoding of nested values
 struct Nesting;
 
+/// Max number of array elements without data
+const MAX_EMPTY_ITEMS: u32 = 65_536;
+
 /// Max depth of nested values
 const MAX_NESTING: usize = 128;
 
-- 
2.43.0


From 024ef5efe33d8335ae88bf0f779d660508114e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:15 +0000
Subject: [PATCH 35/38] fix: several tasks could not wait for the outcome of
 one delivery

---
 src/delivery.rs | 84 ++++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 50 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index bf64346..08e6a08 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -33,7 +33,7 @@ pub(crate) struct DeliveryInner {
     settled: bool,
     state: Option<DeliveryState>,
     error: Option<AmqpProtocolError>,
-    tx: Option<pool::Sender<()>>,
+    waiters: Vec<pool::Sender<()>>,
 }
 
 impl Delivery {
@@ -177,49 +177,33 @@ impl Delivery {
             return Ok(None);
         }
 
-        let rx = if let Some(inner) = self
-            .session
-            .inner
-            .get_mut()
-            .unsettled_deliveries(self.is_set(Flags::SENDER))
-            .get_mut(&self.id)
-        {
-            if inner.settled {
-                self.set_flag(Flags::REMOTE_SETTLED);
-            }
-            if let Some(st) = Self::check_inner(inner) {
-                return st;
-            }
-
-            let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
-            inner.tx = Some(tx);
-            rx
-        } else {
-            // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
-        };
-        if rx.await.is_err() {
-            return Err(AmqpProtocolError::ConnectionDropped);
-        }
-
-        if let Some(inner) = self
-            .session
-            .inner
-            .get_mut()
-            .unsettled_deliveries(self.is_set(Flags::SENDER))
-            .get_mut(&self.id)
-        {
-            if inner.settled {
-                self.set_flag(Flags::REMOTE_SETTLED);
-            }
-            if let Some(st) = Self::check_inner(inner) {
-                return st;
+        loop {
+            let rx = if let Some(inner) = self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get_mut(&self.id)
+            {
+                if inner.settled {
+                    self.set_flag(Flags::REMOTE_SETTLED);
+                }
+                if let Some(st) = Self::check_inner(inner) {
+                    return st;
+                }
+
+                let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
+                inner.waiters.retain(|tx| !tx.is_canceled());
+                inner.waiters.push(tx);
+                rx
+            } else {
+                // session ended
+                return Err(AmqpProtocolError::LinkDetached(None));
+            };
+            if rx.await.is_err() {
+                return Err(AmqpProtocolError::ConnectionDropped);
             }
-        } else {
-            // session ended
-            return Err(AmqpProtocolError::LinkDetached(None));
         }
-        Ok(None)
     }
 
     fn check_inner(
@@ -281,7 +265,7 @@ impl DeliveryInner {
     pub(crate) fn new(handle: Handle) -> Self {
         Self {
             handle,
-            tx: None,
+            waiters: Vec::new(),
             state: None,
             error: None,
             settled: false,
@@ -294,7 +278,11 @@ impl DeliveryInner {
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
         self.error = Some(error);
-        if let Some(tx) = self.tx.take() {
+        self.notify();
+    }
+
+    fn notify(&mut self) {
+        for tx in self.waiters.drain(..) {
             let _ = tx.send(());
         }
     }
@@ -306,17 +294,13 @@ impl DeliveryInner {
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 }
 
 impl Drop for DeliveryInner {
     fn drop(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 }
 
-- 
2.43.0


From e784cfea9c06d9bac2888470d656ffba4f00eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:11 +0000
Subject: [PATCH 36/38] fix: descriptor zero in its shortest form could not be
 read

---
 codec/src/codec/decode.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8d59f32..40f1741 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -490,10 +490,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_ULONG | codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG_0 => {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From 7bfa02b72a839e1fb7753b55e0f4b0e05f1e6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:53 +0000
Subject: [PATCH 37/38] fix: a control event could overtake the ones still
 waiting for the dispatcher

---
 src/dispatcher.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index cdc80e9..3970f57 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -67,7 +67,22 @@ where
         });
     }
 
+    /// Call control service for pending control frames
+    fn call_pending(&self) {
+        let queue = self.sink.get_control_queue();
+        let mut futs = self.ctl_fut.borrow_mut();
+
+        queue.pending.borrow_mut().drain(..).for_each(|frame| {
+            self.notify_local_detach(&frame);
+            let fut = self.ctl_service.call(frame.clone());
+            futs.push((frame, fut));
+        });
+    }
+
     fn call_control_service(&self, frame: ControlFrame) {
+        // pending control frames are older
+        self.call_pending();
+
         let fut = self.ctl_service.call(frame.clone());
         self.ctl_fut.borrow_mut().push((frame, fut));
         self.sink.get_control_queue().waker.wake();
@@ -124,18 +139,13 @@ where
     }
 
     fn poll(&self, cx: &mut Context<'_>) -> Result<(), Self::Error> {
-        let mut futs = self.ctl_fut.borrow_mut();
-        let queue = self.sink.get_control_queue();
-        queue.waker.register(cx.waker());
+        self.sink.get_control_queue().waker.register(cx.waker());
 
         // enqueue pending control frames
-        queue.pending.borrow_mut().drain(..).for_each(|frame| {
-            self.notify_local_detach(&frame);
-            let fut = self.ctl_service.call(frame.clone());
-            futs.push((frame, fut));
-        });
+        self.call_pending();
 
         // process control frame
+        let mut futs = self.ctl_fut.borrow_mut();
         let mut idx = 0;
         while futs.len() > idx {
             let item = &mut futs[idx];
-- 
2.43.0


From 49bea37f48d6ec420091a57567a029591cd7cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:03 +0000
Subject: [PATCH 38/38] fix: a routed link whose last credit was used by an
 aborted delivery was never granted more

---
 src/rcvlink.rs | 9 ++++++++-
 src/router.rs  | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 767a7e5..04eb38e 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -359,7 +359,14 @@ impl ReceiverLinkInner {
                         .unsettled_rcv_deliveries
                         .remove(&delivery.id());
                 }
-                return Action::None;
+                // nothing else reports that the last credit is used
+                return if self.credit == 0 {
+                    Action::Transfer(ReceiverLink {
+                        inner: inner.clone(),
+                    })
+                } else {
+                    Action::None
+                };
             }
 
             // check message size
diff --git a/src/router.rs b/src/router.rs
index ee62c7f..14b1cd2 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -207,6 +207,9 @@ impl<S: 'static> Service<Message> for RouterService<S> {
             Message::Transfer(link) => {
                 if link.has_deliveries() {
                     service_call(link, &self.0).await?;
+                } else if link.credit() == 0 && self.0.get_ref().handlers.contains_key(&link) {
+                    // last credit is used by an aborted delivery
+                    link.set_link_credit(50);
                 }
                 Ok(())
             }
-- 
2.43.0

