From 6860811969b65369a88e93e3ec484d46c7afac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 01/54] fix: do not hold reference into router handlers map
 across await

---
 src/router.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/router.rs b/src/router.rs
index f68e36c..cc1a97c 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -199,7 +199,9 @@ async fn service_call<S>(
     tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
-    if let Some(Some(srv)) = inner.handlers.get(&link) {
+    // handlers could be modified while service is processing transfer
+    let srv = inner.handlers.get(&link).cloned().flatten();
+    if let Some(srv) = srv {
         // check readiness
         if let Err(e) = srv.ready().await {
             log::trace!("Service readiness check failed: {e:?}");
-- 
2.43.0


From 2ade74dcbe99d5b9443cb1707523753dbb91860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:30 +0000
Subject: [PATCH 02/54] fix: track remote settlement and support several
 waiters of one delivery

---
 src/delivery.rs | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b733bf0..f5c2b70 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -33,7 +33,7 @@ pub(crate) struct DeliveryInner {
     settled: bool,
     state: Option<DeliveryState>,
     error: Option<AmqpProtocolError>,
-    tx: Option<pool::Sender<()>>,
+    waiters: Vec<pool::Sender<()>>,
 }
 
 impl Delivery {
@@ -87,12 +87,23 @@ impl Delivery {
     }
 
     pub fn is_remote_settled(&self) -> bool {
+        if !self.is_set(Flags::REMOTE_SETTLED)
+            && self
+                .session
+                .inner
+                .get_mut()
+                .unsettled_deliveries(self.is_set(Flags::SENDER))
+                .get(&self.id)
+                .is_some_and(|inner| inner.settled)
+        {
+            self.set_flag(Flags::REMOTE_SETTLED);
+        }
         self.is_set(Flags::REMOTE_SETTLED)
     }
 
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) {
+        if self.is_remote_settled() {
             return;
         }
 
@@ -117,7 +128,7 @@ impl Delivery {
 
     pub fn update_state(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
-        if self.is_set(Flags::REMOTE_SETTLED) || self.is_set(Flags::LOCAL_SETTLED) {
+        if self.is_remote_settled() || self.is_set(Flags::LOCAL_SETTLED) {
             return;
         }
 
@@ -164,7 +175,7 @@ impl Delivery {
             }
 
             let (tx, rx) = self.session.inner.get_ref().pool_notify.channel();
-            inner.tx = Some(tx);
+            inner.waiters.push(tx);
             rx
         } else {
             // session ended
@@ -181,9 +192,6 @@ impl Delivery {
             .unsettled_deliveries(self.is_set(Flags::SENDER))
             .get_mut(&self.id)
         {
-            if inner.settled {
-                self.set_flag(Flags::REMOTE_SETTLED);
-            }
             if let Some(st) = Self::check_inner(inner) {
                 return st;
             }
@@ -205,6 +213,9 @@ impl Delivery {
                 // return clone of terminal state
                 Some(Ok(Some(st.clone())))
             }
+        } else if inner.settled {
+            // settled without outcome
+            Some(Ok(None))
         } else {
             inner.error.as_ref().map(|err| Err(err.clone()))
         }
@@ -213,13 +224,14 @@ impl Delivery {
 
 impl Drop for Delivery {
     fn drop(&mut self) {
+        let remote_settled = self.is_remote_settled();
         let inner = self.session.inner.get_mut();
         let deliveries = inner.unsettled_deliveries(self.is_set(Flags::SENDER));
 
         if deliveries.contains_key(&self.id) {
             deliveries.remove(&self.id);
 
-            if !self.is_set(Flags::REMOTE_SETTLED) && !self.is_set(Flags::LOCAL_SETTLED) {
+            if !remote_settled && !self.is_set(Flags::LOCAL_SETTLED) {
                 let err = Error::build()
                     .condition(ErrorCondition::Custom(Symbol(Str::from_static(
                         "Internal error",
@@ -248,10 +260,10 @@ impl DeliveryInner {
     pub(crate) fn new(handle: Handle) -> Self {
         Self {
             handle,
-            tx: None,
             state: None,
             error: None,
             settled: false,
+            waiters: Vec::new(),
         }
     }
 
@@ -261,7 +273,11 @@ impl DeliveryInner {
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
         self.error = Some(error);
-        if let Some(tx) = self.tx.take() {
+        self.notify();
+    }
+
+    fn notify(&mut self) {
+        for tx in self.waiters.drain(..) {
             let _ = tx.send(());
         }
     }
@@ -273,17 +289,13 @@ impl DeliveryInner {
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 }
 
 impl Drop for DeliveryInner {
     fn drop(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            let _ = tx.send(());
-        }
+        self.notify();
     }
 }
 
-- 
2.43.0


From 29afb6707cf23aa68dabcdd3fd302a33ba4b26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 03/54] fix: session end uses local channel id, pending end
 completes on connection error

---
 src/connection.rs | 4 ++--
 src/session.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 46570e2..422ba77 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -220,8 +220,8 @@ impl ConnectionInner {
         log::trace!("{}: Set connection error: {:?}", self.io.tag(), err);
         for (_, channel) in &mut self.sessions {
             match channel {
-                SessionState::Opening(_, _) | SessionState::Closing(_) => (),
-                SessionState::Established(ses) => {
+                SessionState::Opening(_, _) => (),
+                SessionState::Established(ses) | SessionState::Closing(ses) => {
                     ses.get_mut().set_error(err.clone());
                 }
             }
diff --git a/src/session.rs b/src/session.rs
index 099cfbc..e3a8180 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -105,7 +105,7 @@ impl Session {
             Either::Left(Ready::Ok(()))
         } else {
             if !inner.flags.contains(Flags::ENDING) {
-                inner.sink.close_session(inner.remote_channel_id as usize);
+                inner.sink.close_session(inner.id);
                 inner.post_frame(Frame::End(End { error: None }));
                 inner.flags.insert(Flags::ENDING);
                 inner
-- 
2.43.0


From 97dff91e9573f353691f79cc9a1efa5220401b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 04/54] fix: nothing is sent after close frame, begin is
 ignored on closed connection

---
 src/connection.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 422ba77..e0d2f1c 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -156,9 +156,7 @@ impl ConnectionRef {
 
     /// Gracefully close connection
     pub fn close(&self) -> impl Future<Output = Result<(), AmqpProtocolError>> {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(0, Frame::Close(Close { error: None })));
-        inner.io.close();
+        self.0.get_mut().close(None);
         Ready::Ok(())
     }
 
@@ -167,14 +165,7 @@ impl ConnectionRef {
     where
         Error: From<E>,
     {
-        let inner = self.0.get_mut();
-        inner.post_frame(AmqpFrame::new(
-            0,
-            Frame::Close(Close {
-                error: Some(err.into()),
-            }),
-        ));
-        inner.io.close();
+        self.0.get_mut().close(Some(err.into()));
         Ready::Ok(())
     }
 
@@ -192,14 +183,7 @@ impl ConnectionRef {
     }
 
     pub(crate) fn post_frame(&self, frame: AmqpFrame) {
-        let inner = self.0.get_mut();
-
-        #[cfg(feature = "frame-trace")]
-        log::trace!("{}: outgoing: {:#?}", inner.io.tag(), frame);
-
-        if let Err(e) = inner.io.encode(frame, &inner.codec) {
-            inner.set_error(e.into());
-        }
+        self.0.get_mut().post_frame(frame);
     }
 
     pub(crate) fn set_error(&self, err: AmqpProtocolError) {
@@ -235,7 +219,20 @@ impl ConnectionInner {
         self.on_close.notify_and_lock_readiness();
     }
 
+    fn close(&mut self, error: Option<Error>) {
+        self.post_frame(AmqpFrame::new(0, Frame::Close(Close { error })));
+        if self.state == ConnectionState::Normal {
+            self.state = ConnectionState::Closing;
+        }
+        self.io.close();
+    }
+
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
+        // `Close` is the last frame of the connection
+        if self.state != ConnectionState::Normal {
+            return;
+        }
+
         #[cfg(feature = "frame-trace")]
         log::trace!("{}: outgoing: {:#?}", self.io.tag(), frame);
 
@@ -373,6 +370,11 @@ impl ConnectionInner {
                 }
             }
             Frame::Begin(begin) => {
+                if self.error.is_some() || self.state != ConnectionState::Normal {
+                    log::error!("{}: Connection closed but begin is received", self.io.tag());
+                    return Ok(Action::None);
+                }
+
                 // response Begin for open session
                 // the remote-channel property in the frame is the local channel id
                 // we previously sent to the remote
-- 
2.43.0


From 200bc0fef151bb353f5fa8b6ed0158a5db25a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:21 +0000
Subject: [PATCH 05/54] fix: keep order of pending control frames

---
 src/dispatcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 2e757dd..3be5567 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -126,7 +126,7 @@ where
                 }
                 Poll::Ready(res) => res,
             };
-            let (frame, _) = futs.swap_remove(idx);
+            let (frame, _) = futs.remove(idx);
             let result = match res {
                 Ok(()) => self.handle_control_frame(&frame, None),
                 Err(e) => self.handle_control_frame(&frame, Some(e.into())),
-- 
2.43.0


From 38e6276a1fd592fee3d0f253f76cf3f64ecdea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 06/54] fix: nothing is sent on the session after end frame

---
 src/session.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index e3a8180..d1f67a1 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -441,6 +441,11 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<Cell<SenderLinkInner>, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        if self.is_ended() {
+            let _ = tx.send(Err(self.ended_error()));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
         entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
@@ -652,6 +657,11 @@ impl SessionInner {
     ) -> oneshot::Receiver<Result<ReceiverLink, AmqpProtocolError>> {
         let (tx, rx) = oneshot::channel();
 
+        if self.is_ended() {
+            let _ = tx.send(Err(self.ended_error()));
+            return rx;
+        }
+
         let entry = self.links.vacant_entry();
         let token = entry.key();
 
@@ -1329,7 +1339,22 @@ impl SessionInner {
         Ok(delivery_id)
     }
 
+    /// Session is ended or local side already sent `End` frame
+    pub(crate) fn is_ended(&self) -> bool {
+        self.flags.intersects(Flags::ENDED | Flags::ENDING)
+    }
+
+    fn ended_error(&self) -> AmqpProtocolError {
+        self.error
+            .clone()
+            .unwrap_or(AmqpProtocolError::SessionEnded(None))
+    }
+
     pub(crate) fn post_frame(&mut self, frame: Frame) {
+        // `End` is the last frame of the session
+        if self.is_ended() {
+            return;
+        }
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
-- 
2.43.0


From 693cce6976bdca2d80a32318d4e462b972c3dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 07/54] fix: session window and link credit must not underflow

---
 src/session.rs | 10 +++++-----
 src/sndlink.rs | 12 +++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index d1f67a1..6a2e83e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1140,11 +1140,11 @@ impl SessionInner {
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
 
-        self.remote_incoming_window = flow
-            .next_incoming_id()
-            .unwrap_or(0)
-            .wrapping_add(flow.incoming_window())
-            .wrapping_sub(self.next_outgoing_id);
+        // transfers the peer has not seen yet
+        let in_flight = self
+            .next_outgoing_id
+            .wrapping_sub(flow.next_incoming_id().unwrap_or(INITIAL_NEXT_OUTGOING_ID));
+        self.remote_incoming_window = flow.incoming_window().saturating_sub(in_flight);
 
         log::trace!(
             "{}: Session received credit {:?}. window: {}, pending: {}",
diff --git a/src/sndlink.rs b/src/sndlink.rs
index a4d1018..07f998a 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -22,6 +22,7 @@ pub(crate) struct SenderLinkInner {
     name: ByteString,
     pub(crate) session: Session,
     remote_handle: Handle,
+    initial_delivery_count: SequenceNo,
     delivery_count: SequenceNo,
     delivery_tag: u32,
     link_credit: u32,
@@ -188,6 +189,7 @@ impl SenderLinkInner {
             id,
             name,
             delivery_count,
+            initial_delivery_count: delivery_count,
             max_message_size,
             session: Session::new(session),
             remote_handle: handle,
@@ -292,11 +294,11 @@ impl SenderLinkInner {
     pub(crate) fn apply_flow(&mut self, flow: &Flow) {
         // #2.7.6
         if let Some(credit) = flow.link_credit() {
-            let new_credit = flow
-                .delivery_count()
-                .unwrap_or(0)
-                .wrapping_add(credit)
-                .wrapping_sub(self.delivery_count);
+            // deliveries the peer has not seen yet
+            let in_flight = self
+                .delivery_count
+                .wrapping_sub(flow.delivery_count().unwrap_or(self.initial_delivery_count));
+            let new_credit = credit.saturating_sub(in_flight);
 
             log::trace!(
                 "{}: Apply sender link {:?} flow, credit: {:?}, delivery count: {:?}, local delivery count: {:?}, pending: {:?}, old credit {:?}",
-- 
2.43.0


From d186e20749869d89a04e3e9afbbeff7115d94729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 08/54] fix: session window counts transfer frames, credit is
 not consumed until delivery starts

---
 src/session.rs | 122 ++++++++++++++++++++++++++++++++++++++-----------
 src/sndlink.rs |  29 +++++++++---
 2 files changed, 119 insertions(+), 32 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 6a2e83e..3c8f01b 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -32,6 +32,7 @@ pub(crate) struct SessionInner {
     id: usize,
     sink: ConnectionRef,
     next_outgoing_id: TransferNumber,
+    next_delivery_id: DeliveryNumber,
     flags: Flags,
     begin: Begin,
 
@@ -47,6 +48,7 @@ pub(crate) struct SessionInner {
     closed: condition::Condition,
 
     pending_transfers: VecDeque<PendingTransfer>,
+    outgoing: VecDeque<OutgoingTransfer>,
     pub(crate) unsettled_snd_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
     pub(crate) unsettled_rcv_deliveries: HashMap<DeliveryNumber, DeliveryInner>,
 
@@ -283,6 +285,14 @@ struct PendingTransfer {
     link_handle: Handle,
 }
 
+#[derive(Debug)]
+/// Transfer frame that does not fit into the session window
+struct OutgoingTransfer {
+    frame: Transfer,
+    /// Notify when last frame of the delivery is sent
+    tx: Option<pool::Sender<Result<(), AmqpProtocolError>>>,
+}
+
 impl SessionInner {
     pub(crate) fn new(
         id: usize,
@@ -297,12 +307,14 @@ impl SessionInner {
             remote_outgoing_window: begin.outgoing_window(),
             flags: if local { Flags::LOCAL } else { Flags::empty() },
             next_outgoing_id: INITIAL_NEXT_OUTGOING_ID,
+            next_delivery_id: INITIAL_NEXT_OUTGOING_ID,
             unsettled_snd_deliveries: HashMap::default(),
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
+            outgoing: VecDeque::new(),
             error: None,
             pool_notify: pool::new(),
             pool_credit: pool::new(),
@@ -345,6 +357,9 @@ impl SessionInner {
         for tr in self.pending_transfers.drain(..) {
             let _ = tr.tx.send(Err(err.clone()));
         }
+        for tx in self.outgoing.drain(..).filter_map(|tr| tr.tx) {
+            let _ = tx.send(Err(err.clone()));
+        }
 
         // drop unsettled deliveries
         for (_, mut promise) in self.unsettled_snd_deliveries.drain() {
@@ -987,7 +1002,7 @@ impl SessionInner {
 
                         // drop pending transfers
                         let mut idx = 0;
-                        let handle = link.inner.get_ref().remote_handle();
+                        let handle = link.inner.get_ref().id() as Handle;
                         while idx < self.pending_transfers.len() {
                             if self.pending_transfers[idx].link_handle == handle {
                                 let tr = self.pending_transfers.remove(idx).unwrap();
@@ -996,6 +1011,7 @@ impl SessionInner {
                                 idx += 1;
                             }
                         }
+                        drop_outgoing(&mut self.outgoing, handle, &err);
 
                         // drop unsettled transfers
                         let handle = link.inner.get_ref().id() as Handle;
@@ -1154,6 +1170,16 @@ impl SessionInner {
             self.pending_transfers.len(),
         );
 
+        // send frames that did not fit into the window
+        while self.remote_incoming_window > 0
+            && let Some(tr) = self.outgoing.pop_front()
+        {
+            self.send_transfer_frame(tr.frame);
+            if let Some(tx) = tr.tx {
+                let _ = tx.send(Ok(()));
+            }
+        }
+
         while let Some(tr) = self.pending_transfers.pop_front() {
             let _ = tr.tx.send(Ok(()));
         }
@@ -1211,28 +1237,8 @@ impl SessionInner {
         settled: bool,
         format: Option<MessageFormat>,
     ) -> Result<DeliveryNumber, AmqpProtocolError> {
-        loop {
-            if self.remote_incoming_window == 0 {
-                log::trace!(
-                    "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
-                    self.sink.tag()
-                );
-                let (tx, rx) = self.pool_credit.channel();
-                self.pending_transfers
-                    .push_back(PendingTransfer { tx, link_handle });
-
-                rx.await
-                    .map_err(|_| AmqpProtocolError::ConnectionDropped)
-                    .and_then(|v| v)?;
-                continue;
-            }
-            break;
-        }
-
-        self.remote_incoming_window -= 1;
-
-        let delivery_id = self.next_outgoing_id;
-        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        let delivery_id = self.next_delivery_id;
+        self.next_delivery_id = self.next_delivery_id.wrapping_add(1);
 
         let tr_settled = if settled {
             Some(DeliveryState::Accepted(Accepted {}))
@@ -1298,7 +1304,7 @@ impl SessionInner {
                 transfer.batchable(),
                 transfer.settled(),
             );
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
 
             loop {
                 // last chunk
@@ -1316,7 +1322,7 @@ impl SessionInner {
                 transfer.0.more = !body.is_empty();
                 transfer.0.batchable = true;
                 transfer.0.message_format = message_format;
-                self.post_frame(Frame::Transfer(transfer));
+                self.post_transfer(transfer);
             }
         } else {
             let mut transfer = Transfer(Box::default());
@@ -1333,12 +1339,62 @@ impl SessionInner {
                 self.unsettled_snd_deliveries
                     .insert(delivery_id, DeliveryInner::new(link_handle));
             }
-            self.post_frame(Frame::Transfer(transfer));
+            self.post_transfer(transfer);
+        }
+
+        // wait for the last frame of the delivery
+        if let Some(last) = self.outgoing.back_mut() {
+            let (tx, rx) = self.pool_credit.channel();
+            last.tx = Some(tx);
+
+            let result = rx
+                .await
+                .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                .and_then(|v| v);
+            if let Err(err) = result {
+                self.unsettled_snd_deliveries.remove(&delivery_id);
+                return Err(err);
+            }
         }
 
         Ok(delivery_id)
     }
 
+    /// Wait for session window, returns `None` if new delivery can be started
+    pub(crate) fn wait_window(
+        &mut self,
+        link_handle: Handle,
+    ) -> Option<pool::Receiver<Result<(), AmqpProtocolError>>> {
+        if self.remote_incoming_window == 0 || !self.outgoing.is_empty() {
+            log::trace!(
+                "{}: Remote window is 0, push to pending queue, hnd:{link_handle:?}",
+                self.sink.tag()
+            );
+            let (tx, rx) = self.pool_credit.channel();
+            self.pending_transfers
+                .push_back(PendingTransfer { tx, link_handle });
+            Some(rx)
+        } else {
+            None
+        }
+    }
+
+    /// Send transfer frame or keep it until session window is available
+    fn post_transfer(&mut self, frame: Transfer) {
+        if self.remote_incoming_window == 0 || !self.outgoing.is_empty() {
+            self.outgoing
+                .push_back(OutgoingTransfer { frame, tx: None });
+        } else {
+            self.send_transfer_frame(frame);
+        }
+    }
+
+    fn send_transfer_frame(&mut self, frame: Transfer) {
+        self.remote_incoming_window -= 1;
+        self.next_outgoing_id = self.next_outgoing_id.wrapping_add(1);
+        self.post_frame(Frame::Transfer(frame));
+    }
+
     /// Session is ended or local side already sent `End` frame
     pub(crate) fn is_ended(&self) -> bool {
         self.flags.intersects(Flags::ENDED | Flags::ENDING)
@@ -1358,3 +1414,17 @@ impl SessionInner {
         self.sink.post_frame(AmqpFrame::new(self.id(), frame));
     }
 }
+
+/// Drop not sent frames of the link
+fn drop_outgoing(queue: &mut VecDeque<OutgoingTransfer>, hnd: Handle, err: &AmqpProtocolError) {
+    queue.retain_mut(|tr| {
+        if tr.frame.handle() == hnd {
+            if let Some(tx) = tr.tx.take() {
+                let _ = tx.send(Err(err.clone()));
+            }
+            false
+        } else {
+            true
+        }
+    });
+}
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 07f998a..8bf3d62 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn remote_handle(&self) -> Handle {
-        self.remote_handle
-    }
-
     pub(crate) fn name(&self) -> &ByteString {
         &self.name
     }
@@ -332,8 +328,8 @@ impl SenderLinkInner {
         settled: bool,
         format: Option<MessageFormat>,
     ) -> Result<(DeliveryNumber, Bytes), AmqpProtocolError> {
-        if let Some(ref err) = self.error {
-            Err(err.clone())
+        if let Err(err) = self.check_opened() {
+            Err(err)
         } else {
             let body = body.into();
             let tag = self.get_tag(tag);
@@ -354,6 +350,17 @@ impl SenderLinkInner {
                     rx.await
                         .map_err(|_| AmqpProtocolError::ConnectionDropped)
                         .and_then(|v| v)?;
+                    self.check_opened()?;
+                    continue;
+                }
+
+                // wait for session window, link credit is not reserved
+                let waiter = self.session.inner.get_mut().wait_window(self.id as Handle);
+                if let Some(rx) = waiter {
+                    rx.await
+                        .map_err(|_| AmqpProtocolError::ConnectionDropped)
+                        .and_then(|v| v)?;
+                    self.check_opened()?;
                     continue;
                 }
                 break;
@@ -373,6 +380,16 @@ impl SenderLinkInner {
         }
     }
 
+    fn check_opened(&self) -> Result<(), AmqpProtocolError> {
+        if let Some(ref err) = self.error {
+            Err(err.clone())
+        } else if self.closed || self.session.inner.get_ref().is_ended() {
+            Err(AmqpProtocolError::Disconnected)
+        } else {
+            Ok(())
+        }
+    }
+
     fn get_tag(&mut self, tag: Option<Bytes>) -> Bytes {
         tag.unwrap_or_else(|| {
             let delivery_tag = self.delivery_tag;
-- 
2.43.0


From 1eb6574c2f0bc3f7f9e9a9bdd8235b79cb40c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 09/54] fix: fail pending sends when sender link is closed
 locally

---
 src/session.rs | 37 ++++++++++++++++++++++++++++---------
 src/sndlink.rs | 13 ++++++++-----
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 3c8f01b..b219bc9 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -539,6 +539,12 @@ impl SessionInner {
                         error,
                     }));
 
+                    // drop pending transfers
+                    let err = AmqpProtocolError::Disconnected;
+                    sender_link.inner.get_mut().drop_pending(&err);
+                    drop_pending(&mut self.pending_transfers, id, &err);
+                    drop_outgoing(&mut self.outgoing, id, &err);
+
                     *link = SenderLinkState::Closing(Some(tx));
                     self.post_frame(detach.clone().into());
                     self.sink
@@ -1001,16 +1007,8 @@ impl SessionInner {
                         self.links_by_name.remove(link.inner.name());
 
                         // drop pending transfers
-                        let mut idx = 0;
                         let handle = link.inner.get_ref().id() as Handle;
-                        while idx < self.pending_transfers.len() {
-                            if self.pending_transfers[idx].link_handle == handle {
-                                let tr = self.pending_transfers.remove(idx).unwrap();
-                                let _ = tr.tx.send(Err(err.clone()));
-                            } else {
-                                idx += 1;
-                            }
-                        }
+                        drop_pending(&mut self.pending_transfers, handle, &err);
                         drop_outgoing(&mut self.outgoing, handle, &err);
 
                         // drop unsettled transfers
@@ -1036,6 +1034,14 @@ impl SessionInner {
                         true
                     }
                     SenderLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_snd_deliveries.values_mut() {
+                            if delivery.handle() == idx as Handle {
+                                delivery.set_error(err.clone());
+                            }
+                        }
+
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
                                 let _ = tx.send(Err(AmqpProtocolError::LinkDetached(Some(err))));
@@ -1415,6 +1421,19 @@ impl SessionInner {
     }
 }
 
+/// Drop transfers waiting for session window
+fn drop_pending(queue: &mut VecDeque<PendingTransfer>, hnd: Handle, err: &AmqpProtocolError) {
+    let mut idx = 0;
+    while idx < queue.len() {
+        if queue[idx].link_handle == hnd {
+            let tr = queue.remove(idx).unwrap();
+            let _ = tr.tx.send(Err(err.clone()));
+        } else {
+            idx += 1;
+        }
+    }
+}
+
 /// Drop not sent frames of the link
 fn drop_outgoing(queue: &mut VecDeque<OutgoingTransfer>, hnd: Handle, err: &AmqpProtocolError) {
     queue.retain_mut(|tr| {
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 8bf3d62..d8e2524 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -248,17 +248,20 @@ impl SenderLinkInner {
             err
         );
 
-        // drop pending transfers
-        for tx in self.pending_transfers.drain(..) {
-            let _ = tx.send(Err(err.clone()));
-        }
-
+        self.drop_pending(&err);
         self.closed = true;
         self.error = Some(err);
         self.on_close.notify_and_lock_readiness();
         self.on_credit.notify_and_lock_readiness();
     }
 
+    /// Drop pending transfers
+    pub(crate) fn drop_pending(&mut self, err: &AmqpProtocolError) {
+        for tx in self.pending_transfers.drain(..) {
+            let _ = tx.send(Err(err.clone()));
+        }
+    }
+
     pub(crate) fn close(
         &mut self,
         error: Option<Error>,
-- 
2.43.0


From 9fb158067ecc932687233ca59c7aad528262867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 10/54] fix: transfer frames must fit into the peer's max frame
 size

---
 src/session.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index b219bc9..13c8f6d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1258,12 +1258,21 @@ impl SessionInner {
         };
 
         let max_frame_size = self.max_frame_size();
-        let max_frame_size = if max_frame_size > 2048 {
-            max_frame_size - 2048
-        } else if max_frame_size == 0 {
+        let max_frame_size = if max_frame_size == 0 {
             u32::MAX
         } else {
-            max_frame_size
+            // reserve size of the frame without body
+            let mut transfer = Transfer(Box::default());
+            transfer.0.handle = link_handle;
+            transfer.0.more = true;
+            transfer.0.state.clone_from(&tr_settled);
+            transfer.0.batchable = true;
+            transfer.0.delivery_id = Some(delivery_id);
+            transfer.0.delivery_tag = Some(tag.clone());
+            transfer.0.message_format = message_format;
+            transfer.0.settled = Some(settled);
+            let size = AmqpFrame::new(0, transfer.into()).encoded_size() as u32;
+            cmp::max(max_frame_size.saturating_sub(size), 1)
         } as usize;
 
         // body is larger than allowed frame size, send body as a set of transfers
-- 
2.43.0


From 0799c5cd83f93fa736f397eef32b9f7a76cd910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 11/54] fix: next-incoming-id follows received transfers

---
 src/session.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 13c8f6d..5c23e9d 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -841,6 +841,8 @@ impl SessionInner {
                     Ok(Action::None)
                 }
                 Frame::Transfer(transfer) => {
+                    self.next_incoming_id = self.next_incoming_id.wrapping_add(1);
+
                     let idx = if let Some(idx) = self.remote_handles.get(&transfer.handle()) {
                         *idx
                     } else {
@@ -875,7 +877,6 @@ impl SessionInner {
                                 }
                                 ReceiverLinkState::Established(link) => {
                                     // self.outgoing_window -= 1;
-                                    let _ = self.next_incoming_id.wrapping_add(1);
                                     Ok(link.inner.get_mut().handle_transfer(transfer, &link.inner))
                                 }
                                 ReceiverLinkState::Closing(_) => Ok(Action::None),
@@ -1192,11 +1193,7 @@ impl SessionInner {
 
         if flow.echo() {
             let flow = Flow(Box::new(codec::FlowInner {
-                next_incoming_id: if self.flags.contains(Flags::LOCAL) {
-                    Some(self.next_incoming_id)
-                } else {
-                    None
-                },
+                next_incoming_id: Some(self.next_incoming_id),
                 incoming_window: u32::MAX,
                 next_outgoing_id: self.next_outgoing_id,
                 outgoing_window: self.remote_incoming_window,
-- 
2.43.0


From af6bb1e5e73fd62001338ab1071513b7f3e49f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 12/54] fix: session window from flow frame is applied when
 frame is received

---
 src/dispatcher.rs |  2 +-
 src/session.rs    | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 3be5567..7e823c3 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -355,7 +355,7 @@ where
                     );
                 }
                 ControlFrameKind::Flow(ref frm, ref link) => {
-                    frame.session_cell().get_mut().handle_flow(frm, Some(link));
+                    link.inner.get_mut().apply_flow(frm);
                 }
                 ControlFrameKind::ProtocolError(ref err) => {
                     self.sink.set_error(err.clone());
diff --git a/src/session.rs b/src/session.rs
index 5c23e9d..4d6483e 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -822,6 +822,8 @@ impl SessionInner {
         if self.error.is_none() {
             match frame {
                 Frame::Flow(flow) => {
+                    self.handle_flow(&flow);
+
                     // apply link flow
                     if let Some(Either::Left(link)) = flow
                         .handle()
@@ -833,7 +835,6 @@ impl SessionInner {
                         }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
-                    self.handle_flow(&flow, None);
                     Ok(Action::None)
                 }
                 Frame::Disposition(disp) => {
@@ -1158,7 +1159,8 @@ impl SessionInner {
         }
     }
 
-    pub(crate) fn handle_flow(&mut self, flow: &Flow, link: Option<&SenderLink>) {
+    /// Apply session part of the `Flow` frame
+    fn handle_flow(&mut self, flow: &Flow) {
         // # AMQP1.0 2.5.6
         self.next_incoming_id = flow.next_outgoing_id();
         self.remote_outgoing_window = flow.outgoing_window();
@@ -1207,11 +1209,6 @@ impl SessionInner {
             }));
             self.post_frame(flow.into());
         }
-
-        // apply link flow
-        if let Some(link) = link {
-            link.inner.get_mut().apply_flow(flow);
-        }
     }
 
     pub(crate) fn rcv_link_flow(&mut self, handle: u32, delivery_count: u32, credit: u32) {
-- 
2.43.0


From 6454bd36ee00f2af8ca648944a64f036688dfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 13/54] fix: disposition range is applied to known deliveries
 only and could wrap

---
 src/session.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 4d6483e..f2816af 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1144,14 +1144,11 @@ impl SessionInner {
         };
 
         if let Some(to) = to {
-            for no in from..=to {
-                if let Some(delivery) = deliveries.get_mut(&no) {
+            // range is inclusive and uses serial number arithmetic
+            let len = to.wrapping_sub(from);
+            for (no, delivery) in deliveries.iter_mut() {
+                if len <= i32::MAX as u32 && no.wrapping_sub(from) <= len {
                     delivery.handle_disposition(disp);
-                } else {
-                    log::trace!(
-                        "{}: Unknown deliveryid: {no:?} disp: {disp:?}",
-                        self.sink.tag()
-                    );
                 }
             }
         } else if let Some(delivery) = deliveries.get_mut(&from) {
-- 
2.43.0


From 27d0c01fc9939960678ce21fcac6621b59128a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 14/54] fix: link credit arithmetic, flow announces total link
 credit

---
 src/rcvlink.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 884b932..e73c4ef 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -290,11 +290,11 @@ impl ReceiverLinkInner {
     }
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
-        self.credit += credit;
+        self.credit = self.credit.saturating_add(credit);
         self.session
             .inner
             .get_mut()
-            .rcv_link_flow(self.handle, self.delivery_count, credit);
+            .rcv_link_flow(self.handle, self.delivery_count, self.credit);
     }
 
     #[allow(clippy::unnecessary_unwrap)]
@@ -356,7 +356,7 @@ impl ReceiverLinkInner {
                     Action::None
                 } else {
                     // received last partial transfer
-                    self.delivery_count += 1;
+                    self.delivery_count = self.delivery_count.wrapping_add(1);
                     let partial_body = self.partial_body.take();
                     if partial_body.is_some() && !self.queue.is_empty() {
                         self.queue.back_mut().unwrap().1.0.body =
@@ -423,7 +423,7 @@ impl ReceiverLinkInner {
                     Action::None
                 }
             } else if let Some(id) = transfer.delivery_id() {
-                self.delivery_count += 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
                 let delivery = Delivery::new_rcv(
                     id,
                     self.handle,
-- 
2.43.0


From 5337168fb44f7f6be3802c655186edf01a74567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 15/54] fix: aborted deliveries are discarded

---
 src/delivery.rs |  5 +++++
 src/rcvlink.rs  | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index f5c2b70..3569767 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -101,6 +101,11 @@ impl Delivery {
         self.is_set(Flags::REMOTE_SETTLED)
     }
 
+    /// Delivery is aborted by the sender, it is implicitly settled
+    pub(crate) fn aborted(&self) {
+        self.set_flag(Flags::REMOTE_SETTLED);
+    }
+
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
         if self.is_remote_settled() {
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index e73c4ef..dc7cb0f 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -313,6 +313,18 @@ impl ReceiverLinkInner {
             let _ = self.close(Some(err));
             Action::None
         } else {
+            // sender gave up on the delivery
+            if transfer.aborted() {
+                self.credit -= 1;
+                self.delivery_count = self.delivery_count.wrapping_add(1);
+                if self.partial_body.take().is_some()
+                    && let Some((delivery, _)) = self.queue.pop_back()
+                {
+                    delivery.aborted();
+                }
+                return Action::None;
+            }
+
             if !transfer.0.more {
                 self.credit -= 1;
             }
-- 
2.43.0


From 6ce060423e533880eaa092709d5f34051cc10171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 16/54] fix: max message size applies to every message, 0 means
 unlimited

---
 src/delivery.rs |  1 +
 src/rcvlink.rs  | 25 ++++++++++++++-----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 3569767..f6b3440 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -351,6 +351,7 @@ impl TransferBuilder {
             Err(AmqpProtocolError::Disconnected)
         } else {
             if let Some(limit) = inner.max_message_size
+                && limit != 0
                 && self.data.len() > limit as usize
             {
                 return Err(AmqpProtocolError::BodyTooLarge);
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index dc7cb0f..7fe6d67 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -325,6 +325,19 @@ impl ReceiverLinkInner {
                 return Action::None;
             }
 
+            // check message size, 0 means size is not limited
+            let size = self.partial_body.as_ref().map_or(0, BytesMut::len)
+                + transfer.body().map_or(0, TransferBody::len);
+            if self.max_message_size != 0 && size as u64 > self.max_message_size {
+                let err = Error(Box::new(codec::ErrorInner {
+                    condition: LinkError::MessageSizeExceeded.into(),
+                    description: None,
+                    info: None,
+                }));
+                let _ = self.close(Some(err));
+                return Action::None;
+            }
+
             if !transfer.0.more {
                 self.credit -= 1;
             }
@@ -348,18 +361,8 @@ impl ReceiverLinkInner {
                     }
                 }
 
-                // merge transfer data and check size
+                // merge transfer data
                 if let Some(transfer_body) = transfer.0.body.take() {
-                    if body.len() + transfer_body.len() > self.max_message_size as usize {
-                        let err = Error(Box::new(codec::ErrorInner {
-                            condition: LinkError::MessageSizeExceeded.into(),
-                            description: None,
-                            info: None,
-                        }));
-                        let _ = self.close(Some(err));
-                        return Action::None;
-                    }
-
                     transfer_body.encode(body);
                 }
 
-- 
2.43.0


From ecb503860b9adcf58cef2ac39899ebd11f8af1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 17/54] fix: local receiver link uses handle and delivery count
 of the peer, max message size of attach frame

---
 src/rcvlink.rs | 8 +++++++-
 src/session.rs | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 7fe6d67..6e495bb 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -33,7 +33,7 @@ pub(crate) struct ReceiverLinkInner {
     delivery_count: u32,
     error: Option<Error>,
     partial_body: Option<BytesMut>,
-    max_message_size: u64,
+    pub(crate) max_message_size: u64,
 }
 
 impl Eq for ReceiverLink {}
@@ -258,6 +258,12 @@ impl ReceiverLinkInner {
         &self.name
     }
 
+    /// Remote side confirmed locally initiated link
+    pub(crate) fn attached(&mut self, attach: &Attach) {
+        self.remote_handle = attach.handle();
+        self.delivery_count = attach.initial_delivery_count().unwrap_or(0);
+    }
+
     pub(crate) fn detached(&mut self) {
         // drop pending transfers
         self.queue.clear();
diff --git a/src/session.rs b/src/session.rs
index f2816af..3c6fdd2 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -692,6 +692,7 @@ impl SessionInner {
             token as u32,
             &frame,
         ));
+        inner.get_mut().max_message_size = frame.max_message_size().unwrap_or(0);
         entry.insert(Either::Right(ReceiverLinkState::OpeningLocal(Some((
             inner, tx,
         )))));
@@ -944,6 +945,7 @@ impl SessionInner {
                         );
                         if let ReceiverLinkState::OpeningLocal(opt_item) = item {
                             if let Some((link, tx)) = opt_item.take() {
+                                link.get_mut().attached(attach);
                                 self.remote_handles.insert(attach.handle(), *index);
 
                                 *item = ReceiverLinkState::Established(
-- 
2.43.0


From b38d5ec84efd0bc590654bda5c93099239bcb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 18/54] fix: delivery count of local sender link is set by the
 sender

---
 src/session.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 3c6fdd2..5a14903 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -8,7 +8,7 @@ use slab::Slab;
 use ntex_amqp_codec::protocol::{
     self as codec, Accepted, Attach, Begin, DeliveryNumber, DeliveryState, Detach, Disposition,
     End, Error, Flow, Frame, Handle, MessageFormat, ReceiverSettleMode, Role, SenderSettleMode,
-    Source, Transfer, TransferBody, TransferNumber,
+    SequenceNo, Source, Transfer, TransferBody, TransferNumber,
 };
 use ntex_amqp_codec::{AmqpFrame, Encode};
 
@@ -241,7 +241,10 @@ impl Session {
 enum SenderLinkState {
     Established(EstablishedSenderLink),
     OpeningRemote,
-    Opening(Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>),
+    Opening(
+        Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
+        SequenceNo,
+    ),
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
@@ -258,12 +261,6 @@ enum ReceiverLinkState {
     Closing(Option<oneshot::Sender<Result<(), AmqpProtocolError>>>),
 }
 
-impl SenderLinkState {
-    fn is_opening(&self) -> bool {
-        matches!(self, SenderLinkState::Opening(_))
-    }
-}
-
 impl ReceiverLinkState {
     fn is_opening(&self) -> bool {
         matches!(self, ReceiverLinkState::OpeningLocal(_))
@@ -463,7 +460,10 @@ impl SessionInner {
 
         let entry = self.links.vacant_entry();
         let token = entry.key();
-        entry.insert(Either::Left(SenderLinkState::Opening(Some(tx))));
+        entry.insert(Either::Left(SenderLinkState::Opening(
+            Some(tx),
+            frame.initial_delivery_count().unwrap_or(0),
+        )));
         log::trace!(
             "{}: Local sender link opening: {:?} hnd:{token:?}",
             self.tag(),
@@ -522,7 +522,7 @@ impl SessionInner {
     ) {
         if let Some(Either::Left(link)) = self.links.get_mut(id as usize) {
             match link {
-                SenderLinkState::Opening(_) => {
+                SenderLinkState::Opening(..) => {
                     let detach = Detach(Box::new(codec::DetachInner {
                         handle: id,
                         closed,
@@ -906,7 +906,9 @@ impl SessionInner {
         if let Some(index) = self.links_by_name.get(name) {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
-                    if item.is_opening() {
+                    if let SenderLinkState::Opening(_, delivery_count) = item {
+                        // delivery count is set by the sender
+                        let delivery_count = *delivery_count;
                         log::trace!(
                             "{}: Local sender link attached: {name:?} {index} -> {}, {:?}",
                             self.sink.tag(),
@@ -915,7 +917,6 @@ impl SessionInner {
                         );
 
                         self.remote_handles.insert(attach.handle(), *index);
-                        let delivery_count = attach.initial_delivery_count().unwrap_or(0);
                         let link = Cell::new(SenderLinkInner::new(
                             *index,
                             name.clone(),
@@ -931,7 +932,7 @@ impl SessionInner {
                             SenderLinkState::Established(EstablishedSenderLink::new(link.clone())),
                         );
 
-                        if let SenderLinkState::Opening(Some(tx)) = local_sender {
+                        if let SenderLinkState::Opening(Some(tx), _) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
                     }
@@ -991,7 +992,7 @@ impl SessionInner {
         let remove = if let Some(link) = self.links.get_mut(idx) {
             match link {
                 Either::Left(link) => match link {
-                    SenderLinkState::Opening(tx) => {
+                    SenderLinkState::Opening(tx, _) => {
                         if let Some(tx) = tx.take() {
                             let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
                             let _ = tx.send(Err(err));
-- 
2.43.0


From d8d82b2e82428cd062a70930b52629103881b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 19/54] fix: attach is matched with opening local link of the
 same name and role, detach of unknown handle is ignored

---
 src/session.rs | 30 +++++++++++++++++++++++-------
 src/sndlink.rs |  4 ----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 5a14903..8da157a 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -43,6 +43,8 @@ pub(crate) struct SessionInner {
 
     links: Slab<Either<SenderLinkState, ReceiverLinkState>>,
     links_by_name: HashMap<ByteString, usize>,
+    /// Local links waiting for peer's attach, (name, is sender)
+    opening: HashMap<(ByteString, bool), usize>,
     remote_handles: HashMap<Handle, usize>,
     error: Option<AmqpProtocolError>,
     closed: condition::Condition,
@@ -309,6 +311,7 @@ impl SessionInner {
             unsettled_rcv_deliveries: HashMap::default(),
             links: Slab::new(),
             links_by_name: HashMap::default(),
+            opening: HashMap::default(),
             remote_handles: HashMap::default(),
             pending_transfers: VecDeque::new(),
             outgoing: VecDeque::new(),
@@ -368,6 +371,7 @@ impl SessionInner {
 
         // drop links
         self.links_by_name.clear();
+        self.opening.clear();
         for (_, st) in &mut self.links {
             match st {
                 Either::Left(SenderLinkState::Established(link)) => {
@@ -472,6 +476,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
+        self.opening.insert((frame.0.name.clone(), true), token);
         self.links_by_name.insert(frame.0.name.clone(), token);
         self.post_frame(Frame::Attach(frame));
         rx
@@ -699,7 +704,7 @@ impl SessionInner {
 
         frame.0.handle = token as Handle;
 
-        self.links_by_name.insert(frame.0.name.clone(), token);
+        self.opening.insert((frame.0.name.clone(), false), token);
         self.post_frame(Frame::Attach(frame));
         rx
     }
@@ -902,8 +907,9 @@ impl SessionInner {
     /// Handle `Attach` frame. return false if attach frame is remote and can not be handled
     pub(crate) fn handle_attach(&mut self, attach: &Attach, cell: Cell<SessionInner>) -> bool {
         let name = attach.name();
+        let key = (name.clone(), attach.role() == Role::Receiver);
 
-        if let Some(index) = self.links_by_name.get(name) {
+        if let Some(index) = self.opening.remove(&key).as_ref() {
             match self.links.get_mut(*index) {
                 Some(Either::Left(item)) => {
                     if let SenderLinkState::Opening(_, delivery_count) = item {
@@ -935,6 +941,9 @@ impl SessionInner {
                         if let SenderLinkState::Opening(Some(tx), _) = local_sender {
                             let _ = tx.send(Ok(link));
                         }
+                    } else {
+                        // link is closed locally, wait for detach
+                        self.remote_handles.insert(attach.handle(), *index);
                     }
                 }
                 Some(Either::Right(item)) => {
@@ -958,6 +967,9 @@ impl SessionInner {
                                 log::error!("{}: Inconsistent session state, bug", self.tag());
                             }
                         }
+                    } else {
+                        // link is closed locally, wait for detach
+                        self.remote_handles.insert(attach.handle(), *index);
                     }
                 }
                 _ => {
@@ -978,8 +990,13 @@ impl SessionInner {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
-        } else if self.links.contains(frame.handle() as usize) {
-            frame.handle() as usize
+        } else if let Some(idx) = self
+            .opening
+            .values()
+            .find(|idx| **idx == frame.handle() as usize)
+        {
+            // peer rejected link without attach
+            *idx
         } else {
             // should not happen, error
             log::info!("{}: Detaching unknown link: {frame:?}", self.tag());
@@ -1008,9 +1025,6 @@ impl SessionInner {
                         }));
                         let err = AmqpProtocolError::LinkDetached(detach.0.error.clone());
 
-                        // remove name
-                        self.links_by_name.remove(link.inner.name());
-
                         // drop pending transfers
                         let handle = link.inner.get_ref().id() as Handle;
                         drop_pending(&mut self.pending_transfers, handle, &err);
@@ -1121,6 +1135,8 @@ impl SessionInner {
                 self.links.remove(idx);
             }
             self.remote_handles.remove(&handle);
+            self.links_by_name.retain(|_, item| *item != idx);
+            self.opening.retain(|_, item| *item != idx);
         }
         action
     }
diff --git a/src/sndlink.rs b/src/sndlink.rs
index d8e2524..cee7f46 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -232,10 +232,6 @@ impl SenderLinkInner {
         self.id as u32
     }
 
-    pub(crate) fn name(&self) -> &ByteString {
-        &self.name
-    }
-
     pub(crate) fn max_message_size(&self) -> Option<u32> {
         self.max_message_size
     }
-- 
2.43.0


From a6226743e8604209879b98ff1bc67463c9b31466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 20/54] fix: remote sender link could be detached before it is
 confirmed

---
 src/cell.rs       |   4 ++
 src/connection.rs |   9 ++--
 src/session.rs    | 130 +++++++++++++++++++++++++++++++++++-----------
 3 files changed, 106 insertions(+), 37 deletions(-)

diff --git a/src/cell.rs b/src/cell.rs
index cfcaadb..2e5897c 100644
--- a/src/cell.rs
+++ b/src/cell.rs
@@ -38,6 +38,10 @@ impl<T> Cell<T> {
         unsafe { &*self.inner.as_ref().get() }
     }
 
+    pub(crate) fn ptr_eq(&self, other: &Self) -> bool {
+        Rc::ptr_eq(&self.inner, &other.inner)
+    }
+
     #[allow(clippy::mut_from_ref)]
     pub(crate) fn get_mut(&self) -> &mut T {
         unsafe { &mut *self.inner.as_ref().get() }
diff --git a/src/connection.rs b/src/connection.rs
index e0d2f1c..0684445 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -9,7 +9,6 @@ use crate::codec::protocol::{self as codec, Begin, Close, End, Error, Frame, Rol
 use crate::codec::{AmqpCodec, AmqpFrame, types};
 use crate::control::ControlQueue;
 use crate::session::{INITIAL_NEXT_OUTGOING_ID, Session, SessionInner};
-use crate::sndlink::{SenderLink, SenderLinkInner};
 use crate::{
     AmqpServiceConfig, RemoteServiceConfig, cell::Cell, error::AmqpProtocolError, types::Action,
 };
@@ -426,11 +425,9 @@ impl ConnectionInner {
                                 match attach.0.role {
                                     Role::Receiver => {
                                         // remotly opened sender link
-                                        let (id, response) =
-                                            session.get_mut().new_remote_sender(&attach);
-                                        let link = SenderLink::new(Cell::new(
-                                            SenderLinkInner::with(id, &attach, session.clone()),
-                                        ));
+                                        let (link, response) = session
+                                            .get_mut()
+                                            .new_remote_sender(session.clone(), &attach);
                                         Ok(Action::AttachSender(link, attach, response))
                                     }
                                     Role::Sender => {
diff --git a/src/session.rs b/src/session.rs
index 8da157a..bd84fe6 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -242,7 +242,7 @@ impl Session {
 #[derive(Debug)]
 enum SenderLinkState {
     Established(EstablishedSenderLink),
-    OpeningRemote,
+    OpeningRemote(Cell<SenderLinkInner>, ByteString),
     Opening(
         Option<oneshot::Sender<Result<Cell<SenderLinkInner>, AmqpProtocolError>>>,
         SequenceNo,
@@ -377,6 +377,9 @@ impl SessionInner {
                 Either::Left(SenderLinkState::Established(link)) => {
                     link.inner.get_mut().remote_detached(err.clone());
                 }
+                Either::Left(SenderLinkState::OpeningRemote(link, _)) => {
+                    link.get_mut().remote_detached(err.clone());
+                }
                 Either::Left(SenderLinkState::Closing(link)) => {
                     if let Some(tx) = link.take() {
                         let _ = tx.send(Err(err.clone()));
@@ -425,10 +428,19 @@ impl SessionInner {
     }
 
     /// Initialize creation of remote sender link
-    pub(crate) fn new_remote_sender(&mut self, attach: &Attach) -> (usize, Attach) {
-        let id = self
-            .links
-            .insert(Either::Left(SenderLinkState::OpeningRemote));
+    pub(crate) fn new_remote_sender(
+        &mut self,
+        cell: Cell<SessionInner>,
+        attach: &Attach,
+    ) -> (SenderLink, Attach) {
+        let entry = self.links.vacant_entry();
+        let id = entry.key();
+        let link = Cell::new(SenderLinkInner::with(id, attach, cell));
+        entry.insert(Either::Left(SenderLinkState::OpeningRemote(
+            link.clone(),
+            attach.name().clone(),
+        )));
+        self.remote_handles.insert(attach.handle(), id);
 
         let attach = Attach(Box::new(codec::AttachInner {
             name: attach.0.name.clone(),
@@ -447,7 +459,15 @@ impl SessionInner {
             properties: None,
         }));
 
-        (id, attach)
+        (SenderLink::new(link), attach)
+    }
+
+    /// Check if remote sender link is waiting for confirmation
+    fn is_opening_remote(&self, link: &Cell<SenderLinkInner>) -> bool {
+        matches!(
+            self.links.get(link.id),
+            Some(Either::Left(SenderLinkState::OpeningRemote(item, _))) if item.ptr_eq(link)
+        )
     }
 
     /// Open sender link
@@ -488,7 +508,15 @@ impl SessionInner {
         attach: &Attach,
         mut response: Attach,
         link: Cell<SenderLinkInner>,
-    ) -> SenderLink {
+    ) {
+        if !self.is_opening_remote(&link) {
+            log::trace!(
+                "{}: Remote sender link is gone: {:?}",
+                self.tag(),
+                attach.name()
+            );
+            return;
+        }
         log::trace!(
             "{}: Remote sender link attached: {:?}",
             self.tag(),
@@ -502,7 +530,6 @@ impl SessionInner {
             self.links_by_name.insert(addr.clone(), token);
         }
 
-        self.remote_handles.insert(attach.handle(), token);
         *self
             .links
             .get_mut(token)
@@ -514,7 +541,19 @@ impl SessionInner {
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
         self.post_frame(response.into());
-        SenderLink::new(link)
+
+        if link.closed {
+            // link is closed before confirmation
+            let detach = Detach(Box::new(codec::DetachInner {
+                handle: token as Handle,
+                closed: true,
+                error: None,
+            }));
+            self.post_frame(detach.into());
+            if let Some(item) = self.links.get_mut(token) {
+                *item = Either::Left(SenderLinkState::Closing(None));
+            }
+        }
     }
 
     /// Detach sender link
@@ -558,7 +597,7 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote => {
+                SenderLinkState::OpeningRemote(..) => {
                     let _ = tx.send(Ok(()));
                     log::error!(
                         "{}: Unexpected sender link state: opening remote - {id}",
@@ -590,34 +629,24 @@ impl SessionInner {
         error: Option<Error>,
     ) {
         let token = link.id;
+        if !self.is_opening_remote(link) {
+            return;
+        }
 
-        let attach = Attach(Box::new(codec::AttachInner {
-            name: attach.0.name.clone(),
-            handle: token as Handle,
-            role: attach.0.role,
-            snd_settle_mode: SenderSettleMode::Unsettled,
-            rcv_settle_mode: ReceiverSettleMode::First,
-            source: None,
-            target: None,
-            unsettled: None,
-            incomplete_unsettled: false,
-            initial_delivery_count: None,
-            max_message_size: None,
-            offered_capabilities: None,
-            desired_capabilities: None,
-            properties: None,
-        }));
-        self.post_frame(attach.into());
+        self.post_frame(sender_refused(token, attach.name().clone()).into());
 
         let detach = Detach(Box::new(codec::DetachInner {
             handle: token as Handle,
             closed: true,
             error,
         }));
+        link.get_mut()
+            .remote_detached(AmqpProtocolError::LinkDetached(detach.0.error.clone()));
         self.post_frame(detach.into());
 
-        if self.links.contains(token) {
-            self.links.remove(token);
+        // wait for detach from the peer
+        if let Some(item) = self.links.get_mut(token) {
+            *item = Either::Left(SenderLinkState::Closing(None));
         }
     }
 
@@ -1045,11 +1074,30 @@ impl SessionInner {
                         action = Action::DetachSender(link.clone(), frame);
                         true
                     }
-                    SenderLinkState::OpeningRemote => {
+                    SenderLinkState::OpeningRemote(link, name) => {
                         log::warn!(
                             "{}: Detach frame received for unconfirmed sender link: {frame:?}",
-                            self.tag()
+                            self.sink.tag()
                         );
+                        let link = SenderLink::new(link.clone());
+                        let name = name.clone();
+                        let detach = Detach(Box::new(codec::DetachInner {
+                            handle: link.id(),
+                            closed: true,
+                            error: None,
+                        }));
+                        link.inner
+                            .get_mut()
+                            .remote_detached(AmqpProtocolError::LinkDetached(
+                                frame.0.error.clone(),
+                            ));
+                        self.sink.post_frame(AmqpFrame::new(
+                            self.id as u16,
+                            sender_refused(idx, name).into(),
+                        ));
+                        self.sink
+                            .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
+                        action = Action::DetachSender(link, frame);
                         true
                     }
                     SenderLinkState::Closing(tx) => {
@@ -1440,6 +1488,26 @@ impl SessionInner {
     }
 }
 
+/// Attach response for rejected sender link
+fn sender_refused(id: usize, name: ByteString) -> Attach {
+    Attach(Box::new(codec::AttachInner {
+        name,
+        handle: id as Handle,
+        role: Role::Sender,
+        snd_settle_mode: SenderSettleMode::Unsettled,
+        rcv_settle_mode: ReceiverSettleMode::First,
+        source: None,
+        target: None,
+        unsettled: None,
+        incomplete_unsettled: false,
+        initial_delivery_count: Some(0),
+        max_message_size: None,
+        offered_capabilities: None,
+        desired_capabilities: None,
+        properties: None,
+    }))
+}
+
 /// Drop transfers waiting for session window
 fn drop_pending(queue: &mut VecDeque<PendingTransfer>, hnd: Handle, err: &AmqpProtocolError) {
     let mut idx = 0;
-- 
2.43.0


From da0082c8642eae39bfb05087cf30e1c7d950b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 21/54] fix: link flow received before link confirmation is not
 lost

---
 src/session.rs | 13 +++++++++++++
 src/sndlink.rs |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index bd84fe6..5070131 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -541,6 +541,14 @@ impl SessionInner {
         *response.max_message_size_mut() = link.max_message_size().map(u64::from);
 
         self.post_frame(response.into());
+        for flow in mem::take(&mut link.get_mut().opening_flows) {
+            self.sink
+                .get_control_queue()
+                .enqueue_frame(ControlFrame::new(
+                    link.session.inner.clone(),
+                    crate::ControlFrameKind::Flow(flow, SenderLink::new(link.clone())),
+                ));
+        }
 
         if link.closed {
             // link is closed before confirmation
@@ -868,6 +876,11 @@ impl SessionInner {
                         if let SenderLinkState::Established(link) = link {
                             return Ok(Action::Flow((*link).clone(), flow));
                         }
+                        if let SenderLinkState::OpeningRemote(link, _) = link {
+                            // credit is available after link confirmation
+                            link.get_mut().opening_flows.push(flow);
+                            return Ok(Action::None);
+                        }
                         log::warn!("{}: Received flow frame", self.tag());
                     }
                     Ok(Action::None)
diff --git a/src/sndlink.rs b/src/sndlink.rs
index cee7f46..49944f9 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -30,6 +30,8 @@ pub(crate) struct SenderLinkInner {
     pub(crate) error: Option<AmqpProtocolError>,
     pub(crate) closed: bool,
     pub(crate) max_message_size: Option<u32>,
+    /// Flow frames received before link is confirmed
+    pub(crate) opening_flows: Vec<Flow>,
     on_close: condition::Condition,
     on_credit: condition::Condition,
 }
@@ -198,6 +200,7 @@ impl SenderLinkInner {
             error: None,
             closed: false,
             delivery_tag: 0,
+            opening_flows: Vec::new(),
             on_close: condition::Condition::new(),
             on_credit: condition::Condition::new(),
         }
-- 
2.43.0


From fd0eb9f8f85c5187b4712b0b8699f3f71ddf9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 22/54] fix: receiver link could be detached before it is
 confirmed, handle is in use until peer's detach

---
 src/rcvlink.rs | 25 +++++++------
 src/session.rs | 98 +++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 88 insertions(+), 35 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 6e495bb..cdc4efd 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -87,11 +87,12 @@ impl ReceiverLink {
         let inner = self.inner.get_mut();
         let size = self.inner.get_ref().max_message_size;
         let size = if size != 0 { Some(size) } else { None };
-        inner
-            .session
-            .inner
-            .get_mut()
-            .confirm_receiver_link(inner.handle, response, size);
+        inner.session.inner.get_mut().confirm_receiver_link(
+            inner.handle,
+            &self.inner,
+            response,
+            size,
+        );
     }
 
     pub fn set_link_credit(&self, credit: u32) {
@@ -297,10 +298,12 @@ impl ReceiverLinkInner {
 
     pub(crate) fn set_link_credit(&mut self, credit: u32) {
         self.credit = self.credit.saturating_add(credit);
-        self.session
-            .inner
-            .get_mut()
-            .rcv_link_flow(self.handle, self.delivery_count, self.credit);
+
+        // credit is announced after link confirmation
+        let session = self.session.inner.get_mut();
+        if !self.closed && session.is_receiver_established(self.handle) {
+            session.rcv_link_flow(self.handle, self.delivery_count, self.credit);
+        }
     }
 
     #[allow(clippy::unnecessary_unwrap)]
@@ -491,7 +494,9 @@ impl std::ops::Deref for EstablishedReceiverLink {
 
 impl Drop for EstablishedReceiverLink {
     fn drop(&mut self) {
-        self.0.inner.get_mut().closed = true;
+        let inner = self.0.inner.get_mut();
+        inner.closed = true;
+        inner.wake();
     }
 }
 
diff --git a/src/session.rs b/src/session.rs
index 5070131..38925c8 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -388,6 +388,11 @@ impl SessionInner {
                 Either::Right(ReceiverLinkState::Established(link)) => {
                     link.remote_detached(None);
                 }
+                Either::Right(ReceiverLinkState::Opening(item)) => {
+                    if let Some((inner, _)) = item.take() {
+                        ReceiverLink::new(inner).remote_detached(None);
+                    }
+                }
                 _ => (),
             }
         }
@@ -749,11 +754,13 @@ impl SessionInner {
     pub(crate) fn confirm_receiver_link(
         &mut self,
         token: Handle,
+        inner: &Cell<ReceiverLinkInner>,
         mut response: Attach,
         max_message_size: Option<u64>,
     ) {
         if let Some(Either::Right(link)) = self.links.get_mut(token as usize)
             && let ReceiverLinkState::Opening(l) = link
+            && l.as_ref().as_ref().is_some_and(|(l, _)| l.ptr_eq(inner))
             && let Some((l, _)) = l.take()
         {
             *response.max_message_size_mut() = max_message_size;
@@ -765,6 +772,14 @@ impl SessionInner {
         log::error!("{}: Unexpected receiver link state", self.tag());
     }
 
+    /// Check if receiver link is established
+    pub(crate) fn is_receiver_established(&self, id: Handle) -> bool {
+        matches!(
+            self.links.get(id as usize),
+            Some(Either::Right(ReceiverLinkState::Established(_)))
+        )
+    }
+
     /// Detach receiver link
     pub(crate) fn detach_receiver_link(
         &mut self,
@@ -776,23 +791,12 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
-                    if let Some((inner, source)) = inner.take() {
-                        let attach = Attach(Box::new(codec::AttachInner {
-                            source,
-                            max_message_size: None,
-                            name: inner.name().clone(),
-                            handle: id,
-                            role: Role::Receiver,
-                            snd_settle_mode: SenderSettleMode::Mixed,
-                            rcv_settle_mode: ReceiverSettleMode::First,
-                            target: None,
-                            unsettled: None,
-                            incomplete_unsettled: false,
-                            initial_delivery_count: Some(0),
-                            offered_capabilities: None,
-                            desired_capabilities: None,
-                            properties: None,
-                        }));
+                    let attach = inner
+                        .take()
+                        .map(|(inner, source)| receiver_refused(id, inner.name().clone(), source));
+                    // wait for detach from the peer
+                    *link = ReceiverLinkState::Closing(None);
+                    if let Some(attach) = attach {
                         self.post_frame(attach.into());
                     }
                     let detach = Detach(Box::new(codec::DetachInner {
@@ -802,9 +806,6 @@ impl SessionInner {
                     }));
                     self.post_frame(detach.into());
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                 }
                 ReceiverLinkState::Established(receiver_link) => {
                     let receiver_link = receiver_link.clone();
@@ -823,15 +824,23 @@ impl SessionInner {
                 }
                 ReceiverLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-                    if self.links.contains(id as usize) {
-                        let _ = self.links.remove(id as usize);
-                    }
                     log::error!(
                         "{}: Unexpected receiver link state: closing - {id}",
                         self.tag()
                     );
                 }
-                ReceiverLinkState::OpeningLocal(_inner) => unimplemented!(),
+                ReceiverLinkState::OpeningLocal(inner) => {
+                    if let Some((inner, _)) = inner.take() {
+                        inner.get_mut().detached();
+                    }
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    }));
+                    *link = ReceiverLinkState::Closing(Some(tx));
+                    self.post_frame(detach.into());
+                }
             }
         } else {
             let _ = tx.send(Ok(()));
@@ -1133,7 +1142,26 @@ impl SessionInner {
                     }
                 },
                 Either::Right(link) => match link {
-                    ReceiverLinkState::Opening(_) => false,
+                    ReceiverLinkState::Opening(item) => {
+                        // link is detached before confirmation
+                        if let Some((inner, source)) = item.take() {
+                            let link = ReceiverLink::new(inner);
+                            let attach =
+                                receiver_refused(idx as Handle, link.name().clone(), source);
+                            let detach = Detach(Box::new(codec::DetachInner {
+                                handle: idx as Handle,
+                                closed: true,
+                                error: None,
+                            }));
+                            self.sink
+                                .post_frame(AmqpFrame::new(self.id as u16, attach.into()));
+                            self.sink
+                                .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
+                            link.remote_detached(frame.0.error.take());
+                            action = Action::DetachReceiver(link, frame);
+                        }
+                        true
+                    }
                     ReceiverLinkState::OpeningLocal(item) => {
                         if let Some((inner, tx)) = item.take() {
                             inner.get_mut().detached();
@@ -1501,6 +1529,26 @@ impl SessionInner {
     }
 }
 
+/// Attach response for rejected receiver link
+fn receiver_refused(id: Handle, name: ByteString, source: Option<Source>) -> Attach {
+    Attach(Box::new(codec::AttachInner {
+        source,
+        max_message_size: None,
+        name,
+        handle: id,
+        role: Role::Receiver,
+        snd_settle_mode: SenderSettleMode::Mixed,
+        rcv_settle_mode: ReceiverSettleMode::First,
+        target: None,
+        unsettled: None,
+        incomplete_unsettled: false,
+        initial_delivery_count: Some(0),
+        offered_capabilities: None,
+        desired_capabilities: None,
+        properties: None,
+    }))
+}
+
 /// Attach response for rejected sender link
 fn sender_refused(id: usize, name: ByteString) -> Attach {
     Attach(Box::new(codec::AttachInner {
-- 
2.43.0


From 75fbb4a5c5ebfc07ded2ad7f73600f6e4d26f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 23/54] fix: router releases handler of the link detached
 during handler creation

---
 src/router.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/router.rs b/src/router.rs
index cc1a97c..0263608 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -99,6 +99,12 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                         match hnd.create(link).await {
                             Ok(srv) => {
                                 log::trace!("Handler service is created for {}", rcv_link.name());
+                                if rcv_link.is_closed() {
+                                    // link is detached already
+                                    self.0.get_mut().handlers.remove(&rcv_link);
+                                    Pipeline::new(srv).shutdown().await;
+                                    return Ok(());
+                                }
                                 self.0
                                     .get_mut()
                                     .handlers
@@ -114,6 +120,7 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                     "Failed to create link service for {} err: {e:?}",
                                     rcv_link.name()
                                 );
+                                self.0.get_mut().handlers.remove(&rcv_link);
                                 Err(e)
                             }
                         }
-- 
2.43.0


From 71ad7961d77920334f948d5afc10f66ad3b5621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 24/54] fix: notify service about locally detached receiver
 links

---
 src/dispatcher.rs | 49 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 7e823c3..711aa78 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -9,7 +9,9 @@ use ntex_util::{future::Either, task::LocalWaker};
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame};
 use crate::error::{AmqpDispatcherError, AmqpProtocolError, Error};
-use crate::{ControlFrame, ControlFrameKind, ReceiverLink, connection::Connection, types};
+use crate::{
+    ControlFrame, ControlFrameKind, ReceiverLink, SenderLink, connection::Connection, types,
+};
 
 /// Amqp server dispatcher service.
 pub(crate) struct Dispatcher<Sr: Service<types::Message>, Ctl: Service<ControlFrame>> {
@@ -48,6 +50,13 @@ where
         }
     }
 
+    fn call_service(&self, msg: types::Message) {
+        let fut = self.service.call(msg);
+        spawn(async move {
+            let _ = fut.await;
+        });
+    }
+
     fn call_control_service(&self, frame: ControlFrame) {
         let fut = self.ctl_service.call(frame.clone());
         self.ctl_fut.borrow_mut().push((frame, fut));
@@ -55,6 +64,16 @@ where
     }
 }
 
+fn receivers(links: &[Either<SenderLink, ReceiverLink>]) -> Vec<ReceiverLink> {
+    links
+        .iter()
+        .filter_map(|either| match either {
+            Either::Right(link) => Some(link.clone()),
+            Either::Left(_) => None,
+        })
+        .collect()
+}
+
 impl<Sr, Ctl> Service<DispatchItem<AmqpCodec<AmqpFrame>>> for Dispatcher<Sr, Ctl>
 where
     Sr: Service<types::Message, Response = ()> + 'static,
@@ -111,6 +130,15 @@ where
 
         // enqueue pending control frames
         queue.pending.borrow_mut().drain(..).for_each(|frame| {
+            match frame.kind() {
+                ControlFrameKind::LocalDetachReceiver(_, link) => {
+                    self.call_service(types::Message::Detached(link.clone()));
+                }
+                ControlFrameKind::LocalSessionEnded(links) => {
+                    self.call_service(types::Message::DetachedAll(receivers(links)));
+                }
+                _ => (),
+            }
             let fut = self.ctl_service.call(frame.clone());
             futs.push((frame, fut));
         });
@@ -224,29 +252,14 @@ where
                         ));
                     }
                     types::Action::DetachReceiver(link, frm) => {
-                        let lnk = link.clone();
-                        let fut = self.service.call(types::Message::Detached(lnk));
-                        spawn(async move {
-                            let _ = fut.await;
-                        });
+                        self.call_service(types::Message::Detached(link.clone()));
                         self.call_control_service(ControlFrame::new(
                             link.session().inner.clone(),
                             ControlFrameKind::RemoteDetachReceiver(frm, link),
                         ));
                     }
                     types::Action::SessionEnded(links) => {
-                        let receivers = links
-                            .iter()
-                            .filter_map(|either| match either {
-                                Either::Right(link) => Some(link.clone()),
-                                Either::Left(_) => None,
-                            })
-                            .collect();
-
-                        let fut = self.service.call(types::Message::DetachedAll(receivers));
-                        spawn(async move {
-                            let _ = fut.await;
-                        });
+                        self.call_service(types::Message::DetachedAll(receivers(&links)));
                         self.call_control_service(ControlFrame::new_kind(
                             ControlFrameKind::RemoteSessionEnded(links),
                         ));
-- 
2.43.0


From 70d8906e4d953af92584d7b409d11c967fcde75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 25/54] fix: channel number must not exceed negotiated channel
 max

---
 src/connection.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index 0684445..818c7dc 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -1,4 +1,4 @@
-use std::{fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
+use std::{cmp, fmt, future::Future, ops, pin::Pin, rc::Rc, task::Context, task::Poll};
 
 use ntex_io::{IoConfig, IoRef};
 use ntex_service::cfg::Cfg;
@@ -68,7 +68,7 @@ impl Connection {
             control_queue: Rc::default(),
             error: None,
             on_close: Condition::new(),
-            channel_max: local_config.channel_max,
+            channel_max: cmp::min(local_config.channel_max, remote_config.channel_max),
             max_frame_size: remote_config.max_frame_size,
         })))
     }
@@ -254,6 +254,10 @@ impl ConnectionInner {
 
         let entry = self.sessions.vacant_entry();
         let local_token = entry.key();
+        if local_token > self.channel_max as usize {
+            log::trace!("{}: Too many channels: {local_token:?}", self.io.tag());
+            return Err(AmqpProtocolError::TooManyChannels);
+        }
         let outgoing_window = begin.incoming_window();
 
         let session = Cell::new(SessionInner::new(
@@ -586,7 +590,7 @@ async fn open_session(
         let entry = inner.sessions.vacant_entry();
         let token = entry.key();
 
-        if token >= inner.channel_max as usize {
+        if token > inner.channel_max as usize {
             log::trace!("{}: Too many channels: {:?}", inner.io.tag(), token);
             Err(AmqpProtocolError::TooManyChannels)
         } else {
-- 
2.43.0


From 83e1159b8750510c87091bbbc045e310a9092d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:49 +0000
Subject: [PATCH 26/54] fix: sender link closed before confirmation is refused
 with the error of the application

---
 src/session.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index 38925c8..7a28627 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -554,19 +554,6 @@ impl SessionInner {
                     crate::ControlFrameKind::Flow(flow, SenderLink::new(link.clone())),
                 ));
         }
-
-        if link.closed {
-            // link is closed before confirmation
-            let detach = Detach(Box::new(codec::DetachInner {
-                handle: token as Handle,
-                closed: true,
-                error: None,
-            }));
-            self.post_frame(detach.into());
-            if let Some(item) = self.links.get_mut(token) {
-                *item = Either::Left(SenderLinkState::Closing(None));
-            }
-        }
     }
 
     /// Detach sender link
@@ -610,12 +597,22 @@ impl SessionInner {
                             crate::ControlFrameKind::LocalDetachSender(detach, sender_link),
                         ));
                 }
-                SenderLinkState::OpeningRemote(..) => {
-                    let _ = tx.send(Ok(()));
-                    log::error!(
-                        "{}: Unexpected sender link state: opening remote - {id}",
-                        self.tag()
-                    );
+                SenderLinkState::OpeningRemote(inner, name) => {
+                    // refuse link, it is not confirmed yet
+                    let attach = sender_refused(id as usize, name.clone());
+                    let detach = Detach(Box::new(codec::DetachInner {
+                        handle: id,
+                        closed,
+                        error,
+                    }));
+                    let inner = inner.clone();
+                    *link = SenderLinkState::Closing(Some(tx));
+
+                    inner
+                        .get_mut()
+                        .remote_detached(AmqpProtocolError::LinkDetached(None));
+                    self.post_frame(attach.into());
+                    self.post_frame(detach.into());
                 }
                 SenderLinkState::Closing(_) => {
                     let _ = tx.send(Ok(()));
-- 
2.43.0


From a5a454082085449b532add8a7ab2ae6886b12f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 27/54] fix: link detached by handle is closed locally

---
 src/rcvlink.rs |  6 ++++++
 src/session.rs | 10 ++++++----
 src/sndlink.rs |  8 ++++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index cdc4efd..3270148 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -265,6 +265,12 @@ impl ReceiverLinkInner {
         self.delivery_count = attach.initial_delivery_count().unwrap_or(0);
     }
 
+    /// Link is detached locally, received transfers are available
+    pub(crate) fn locally_detached(&mut self) {
+        self.closed = true;
+        self.wake();
+    }
+
     pub(crate) fn detached(&mut self) {
         // drop pending transfers
         self.queue.clear();
diff --git a/src/session.rs b/src/session.rs
index 7a28627..b2fd38c 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -585,7 +585,7 @@ impl SessionInner {
 
                     // drop pending transfers
                     let err = AmqpProtocolError::Disconnected;
-                    sender_link.inner.get_mut().drop_pending(&err);
+                    sender_link.inner.get_mut().locally_detached(&err);
                     drop_pending(&mut self.pending_transfers, id, &err);
                     drop_outgoing(&mut self.outgoing, id, &err);
 
@@ -788,9 +788,10 @@ impl SessionInner {
         if let Some(Either::Right(link)) = self.links.get_mut(id as usize) {
             match link {
                 ReceiverLinkState::Opening(inner) => {
-                    let attach = inner
-                        .take()
-                        .map(|(inner, source)| receiver_refused(id, inner.name().clone(), source));
+                    let attach = inner.take().map(|(inner, source)| {
+                        inner.get_mut().locally_detached();
+                        receiver_refused(id, inner.name().clone(), source)
+                    });
                     // wait for detach from the peer
                     *link = ReceiverLinkState::Closing(None);
                     if let Some(attach) = attach {
@@ -812,6 +813,7 @@ impl SessionInner {
                         error,
                     }));
                     *link = ReceiverLinkState::Closing(Some(tx));
+                    receiver_link.inner.get_mut().locally_detached();
                     self.post_frame(detach.clone().into());
                     self.sink
                         .get_control_queue()
diff --git a/src/sndlink.rs b/src/sndlink.rs
index 49944f9..b935d4f 100644
--- a/src/sndlink.rs
+++ b/src/sndlink.rs
@@ -254,6 +254,14 @@ impl SenderLinkInner {
         self.on_credit.notify_and_lock_readiness();
     }
 
+    /// Link is detached locally
+    pub(crate) fn locally_detached(&mut self, err: &AmqpProtocolError) {
+        self.drop_pending(err);
+        self.closed = true;
+        self.on_close.notify_and_lock_readiness();
+        self.on_credit.notify_and_lock_readiness();
+    }
+
     /// Drop pending transfers
     pub(crate) fn drop_pending(&mut self, err: &AmqpProtocolError) {
         for tx in self.pending_transfers.drain(..) {
-- 
2.43.0


From 23f584afdd402c02b4a634bae37c6ac2246ddf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:31 +0000
Subject: [PATCH 28/54] fix: nothing could be sent after local close, dependent
 operations complete

---
 src/connection.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection.rs b/src/connection.rs
index 818c7dc..fd7a428 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -224,6 +224,8 @@ impl ConnectionInner {
             self.state = ConnectionState::Closing;
         }
         self.io.close();
+        // nothing could be sent anymore
+        self.set_error(AmqpProtocolError::Disconnected);
     }
 
     pub(crate) fn post_frame(&mut self, frame: AmqpFrame) {
-- 
2.43.0


From ae181557c4c0a35a646099dddd2783b3e8d11c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 29/54] fix: size of compound value smaller than its count is a
 parse error

---
 codec/src/codec/decode.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 8985fcc..4aee262 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -594,7 +594,7 @@ fn decode_frame_header(input: &mut Bytes, expected_frame_type: u8) -> Result<u16
 
 fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 2);
-    let size = input[0] - 1; // -1 for 1 byte count
+    let size = input[0].checked_sub(1).ok_or(AmqpParseError::InvalidSize)?; // -1 for 1 byte count
     let count = input[1];
     input.advance(2);
     Ok((u32::from(size), u32::from(count)))
@@ -602,7 +602,9 @@ fn decode_compound8(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
 
 fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     decode_check_len!(input, 8);
-    let size = BigEndian::read_u32(input) - 4; // -4 for 4 byte count
+    let size = BigEndian::read_u32(input)
+        .checked_sub(4)
+        .ok_or(AmqpParseError::InvalidSize)?; // -4 for 4 byte count
     let count = BigEndian::read_u32(&input[4..]);
     input.advance(8);
     Ok((size, count))
-- 
2.43.0


From 661b7a72b4497dac8b7dcfb67757287f6264340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 30/54] fix: allocation is limited by the size of the input

---
 codec/src/codec/decode.rs | 21 ++++++++++++++-------
 codec/src/types/array.rs  |  6 ++++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 4aee262..9bc3706 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -247,8 +247,10 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map: collections::HashMap<K, V, S> =
-            collections::HashMap::with_capacity_and_hasher(count as usize, Default::default());
+        let mut map: collections::HashMap<K, V, S> = collections::HashMap::with_capacity_and_hasher(
+            capacity(count, &map_input),
+            Default::default(),
+        );
         for _ in 0..count {
             let key = K::decode(&mut map_input)?;
             let value = V::decode(&mut map_input)?;
@@ -271,7 +273,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, input));
         for _ in 0..header.count {
             let decoded = T::decode_with_format(input, elem_fmt)?;
             result.push(decoded);
@@ -287,7 +289,7 @@ impl DecodeFormatted for VecSymbolMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -304,7 +306,7 @@ impl DecodeFormatted for VecStringMap {
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
         let count = header.count / 2;
-        let mut map = Vec::with_capacity(count as usize);
+        let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
@@ -338,7 +340,7 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, input));
         for _ in 0..header.count {
             let decoded = Variant::decode(input)?;
             result.push(decoded);
@@ -352,7 +354,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
         let header = ListHeader::decode_with_format(input, fmt)?;
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(header.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, input));
         for _ in 0..header.count {
             if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
                 if &descr != decoded.descriptor() {
@@ -610,6 +612,11 @@ fn decode_compound32(input: &mut Bytes) -> Result<(u32, u32), AmqpParseError> {
     Ok((size, count))
 }
 
+/// Number of items is set by the peer, there could not be more items than bytes
+pub(crate) fn capacity(count: u32, input: &Bytes) -> usize {
+    (count as usize).min(input.len())
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     let seconds = millis / 1000;
     if seconds < 0 {
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index 5dc5337..be91172 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -1,6 +1,8 @@
 use ntex_bytes::{BufMut, Bytes, BytesMut};
 
-use crate::codec::{self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode};
+use crate::codec::{
+    self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode, decode::capacity,
+};
 use crate::error::AmqpParseError;
 use crate::types::Constructor;
 
@@ -39,7 +41,7 @@ impl Array {
     /// AMQP type of array's element constructor. Use `Array::element_constructor` to access full constructor if needed.
     pub fn decode<T: DecodeFormatted>(&self) -> Result<Vec<T>, AmqpParseError> {
         let mut buf = self.payload.clone();
-        let mut result: Vec<T> = Vec::with_capacity(self.count as usize);
+        let mut result: Vec<T> = Vec::with_capacity(capacity(self.count, &buf));
         for _ in 0..self.count {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
-- 
2.43.0


From d91b18dc4fa37e18cea9fc04f30b2e4c1a303969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 31/54] fix: timestamps before 1970 are decoded correctly

---
 codec/src/codec/decode.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 9bc3706..b8e8e5a 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -618,21 +618,9 @@ pub(crate) fn capacity(count: u32, input: &Bytes) -> usize {
 }
 
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
-    let seconds = millis / 1000;
-    if seconds < 0 {
-        // In order to handle time before 1970 correctly, we need to subtract a second
-        // and use the nanoseconds field to add it back. This is a result of the nanoseconds
-        // parameter being u32
-        let nanoseconds = ((1000 + (millis - (seconds * 1000))) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds - 1, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    } else {
-        let nanoseconds = ((millis - (seconds * 1000)) * 1_000_000).unsigned_abs();
-        Utc.timestamp_opt(seconds, nanoseconds as u32)
-            .earliest()
-            .ok_or(AmqpParseError::DatetimeParseError)
-    }
+    Utc.timestamp_millis_opt(millis)
+        .earliest()
+        .ok_or(AmqpParseError::DatetimeParseError)
 }
 
 fn read_fixed_bytes<const N: usize>(input: &mut Bytes) -> Result<[u8; N], AmqpParseError> {
-- 
2.43.0


From 1c72949af89cccec6ad91eee425c20d32346fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 32/54] fix: size of the message is recalculated after every
 change

---
 codec/src/message/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/src/message/message.rs b/codec/src/message/message.rs
index 3ceb4cb..0337586 100644
--- a/codec/src/message/message.rs
+++ b/codec/src/message/message.rs
@@ -109,6 +109,7 @@ impl Message {
     #[inline]
     /// Mut ref tp application property
     pub fn app_properties_mut(&mut self) -> Option<&mut VecStringMap> {
+        self.0.size.set(0);
         self.0.application_properties.as_mut()
     }
 
@@ -181,6 +182,7 @@ impl Message {
     #[inline]
     /// Mut reference to message annotations
     pub fn message_annotations_mut(&mut self) -> Option<&mut VecSymbolMap> {
+        self.0.size.set(0);
         self.0.message_annotations.as_mut()
     }
 
@@ -193,6 +195,7 @@ impl Message {
     #[inline]
     /// Mut reference to delivery annotations
     pub fn delivery_annotations_mut(&mut self) -> Option<&mut VecSymbolMap> {
+        self.0.size.set(0);
         self.0.delivery_annotations.as_mut()
     }
 
@@ -229,6 +232,7 @@ impl Message {
     #[inline]
     /// Mutable message body
     pub fn body_mut(&mut self) -> &mut MessageBody {
+        self.0.size.set(0);
         &mut self.0.body
     }
 
@@ -242,6 +246,7 @@ impl Message {
     /// Set message body value
     pub fn set_value<V: Into<Variant>>(&mut self, v: V) -> &mut Self {
         self.0.body.value = Some(v.into());
+        self.0.size.set(0);
         self
     }
 
-- 
2.43.0


From 1bc6529e35e25b82e57b4eadf5e97de4710cd65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:17 +0000
Subject: [PATCH 33/54] fix: nesting of decoded values is limited

---
 codec/src/codec/decode.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index b8e8e5a..b47aed0 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -1,4 +1,4 @@
-use std::{char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
+use std::{cell::Cell, char, collections, convert::TryFrom, hash::BuildHasher, hash::Hash};
 
 use byteorder::{BigEndian, ByteOrder};
 use chrono::{DateTime, TimeZone, Utc};
@@ -370,8 +370,38 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     }
 }
 
+/// Values could not be nested deeper than this limit
+const MAX_NESTING: usize = 128;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Guards against stack overflow, depth of the value is set by the peer
+struct Nesting;
+
+impl Nesting {
+    fn enter() -> Result<Nesting, AmqpParseError> {
+        NESTING.with(|depth| {
+            if depth.get() < MAX_NESTING {
+                depth.set(depth.get() + 1);
+                Ok(Nesting)
+            } else {
+                Err(AmqpParseError::UnexpectedType("Value is nested too deep"))
+            }
+        })
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|depth| depth.set(depth.get() - 1));
+    }
+}
+
 impl DecodeFormatted for Variant {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
+        let _nesting = Nesting::enter()?;
         match fmt {
             codec::FORMATCODE_NULL => Ok(Variant::Null),
             codec::FORMATCODE_BOOLEAN => bool::decode_with_format(input, fmt).map(Variant::Boolean),
-- 
2.43.0


From 0498b701e397c8a8250e57ecef68803f02910bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:17 +0000
Subject: [PATCH 34/54] fix: replenish credit of router links consumed by
 aborted deliveries

---
 src/rcvlink.rs |  9 ++++++++-
 src/router.rs  | 11 +++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 3270148..99bdc66 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -337,7 +337,14 @@ impl ReceiverLinkInner {
                 {
                     delivery.aborted();
                 }
-                return Action::None;
+                // no delivery is going to replenish credit of the link
+                return if self.credit == 0 {
+                    Action::Transfer(ReceiverLink {
+                        inner: inner.clone(),
+                    })
+                } else {
+                    Action::None
+                };
             }
 
             // check message size, 0 means size is not limited
diff --git a/src/router.rs b/src/router.rs
index 0263608..6416baf 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -189,10 +189,13 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                 Ok(())
             }
             Message::Transfer(link) => {
-                if let Some(Some(_)) = self.0.get_ref().handlers.get(&link)
-                    && let Some((delivery, tr)) = link.get_delivery()
-                {
-                    service_call(link, delivery, tr, &self.0).await?;
+                if let Some(Some(_)) = self.0.get_ref().handlers.get(&link) {
+                    if let Some((delivery, tr)) = link.get_delivery() {
+                        service_call(link, delivery, tr, &self.0).await?;
+                    } else if link.credit() == 0 && !link.has_deliveries() {
+                        // credit is consumed by aborted deliveries
+                        link.set_link_credit(50);
+                    }
                 }
                 Ok(())
             }
-- 
2.43.0


From 23f936bc185adf0b2616630b0758ba74eb130b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:38 +0000
Subject: [PATCH 35/54] fix: hash variant maps instead of panicking

---
 codec/src/types/variant.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/variant.rs b/codec/src/types/variant.rs
index 1c56460..5a8e158 100644
--- a/codec/src/types/variant.rs
+++ b/codec/src/types/variant.rs
@@ -253,8 +253,9 @@ impl VariantMap {
 
 #[allow(clippy::derived_hash_with_manual_eq)]
 impl Hash for VariantMap {
-    fn hash<H: Hasher>(&self, _state: &mut H) {
-        unimplemented!()
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // entries have no order
+        self.map.len().hash(state);
     }
 }
 
-- 
2.43.0


From ed1ef1ac076519faba3c52c32439317c509fbb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 36/54] fix: decode descriptors in ulong0 form

---
 codec/src/codec/decode.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index b47aed0..33e7494 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -514,10 +514,9 @@ impl<T: DecodeFormatted> DecodeFormatted for Option<T> {
 impl DecodeFormatted for Descriptor {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         match fmt {
-            codec::FORMATCODE_SMALLULONG => {
+            codec::FORMATCODE_SMALLULONG | codec::FORMATCODE_ULONG | codec::FORMATCODE_ULONG_0 => {
                 u64::decode_with_format(input, fmt).map(Descriptor::Ulong)
             }
-            codec::FORMATCODE_ULONG => u64::decode_with_format(input, fmt).map(Descriptor::Ulong),
             codec::FORMATCODE_SYMBOL8 => {
                 Symbol::decode_with_format(input, fmt).map(Descriptor::Symbol)
             }
-- 
2.43.0


From 637bb4f3bcab9862a29d979099751c80f4e6fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 37/54] fix: respect the declared size of lists

---
 codec/src/codec/decode.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index 33e7494..db20c91 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -340,11 +340,14 @@ impl<T: DecodeFormatted> DecodeFormatted for Multiple<T> {
 impl DecodeFormatted for List {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
-        let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, input));
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
+        let mut result: Vec<Variant> = Vec::with_capacity(capacity(header.count, &list_input));
         for _ in 0..header.count {
-            let decoded = Variant::decode(input)?;
+            let decoded = Variant::decode(&mut list_input)?;
             result.push(decoded);
         }
+        check_end(&list_input)?;
         Ok(List(result))
     }
 }
@@ -352,11 +355,13 @@ impl DecodeFormatted for List {
 impl<T: Composite> DecodeFormatted for ListDescribed<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ListHeader::decode_with_format(input, fmt)?;
+        decode_check_len!(input, header.size as usize);
+        let mut list_input = input.split_to(header.size as usize);
 
         let descr = T::descriptor();
-        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, input));
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, &list_input));
         for _ in 0..header.count {
-            if let Variant::DescribedCompound(decoded) = Variant::decode(input)? {
+            if let Variant::DescribedCompound(decoded) = Variant::decode(&mut list_input)? {
                 if &descr != decoded.descriptor() {
                     return Err(AmqpParseError::UnexpectedType("Unexpected descriptor"));
                 }
@@ -365,6 +370,7 @@ impl<T: Composite> DecodeFormatted for ListDescribed<T> {
                 return Err(AmqpParseError::UnexpectedType("Expected compound type"));
             }
         }
+        check_end(&list_input)?;
 
         Ok(ListDescribed(result))
     }
@@ -646,6 +652,15 @@ pub(crate) fn capacity(count: u32, input: &Bytes) -> usize {
     (count as usize).min(input.len())
 }
 
+/// Size of the compound value is set by the peer, items have to take all of it
+pub(crate) fn check_end(input: &Bytes) -> Result<(), AmqpParseError> {
+    if input.is_empty() {
+        Ok(())
+    } else {
+        Err(AmqpParseError::InvalidSize)
+    }
+}
+
 fn datetime_from_millis(millis: i64) -> Result<DateTime<Utc>, AmqpParseError> {
     Utc.timestamp_millis_opt(millis)
         .earliest()
-- 
2.43.0


From b8fa685f94f02c39fb092ca479760108c2e88d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 38/54] fix: refuse maps with an odd number of items or with
 bytes left

---
 codec/src/codec/decode.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index db20c91..fb80cbd 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -246,7 +246,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
         let header = MapHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
+        let count = map_pairs(header.count)?;
         let mut map: collections::HashMap<K, V, S> = collections::HashMap::with_capacity_and_hasher(
             capacity(count, &map_input),
             Default::default(),
@@ -256,7 +256,7 @@ impl<K: Decode + Eq + Hash, V: Decode, S: BuildHasher + Default> DecodeFormatted
             let value = V::decode(&mut map_input)?;
             map.insert(key, value); // todo: ensure None returned?
         }
-        // todo: validate map_input is empty
+        check_end(&map_input)?;
         Ok(map)
     }
 }
@@ -288,14 +288,14 @@ impl DecodeFormatted for VecSymbolMap {
         let header = MapHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
+        let count = map_pairs(header.count)?;
         let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Symbol::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
             map.push((key, value)); // todo: mg: ensure None is returned
         }
-        // todo: ensure header.size bytes were read out from input after header
+        check_end(&map_input)?;
         Ok(VecSymbolMap(map))
     }
 }
@@ -305,14 +305,14 @@ impl DecodeFormatted for VecStringMap {
         let header = MapHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
         let mut map_input = input.split_to(header.size as usize);
-        let count = header.count / 2;
+        let count = map_pairs(header.count)?;
         let mut map = Vec::with_capacity(capacity(count, &map_input));
         for _ in 0..count {
             let key = Str::decode(&mut map_input)?;
             let value = Variant::decode(&mut map_input)?;
             map.push((key, value)); // todo: ensure None returned?
         }
-        // todo: validate map_input is empty
+        check_end(&map_input)?;
         Ok(VecStringMap(map))
     }
 }
@@ -652,6 +652,15 @@ pub(crate) fn capacity(count: u32, input: &Bytes) -> usize {
     (count as usize).min(input.len())
 }
 
+/// Keys and values come in pairs
+fn map_pairs(count: u32) -> Result<u32, AmqpParseError> {
+    if count.is_multiple_of(2) {
+        Ok(count / 2)
+    } else {
+        Err(AmqpParseError::InvalidSize)
+    }
+}
+
 /// Size of the compound value is set by the peer, items have to take all of it
 pub(crate) fn check_end(input: &Bytes) -> Result<(), AmqpParseError> {
     if input.is_empty() {
-- 
2.43.0


From fb62cc64915ecff0f2d898374c09aa85f0f38682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:48 +0000
Subject: [PATCH 39/54] fix: respect the declared size of arrays

---
 codec/src/codec/decode.rs | 9 +++++----
 codec/src/types/array.rs  | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/codec/src/codec/decode.rs b/codec/src/codec/decode.rs
index fb80cbd..3784b55 100644
--- a/codec/src/codec/decode.rs
+++ b/codec/src/codec/decode.rs
@@ -265,7 +265,8 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
     fn decode_with_format(input: &mut Bytes, fmt: u8) -> Result<Self, AmqpParseError> {
         let header = ArrayHeader::decode_with_format(input, fmt)?;
         decode_check_len!(input, header.size as usize);
-        let elem_ctor = Constructor::decode(input)?;
+        let mut array_input = input.split_to(header.size as usize);
+        let elem_ctor = Constructor::decode(&mut array_input)?;
         let elem_fmt = match elem_ctor {
             Constructor::FormatCode(code) => code,
             Constructor::Described { descriptor, .. } => {
@@ -273,12 +274,12 @@ impl<T: DecodeFormatted> DecodeFormatted for Vec<T> {
                 return Err(AmqpParseError::InvalidDescriptor(Box::new(descriptor)));
             }
         };
-        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, input));
+        let mut result: Vec<T> = Vec::with_capacity(capacity(header.count, &array_input));
         for _ in 0..header.count {
-            let decoded = T::decode_with_format(input, elem_fmt)?;
+            let decoded = T::decode_with_format(&mut array_input, elem_fmt)?;
             result.push(decoded);
         }
-        // todo: ensure header.size bytes were read out from input
+        check_end(&array_input)?;
         Ok(result)
     }
 }
diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index be91172..c46218c 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -2,6 +2,7 @@ use ntex_bytes::{BufMut, Bytes, BytesMut};
 
 use crate::codec::{
     self, ArrayEncode, ArrayHeader, Decode, DecodeFormatted, Encode, decode::capacity,
+    decode::check_end,
 };
 use crate::error::AmqpParseError;
 use crate::types::Constructor;
@@ -46,6 +47,7 @@ impl Array {
             let decoded = T::decode_with_format(&mut buf, self.element_constructor.format_code())?;
             result.push(decoded);
         }
+        check_end(&buf)?;
         Ok(result)
     }
 }
-- 
2.43.0


From dbd2d2d3156e4874664d730f4d0848ed10f8765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:49 +0000
Subject: [PATCH 40/54] fix: do not truncate the number of array elements
 without content

---
 codec/src/types/array.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/codec/src/types/array.rs b/codec/src/types/array.rs
index c46218c..a3e3b3f 100644
--- a/codec/src/types/array.rs
+++ b/codec/src/types/array.rs
@@ -34,6 +34,11 @@ impl Array {
         }
     }
 
+    /// Number of elements could be larger than their size, elements of some types have no content
+    fn is_array32(&self, ctor_len: usize) -> bool {
+        self.payload.len() + ctor_len + 1 > u8::MAX as usize || self.count > u8::MAX as u32
+    }
+
     pub fn element_constructor(&self) -> &Constructor {
         &self.element_constructor
     }
@@ -64,7 +69,7 @@ where
 impl Encode for Array {
     fn encoded_size(&self) -> usize {
         let ctor_len = self.element_constructor.encoded_size();
-        let header_len = if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        let header_len = if self.is_array32(ctor_len) {
             9 // 1 for format code, 4 for size, 4 for count
         } else {
             3 // 1 for format code, 1 for size, 1 for count
@@ -75,7 +80,7 @@ impl Encode for Array {
 
     fn encode(&self, buf: &mut BytesMut) {
         let ctor_len = self.element_constructor.encoded_size();
-        if self.payload.len() + ctor_len + 1 > u8::MAX as usize {
+        if self.is_array32(ctor_len) {
             buf.put_u8(codec::FORMATCODE_ARRAY32);
             buf.put_u32((4 + ctor_len + self.payload.len()) as u32); // size. 4 for count
             buf.put_u32(self.count);
-- 
2.43.0


From 52a5fffbf069dbf14a91ce1d31f5f775272d6c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 41/54] fix: do not wait for another sasl frame after the
 outcome of a challenge

---
 src/server/sasl.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/server/sasl.rs b/src/server/sasl.rs
index b193aa3..7478882 100644
--- a/src/server/sasl.rs
+++ b/src/server/sasl.rs
@@ -211,10 +211,6 @@ impl SaslResponse {
             .send(frame, &codec)
             .await
             .map_err(HandshakeError::from)?;
-        state
-            .recv(&codec)
-            .await?
-            .ok_or(HandshakeError::Disconnected(None))?;
 
         Ok(SaslSuccess {
             state,
-- 
2.43.0


From 8188a831a9e48a4808a97aaa3e5ad1b5d1258875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:05 +0000
Subject: [PATCH 42/54] fix: do not send credentials before the server's sasl
 mechanisms

---
 src/client/connector.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index ae0525f..80228ee 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -192,12 +192,16 @@ async fn connect_sasl_inner(
     let codec = AmqpCodec::<SaslFrame>::new();
 
     // processing sasl-mechanisms
-    let _ = io
+    let sasl_frame = io
         .recv(&codec)
         .await
         .map_err(ConnectError::from)?
         .ok_or(ConnectError::Disconnected)?;
 
+    if !matches!(sasl_frame.body, SaslFrameBody::SaslMechanisms(_)) {
+        return Err(Error::from(ConnectError::Disconnected));
+    }
+
     let initial_response =
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
-- 
2.43.0


From 857dcad92712b5e9b58c6cb40b170d5068c28b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:06 +0000
Subject: [PATCH 43/54] fix: use the hostname of the connect request in
 sasl-init

---
 src/client/connector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/connector.rs b/src/client/connector.rs
index 80228ee..a0f7cfe 100644
--- a/src/client/connector.rs
+++ b/src/client/connector.rs
@@ -206,7 +206,7 @@ async fn connect_sasl_inner(
         SaslInit::prepare_response(&auth.authz_id, &auth.authn_id, &auth.password);
 
     let sasl_init = SaslInit {
-        hostname: config.hostname.clone(),
+        hostname: hostname.clone().or_else(|| config.hostname.clone()),
         mechanism: Symbol::from("PLAIN"),
         initial_response: Some(initial_response),
     };
-- 
2.43.0


From 44ea581c6ca5fe3feecfc8b373d236bcc7f24571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 44/54] fix: keep sending keep-alive frames, register the waker
 of the timer after a reset

---
 src/dispatcher.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index 711aa78..dddd465 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -168,7 +168,8 @@ where
         }
 
         // handle idle timeout
-        if self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
+        // poll the timer again after a reset, it has to know the waker
+        while self.idle_timeout.non_zero() && self.idle_sleep.poll_elapsed(cx).is_ready() {
             log::trace!(
                 "{}: Send keep-alive ping, timeout: {:?} secs",
                 self.sink.tag(),
-- 
2.43.0


From 97812915c745fa1eb347547a83d258fb5e17830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 45/54] fix: keep-alive for idle timeouts below 1334 ms

---
 src/client/connection.rs |  4 ++--
 src/dispatcher.rs        |  2 +-
 src/lib.rs               | 12 ++++--------
 src/server/handshake.rs  |  8 ++++----
 src/server/service.rs    |  2 +-
 5 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 7d8ea6d..5c66cd9 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -66,7 +66,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
             Pipeline::new(fn_service(|_| Ready::<_, LinkError>::Ok(()))),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
@@ -84,7 +84,7 @@ where
             self.connection,
             Pipeline::new(fn_service(|_| Ready::<_, S::Error>::Ok(()))),
             Pipeline::new(service.into_service()),
-            self.remote_config.timeout_remote_secs().into(),
+            self.remote_config.timeout_remote(),
         );
 
         IoDispatcher::new(self.io, self.codec, dispatcher).await
diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index dddd465..da3f03a 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -37,7 +37,7 @@ where
         ctl_service: Pipeline<Ctl>,
         idle_timeout: Millis,
     ) -> Self {
-        let idle_timeout = Millis(cmp::min(idle_timeout.0 >> 1, 1000));
+        let idle_timeout = Millis(cmp::min((idle_timeout.0 + 1) >> 1, 1000));
         Dispatcher {
             sink,
             idle_timeout,
diff --git a/src/lib.rs b/src/lib.rs
index c0489ef..2b3b7b0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -25,7 +25,7 @@ use ntex_amqp_codec::protocol::{Handle, Milliseconds, Open, OpenInner, Symbols};
 use ntex_amqp_codec::types::Symbol;
 use ntex_bytes::ByteString;
 use ntex_service::cfg::{CfgContext, Configuration as SvcConfiguration};
-use ntex_util::time::Seconds;
+use ntex_util::time::{Millis, Seconds};
 use uuid::Uuid;
 
 mod cell;
@@ -245,12 +245,8 @@ impl RemoteServiceConfig {
         }
     }
 
-    #[allow(clippy::cast_sign_loss, clippy::cast_precision_loss)]
-    pub(crate) fn timeout_remote_secs(&self) -> Seconds {
-        if self.idle_time_out > 0 {
-            Seconds::checked_new(((self.idle_time_out as f32) * 0.75 / 1000.0) as usize)
-        } else {
-            Seconds::ZERO
-        }
+    /// Idle timeout of the peer, less a safety margin
+    pub(crate) fn timeout_remote(&self) -> Millis {
+        Millis(self.idle_time_out - self.idle_time_out / 4)
     }
 }
diff --git a/src/server/handshake.rs b/src/server/handshake.rs
index a5ed8c5..bea486a 100644
--- a/src/server/handshake.rs
+++ b/src/server/handshake.rs
@@ -1,6 +1,6 @@
 use ntex_io::IoBoxed;
 use ntex_service::cfg::Cfg;
-use ntex_util::time::Seconds;
+use ntex_util::time::Millis;
 
 use crate::codec::{AmqpCodec, AmqpFrame, protocol::Frame, protocol::Open};
 use crate::{AmqpServiceConfig, RemoteServiceConfig, connection::Connection};
@@ -138,7 +138,7 @@ impl HandshakeAmqpOpened {
             st,
             sink: self.sink,
             state: self.state,
-            idle_timeout: self.remote_config.timeout_remote_secs(),
+            idle_timeout: self.remote_config.timeout_remote(),
         }
     }
 }
@@ -148,11 +148,11 @@ pub struct HandshakeAck<St> {
     st: St,
     sink: Connection,
     state: IoBoxed,
-    idle_timeout: Seconds,
+    idle_timeout: Millis,
 }
 
 impl<St> HandshakeAck<St> {
-    pub(crate) fn into_inner(self) -> (St, Connection, Seconds, IoBoxed) {
+    pub(crate) fn into_inner(self) -> (St, Connection, Millis, IoBoxed) {
         (self.st, self.sink, self.idle_timeout, self.state)
     }
 }
diff --git a/src/server/service.rs b/src/server/service.rs
index e06a02e..ec024b6 100644
--- a/src/server/service.rs
+++ b/src/server/service.rs
@@ -307,7 +307,7 @@ where
                 .await
                 .map_err(HandshakeError::from)?;
 
-            Ok((io, codec, sink, State::new(st), Millis::from(idle_timeout)))
+            Ok((io, codec, sink, State::new(st), idle_timeout))
         }
         ProtocolId::AmqpTls => Err(ServerError::Handshake(HandshakeError::from(
             ProtocolIdError::Unexpected {
-- 
2.43.0


From 42b8f2bc3e0a4520603dfd7496dfa1895e78ba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:35 +0000
Subject: [PATCH 46/54] fix: delivery settled by a continuation transfer is
 settled

---
 src/delivery.rs | 10 ++++++++++
 src/rcvlink.rs  |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/delivery.rs b/src/delivery.rs
index f6b3440..bfa6560 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -106,6 +106,16 @@ impl Delivery {
         self.set_flag(Flags::REMOTE_SETTLED);
     }
 
+    /// Sender settled incoming delivery with one of its continuation transfers
+    pub(crate) fn presettled(&self) {
+        self.set_flag(Flags::LOCAL_SETTLED);
+        self.session
+            .inner
+            .get_mut()
+            .unsettled_rcv_deliveries
+            .remove(&self.id);
+    }
+
     pub fn settle(&mut self, state: DeliveryState) {
         // remote side is settled, not need to send disposition
         if self.is_remote_settled() {
diff --git a/src/rcvlink.rs b/src/rcvlink.rs
index 99bdc66..b2e1d94 100644
--- a/src/rcvlink.rs
+++ b/src/rcvlink.rs
@@ -383,6 +383,14 @@ impl ReceiverLinkInner {
                     }
                 }
 
+                // delivery is settled if any of its transfers is settled
+                if transfer.settled() == Some(true)
+                    && let Some((delivery, first)) = self.queue.back_mut()
+                {
+                    delivery.presettled();
+                    first.0.settled = Some(true);
+                }
+
                 // merge transfer data
                 if let Some(transfer_body) = transfer.0.body.take() {
                     transfer_body.encode(body);
-- 
2.43.0


From 0f1f45156e9629069bfbe50c1ff5dec06e2a1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:51 +0000
Subject: [PATCH 47/54] fix: publish service is not told about link that is
 detached already

---
 src/dispatcher.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index da3f03a..cf1fd24 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -345,6 +345,10 @@ where
         } else {
             match frame.0.get_mut().kind {
                 ControlFrameKind::AttachReceiver(ref frm, ref mut pfrm, ref link) => {
+                    // link is detached already, service is notified about that
+                    if link.is_closed() {
+                        return Ok(());
+                    }
                     let link = link.clone();
                     let fut = self
                         .service
-- 
2.43.0


From a333c735e46162fa6e95acd1d82ea52b9d244270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:47 +0000
Subject: [PATCH 48/54] fix: Do not replace detach reason of a delivery when
 its link handle is re-used

---
 src/delivery.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index bfa6560..3a6bba1 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -287,7 +287,10 @@ impl DeliveryInner {
     }
 
     pub(crate) fn set_error(&mut self, error: AmqpProtocolError) {
-        self.error = Some(error);
+        // handle could be re-used by other link, keep reason of delivery's own link
+        if self.error.is_none() {
+            self.error = Some(error);
+        }
         self.notify();
     }
 
-- 
2.43.0


From c633ae1e5f2794a7f9328c5914725f187ec61b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 49/54] fix: Fail waits on received deliveries when locally
 closed link is detached

---
 src/session.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/session.rs b/src/session.rs
index b2fd38c..e01bfae 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1202,6 +1202,14 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Closing(tx) => {
+                        // drop unsettled transfers
+                        let err = AmqpProtocolError::LinkDetached(frame.0.error.clone());
+                        for delivery in self.unsettled_rcv_deliveries.values_mut() {
+                            if delivery.handle() == idx as Handle {
+                                delivery.set_error(err.clone());
+                            }
+                        }
+
                         // detach confirmation
                         if let Some(tx) = tx.take() {
                             if let Some(err) = frame.0.error {
-- 
2.43.0


From 06b5b6d2bda0c02ef62acbc32217c6d8cca41242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:02 +0000
Subject: [PATCH 50/54] fix: Disposition without state must not complete
 delivery wait

---
 src/delivery.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index 3a6bba1..b24c27f 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -307,7 +307,10 @@ impl DeliveryInner {
         if let Some(state) = disp.state() {
             self.state = Some(state.clone());
         }
-        self.notify();
+        // disposition could carry no outcome
+        if self.settled || self.state.is_some() {
+            self.notify();
+        }
     }
 }
 
-- 
2.43.0


From f68b8aa1371564bd1d885fcf16b589f872262ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:31 +0000
Subject: [PATCH 51/54] fix: Keep error of detach frame for control service,
 receiver link

---
 src/session.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e01bfae..5e381de 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -1036,7 +1036,7 @@ impl SessionInner {
 
     #[allow(clippy::too_many_lines)]
     /// Handle `Detach` frame.
-    pub(crate) fn handle_detach(&mut self, mut frame: Detach) -> Action {
+    pub(crate) fn handle_detach(&mut self, frame: Detach) -> Action {
         // get local link instance
         let idx = if let Some(idx) = self.remote_handles.get(&frame.handle()) {
             *idx
@@ -1156,7 +1156,7 @@ impl SessionInner {
                                 .post_frame(AmqpFrame::new(self.id as u16, attach.into()));
                             self.sink
                                 .post_frame(AmqpFrame::new(self.id as u16, detach.into()));
-                            link.remote_detached(frame.0.error.take());
+                            link.remote_detached(frame.0.error.clone());
                             action = Action::DetachReceiver(link, frame);
                         }
                         true
@@ -1176,7 +1176,7 @@ impl SessionInner {
                         true
                     }
                     ReceiverLinkState::Established(link) => {
-                        let error = frame.0.error.take();
+                        let error = frame.0.error.clone();
 
                         // drop unsettled transfers
                         let err = AmqpProtocolError::LinkDetached(error.clone());
-- 
2.43.0


From 22f14b17c07ab48dc5109736585d245ee99eefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:25 +0000
Subject: [PATCH 52/54] fix: `modified` is a terminal outcome, `received` is
 the state that is not

Delivery::wait() forgot a `modified` outcome once it was returned, so the
next wait never completed, and kept returning a `received` state.
---
 src/delivery.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delivery.rs b/src/delivery.rs
index b24c27f..c8c19bf 100644
--- a/src/delivery.rs
+++ b/src/delivery.rs
@@ -221,7 +221,7 @@ impl Delivery {
         inner: &mut DeliveryInner,
     ) -> Option<Result<Option<DeliveryState>, AmqpProtocolError>> {
         if let Some(ref st) = inner.state {
-            if matches!(st, DeliveryState::Modified(..)) {
+            if matches!(st, DeliveryState::Received(..)) {
                 // non terminal state
                 Some(Ok(Some(inner.state.take().unwrap())))
             } else {
-- 
2.43.0


From 04e15e8828699415bc4e8978b3051ff4b3d5fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:26 +0000
Subject: [PATCH 53/54] fix: router takes a message from the link when its
 handler is ready

Messages were taken before handler's readiness check: they were handed over
in the order in which the checks got woken, and a handler that was shut down
meanwhile was called again.
---
 src/router.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 6416baf..c050c69 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ use ntex_util::{HashMap, future::Ready, future::join_all};
 use crate::codec::protocol::{DeliveryState, Error, Rejected, Transfer};
 use crate::error::LinkError;
 use crate::types::{Link, Message, Outcome};
-use crate::{Delivery, State, cell::Cell, rcvlink::ReceiverLink};
+use crate::{State, cell::Cell, rcvlink::ReceiverLink};
 
 type Handle<S> = boxed::BoxServiceFactory<Link<S>, Transfer, Outcome, Error, Error>;
 type HandleService = boxed::BoxService<Transfer, Outcome, Error>;
@@ -109,8 +109,8 @@ impl<S: 'static> Service<Message> for RouterService<S> {
                                     .get_mut()
                                     .handlers
                                     .insert(rcv_link.clone(), Some(Pipeline::new(srv)));
-                                if let Some((delivery, tr)) = rcv_link.get_delivery() {
-                                    service_call(rcv_link, delivery, tr, &self.0).await
+                                if rcv_link.has_deliveries() {
+                                    service_call(rcv_link, &self.0).await
                                 } else {
                                     Ok(())
                                 }
@@ -190,9 +190,9 @@ impl<S: 'static> Service<Message> for RouterService<S> {
             }
             Message::Transfer(link) => {
                 if let Some(Some(_)) = self.0.get_ref().handlers.get(&link) {
-                    if let Some((delivery, tr)) = link.get_delivery() {
-                        service_call(link, delivery, tr, &self.0).await?;
-                    } else if link.credit() == 0 && !link.has_deliveries() {
+                    if link.has_deliveries() {
+                        service_call(link, &self.0).await?;
+                    } else if link.credit() == 0 {
                         // credit is consumed by aborted deliveries
                         link.set_link_credit(50);
                     }
@@ -205,8 +205,6 @@ impl<S: 'static> Service<Message> for RouterService<S> {
 
 async fn service_call<S>(
     link: ReceiverLink,
-    mut delivery: Delivery,
-    tr: Transfer,
     inner: &Cell<RouterServiceInner<S>>,
 ) -> Result<(), Error> {
     // handlers could be modified while service is processing transfer
@@ -220,6 +218,16 @@ async fn service_call<S>(
             return Ok(());
         }
 
+        // link could be detached while handler was not ready
+        if !matches!(inner.handlers.get(&link), Some(Some(_))) {
+            return Ok(());
+        }
+
+        // calls that wait for readiness could be woken in any order
+        let Some((mut delivery, tr)) = link.get_delivery() else {
+            return Ok(());
+        };
+
         if link.credit() == 0 {
             // self.has_credit = self.link.credit() != 0;
             link.set_link_credit(50);
-- 
2.43.0


From d8155764124f120e1c9b3ae5b998590553bfb8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:01 +0000
Subject: [PATCH 54/54] fix: connection task hangs in shutdown when readiness
 check of control service is unfinished

---
 src/dispatcher.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dispatcher.rs b/src/dispatcher.rs
index cf1fd24..b227315 100644
--- a/src/dispatcher.rs
+++ b/src/dispatcher.rs
@@ -187,10 +187,18 @@ where
             .0
             .get_mut()
             .set_error(AmqpProtocolError::Disconnected);
-        let _ = self
+        // unfinished readiness checks hold other calls of the service
+        let mut fut = self
             .ctl_service
-            .call(ControlFrame::new_kind(ControlFrameKind::Closed))
-            .await;
+            .call(ControlFrame::new_kind(ControlFrameKind::Closed));
+        poll_fn(|cx| {
+            let _ = self.ctl_service.poll_ready(cx);
+            self.ctl_fut
+                .borrow_mut()
+                .retain_mut(|item| Pin::new(&mut item.1).poll(cx).is_pending());
+            Pin::new(&mut fut).poll(cx).map(|_| ())
+        })
+        .await;
 
         self.service.shutdown().await;
         self.ctl_service.shutdown().await;
-- 
2.43.0

