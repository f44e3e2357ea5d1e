From 9c1af1f03a789491055dd781fe092a39d17226b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 1/7] fix: saturate the MRP resend counter instead of
 overflowing it

try_resend() panicked in builds with overflow checks once one packet had been
retransmitted 65535 times.
---
 mrp/src/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrp/src/stream.rs b/mrp/src/stream.rs
index 5f263b3..29068aa 100644
--- a/mrp/src/stream.rs
+++ b/mrp/src/stream.rs
@@ -437,7 +437,7 @@ impl<SendData, ReceiveData> MrpStream<SendData, ReceiveData> {
                 match send_data(&ppkt.packet) {
                     Ok(next_send_at) => {
                         ppkt.next_send_at = next_send_at;
-                        ppkt.try_count += 1;
+                        ppkt.try_count = ppkt.try_count.saturating_add(1);
                     }
                     Err(e) => {
                         return Err(MrpSendError::InnerSendFailed(e));
-- 
2.43.0


From a378cb2109d600674a671de9758f1df33d098a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 2/7] fix: keep the old ratchet secret when a late frame
 arrives after a jump

---
 src/rust/src/core/crypto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/src/core/crypto.rs b/src/rust/src/core/crypto.rs
index 04a1ae8..9cc5743 100644
--- a/src/rust/src/core/crypto.rs
+++ b/src/rust/src/core/crypto.rs
@@ -160,7 +160,7 @@ impl ReceiverState {
             cur = cur.wrapping_add(1);
         }
         let sender_state = SenderState::new(ratchet_counter_goal, secret);
-        if frame_counter.wrapping_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
+        if frame_counter.saturating_sub(self.ratchet_frame) > MAX_OOO_FRAMES {
             Self {
                 sender_state,
                 ratchet_frame: frame_counter,
-- 
2.43.0


From aa041f3311bc0a5937c39bcc84e7d7312d8f5192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:33 +0000
Subject: [PATCH 3/7] fix: reject text after the last group of a base-16 key

---
 src/rust/src/lite/call_links/base16.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/lite/call_links/base16.rs b/src/rust/src/lite/call_links/base16.rs
index 7656be7..8c68445 100644
--- a/src/rust/src/lite/call_links/base16.rs
+++ b/src/rust/src/lite/call_links/base16.rs
@@ -129,7 +129,10 @@ impl ConsonantBase16<'_> {
                 }
                 count_until_separator = match chunk_size_iter.next() {
                     Some(chunk_size) => chunk_size,
-                    None => break,
+                    None => {
+                        let position = string.len() - (bytes.len() + 1);
+                        return Err(DecodeError::UnexpectedSeparator(position));
+                    }
                 };
                 continue;
             }
-- 
2.43.0


From d5eab7669e83edaa1bee08ca4c6a017fa6eda9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 4/7] fix: handle every reliable SFU message of a batch, also
 those after one carrying content

---
 src/rust/src/core/group_call.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/rust/src/core/group_call.rs b/src/rust/src/core/group_call.rs
index 6bf9ee5..9754beb 100644
--- a/src/rust/src/core/group_call.rs
+++ b/src/rust/src/core/group_call.rs
@@ -4421,7 +4421,6 @@ impl Client {
                                         error!("Failed to decode content buffer in SfuToDevice: {:?}", err);
                                     }
                                 }
-                                return;
                             } else {
                                 Self::handle_sfu_to_device_inner(
                                     &state.actor,
-- 
2.43.0


From 280bb70d924d3f738a82fb8dfddfcd088e545e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 5/7] fix: terminate the connection when starting it fails, so
 that the call can conclude

---
 src/rust/src/core/call.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/rust/src/core/call.rs b/src/rust/src/core/call.rs
index fa505a1..fc21342 100644
--- a/src/rust/src/core/call.rs
+++ b/src/rust/src/core/call.rs
@@ -607,8 +607,16 @@ where
                         call_config,
                         audio_levels_interval,
                     )?;
-                    let answer = connection
-                        .start_incoming(pending_call.received, pending_call.ice_candidates)?;
+                    let answer = match connection
+                        .start_incoming(pending_call.received, pending_call.ice_candidates)
+                    {
+                        Ok(answer) => answer,
+                        Err(err) => {
+                            drop(call_manager);
+                            Self::terminate_failed_connection(connection);
+                            return Err(err);
+                        }
+                    };
                     self.call_summary.on_call_event(&CallEvent::SendingAnswer);
                     call_manager.send_answer(
                         self.clone(),
@@ -646,7 +654,14 @@ where
                     audio_levels_interval,
                 )?;
                 let (local_secret, ice_gatherer, offer) =
-                    parent_connection.start_outgoing_parent(self.media_type)?;
+                    match parent_connection.start_outgoing_parent(self.media_type) {
+                        Ok(started) => started,
+                        Err(err) => {
+                            drop(call_manager);
+                            Self::terminate_failed_connection(parent_connection);
+                            return Err(err);
+                        }
+                    };
 
                 // Keep around so that it's not closed until all the connections are closed.
                 *(self.forking.lock()?) = Some(ForkingState {
@@ -696,12 +711,16 @@ where
                     call_config.clone(),
                     audio_levels_interval,
                 )?;
-                child_connection.start_outgoing_child(
+                if let Err(err) = child_connection.start_outgoing_child(
                     &forking.local_secret,
                     &forking.ice_gatherer,
                     &forking.offer,
                     &received,
-                )?;
+                ) {
+                    drop(call_manager);
+                    Self::terminate_failed_connection(child_connection);
+                    return Err(err);
+                }
                 e.insert(child_connection);
                 return Ok(());
             }
@@ -899,6 +918,14 @@ where
             })
     }
 
+    /// Terminates a connection that could not be started. No one else refers to it, so it would
+    /// otherwise never be terminated and would keep the call from concluding.
+    fn terminate_failed_connection(mut connection: Connection<T>) {
+        if let Err(err) = connection.terminate() {
+            error!("terminate_failed_connection(): {}", err);
+        }
+    }
+
     /// Terminate Connections for this Call.
     fn terminate_connections(&mut self) -> Result<()> {
         // For each component that we terminate,
-- 
2.43.0


From 17dfd68b75ba9f8c5481b097912a4a58ae13920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 6/7] fix: do not replace the active call by one with the same
 ID when its offer is repeated

---
 src/rust/src/core/call_manager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 4426a4f..6cee174 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -2090,7 +2090,11 @@ where
                 info!("Possible glare, remote peers match");
                 if let Ok(active_device_id) = active_call.active_device_id() {
                     if received.sender_device_id == active_device_id {
-                        if active_call_state >= CallState::ConnectedAndAccepted {
+                        // A repeat of the offer of the active call can't replace it: both would
+                        // have the same ID.
+                        if active_call_state >= CallState::ConnectedAndAccepted
+                            && active_call.call_id() != *incoming_call_id
+                        {
                             info!("Recall, already in-call but peer's device is calling again");
                             // Peer likely ended the call before we know about it:
                             // - Hungup and called faster than messages get handled, or
-- 
2.43.0


From 988e32c727981484ef56d6700bf23497f58ed217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 7/7] fix: release the busy lock before replying busy, which
 may terminate the active call

---
 src/rust/src/core/call_manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/src/core/call_manager.rs b/src/rust/src/core/call_manager.rs
index 6cee174..1979143 100644
--- a/src/rust/src/core/call_manager.rs
+++ b/src/rust/src/core/call_manager.rs
@@ -1506,6 +1506,8 @@ where
             }
             IncomingCallAction::RejectAsBusy(app_event) => {
                 self.notify_application(&remote_peer, incoming_call_id, app_event)?;
+                // If the message can't be sent, the active call may be terminated, which needs the lock.
+                drop(busy);
                 self.send_busy(incoming_call)?;
             }
             IncomingCallAction::Start => {
-- 
2.43.0

