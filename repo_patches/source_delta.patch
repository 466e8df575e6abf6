From 072e5118e6caa671e626c5269c7ee64ec40f909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 01/28] fix: bound collection preallocation by the bytes left
 in the reader

The length prefix of Vec, SmallVec and HashMap is read from the wire and was
passed to with_capacity unchecked: a few bytes from a peer could request an
arbitrary allocation and abort or panic the process.
---
 crates/transport/serde/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index 13dc1d1..1034a90 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -219,7 +219,9 @@ impl<M: ToBytes> ToBytes for Vec<M> {
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut vec = Vec::with_capacity(len);
+        // `len` comes from the wire: an element takes at least one byte, so never reserve more
+        // than what the buffer can still hold
+        let mut vec = Vec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             vec.push(M::from_bytes(buffer)?);
         }
@@ -249,7 +251,7 @@ where
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        let mut values = SmallVec::with_capacity(len);
+        let mut values = SmallVec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             values.push(A::Item::from_bytes(buffer)?);
         }
@@ -282,7 +284,8 @@ impl<K: ToBytes + Eq + Hash, V: ToBytes, S: Default + BuildHasher> ToBytes for H
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut res = HashMap::with_capacity_and_hasher(len, S::default());
+        let mut res =
+            HashMap::with_capacity_and_hasher(len.min(buffer.remaining()), S::default());
         for _ in 0..len {
             let key = K::from_bytes(buffer)?;
             let value = V::from_bytes(buffer)?;
-- 
2.43.0


From e3b33f2a2600a9df22db25991b112581aeff9a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:25 +0000
Subject: [PATCH 02/28] fix: do not allocate for announced fragments before
 they arrive

---
 .../src/channel/fragments/receive.rs          | 45 ++++++-------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index 329e221..9f1fe84 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -1,6 +1,6 @@
 //! Fragment validation, reassembly, and decompression for channel receives.
 
-use alloc::{vec, vec::Vec};
+use alloc::{collections::BTreeMap, vec};
 use bevy_platform::collections::HashMap;
 
 use crate::channel::receive::ChannelReceiveError;
@@ -123,10 +123,9 @@ impl FragmentReceiver {
 pub struct FragmentConstructor {
     num_fragments: usize,
     fragment_size: usize,
-    num_received_fragments: usize,
-    received: Vec<bool>,
-    // bytes: Bytes,
-    bytes: Vec<u8>,
+    /// Fragments received so far, by index. The number of fragments is announced by the remote,
+    /// so memory is only used for the fragments which have actually arrived.
+    received: BTreeMap<usize, Bytes>,
 
     tick: Tick,
     compression: Option<FragmentCompression>,
@@ -135,15 +134,13 @@ pub struct FragmentConstructor {
 
 impl FragmentConstructor {
     pub fn new(tick: Tick, num_fragments: usize, fragment_size: usize) -> Result<Self> {
-        let max_message_size = num_fragments
+        num_fragments
             .checked_mul(fragment_size)
             .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
         Ok(Self {
             num_fragments,
             fragment_size,
-            num_received_fragments: 0,
-            received: vec![false; num_fragments],
-            bytes: vec![0; max_message_size],
+            received: BTreeMap::new(),
             tick,
             compression: None,
             last_received: None,
@@ -187,30 +184,16 @@ impl FragmentConstructor {
             });
         }
 
-        if !self.received[fragment_index] {
-            self.received[fragment_index] = true;
-            self.num_received_fragments += 1;
+        self.received
+            .entry(fragment_index)
+            .or_insert_with(|| Bytes::copy_from_slice(bytes));
 
-            if is_last_fragment {
-                let len = (self.num_fragments - 1)
-                    .checked_mul(self.fragment_size)
-                    .and_then(|len| len.checked_add(bytes.len()))
-                    .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-                self.bytes.resize(len, 0);
-            }
-
-            let start = fragment_index
-                .checked_mul(self.fragment_size)
-                .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-            let end = start
-                .checked_add(bytes.len())
-                .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-            self.bytes[start..end].copy_from_slice(bytes);
-        }
-
-        if self.num_received_fragments == self.num_fragments {
+        if self.received.len() == self.num_fragments {
             trace!("Received all fragments!");
-            let payload = core::mem::take(&mut self.bytes);
+            let mut payload = vec![];
+            for fragment in core::mem::take(&mut self.received).into_values() {
+                payload.extend_from_slice(&fragment);
+            }
             return Ok(Some((self.tick, payload.into())));
         }
 
-- 
2.43.0


From 4ffbf4e9b373211d95d8dd260a089b26c14cf608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:08 +0000
Subject: [PATCH 03/28] fix: keep processing received packets after a malformed
 one

---
 crates/transport/transport/src/plugin.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/transport/transport/src/plugin.rs b/crates/transport/transport/src/plugin.rs
index fd0d770..af96701 100644
--- a/crates/transport/transport/src/plugin.rs
+++ b/crates/transport/transport/src/plugin.rs
@@ -107,7 +107,7 @@ impl TransportPlugin {
                 });
             link.recv
                 .drain()
-                .try_for_each(|packet| {
+                .map(|packet| {
                     let packet_len = packet.len();
                     #[cfg(feature = "metrics")]
                     metrics::gauge!("transport/recv_bytes").increment(packet_len as f64);
@@ -280,10 +280,11 @@ impl TransportPlugin {
                     }
                     Ok::<(), TransportError>(())
                 })
-                .inspect_err(|e| {
+                // a packet which cannot be processed must not discard the packets received after it
+                .filter_map(Result::err)
+                .for_each(|e| {
                     error!("Error processing packet: {e:?}");
-                })
-                .ok();
+                });
 
             // Consume ACKs already queued for this frame before expiring packets. Otherwise a
             // packet can lose its message-ACK mapping immediately before its ACK is processed.
-- 
2.43.0


From 2f6154c6ee61c7fa794ad456287218fb92b612d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 04/28] fix: drop fragments of superseded messages on sequenced
 channels

---
 .../transport/src/channel/fragments/receive.rs     |  5 +++++
 crates/transport/transport/src/channel/receive.rs  | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index 9f1fe84..ee41d95 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -49,6 +49,11 @@ impl FragmentReceiver {
         })
     }
 
+    /// Discard the fragments of all messages other than `message_id`.
+    pub(crate) fn discard_except(&mut self, message_id: MessageId) {
+        self.fragment_messages.retain(|id, _| *id == message_id);
+    }
+
     /// Receive a fragment of a FragmentData message.
     ///
     /// When we complete the final message by aggregating all fragments, we will return the
diff --git a/crates/transport/transport/src/channel/receive.rs b/crates/transport/transport/src/channel/receive.rs
index 32ce170..7a70d89 100644
--- a/crates/transport/transport/src/channel/receive.rs
+++ b/crates/transport/transport/src/channel/receive.rs
@@ -153,6 +153,13 @@ impl ChannelReceive {
         if !self.state.prepare_receive(message_id)? {
             return Ok(());
         }
+        if self.state.is_sequenced()
+            && let Some(message_id) = message_id
+        {
+            // Older messages can never be delivered anymore. Their fragments must not be mixed
+            // with those of a later message once the message ids have wrapped around.
+            self.fragments.discard_except(message_id);
+        }
 
         let completed = match message.data {
             MessageData::Single(single) => Some((message.remote_sent_tick, single.bytes)),
@@ -183,6 +190,13 @@ impl RecvState {
         )
     }
 
+    fn is_sequenced(&self) -> bool {
+        matches!(
+            self,
+            Self::UnreliableSequenced { .. } | Self::ReliableSequenced { .. }
+        )
+    }
+
     fn prepare_receive(&mut self, message_id: Option<MessageId>) -> Result<bool> {
         match self {
             Self::UnreliableUnordered { .. } => Ok(true),
-- 
2.43.0


From df229ce8344dcbee1b3be481ae73f661552f319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 05/28] fix: keep receiving messages after an invalid one

---
 crates/transport/messages/src/receive.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/crates/transport/messages/src/receive.rs b/crates/transport/messages/src/receive.rs
index eef7728..ca50826 100644
--- a/crates/transport/messages/src/receive.rs
+++ b/crates/transport/messages/src/receive.rs
@@ -624,8 +624,7 @@ impl MessagePlugin {
                     // Host-client messages already carry their channel kind, so they do not need
                     // to pass through a transport send channel.
                     let buffered = core::mem::take(&mut host_client.buffer);
-                    let mut buffered = buffered.into_iter();
-                    while let Some((bytes, channel_type_id, tick)) = buffered.next() {
+                    for (bytes, channel_type_id, tick) in buffered {
                         let channel_kind = ChannelKind(channel_type_id);
                         trace!("Received local message bytes from server on host-client {entity:?} on channel {channel_kind:?}");
                         let target_timeline = channel_registry
@@ -647,13 +646,12 @@ impl MessagePlugin {
                             &commands,
                             remote_peer_id.0,
                         ) {
-                            host_client.buffer.extend(buffered);
+                            // an invalid message must not delay the valid ones behind it
                             error!("Error receiving messages: {error:?}");
-                            break;
                         }
                     }
                 } else {
-                    transport.channel_receives_mut().try_for_each(|channel_receive| {
+                    transport.channel_receives_mut().for_each(|channel_receive| {
                             let channel_kind = channel_receive.channel_kind();
                             let channel_name = channel_registry.get_name_from_kind(&channel_kind);
                             while let Some((tick, bytes, message_id)) =
@@ -662,7 +660,8 @@ impl MessagePlugin {
                                 let target_timeline = channel_registry
                                     .settings(channel_kind)
                                     .and_then(|settings| settings.timeline);
-                                Self::receive_message_bytes(
+                                // an invalid message must not delay the valid ones behind it
+                                if let Err(error) = Self::receive_message_bytes(
                                     bytes,
                                     &registry,
                                     &timeline_registry,
@@ -676,12 +675,11 @@ impl MessagePlugin {
                                     &mut message_manager,
                                     &commands,
                                     remote_peer_id.0,
-                                )?;
+                                ) {
+                                    error!("Error receiving messages: {error:?}");
+                                }
                             }
-                            Ok::<_, MessageError>(())
-                        })
-                        .inspect_err(|e| error!("Error receiving messages: {e:?}"))
-                        .ok();
+                        });
                 }
             },
         )
-- 
2.43.0


From e1ab3192713c504984fe30e646405b3d32d2a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 06/28] fix: keep sending messages after one that cannot be
 sent

---
 crates/transport/messages/src/multi.rs        |   3 +
 crates/transport/messages/src/send.rs         |  34 ++--
 crates/transport/messages/src/send_trigger.rs | 156 ++++++++++--------
 3 files changed, 107 insertions(+), 86 deletions(-)

diff --git a/crates/transport/messages/src/multi.rs b/crates/transport/messages/src/multi.rs
index b235c0f..3ec3860 100644
--- a/crates/transport/messages/src/multi.rs
+++ b/crates/transport/messages/src/multi.rs
@@ -41,6 +41,8 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
         if !self.registry.is_map_entities::<M>()? {
             // TODO: serialize once for all senders. Figure out how to get a shared writer. Maybe on Server? Or as a global resource?
             //   or as Local?
+            // discard what a message that failed to serialize left behind
+            self.writer.reset();
             self.registry.serialize::<M>(
                 message,
                 &mut self.writer,
@@ -59,6 +61,7 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
             self.query
                 .iter_many_unique_mut(senders)
                 .try_for_each(|(mut manager, transport)| {
+                    self.writer.reset();
                     self.registry.serialize::<M>(
                         message,
                         &mut self.writer,
diff --git a/crates/transport/messages/src/send.rs b/crates/transport/messages/src/send.rs
index 83a5488..c8f9edf 100644
--- a/crates/transport/messages/src/send.rs
+++ b/crates/transport/messages/src/send.rs
@@ -133,7 +133,9 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, priority)| {
+            .map(|(message, channel_kind, channel_name, priority)| {
+                // discard what a message that failed to serialize left behind
+                sender.writer.reset();
                 // we write the message NetId, and then serialize the message
                 net_id.to_bytes(&mut sender.writer)?;
                 // SAFETY: the message has been checked to be of type `M`.
@@ -168,6 +170,8 @@ impl<M: Message> MessageSender<M> {
                 transport.send_erased(channel_kind, bytes, priority)?;
                 Ok(())
             })
+            // a message that fails must not prevent the others from being sent
+            .fold(Ok(()), Result::and)
     }
 
     /// Take all messages from the [`MessageSender<M>`], and add them to
@@ -193,7 +197,7 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, _priority)| {
+            .map(|(message, channel_kind, channel_name, _priority)| {
                 trace!(
                     "Send local message of type {:?} on channel {:?}",
                     DebugName::type_name::<M>(),
@@ -252,6 +256,8 @@ impl<M: Message> MessageSender<M> {
                     )
                 }
             })
+            // a message that fails must not prevent the others from being received
+            .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
@@ -297,7 +303,7 @@ impl MessagePlugin {
                 message_manager
                     .send_messages
                     .iter()
-                    .try_for_each(|(message_kind, sender_id)| {
+                    .map(|(message_kind, sender_id)| {
                         let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                         let message_sender = entity_mut
                             .get_mut_by_id(*sender_id)
@@ -330,8 +336,8 @@ impl MessagePlugin {
                         }
                         Ok::<_, MessageError>(())
                     })
-                    .inspect_err(|e| error!("error sending message: {e:?}"))
-                    .ok();
+                    .filter_map(Result::err)
+                    .for_each(|e| error!("error sending message: {e:?}"));
 
                 // TODO: allow sending from senders in parallel! The only issue is the mutable borrow of the entity mapper
                 // enable split borrows
@@ -339,7 +345,7 @@ impl MessagePlugin {
                 message_manager
                     .send_triggers
                     .iter()
-                    .try_for_each(|(message_kind, sender_id)| {
+                    .map(|(message_kind, sender_id)| {
                         let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                         let message_sender = entity_mut
                             .get_mut_by_id(*sender_id)
@@ -368,8 +374,8 @@ impl MessagePlugin {
                         }
                         Ok::<_, MessageError>(())
                     })
-                    .inspect_err(|e| error!("error sending trigger: {e:?}"))
-                    .ok();
+                    .filter_map(Result::err)
+                    .for_each(|e| error!("error sending trigger: {e:?}"));
             },
         )
     }
@@ -406,7 +412,7 @@ impl MessagePlugin {
             message_manager
                 .send_messages
                 .iter()
-                .try_for_each(|(message_kind, sender_id)| {
+                .map(|(message_kind, sender_id)| {
                     let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                     let message_sender = entity_mut
                         .get_mut_by_id(*sender_id)
@@ -430,15 +436,15 @@ impl MessagePlugin {
                     }
                     Ok::<_, MessageError>(())
                 })
-                .inspect_err(|e| error!("error sending message on host-client: {e:?}"))
-                .ok();
+                .filter_map(Result::err)
+                .for_each(|e| error!("error sending message on host-client: {e:?}"));
 
             // TODO: allow sending from senders in parallel! The only issue is the mutable borrow of the entity mapper
             // enable split borrows
             message_manager
                 .send_triggers
                 .iter()
-                .try_for_each(|(message_kind, sender_id)| {
+                .map(|(message_kind, sender_id)| {
                     let mut entity_mut = message_sender_query.get_mut(entity).unwrap();
                     let message_sender = entity_mut
                         .get_mut_by_id(*sender_id)
@@ -462,8 +468,8 @@ impl MessagePlugin {
                     }
                     Ok::<_, MessageError>(())
                 })
-                .inspect_err(|e| error!("error sending trigger on host-client: {e:?}"))
-                .ok();
+                .filter_map(Result::err)
+                .for_each(|e| error!("error sending trigger on host-client: {e:?}"));
         })
     }
 }
diff --git a/crates/transport/messages/src/send_trigger.rs b/crates/transport/messages/src/send_trigger.rs
index d645073..9505eb4 100644
--- a/crates/transport/messages/src/send_trigger.rs
+++ b/crates/transport/messages/src/send_trigger.rs
@@ -58,31 +58,38 @@ impl<M: Event> EventSender<M> {
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
         // enable split borrows
         let sender = &mut *sender;
-        sender.send.drain(..).try_for_each(|pending| {
-            let PendingEvent {
-                event,
-                channel_kind,
-                priority,
-            } = pending;
-            // we write the message NetId, and then serialize the message
-            net_id.to_bytes(&mut sender.writer)?;
-            // SAFETY: the message has been checked to be of type `M`.
-            unsafe {
-                serialize_metadata.serialize::<SendEntityMap, M, M>(
-                    &event,
-                    &mut sender.writer,
-                    entity_map,
-                )?
-            };
-            let bytes = sender.writer.take_written();
-            trace!(
-                "Sending message of type {:?} with net_id {net_id:?} on channel {:?}",
-                DebugName::type_name::<M>(),
-                channel_kind
-            );
-            transport.send_erased(channel_kind, bytes, priority)?;
-            Ok(())
-        })
+        sender
+            .send
+            .drain(..)
+            .map(|pending| {
+                let PendingEvent {
+                    event,
+                    channel_kind,
+                    priority,
+                } = pending;
+                // discard what an event that failed to serialize left behind
+                sender.writer.reset();
+                // we write the message NetId, and then serialize the message
+                net_id.to_bytes(&mut sender.writer)?;
+                // SAFETY: the message has been checked to be of type `M`.
+                unsafe {
+                    serialize_metadata.serialize::<SendEntityMap, M, M>(
+                        &event,
+                        &mut sender.writer,
+                        entity_map,
+                    )?
+                };
+                let bytes = sender.writer.take_written();
+                trace!(
+                    "Sending message of type {:?} with net_id {net_id:?} on channel {:?}",
+                    DebugName::type_name::<M>(),
+                    channel_kind
+                );
+                transport.send_erased(channel_kind, bytes, priority)?;
+                Ok(())
+            })
+            // an event that fails must not prevent the others from being sent
+            .fold(Ok(()), Result::and)
     }
 
     // TODO: maybe we don't need this, it's identical to sending a message
@@ -103,56 +110,61 @@ impl<M: Event> EventSender<M> {
     ) -> Result<(), MessageError> {
         // SAFETY:  the `trigger_sender` must be of type `EventSender<M>`
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
-        sender.send.drain(..).try_for_each(|pending| {
-            let target_timeline = channel_registry
-                .settings(pending.channel_kind)
-                .and_then(|settings| settings.timeline);
-            if let Some(target_timeline) = target_timeline {
-                let timeline_metadata = timeline_registry
-                    .get(&target_timeline)
-                    .ok_or(MessageError::TimelineNotRegistered(target_timeline))?;
-                let timeline_ptr = receivers
-                    .get_by_id(timeline_metadata.component_id())
-                    .ok_or(MessageError::MissingTimeline(target_timeline))?;
-                // SAFETY: the metadata is registered with this timeline component id.
-                let current_tick = unsafe { timeline_metadata.tick(timeline_ptr) };
-                let delta = tick - current_tick;
-                if delta > 0 && delta as u32 > MAX_TIMELINE_LAG_TICKS {
-                    return Err(MessageError::TimelineTooFarBehind {
-                        target: tick,
-                        current: current_tick,
-                        max_lag_ticks: MAX_TIMELINE_LAG_TICKS,
-                    });
+        sender
+            .send
+            .drain(..)
+            .map(|pending| {
+                let target_timeline = channel_registry
+                    .settings(pending.channel_kind)
+                    .and_then(|settings| settings.timeline);
+                if let Some(target_timeline) = target_timeline {
+                    let timeline_metadata = timeline_registry
+                        .get(&target_timeline)
+                        .ok_or(MessageError::TimelineNotRegistered(target_timeline))?;
+                    let timeline_ptr = receivers
+                        .get_by_id(timeline_metadata.component_id())
+                        .ok_or(MessageError::MissingTimeline(target_timeline))?;
+                    // SAFETY: the metadata is registered with this timeline component id.
+                    let current_tick = unsafe { timeline_metadata.tick(timeline_ptr) };
+                    let delta = tick - current_tick;
+                    if delta > 0 && delta as u32 > MAX_TIMELINE_LAG_TICKS {
+                        return Err(MessageError::TimelineTooFarBehind {
+                            target: tick,
+                            current: current_tick,
+                            max_lag_ticks: MAX_TIMELINE_LAG_TICKS,
+                        });
+                    }
                 }
-            }
 
-            let metadata = registry
-                .receive_trigger
-                .get(&MessageKind::of::<M>())
-                .ok_or(MessageError::UnrecognizedMessage(MessageKind::of::<M>()))?;
-            let PendingEvent {
-                event,
-                channel_kind,
-                priority: _,
-            } = pending;
-            let mut event = Some(event);
-            let receiver_entity = receivers.id();
-            let receiver = receivers.get_mut_by_id(metadata.component_id);
-            // SAFETY: the callback and pending component id are registered for `M`.
-            unsafe {
-                (metadata.receive_local_trigger_fn)(
-                    receiver,
-                    commands,
-                    receiver_entity,
-                    &mut event,
-                    PeerId::Local(0),
-                    tick,
+                let metadata = registry
+                    .receive_trigger
+                    .get(&MessageKind::of::<M>())
+                    .ok_or(MessageError::UnrecognizedMessage(MessageKind::of::<M>()))?;
+                let PendingEvent {
+                    event,
                     channel_kind,
-                    None,
-                    target_timeline,
-                )
-            }
-        })
+                    priority: _,
+                } = pending;
+                let mut event = Some(event);
+                let receiver_entity = receivers.id();
+                let receiver = receivers.get_mut_by_id(metadata.component_id);
+                // SAFETY: the callback and pending component id are registered for `M`.
+                unsafe {
+                    (metadata.receive_local_trigger_fn)(
+                        receiver,
+                        commands,
+                        receiver_entity,
+                        &mut event,
+                        PeerId::Local(0),
+                        tick,
+                        channel_kind,
+                        None,
+                        target_timeline,
+                    )
+                }
+            })
+            // an event that fails must not prevent the others from being received
+            .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
-- 
2.43.0


From c555f0b39ac854227007e12998513568c61221ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:39 +0000
Subject: [PATCH 07/28] fix: keep peer map and lifecycle markers consistent
 across reconnections

A connection that is replaced by a newer one with the same peer id no longer
removes the newer one's mapping when it disconnects; a despawned connection no
longer stays in the map; Connected clears Disconnecting.
---
 crates/connection/connection/src/client.rs | 27 ++++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 7283f61..bc3e84e 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -44,7 +44,7 @@ pub struct Disconnect {
 //  We should decide on a rule.
 
 #[derive(Component, Debug, Reflect)]
-#[component(on_add = Connected::on_add)]
+#[component(on_add = Connected::on_add, on_despawn = clear_peer_mapping)]
 pub struct Connected;
 
 impl Connected {
@@ -61,16 +61,28 @@ impl Connected {
         world
             .commands()
             .entity(context.entity)
-            .remove::<(Connecting, Disconnected)>();
+            .remove::<(Connecting, Disconnecting, Disconnected)>();
         if let Some(mut metadata) = world.get_resource_mut::<NetworkingMetadata>() {
             metadata.peer_map.insert(peer_id, context.entity);
         }
     }
 }
 
+/// Removes the entity from the peer map, unless its peer id now belongs to another connection.
+fn clear_peer_mapping(mut world: DeferredWorld, context: HookContext) {
+    let Some(peer_id) = world.get::<RemoteId>(context.entity).map(|c| c.0) else {
+        return;
+    };
+    if let Some(mut metadata) = world.get_resource_mut::<NetworkingMetadata>()
+        && metadata.peer_map.get(&peer_id) == Some(&context.entity)
+    {
+        metadata.peer_map.remove(&peer_id);
+    }
+}
+
 // TODO: add automatic disconnection for entities that are Connecting for too long
 #[derive(Component, Default, Debug, Reflect)]
-#[component(on_add = Connecting::on_add)]
+#[component(on_add = Connecting::on_add, on_despawn = clear_peer_mapping)]
 pub struct Connecting;
 
 impl Connecting {
@@ -121,12 +133,7 @@ pub struct Disconnected {
 
 impl Disconnected {
     fn on_add(mut world: DeferredWorld, context: HookContext) {
-        if let Some(peer_id) = world.get::<RemoteId>(context.entity).map(|c| c.0) {
-            world
-                .resource_mut::<NetworkingMetadata>()
-                .peer_map
-                .remove(&peer_id);
-        }
+        clear_peer_mapping(world.reborrow(), context.clone());
         world
             .commands()
             .entity(context.entity)
@@ -135,7 +142,7 @@ impl Disconnected {
 }
 
 #[derive(Component, Default, Debug, Reflect)]
-#[component(on_add = Disconnecting::on_add)]
+#[component(on_add = Disconnecting::on_add, on_despawn = clear_peer_mapping)]
 pub struct Disconnecting;
 
 impl Disconnecting {
-- 
2.43.0


From 4c81c3bb7bac2c41503ccc3a790125a9ecd19dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:40 +0000
Subject: [PATCH 08/28] fix: accept conditioner jitter below one millisecond

---
 crates/io/link/src/conditioner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 2ae8c00..30784c4 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -172,8 +172,9 @@ impl<P: Eq> LinkConditioner<P> {
 
         let mut latency: i32 = self.config.incoming_latency.as_millis() as i32;
         let mut packet_timestamp = instant;
-        if self.config.incoming_jitter > Duration::default() {
-            let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        // a jitter below the millisecond precision would be an empty range
+        if jitter > 0 {
             latency += rng.random_range(-jitter..jitter);
         }
         if latency > 0 {
-- 
2.43.0


From 342e2d7d0e5d7b39144dc8f1fff610a5983fb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 09/28] fix: remove host markers when the host client is
 disconnected or despawned

---
 crates/connection/connection/src/host.rs | 31 ++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crates/connection/connection/src/host.rs b/crates/connection/connection/src/host.rs
index 1810dce..ddfeb4c 100644
--- a/crates/connection/connection/src/host.rs
+++ b/crates/connection/connection/src/host.rs
@@ -153,10 +153,41 @@ impl HostPlugin {
             }
         }
     }
+
+    /// A host-client that got disconnected (for example because its link failed) is not a host
+    /// anymore.
+    #[cfg(feature = "server")]
+    fn remove_host_client_on_disconnection(
+        trigger: On<Add, Disconnected>,
+        query: Query<(), With<HostClient>>,
+        mut commands: Commands,
+    ) {
+        if query.contains(trigger.entity) {
+            commands.entity(trigger.entity).try_remove::<HostClient>();
+        }
+    }
+
+    /// A server whose host-client is gone (disconnected or despawned) is not a host-server anymore.
+    #[cfg(feature = "server")]
+    fn remove_host_server(
+        trigger: On<Remove, HostClient>,
+        query: Query<(Entity, &HostServer)>,
+        mut commands: Commands,
+    ) {
+        for (server, host) in query.iter() {
+            if host.client == trigger.entity {
+                commands.entity(server).try_remove::<HostServer>();
+            }
+        }
+    }
 }
 
 impl Plugin for HostPlugin {
     fn build(&self, app: &mut App) {
+        #[cfg(feature = "server")]
+        app.add_observer(Self::remove_host_client_on_disconnection);
+        #[cfg(feature = "server")]
+        app.add_observer(Self::remove_host_server);
         #[cfg(feature = "server")]
         app.add_observer(Self::connect);
         #[cfg(feature = "server")]
-- 
2.43.0


From 2f5a4f7d3b7870e4f4bf52d4ca7122b5670e2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 10/28] fix: netcode: refuse packets of disallowed kinds and
 with impossible sequences

The allowed kinds were only logged, an encrypted packet of kind request was taken for a decrypted
connect token, and prefix bytes or sequences out of range panicked.
---
 crates/connection/netcode/src/packet.rs | 12 ++++++++++--
 crates/connection/netcode/src/replay.rs |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index 787d03b..7be809e 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -560,8 +560,10 @@ impl Packet {
         let mut cursor = io::Cursor::new(buf);
         let prefix_byte = cursor.read_u8()?;
         let (sequence_len, pkt_kind) = Packet::get_prefix(prefix_byte);
-        if allowed_packets & (1 << pkt_kind) == 0 {
+        // (`allowed_packets` has 8 bits, while the prefix has room for 16 kinds)
+        if u16::from(allowed_packets) & (1 << pkt_kind) == 0 {
             debug!("ignoring packet of type {}, not allowed", pkt_kind);
+            return Err(Error::InvalidType(pkt_kind).into());
         }
         if prefix_byte == Packet::REQUEST {
             // connection request packet: first byte should be 0x00
@@ -570,6 +572,13 @@ impl Packet {
             packet.decrypt_token_data(key)?;
             return Ok(Packet::Request(packet));
         }
+        // connection requests are never encrypted with a packet key
+        if pkt_kind == Packet::REQUEST {
+            return Err(Error::InvalidType(pkt_kind).into());
+        }
+        if sequence_len > size_of::<u64>() {
+            return Err(Error::InvalidSequenceBytes(sequence_len as u8).into());
+        }
         if buf_len < size_of::<u8>() + sequence_len + MAC_BYTES {
             // should at least have prefix byte, sequence and mac
             return Err(Error::TooSmall.into());
@@ -608,7 +617,6 @@ impl Packet {
         }
 
         let packet = match pkt_kind {
-            Packet::REQUEST => Packet::Request(RequestPacket::read_from(&mut cursor)?),
             Packet::DENIED => Packet::Denied(DeniedPacket::read_from(&mut cursor)?),
             Packet::CHALLENGE => Packet::Challenge(ChallengePacket::read_from(&mut cursor)?),
             Packet::RESPONSE => Packet::Response(ResponsePacket::read_from(&mut cursor)?),
diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index 44bcd4c..bf8964a 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -24,7 +24,7 @@ impl ReplayProtection {
     }
 
     pub fn is_already_received(&self, sequence: u64) -> bool {
-        if sequence + self.received_packet.len() as u64 <= self.most_recent_sequence {
+        if sequence.saturating_add(self.received_packet.len() as u64) <= self.most_recent_sequence {
             return true;
         }
 
-- 
2.43.0


From c093124e2d9d150292e901bbc8abac38b313e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 11/28] fix: netcode: client is connecting again when it moves
 to the next server of its token

---
 crates/connection/netcode/src/client_plugin.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/client_plugin.rs b/crates/connection/netcode/src/client_plugin.rs
index 66f75ac..c97b4ce 100644
--- a/crates/connection/netcode/src/client_plugin.rs
+++ b/crates/connection/netcode/src/client_plugin.rs
@@ -140,6 +140,7 @@ impl NetcodeClientPlugin {
                 &mut Link,
                 &mut NetcodeClient,
                 Has<Connecting>,
+                Has<Connected>,
                 Has<Disconnected>,
             ),
             (With<Linked>, Without<HostClient>),
@@ -148,7 +149,7 @@ impl NetcodeClientPlugin {
     ) {
         let delta = real_time.delta();
         adaptive_for_each_mut!(query).for_each(
-            |(entity, mut link, mut client, connecting, disconnected)| {
+            |(entity, mut link, mut client, connecting, connected, disconnected)| {
                 // #[cfg(feature = "test_utils")]
                 // trace!("CLIENT: length of each packet in receive: {:?}", link.recv.iter().map(|p| p.len()).collect::<Vec<_>>());
 
@@ -171,6 +172,12 @@ impl NetcodeClientPlugin {
                             ));
                         });
                     }
+                    // the server ended the connection, and we are trying the next one from the token
+                    if connected && client.inner.is_pending() {
+                        parallel_commands.command_scope(|mut commands| {
+                            commands.entity(entity).insert(Connecting);
+                        });
+                    }
                     if !disconnected
                         && !matches!(
                             state,
-- 
2.43.0


From 304cc529ab1a5f706da2733acf3ae992deddd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 12/28] fix: netcode: server ignores payloads of clients that
 are not connected yet

---
 crates/connection/netcode/src/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index ae5b8b8..744f0a0 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -571,8 +571,12 @@ impl<Ctx> Server<Ctx> {
                 Ok(None)
             }
             Packet::Payload(packet) => {
-                if let Some(client_id) =
-                    self.conn_cache.find_by_entity(&entity).map(|c| c.client_id)
+                // payloads are only accepted once the connection is established
+                if let Some(client_id) = self
+                    .conn_cache
+                    .find_by_entity(&entity)
+                    .filter(|c| c.is_connected())
+                    .map(|c| c.client_id)
                 {
                     self.touch_client(client_id);
                     Ok(Some(packet.into_recv()))
-- 
2.43.0


From 7976d82d23afc2c46d2f655d8dc1dd46514439fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 13/28] fix: netcode: a client id belongs to the entity that
 answered its challenge

Requests for one id from several entities, or for several ids from one entity, left connections that
could not be reached, timed out or disconnected through their entity.
---
 crates/connection/netcode/src/server.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 744f0a0..0280fc5 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -148,8 +148,18 @@ impl ConnectionCache {
         user_data: [u8; USER_DATA_BYTES],
     ) {
         let time = self.time;
+        // an entity that now requests a connection under another id gives up the pending one
+        if let Some(previous_id) = self.client_id_map.get(&entity).copied()
+            && previous_id != client_id
+        {
+            self.client_id_map.remove(&entity);
+            // (unless it was also requested from another entity)
+            if !self.client_id_map.values().any(|id| *id == previous_id) {
+                self.clients.remove(&previous_id);
+                self.replay_protection.remove(&previous_id);
+            }
+        }
         if let Some(existing) = self.mut_by_entity(&entity) {
-            existing.client_id = client_id;
             existing.timeout = timeout;
             existing.send_key = send_key;
             existing.receive_key = receive_key;
@@ -835,6 +845,9 @@ impl<Ctx> Server<Ctx> {
         let client = self.conn_cache.clients.get_mut(&id).unwrap();
 
         client.connect();
+        // the same id may have been requested from several entities: the connection belongs to the
+        // one that answered the challenge
+        client.entity = entity;
         client.last_send_time = self.time;
         client.last_receive_time = self.time;
         let user_data = client.user_data;
@@ -842,6 +855,10 @@ impl<Ctx> Server<Ctx> {
             "server accepted client {} with id {}",
             id, challenge_token.client_id
         );
+        self.conn_cache
+            .client_id_map
+            .retain(|_, client_id| *client_id != id);
+        self.conn_cache.client_id_map.insert(entity, id);
         self.send_netcode_to_client(KeepAlivePacket::create(id), id, entity)?;
         self.on_connect(id, entity, user_data);
         Ok(())
-- 
2.43.0


From 595b5c94ed371593c6ae005bc7676e196dbf50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:45 +0000
Subject: [PATCH 14/28] fix: netcode: do not send buffered payloads unencrypted
 when the server stops

---
 crates/connection/netcode/src/server.rs       |  9 +++++
 .../connection/netcode/src/server_plugin.rs   | 39 ++++++++++---------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 0280fc5..1ea187b 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -919,6 +919,15 @@ impl<Ctx> Server<Ctx> {
         Ok(())
     }
 
+    /// Buffer already encrypted packets, to be sent by [`Self::send_netcode_packets`].
+    pub(crate) fn buffer_netcode_packets(
+        &mut self,
+        entity: Entity,
+        packets: impl Iterator<Item = SendPayload>,
+    ) {
+        self.send_queue.entry(entity).or_default().extend(packets);
+    }
+
     pub(crate) fn send_netcode_packets(&mut self, entity: Entity, sender: &mut LinkSender) {
         if let Some(queue) = self.send_queue.get_mut(&entity) {
             queue.drain(..).for_each(|send_payload| {
diff --git a/crates/connection/netcode/src/server_plugin.rs b/crates/connection/netcode/src/server_plugin.rs
index a1f6ac1..c694f09 100644
--- a/crates/connection/netcode/src/server_plugin.rs
+++ b/crates/connection/netcode/src/server_plugin.rs
@@ -16,7 +16,7 @@ use lightyear_connection::server::Stopping;
 use lightyear_connection::shared::ConnectionRequestHandler;
 use lightyear_core::id::{LocalId, PeerId, RemoteId};
 use lightyear_link::prelude::{LinkOf, Server};
-use lightyear_link::{Link, LinkSystems, Unlink, UnlinkReason};
+use lightyear_link::{Link, LinkSender, LinkSystems, Unlink, UnlinkReason};
 use lightyear_transport::plugin::TransportSystems;
 use lightyear_utils::adaptive_for_each_mut;
 use tracing::{error, info, trace};
@@ -183,13 +183,7 @@ impl NetcodeServerPlugin {
     fn send(
         mut server_query: Query<(&mut NetcodeServer, &Server), (With<Server>, Without<Stopped>)>,
         client_query: Query<
-            (
-                Entity,
-                &mut Link,
-                Option<&RemoteId>,
-                Option<&Connected>,
-                Option<&Disconnecting>,
-            ),
+            (Entity, &mut Link, Option<&RemoteId>, Option<&Connected>),
             (With<LinkOf>, Without<HostClient>, Without<SkipNetcode>),
         >,
     ) {
@@ -212,7 +206,7 @@ impl NetcodeServerPlugin {
                 let unique_slice =
                     unsafe { UniqueEntitySlice::from_slice_unchecked(server.collection()) };
                 client_query.iter_many_unique_mut(unique_slice).for_each(
-                    |(entity, mut link, remote_id, connected, disconnecting)| {
+                    |(entity, mut link, remote_id, connected)| {
                         // TODO: we can be here while the link has been established, but the client is not yet connected
                         //  so the PeerId is not Netcode! I think we should just error?
 
@@ -249,11 +243,8 @@ impl NetcodeServerPlugin {
                             // if the client is not connected, remove any messages buffered in link.send
                             // We don't want to allow users to send messages while not connected
                             //
-                            // However if we are disconnecting, we still want to send the disconnect packets
-                            // (we don't use `send_netcode_packets` because we need to remove the client from `send_queue`)
-                            if disconnecting.is_none() {
-                                link.send.drain();
-                            }
+                            // (if we are disconnecting, the disconnect packets are buffered in the netcode server)
+                            link.send.drain();
                         }
 
                         // even if it was not connected, we might need to send the netcode packets that were buffered
@@ -427,9 +418,10 @@ impl NetcodeServerPlugin {
         trigger: On<Stop>,
         mut commands: Commands,
         mut query: Query<(Entity, &mut NetcodeServer, &Server), Without<Stopped>>,
-        mut link_query: Query<
-            (Entity, &mut Link, &RemoteId),
+        link_query: Query<
+            (Entity, &RemoteId),
             (
+                With<Link>,
                 With<ClientOf>,
                 With<Connected>,
                 Without<HostClient>,
@@ -445,15 +437,24 @@ impl NetcodeServerPlugin {
             // SAFETY: we know that the list of client entities are unique because it is a Relationship
             let unique_slice =
                 unsafe { UniqueEntitySlice::from_slice_unchecked(server.collection()) };
-            link_query.iter_many_unique_mut(unique_slice).try_for_each(
-                |(entity, mut link, remote_peer_id)| {
+            link_query.iter_many_unique(unique_slice).try_for_each(
+                |(entity, remote_peer_id)| {
                     let PeerId::Netcode(client_id) = remote_peer_id.0 else {
                         error!("Client {:?} is not a Netcode client", remote_peer_id);
                         return Err(crate::error::Error::UnknownClient(remote_peer_id.0));
                     };
                     // this will make sure that `netcode.on_disconnect` is called, so the entity will get disconnected
                     // in the next frame from the `receive` system.
-                    netcode_server.inner.disconnect(client_id, &mut link.send)?;
+                    //
+                    // The disconnect packets are kept apart from the user payloads in `link.send`, which
+                    // must not be sent unencrypted.
+                    let mut disconnect_packets = LinkSender::default();
+                    netcode_server
+                        .inner
+                        .disconnect(client_id, &mut disconnect_packets)?;
+                    netcode_server
+                        .inner
+                        .buffer_netcode_packets(entity, disconnect_packets.drain());
                     commands.entity(entity).insert(Disconnecting);
                     Ok(())
                 },
-- 
2.43.0


From 5a7210da597d56f8f79023e95f37399d3104d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 15/28] fix: RTT estimate stuck at zero after two unmeasurably
 small samples

Every outlier bound was proportional to the current estimate, so an estimate of
zero (and zero deviation) clamped all later samples to zero.
---
 crates/core/sync/src/ping/estimator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/core/sync/src/ping/estimator.rs b/crates/core/sync/src/ping/estimator.rs
index ca2a90b..1cdd5b5 100644
--- a/crates/core/sync/src/ping/estimator.rs
+++ b/crates/core/sync/src/ping/estimator.rs
@@ -20,6 +20,10 @@ const MAX_RTT_RELATIVE_INCREASE_FACTOR: f64 = 3.0; // e.g., sample clamped if >
 // This provides a safety net if SRTT is very low.
 const MAX_RTT_ABSOLUTE_INCREASE_SECS: f64 = 0.5; // e.g., 500ms absolute increase allowed over SRTT
 
+// The clamp always allows at least this much increase over the smoothed RTT. All the other bounds
+// are proportional to the current estimate, so an estimate of zero could otherwise never grow again.
+const MIN_RTT_ABSOLUTE_INCREASE_SECS: f64 = 0.001;
+
 /// Holds the final computed RTT and Jitter.
 #[derive(Debug, Clone, Default, PartialEq)]
 pub struct FinalStats {
@@ -100,7 +104,9 @@ impl RttEstimatorEwma {
 
             // Ensure the clamp bound is not overly restrictive, e.g., must allow some increase.
             // This also handles cases where prev_rtt_abs_dev_secs might be zero.
-            clamp_upper_bound = clamp_upper_bound.max(prev_srtt_secs * 1.2); // Must allow at least 20% increase
+            clamp_upper_bound = clamp_upper_bound
+                .max(prev_srtt_secs * 1.2) // Must allow at least 20% increase
+                .max(prev_srtt_secs + MIN_RTT_ABSOLUTE_INCREASE_SECS);
 
             if rtt_sample_secs > clamp_upper_bound {
                 trace!(
-- 
2.43.0


From 4f2994901e63426a2ea43e8f8b389a929e1cee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 16/28] fix: a pong with a huge processing time panics its
 receiver

The processing time a peer reports is unsigned, but was converted to a signed
tick delta first, and a negative delta cannot be turned into a Duration.
---
 crates/core/core/src/time.rs         | 3 +++
 crates/core/sync/src/ping/manager.rs | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/core/core/src/time.rs b/crates/core/core/src/time.rs
index 5385144..31b2117 100644
--- a/crates/core/core/src/time.rs
+++ b/crates/core/core/src/time.rs
@@ -451,6 +451,9 @@ impl PositiveTickDelta {
     pub fn overstep(&self) -> Overstep {
         Overstep::new(self.value.wrapping_to_num())
     }
+    pub fn to_duration(&self, tick_duration: Duration) -> Duration {
+        tick_duration.mul_f32(self.value.to_num())
+    }
 }
 
 impl From<TickDelta> for PositiveTickDelta {
diff --git a/crates/core/sync/src/ping/manager.rs b/crates/core/sync/src/ping/manager.rs
index f7e969d..dec69b6 100644
--- a/crates/core/sync/src/ping/manager.rs
+++ b/crates/core/sync/src/ping/manager.rs
@@ -8,7 +8,6 @@ use bevy_reflect::Reflect;
 use bevy_time::{Real, Stopwatch, Time};
 use core::time::Duration;
 use lightyear_core::time::Instant;
-use lightyear_core::time::TickDelta;
 use lightyear_messages::prelude::{MessageReceiver, MessageSender};
 use tracing::{error, trace};
 
@@ -169,7 +168,7 @@ impl PingManager {
 
             // round-trip-delay
             let rtt = received_time.saturating_duration_since(ping_sent_time);
-            let server_process_time = TickDelta::from(pong.frame_time).to_duration(tick_duration);
+            let server_process_time = pong.frame_time.to_duration(tick_duration);
             trace!(?rtt, ?received_time, ?ping_sent_time, ?pong.frame_time,  "process received pong");
             let round_trip_delay = rtt.saturating_sub(server_process_time);
 
-- 
2.43.0


From dafc59ea83cdf354eb1509e18c20974f1ca02df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:57 +0000
Subject: [PATCH 17/28] fix: input delay overflows with a large prediction
 window

maximum_predicted_ticks + maximum_input_delay_before_prediction was added in
u16: it panics with overflow checks, and wraps to a needless input delay without.
---
 crates/core/sync/src/timeline/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index 653fd76..33295c8 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -393,7 +393,7 @@ impl InputDelayConfig {
         // if we're in lockstep mode, we will take extra margin
         if self.is_lockstep() {
             // TODO: make this configurable!
-            rtt_ticks += 2;
+            rtt_ticks = rtt_ticks.saturating_add(2);
         }
         // if the rtt is lower than the minimum input delay, we will apply the minimum input delay
         if rtt_ticks <= self.minimum_input_delay_ticks {
@@ -405,7 +405,10 @@ impl InputDelayConfig {
         }
         // else, apply input delay up to the maximum input delay, and cover the rest with prediction
         // if not possible, add even more input delay
-        if rtt_ticks <= (self.maximum_predicted_ticks + self.maximum_input_delay_before_prediction)
+        if rtt_ticks
+            <= self
+                .maximum_predicted_ticks
+                .saturating_add(self.maximum_input_delay_before_prediction)
         {
             self.maximum_input_delay_before_prediction
         } else {
-- 
2.43.0


From 8e870556e8e5cce193a05dd7b1fe2831b58d35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 18/28] fix: SetTickDuration left the TickDuration resource
 unchanged

Bevy's fixed timestep followed the event, while clock synchronization and
latency conversions kept using the old duration.
---
 crates/core/core/src/timeline.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/core/src/timeline.rs b/crates/core/core/src/timeline.rs
index 9044b00..3b753b6 100644
--- a/crates/core/core/src/timeline.rs
+++ b/crates/core/core/src/timeline.rs
@@ -292,8 +292,13 @@ pub struct TimelinePlugin {
 }
 
 impl TimelinePlugin {
-    fn update_tick_duration(trigger: On<SetTickDuration>, mut time: ResMut<Time<Fixed>>) {
+    fn update_tick_duration(
+        trigger: On<SetTickDuration>,
+        mut time: ResMut<Time<Fixed>>,
+        mut tick_duration: ResMut<TickDuration>,
+    ) {
         time.set_timestep(trigger.0);
+        tick_duration.0 = trigger.0;
     }
 }
 
-- 
2.43.0


From 664fb2ed76d00c384afeb07c15212521efa63b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:06 +0000
Subject: [PATCH 19/28] fix: P2P start messages that arrived before the local
 P2PStart were lost

A peer sends its Ready and acknowledgement once. If another peer had not yet begun the same attempt,
the message was dropped at the end of the frame and both barriers ran into their time-out. Keep
messages of attempts that have not begun, and do not start while the timeline resynchronizes.
---
 crates/connection/p2p/src/session.rs | 58 ++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/crates/connection/p2p/src/session.rs b/crates/connection/p2p/src/session.rs
index 63c3ac4..4d83238 100644
--- a/crates/connection/p2p/src/session.rs
+++ b/crates/connection/p2p/src/session.rs
@@ -95,6 +95,12 @@ pub struct P2PSession {
     remote_peers: SmallVec<[RemotePeerStart; 4]>,
     /// Set when a peer advertises a different roster for the same attempt.
     roster_mismatch: bool,
+    /// Messages of a start attempt that this app has not begun yet.
+    ///
+    /// Peers never begin an attempt at exactly the same time and every message is sent only once,
+    /// so whatever an earlier peer sent is kept until the local attempt begins. Holds at most one
+    /// message of each kind per remote peer.
+    early_messages: SmallVec<[(PeerId, P2PSessionMessage); 4]>,
 }
 
 impl Default for P2PSession {
@@ -111,6 +117,7 @@ impl Default for P2PSession {
             roster_hash: None,
             remote_peers: SmallVec::new(),
             roster_mismatch: false,
+            early_messages: SmallVec::new(),
         }
     }
 }
@@ -166,6 +173,9 @@ impl P2PSession {
             .collect();
         self.roster_mismatch = false;
         self.state = P2PSessionState::Starting { start_tick: None };
+        for (peer_id, message) in core::mem::take(&mut self.early_messages) {
+            self.receive(peer_id, message);
+        }
     }
 
     /// Clear the active cohort and return to the lobby/stopped state.
@@ -194,18 +204,27 @@ impl P2PSession {
             .is_some_and(|started_at| now.saturating_sub(started_at) >= self.start_timeout)
     }
 
+    /// Keep a message of an attempt that this app has not begun yet, and ignore any other.
+    fn keep_early(&mut self, peer_id: PeerId, message: P2PSessionMessage) {
+        if (message.generation().wrapping_sub(self.generation)).cast_signed() <= 0 {
+            return;
+        }
+        self.early_messages.retain(|(early_peer, early_message)| {
+            *early_peer != peer_id
+                || core::mem::discriminant(early_message) != core::mem::discriminant(&message)
+        });
+        self.early_messages.push((peer_id, message));
+    }
+
     /// Record one message received from a remote Link in the current start attempt.
     ///
     /// Delayed messages from older generations and messages from Links outside the frozen cohort
-    /// are ignored. Repeated identical messages are harmless; conflicting repeats are logged and
+    /// are ignored. Messages from a newer generation wait for that attempt. Repeated identical messages are harmless; conflicting repeats are logged and
     /// the first value remains authoritative.
     fn receive(&mut self, peer_id: PeerId, message: P2PSessionMessage) {
         // Reliable packets from a previous start can arrive after a stop/restart cycle.
-        let generation = match message {
-            P2PSessionMessage::Ready { generation, .. }
-            | P2PSessionMessage::StartAcknowledgement { generation, .. } => generation,
-        };
-        if generation != self.generation {
+        if message.generation() != self.generation {
+            self.keep_early(peer_id, message);
             return;
         }
         let Some(peer) = self
@@ -438,6 +457,16 @@ enum P2PSessionMessage {
     },
 }
 
+impl P2PSessionMessage {
+    fn generation(&self) -> u32 {
+        match self {
+            Self::Ready { generation, .. } | Self::StartAcknowledgement { generation, .. } => {
+                *generation
+            }
+        }
+    }
+}
+
 /// Private reliable delivery queue for P2P lifecycle control messages.
 struct P2PSessionChannel;
 
@@ -670,17 +699,21 @@ fn transition_candidates(commands: &mut Commands, links: &mut P2PLinkQuery, next
 }
 
 /// Complete an acknowledged barrier immediately before its first gameplay tick.
+///
+/// A Link that was lost and restored during the barrier makes the timeline synchronize again. The
+/// session cannot start before that is done, since it would relabel ticks of the running session.
 fn start_session_before_agreed_tick(
     mut commands: Commands,
     mut session: ResMut<P2PSession>,
     timeline: Res<LocalTimeline>,
+    synced_timeline: Option<SyncedLocalTimeline>,
     mut metadata: ResMut<NetworkingMetadata>,
     mut links: P2PLinkQuery,
 ) {
     let Some(start_tick) = session.agreed_start_tick() else {
         return;
     };
-    if timeline.tick() + 1 != start_tick {
+    if timeline.tick() + 1 != start_tick || synced_timeline.is_none() {
         return;
     }
 
@@ -721,6 +754,17 @@ fn drive_session(
     real_time: Res<Time<Real>>,
     mut links: P2PLinkQuery,
 ) {
+    // A remote peer may already negotiate an attempt that this app, or this Link, has not begun.
+    for (_, state, remote_id, _, _, receiver) in &mut links {
+        let (Some(remote_id), Some(mut receiver)) = (remote_id, receiver) else {
+            continue;
+        };
+        if *state != P2P::Candidate {
+            for message in receiver.receive() {
+                session.keep_early(remote_id.0, message);
+            }
+        }
+    }
     if !matches!(session.state, P2PSessionState::Starting { .. }) {
         return;
     }
-- 
2.43.0


From 5eed02d42afdef299cdbcf0c22b89042fefc5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:06 +0000
Subject: [PATCH 20/28] fix: RemoteTimeline ignored a peer that moved its
 timeline back

A P2P peer moves its LocalTimeline back when it first aligns with the others. Its peers dropped
every later packet as outdated until it had caught up, and could not synchronize meanwhile.
---
 crates/core/sync/src/timeline/remote.rs  | 34 +++++++++++++++++++-----
 crates/transport/transport/src/plugin.rs |  4 +++
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/crates/core/sync/src/timeline/remote.rs b/crates/core/sync/src/timeline/remote.rs
index 3eb55cc..75e9744 100644
--- a/crates/core/sync/src/timeline/remote.rs
+++ b/crates/core/sync/src/timeline/remote.rs
@@ -11,6 +11,7 @@ use lightyear_core::tick::{Tick, TickDuration};
 use lightyear_core::time::{TickDelta, TickInstant};
 use lightyear_core::timeline::{NetworkTimeline, Timeline, TimelineConfig};
 use lightyear_link::Linked;
+use lightyear_transport::packet::PacketId;
 use lightyear_transport::plugin::PacketReceived;
 use tracing::trace;
 
@@ -29,6 +30,9 @@ pub struct RemoteEstimate {
     received_packet: bool,
     /// Most recent tick received from the Server
     last_received_tick: Option<Tick>,
+    /// Packet that carried the most recent tick
+    #[reflect(ignore)]
+    last_received_packet: Option<PacketId>,
     /// Our estimate of the offset of the remote timeline compared with our estimate
     /// if we just updated the timeline without any adjustments
     ///
@@ -53,6 +57,7 @@ impl Default for RemoteEstimate {
         Self {
             received_packet: false,
             last_received_tick: None,
+            last_received_packet: None,
             offset: TickDelta::from(0),
             min_ema_alpha: 0.02,
             max_ema_alpha: 0.10,
@@ -99,15 +104,19 @@ impl RemoteTimeline {
     ///
     /// # Arguments
     ///
+    /// * `packet_id` - The packet that carried the remote tick
     /// * `remote_tick` - The tick from the remote peer's timeline included in the received packet
     /// * `ping_manager` - Reference to the PingManager that tracks network latency measurements
     ///
     /// # Note
     ///
-    /// This method will only update the estimate if the received tick is newer than
-    /// the previously received tick.
+    /// This method will only update the estimate if the received packet is newer than the one that
+    /// carried the previously received tick. If a newer packet carries an older tick, then the
+    /// remote peer moved its own timeline back (which P2P peers do when they first align their
+    /// timelines) and the estimate starts over.
     pub(crate) fn update(
         &mut self,
+        packet_id: PacketId,
         remote_tick: Tick,
         ping_manager: &PingManager,
         tick_duration: Duration,
@@ -127,12 +136,19 @@ impl RemoteTimeline {
         }
         if self
             .context
-            .last_received_tick
-            .is_none_or(|previous_tick| remote_tick >= previous_tick)
+            .last_received_packet
+            .is_none_or(|previous_packet| packet_id > previous_packet)
         {
-            // only update if the remote tick is newer than the last received tick
+            if self
+                .context
+                .last_received_tick
+                .is_some_and(|previous_tick| remote_tick < previous_tick)
+            {
+                self.context.first_estimate = true;
+            }
             self.context.received_packet = true;
             self.context.last_received_tick = Some(remote_tick);
+            self.context.last_received_packet = Some(packet_id);
 
             // we have received the packet now, so the remote must already be at RTT/2 ahead
             let network_delay = TickDelta::from_duration(ping_manager.rtt() / 2, tick_duration);
@@ -185,6 +201,7 @@ impl RemoteTimeline {
             timeline.offset = TickDelta::from(0);
             timeline.first_estimate = true;
             timeline.last_received_tick = None;
+            timeline.last_received_packet = None;
         }
     }
 
@@ -244,7 +261,12 @@ pub(crate) fn update_remote_timeline(
             remote_tick = trigger.remote_tick.0,
             "packet carried remote timeline tick"
         );
-        t.update(trigger.remote_tick, ping_manager, tick_duration.0);
+        t.update(
+            trigger.packet_id,
+            trigger.remote_tick,
+            ping_manager,
+            tick_duration.0,
+        );
     }
 }
 
diff --git a/crates/transport/transport/src/plugin.rs b/crates/transport/transport/src/plugin.rs
index af96701..d181d7e 100644
--- a/crates/transport/transport/src/plugin.rs
+++ b/crates/transport/transport/src/plugin.rs
@@ -51,6 +51,8 @@ pub enum TransportSystems {
 #[derive(EntityEvent)]
 pub struct PacketReceived {
     pub entity: Entity,
+    /// Id of the packet, increasing in the order in which the remote peer sent its packets
+    pub packet_id: PacketId,
     pub remote_tick: Tick,
 }
 
@@ -152,6 +154,7 @@ impl TransportPlugin {
                             });
                         commands.trigger(PacketReceived {
                             entity,
+                            packet_id: header.packet_id,
                             remote_tick: tick,
                         });
                     });
@@ -168,6 +171,7 @@ impl TransportPlugin {
                             });
                         commands.trigger(PacketReceived {
                             entity,
+                            packet_id: header.packet_id,
                             remote_tick: tick,
                         });
                     }
-- 
2.43.0


From 483d4c27df2119fa569da129dd4cd95647075451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:19 +0000
Subject: [PATCH 21/28] fix: Unlink lost its reason before transports could
 forward it

---
 crates/io/aeronet/src/lib.rs    | 11 +++++++++--
 crates/io/aeronet/src/server.rs | 13 ++++++++++++-
 crates/io/link/src/lib.rs       |  5 +++--
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/io/aeronet/src/lib.rs b/crates/io/aeronet/src/lib.rs
index f18aeea..8423ffd 100644
--- a/crates/io/aeronet/src/lib.rs
+++ b/crates/io/aeronet/src/lib.rs
@@ -137,11 +137,18 @@ impl AeronetPlugin {
     fn on_disconnected(
         trigger: On<Disconnected>,
         query: Query<&AeronetLinkOf>,
+        unlinked_query: Query<(), With<Unlinked>>,
         mut commands: Commands,
     ) {
         if let Ok(aeronet_io) = query.get(trigger.entity)
             && let Ok(mut c) = commands.get_entity(aeronet_io.0)
         {
+            // The session was disconnected because of an `Unlink`, which has the structured reason.
+            if matches!(trigger.reason, DisconnectReason::ByUser(_))
+                && unlinked_query.contains(aeronet_io.0)
+            {
+                return;
+            }
             let reason = match &trigger.reason {
                 DisconnectReason::ByUser(reason) => {
                     UnlinkReason::UserRequested((!reason.is_empty()).then(|| reason.to_string()))
@@ -159,7 +166,7 @@ impl AeronetPlugin {
     }
 
     fn unlink(
-        mut trigger: On<Unlink>,
+        trigger: On<Unlink>,
         query: Query<&AeronetLink>,
         aeronet_query: Query<Has<Server>>,
         mut commands: Commands,
@@ -168,7 +175,7 @@ impl AeronetPlugin {
             // get the aeronet session entity
             && let Ok(is_server) = aeronet_query.get(aeronet_link.0)
         {
-            let reason = core::mem::take(&mut trigger.reason).to_string();
+            let reason = trigger.reason.to_string();
             trace!(
                 "Unlink triggered on Link entity {:?} (reason: {reason:?}). Closing/Disconnecting AeronetLink entity {:?}",
                 trigger.entity, aeronet_link.0
diff --git a/crates/io/aeronet/src/server.rs b/crates/io/aeronet/src/server.rs
index 0e85483..c1c1004 100644
--- a/crates/io/aeronet/src/server.rs
+++ b/crates/io/aeronet/src/server.rs
@@ -53,10 +53,21 @@ impl ServerAeronetPlugin {
         }
     }
 
-    fn on_closed(trigger: On<Closed>, query: Query<&AeronetLinkOf>, mut commands: Commands) {
+    fn on_closed(
+        trigger: On<Closed>,
+        query: Query<&AeronetLinkOf>,
+        unlinked_query: Query<(), With<Unlinked>>,
+        mut commands: Commands,
+    ) {
         if let Ok(child_of) = query.get(trigger.entity)
             && let Ok(mut c) = commands.get_entity(child_of.0)
         {
+            // The server was closed because of an `Unlink`, which has the structured reason.
+            if matches!(trigger.reason, CloseReason::ByUser(_))
+                && unlinked_query.contains(child_of.0)
+            {
+                return;
+            }
             trace!(
                 "AeronetServer closed for {:?}. Adding unlinked on Server",
                 child_of.0
diff --git a/crates/io/link/src/lib.rs b/crates/io/link/src/lib.rs
index a36dcc6..f839962 100644
--- a/crates/io/link/src/lib.rs
+++ b/crates/io/link/src/lib.rs
@@ -498,10 +498,11 @@ impl LinkPlugin {
     }
 
     /// Handles [`Unlink`] requests by inserting [`Unlinked`].
-    fn unlink(mut unlink: On<Unlink>, mut commands: Commands) {
+    fn unlink(unlink: On<Unlink>, mut commands: Commands) {
         if let Ok(mut c) = commands.get_entity(unlink.entity) {
+            // transports observe the same event, so the reason must stay in it
             c.insert(Unlinked {
-                reason: core::mem::take(&mut unlink.reason),
+                reason: unlink.reason.clone(),
             });
         }
     }
-- 
2.43.0


From a3b7d849817e7e2e7cda5ce3a7c86898700dbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:26 +0000
Subject: [PATCH 22/28] fix: input buffer at tick 0 and over long repeats

Tick subtraction saturates, so at tick 0 the buffer looked for a preceding
input in the entry itself: setting tick 0 twice lost the input and reading it
never ended, pop_keeping_last popped the entry it keeps, and extend_to_range
came out one tick short. Reading a repeated input also recursed once per tick.
---
 crates/inputs/inputs/src/input_buffer.rs | 30 ++++++++++++++----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/inputs/inputs/src/input_buffer.rs b/crates/inputs/inputs/src/input_buffer.rs
index cf8c647..2310fc0 100644
--- a/crates/inputs/inputs/src/input_buffer.rs
+++ b/crates/inputs/inputs/src/input_buffer.rs
@@ -150,12 +150,10 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
         }
 
         // Extend to the right if needed
-        let current_end = current_start + (self.buffer.len() as i32 - 1);
-        if end_tick > current_end {
-            let append_count = (end_tick - current_end) as usize;
-            for _ in 0..append_count {
-                self.buffer.push_back(Compressed::Absent);
-            }
+        // (count from `current_start`: the end of an empty buffer that starts at tick 0 has no tick)
+        let len = (end_tick - current_start + 1).max(0) as usize;
+        while self.buffer.len() < len {
+            self.buffer.push_back(Compressed::Absent);
         }
     }
 
@@ -165,7 +163,9 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
     ///
     /// This should be called every tick.
     pub fn set(&mut self, tick: Tick, value: T) {
-        if let Some(precedent) = self.get(tick - 1)
+        // (nothing precedes tick 0: `tick - 1` saturates)
+        if tick > Tick(0)
+            && let Some(precedent) = self.get(tick - 1)
             && precedent == &value
         {
             self.set_raw(tick, Compressed::SameAsPrecedent);
@@ -229,6 +229,10 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
             return self.pop(tick);
         };
         let clamped = if tick >= last_tick {
+            if last_tick == Tick(0) {
+                // nothing precedes the entry to keep
+                return None;
+            }
             last_tick - 1
         } else {
             tick
@@ -299,14 +303,14 @@ impl<T: Clone + PartialEq, M> InputBuffer<T, M> {
         if tick < start_tick || tick > start_tick + (self.buffer.len() as i32 - 1) {
             return None;
         }
-        let data = self.buffer.get((tick - start_tick) as usize).unwrap();
-        match data {
-            Compressed::Absent => None,
-            Compressed::SameAsPrecedent => {
+        let mut index = (tick - start_tick) as usize;
+        loop {
+            match self.buffer.get(index).unwrap() {
+                Compressed::Absent => return None,
                 // get the data from the preceding tick
-                self.get(tick - 1)
+                Compressed::SameAsPrecedent => index = index.checked_sub(1)?,
+                Compressed::Input(data) => return Some(data),
             }
-            Compressed::Input(data) => Some(data),
         }
     }
 
-- 
2.43.0


From db9c1c8d2a5260f109aa8060a52f764811d082cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:13 +0000
Subject: [PATCH 23/28] fix: late input messages discarded inputs received
 after them

---
 crates/inputs/inputs/src/input_message.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/inputs/inputs/src/input_message.rs b/crates/inputs/inputs/src/input_message.rs
index 3ef70ce..6b16578 100644
--- a/crates/inputs/inputs/src/input_message.rs
+++ b/crates/inputs/inputs/src/input_message.rs
@@ -216,14 +216,16 @@ pub trait ActionStateSequence:
                     debug!(
                         "Mismatch detected at tick {tick:?} for new_input {latest_received_input:?}. Previous predicted input: {previous_predicted_input:?}"
                     );
-                    input_buffer.set_raw(tick, Compressed::from(latest_received_input.clone()));
                     // remove all existing inputs in the buffer that come after `tick`
+                    // (this clears a buffer that starts after `tick`, so it has to be done first)
                     input_buffer.clip_after(tick);
+                    input_buffer.set_raw(tick, Compressed::from(latest_received_input.clone()));
                     earliest_mismatch = Some(tick);
                 }
             }
         }
-        input_buffer.last_remote_tick = Some(end_tick);
+        // (messages can arrive out of order)
+        input_buffer.last_remote_tick = last_remote_tick.max(Some(end_tick));
         trace!("input buffer after update: {input_buffer:?}");
         earliest_mismatch
     }
-- 
2.43.0


From 482ac9cf42b08df93877f226e7bde7e8ec2d8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:13 +0000
Subject: [PATCH 24/28] fix: input messages of one frame replaced each other's
 new InputBuffer

---
 crates/inputs/inputs/src/client.rs | 109 ++++++++++++++---------------
 crates/inputs/inputs/src/server.rs |  33 +++++----
 2 files changed, 67 insertions(+), 75 deletions(-)

diff --git a/crates/inputs/inputs/src/client.rs b/crates/inputs/inputs/src/client.rs
index 47a7cc6..d6209e1 100644
--- a/crates/inputs/inputs/src/client.rs
+++ b/crates/inputs/inputs/src/client.rs
@@ -57,7 +57,7 @@ use alloc::{vec, vec::Vec};
 use bevy_app::{
     App, FixedPostUpdate, FixedPreUpdate, Plugin, PostUpdate, PreUpdate, RunFixedMainLoopSystems,
 };
-use bevy_ecs::entity::{MapEntities, UniqueEntitySlice};
+use bevy_ecs::entity::{EntityHashMap, MapEntities, UniqueEntitySlice};
 use bevy_ecs::prelude::*;
 #[cfg(feature = "interpolation")]
 use bevy_time::Fixed;
@@ -976,6 +976,9 @@ fn receive_remote_player_input_messages_from_receiver<S: ActionStateSequence>(
     #[cfg(feature = "metrics")] input_metric_handles: &mut InputMetricHandles<S>,
 ) -> bool {
     let mut received_relevant_input = false;
+    // Buffers of the entities that don't have one yet: they are shared by all the messages of this
+    // frame, which may arrive out of order.
+    let mut new_buffers = EntityHashMap::<InputBuffer<S::Snapshot, S::Action>>::default();
     receiver.receive().for_each(|message| {
         trace!(?message.end_tick, ?message, "received remote input message for action: {:?}", DebugName::type_name::<S::Action>());
         trace!(
@@ -1066,66 +1069,56 @@ fn receive_remote_player_input_messages_from_receiver<S: ActionStateSequence>(
                 input_metric_handles.insert_entity(entity);
             }
 
-            if let Some(mut input_buffer) = input_buffer {
-                // do not parse the remote message our current Buffer end_tick is later than the message end_tick
-                // this can happen if we receive multiple messages out of order.
-                if input_buffer.last_remote_tick.is_some_and(|t| t >= message.end_tick) {
-                    trace!("Ignoring input message because our current last_remote_tick {:?} is more recent than the remote_end_tick {:?}", input_buffer.last_remote_tick, message.end_tick);
-                    trace!(
-                        target: "lightyear_debug::input",
-                        kind = "remote_input_ignored_stale",
-                        schedule = "PreUpdate",
-                        sample_point = "PreUpdate",
-                        entity = ?entity,
-                        action = ?DebugName::type_name::<S::Action>(),
-                        local_tick = tick.0,
-                        end_tick = message.end_tick.0,
-                        last_remote_tick = ?input_buffer.last_remote_tick,
-                        "ignored stale remote input message"
-                    );
-                    continue
-                }
-                received_relevant_input = true;
-                update_buffer_from_remote_player_message::<S>(
-                    target_data.states,
-                    &mut input_buffer,
-                    tick,
-                    message.end_tick,
-                    entity,
-                    prediction_manager,
-                    tick_duration,
-                    #[cfg(feature = "metrics")]
-                    &*input_metric_handles,
-                );
-            } else {
-                // add the ActionState and InputBuffer if they are missing
-                let mut input_buffer = InputBuffer::<S::Snapshot, S::Action>::default();
-                received_relevant_input = true;
-                update_buffer_from_remote_player_message::<S>(
-                    target_data.states,
-                    &mut input_buffer,
-                    tick,
-                    message.end_tick,
-                    entity,
-                    prediction_manager,
-                    tick_duration,
-                    #[cfg(feature = "metrics")]
-                    &*input_metric_handles,
-                );
-                // Initialize ActionState from the latest buffered input rather
-                // than from base_value(). When the remote player's end_tick is
-                // in the past, get_action_state will call get(current_tick)
-                // which returns None and leaves ActionState unchanged. If we
-                // initialized to base_value() the player would simulate with
-                // empty/released inputs until the buffer catches up.
-                let mut action_state = S::State::base_value();
-                if let Some(last) = input_buffer.get_last() {
-                    S::from_snapshot(S::State::as_mut(&mut action_state), last);
-                }
-                commands.entity(entity).insert((input_buffer, action_state));
+            // add the ActionState and InputBuffer if they are missing
+            let input_buffer = match input_buffer {
+                Some(input_buffer) => input_buffer.into_inner(),
+                None => new_buffers.entry(entity).or_default(),
             };
+            // do not parse the remote message our current Buffer end_tick is later than the message end_tick
+            // this can happen if we receive multiple messages out of order.
+            if input_buffer.last_remote_tick.is_some_and(|t| t >= message.end_tick) {
+                trace!("Ignoring input message because our current last_remote_tick {:?} is more recent than the remote_end_tick {:?}", input_buffer.last_remote_tick, message.end_tick);
+                trace!(
+                    target: "lightyear_debug::input",
+                    kind = "remote_input_ignored_stale",
+                    schedule = "PreUpdate",
+                    sample_point = "PreUpdate",
+                    entity = ?entity,
+                    action = ?DebugName::type_name::<S::Action>(),
+                    local_tick = tick.0,
+                    end_tick = message.end_tick.0,
+                    last_remote_tick = ?input_buffer.last_remote_tick,
+                    "ignored stale remote input message"
+                );
+                continue
+            }
+            received_relevant_input = true;
+            update_buffer_from_remote_player_message::<S>(
+                target_data.states,
+                input_buffer,
+                tick,
+                message.end_tick,
+                entity,
+                prediction_manager,
+                tick_duration,
+                #[cfg(feature = "metrics")]
+                &*input_metric_handles,
+            );
         }
     });
+    for (entity, input_buffer) in new_buffers {
+        // Initialize ActionState from the latest buffered input rather
+        // than from base_value(). When the remote player's end_tick is
+        // in the past, get_action_state will call get(current_tick)
+        // which returns None and leaves ActionState unchanged. If we
+        // initialized to base_value() the player would simulate with
+        // empty/released inputs until the buffer catches up.
+        let mut action_state = S::State::base_value();
+        if let Some(last) = input_buffer.get_last() {
+            S::from_snapshot(S::State::as_mut(&mut action_state), last);
+        }
+        commands.entity(entity).insert((input_buffer, action_state));
+    }
     received_relevant_input
 }
 
diff --git a/crates/inputs/inputs/src/server.rs b/crates/inputs/inputs/src/server.rs
index 2fb70f0..7bd8d41 100644
--- a/crates/inputs/inputs/src/server.rs
+++ b/crates/inputs/inputs/src/server.rs
@@ -15,7 +15,7 @@ use bevy_ecs::component::Component;
 use bevy_ecs::prelude::Has;
 use bevy_ecs::relationship::RelationshipTarget;
 use bevy_ecs::{
-    entity::{Entity, MapEntities},
+    entity::{Entity, EntityHashMap, MapEntities},
     error::Result,
     query::With,
     resource::Resource,
@@ -331,8 +331,11 @@ fn receive_input_message<S: ActionStateSequence>(
     >,
     mut commands: Commands,
 ) -> Result {
+    // Buffers of the entities that don't have one yet: they are shared by all the messages of this
+    // frame, which may arrive out of order.
+    let mut new_buffers = EntityHashMap::<InputBuffer<S::Snapshot, S::Action>>::default();
     // TODO: use par_iter_mut
-    receivers.iter_mut().try_for_each(|(client_entity, link_of, mut receiver, client_id, rebroadcaster)| {
+    let result = receivers.iter_mut().try_for_each(|(client_entity, link_of, mut receiver, client_id, rebroadcaster)| {
         // TODO: this drains the messages... but the user might want to re-broadcast them?
         //  should we just read instead?
         let server_entity = link_of.server;
@@ -573,10 +576,10 @@ fn receive_input_message<S: ActionStateSequence>(
                         );
                     } else {
                         debug!("Adding InputBuffer and ActionState which are missing on the entity");
-                        let mut buffer = InputBuffer::<S::Snapshot, S::Action>::default();
+                        let buffer = new_buffers.entry(entity).or_default();
                         let mismatch =
                             data.states
-                                .update_buffer(&mut buffer, message.end_tick, tick_duration.0);
+                                .update_buffer(buffer, message.end_tick, tick_duration.0);
                         if let Some(mismatch_tick) = mismatch
                             && mismatch_tick < tick
                         {
@@ -595,7 +598,7 @@ fn receive_input_message<S: ActionStateSequence>(
                                 previous_last_remote_tick = ?None::<lightyear_core::tick::Tick>,
                                 last_remote_tick = ?buffer.last_remote_tick,
                                 buffer_len = buffer.len(),
-                                input_buffer = %buffer,
+                                input_buffer = %*buffer,
                                 "server received initial input for an already-simulated tick"
                             );
                         }
@@ -610,19 +613,9 @@ fn receive_input_message<S: ActionStateSequence>(
                             local_tick = tick.0,
                             end_tick = message.end_tick.0,
                             buffer_len = buffer.len(),
-                            input_buffer = %buffer,
+                            input_buffer = %*buffer,
                             "server inserted input buffer"
                         );
-                        commands.entity(entity).insert((
-                            buffer,
-                            S::State::base_value()
-                        ));
-                        // commands.command_scope(|mut commands| {
-                        //     commands.entity(entity).insert((
-                        //         buffer,
-                        //         ActionState::<A>::default(),
-                        //     ));
-                        // });
                     }
                 } else {
                     debug!(?entity, ?data.states, end_tick = ?message.end_tick, "received input message for non-existing entity");
@@ -630,7 +623,13 @@ fn receive_input_message<S: ActionStateSequence>(
             }
             Ok(())
         })
-    })
+    });
+    for (entity, buffer) in new_buffers {
+        commands
+            .entity(entity)
+            .insert((buffer, S::State::base_value()));
+    }
+    result
 }
 
 fn detect_input_history_rewrite<S: ActionStateSequence>(
-- 
2.43.0


From 9f07547f3753b6fdd777c029558d39d3a9bd82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:49 +0000
Subject: [PATCH 25/28] fix: check every component of a predicted entity at a
 completed tick

An entity that was part of the completed tick's messages was skipped, so that
a misprediction of a component that was not part of them (unchanged on the
server), or one that an input rollback made after the message was received,
was not noticed.
---
 crates/replication/prediction/src/rollback.rs | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/crates/replication/prediction/src/rollback.rs b/crates/replication/prediction/src/rollback.rs
index bd7f924..67fd706 100644
--- a/crates/replication/prediction/src/rollback.rs
+++ b/crates/replication/prediction/src/rollback.rs
@@ -599,7 +599,7 @@ fn check_rollback(
                             server_confirmed_tick, tick
                         );
                     } else {
-                        let deferred_check_entities = prediction_manager
+                        prediction_manager
                             .pending_entity_state_checks
                             .take_through(server_confirmed_tick);
                         if let Some(mismatch_tick) =
@@ -630,18 +630,14 @@ fn check_rollback(
                             );
                         } else {
                             // A completed mutate tick certifies every replicated component at that
-                            // tick. This scan normally handles entities that were not explicitly
-                            // confirmed at the completed Replicon checkpoint. It also handles an
-                            // explicitly confirmed entity when its receive-time check was deferred
-                            // because the authoritative tick was ahead of the local timeline.
+                            // tick: the ones that were explicitly sent for it, and the others,
+                            // which were unchanged.
                             //
-                            // Do not use `ConfirmHistory::last_tick()` for this skip. An entity can
-                            // have newer explicit confirmations than the completed checkpoint while
-                            // also having an explicit confirmation at the completed checkpoint. What
-                            // matters here is exact membership: if `ConfirmHistory::contains` resolves the
-                            // completed Replicon tick, receive-time history writes already checked the
-                            // explicit state for that tick unless `deferred_check_entities` says the
-                            // state was not locally checkable then.
+                            // Do not skip the entities that were explicitly confirmed at this tick:
+                            // the receive-time checks only covered the components that were part of
+                            // the message, against the predictions of that moment (the tick might
+                            // have been ahead of the local timeline, or have been resimulated by an
+                            // input rollback since).
                             trace!(
                                 ?tick,
                                 ?server_confirmed_tick,
@@ -651,22 +647,11 @@ fn check_rollback(
 
                             let predicted_entities = adaptive_for_each_mut!(predicted_entities);
                             predicted_entities.for_each(
-                                |(confirm_history, mut entity_mut)| {
+                                |(_, mut entity_mut)| {
                                 if prediction_manager.is_rollback() {
                                     return
                                 }
 
-                                if confirm_history.contains(server_confirmed_replicon_tick)
-                                    && !deferred_check_entities.contains(&entity_mut.id())
-                                {
-                                    trace!(
-                                        entity = ?entity_mut.id(),
-                                        replicon_tick = ?server_confirmed_replicon_tick,
-                                        "Skipping unchanged rollback check for entity explicitly confirmed at completed mutate tick"
-                                    );
-                                    return
-                                }
-
                                 // For each predicted component, compare the predicted value at
                                 // `server_confirmed_tick` with the component's authoritative value.
                                 // The checker uses an exact `ConfirmedHistory<C>` sample if one exists;
-- 
2.43.0


From 1fc3bda89695d615ac10aa434cdb1c6139344cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:49 +0000
Subject: [PATCH 26/28] fix: keep the prediction history ordered when a
 rollback removes a component

Restoring an absence at the rollback tick recorded a removal at the tick
before the rollback, ahead of what the replay records, and later lookups in
the unordered history gave stale states.
---
 crates/replication/prediction/src/predicted_history.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/replication/prediction/src/predicted_history.rs b/crates/replication/prediction/src/predicted_history.rs
index cb5f016..91e4da9 100644
--- a/crates/replication/prediction/src/predicted_history.rs
+++ b/crates/replication/prediction/src/predicted_history.rs
@@ -211,6 +211,12 @@ pub(crate) fn apply_component_removal_predicted<C: Component>(
 ) {
     let tick = timeline.tick();
     if let Ok(mut history) = predicted_query.get_mut(trigger.entity) {
+        // The absence is already recorded if the component is being removed to restore the state
+        // at the rollback tick. The local timeline is still at the tick before the rollback then,
+        // so that a sample for it would be newer than the ones that the replay adds after it.
+        if matches!(history.peek(), Some((_, HistoryState::Removed))) {
+            return;
+        }
         history.add_predicted(tick, None);
         trace!(
             target: "lightyear_debug::prediction",
-- 
2.43.0


From c68193ae711957b394a217283f09e917876574ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:53 +0000
Subject: [PATCH 27/28] fix: leave a raw server Stopped after Stop instead of
 Stopping forever

---
 crates/connection/raw_connection/src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/connection/raw_connection/src/server.rs b/crates/connection/raw_connection/src/server.rs
index 2d5dab8..0a9b474 100644
--- a/crates/connection/raw_connection/src/server.rs
+++ b/crates/connection/raw_connection/src/server.rs
@@ -68,11 +68,13 @@ impl RawConnectionPlugin {
     ) -> Result {
         if let Ok(server) = query.get_mut(trigger.entity) {
             trace!("RawClient Stop! Disconnecting all LinkOfs and triggering Unlink");
+            commands.entity(trigger.entity).insert(Stopping);
             commands.trigger(Unlink {
                 entity: trigger.entity,
                 reason: UnlinkReason::ServerStopped,
             });
-            commands.entity(trigger.entity).insert(Stopping);
+            // Unlinked implies Stopped
+            commands.entity(trigger.entity).insert(Stopped);
             // SAFETY: we know that the list of client entities are unique because it is a Relationship
             let unique_slice =
                 unsafe { UniqueEntitySlice::from_slice_unchecked(server.collection()) };
-- 
2.43.0


From d46218c82235b629466ecc7f9bd81a48adf0528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:53 +0000
Subject: [PATCH 28/28] fix: let Disconnect and Stop end a raw connection that
 is still linking

---
 crates/connection/raw_connection/src/client.rs | 8 +++++---
 crates/connection/raw_connection/src/server.rs | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/connection/raw_connection/src/client.rs b/crates/connection/raw_connection/src/client.rs
index ba367f8..942a67c 100644
--- a/crates/connection/raw_connection/src/client.rs
+++ b/crates/connection/raw_connection/src/client.rs
@@ -4,7 +4,7 @@ use bevy_ecs::prelude::*;
 use lightyear_connection::client::ConnectionPlugin;
 use lightyear_connection::prelude::client::*;
 use lightyear_core::id::{LocalId, PeerId, RemoteId};
-use lightyear_link::{Link, LinkSystems, Linked, Unlink, UnlinkReason};
+use lightyear_link::{Link, LinkSystems, Linked, Linking, Unlink, UnlinkReason};
 use lightyear_transport::plugin::TransportSystems;
 #[allow(unused_imports)]
 use tracing::{info, trace};
@@ -40,11 +40,13 @@ impl RawConnectionPlugin {
         }
     }
 
-    /// For RawClients, Disconnect implies Unlinked
+    /// For RawClients, Disconnect implies Unlinked.
+    ///
+    /// A client that is still linking is `Disconnected`, but its link must not complete.
     fn on_disconnect(
         trigger: On<Disconnect>,
         mut commands: Commands,
-        mut query: Query<(), (Without<Disconnected>, With<RawClient>)>,
+        mut query: Query<(), (Or<(Without<Disconnected>, With<Linking>)>, With<RawClient>)>,
     ) {
         if query.get_mut(trigger.entity).is_ok() {
             trace!("RawClient Disconnect! Triggering Unlink");
diff --git a/crates/connection/raw_connection/src/server.rs b/crates/connection/raw_connection/src/server.rs
index 0a9b474..aaa4021 100644
--- a/crates/connection/raw_connection/src/server.rs
+++ b/crates/connection/raw_connection/src/server.rs
@@ -60,10 +60,12 @@ impl RawConnectionPlugin {
     }
 
     /// For RawServers, Stop implies Unlinked. We also unlink all LinkOfs.
+    ///
+    /// A server that is linking again after it stopped still has `Stopped`.
     fn on_stop(
         trigger: On<Stop>,
         mut commands: Commands,
-        mut query: Query<&Server, (Without<Stopped>, With<RawServer>)>,
+        mut query: Query<&Server, (Or<(Without<Stopped>, With<Linking>)>, With<RawServer>)>,
         link_query: Query<(Entity, &RemoteId), (With<ClientOf>, Without<HostClient>)>,
     ) -> Result {
         if let Ok(server) = query.get_mut(trigger.entity) {
-- 
2.43.0

