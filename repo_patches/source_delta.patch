From 414cafe3ac5526912dcf951a678f5d49c8dab583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 01/17] verif hooks: allocator access and identifier limit,
 behind cfg ruq_verif

---
 src/lib.rs         |  6 ++++++
 src/pktids.rs      |  2 ++
 src/verif_hooks.rs | 41 +++++++++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..26e2a8d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,6 +157,10 @@ async fn poll(
     let mut pingresp_received = None;
 
     let mut pktids = pktids::PktIds::new();
+    #[cfg(ruq_verif)]
+    if let Some(max) = verif_hooks::pktid_limit() {
+        pktids = pktids::PktIds::new_with_max(max);
+    }
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
@@ -306,6 +310,8 @@ mod client;
 mod mqtt_codec;
 mod pktids;
 mod protocol;
+#[cfg(ruq_verif)]
+pub mod verif_hooks;
 
 #[cfg(test)]
 mod tests {
diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..5d83c05 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -2,11 +2,13 @@ use std::ops::RangeInclusive;
 
 use crate::protocol::PktId;
 
+#[cfg_attr(ruq_verif, derive(Clone, Debug))]
 pub(crate) struct PktIds {
     start: usize,
     ranges: Vec<Node>,
 }
 
+#[cfg_attr(ruq_verif, derive(Clone, Debug))]
 enum Node {
     Vacant,
     Taken {
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..06b7f04
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,41 @@
+//! Access for the verification harness (built only with `--cfg ruq_verif`).
+
+use std::cell::Cell;
+
+use crate::pktids::PktIds;
+use crate::protocol::PktId;
+
+thread_local! {
+    static MAX_PKTID: Cell<Option<u16>> = Cell::new(None);
+}
+
+/// Sessions opened on this thread from now on have only `max` packet identifiers.
+pub fn limit_pktids(max: Option<u16>) {
+    MAX_PKTID.with(|m| m.set(max));
+}
+
+pub(crate) fn pktid_limit() -> Option<PktId> {
+    MAX_PKTID.with(|m| m.get()).and_then(PktId::new)
+}
+
+/// The packet identifier allocator.
+#[derive(Clone, Debug)]
+pub struct Ids(PktIds);
+
+impl Ids {
+    pub fn new() -> Self {
+        Self(PktIds::new())
+    }
+
+    pub fn with_max(max: u16) -> Self {
+        Self(PktIds::new_with_max(PktId::new(max).unwrap()))
+    }
+
+    pub fn next(&mut self) -> Option<u16> {
+        self.0.next_id().map(PktId::get)
+    }
+
+    pub fn give_back(&mut self, id: u16) {
+        self.0.return_id(PktId::new(id).unwrap())
+    }
+}
-- 
2.43.0


From ca285bc54c1d9b4997009d3bdb001345dcd66327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 02/17] fix: encode PUBACK instead of panicking on every QoS 1
 message received

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..ce1f35c 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -108,13 +108,13 @@ impl ToMqttBytes for Packet {
         match self {
             Self::Connect(p) => p.convert_to_mqtt(),
             Self::Publish(p) => p.convert_to_mqtt(),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::PingReq(p) => p.convert_to_mqtt(),
             Self::Subscribe(p) => p.convert_to_mqtt(),
             Self::Unsubscribe(p) => p.convert_to_mqtt(),
             Self::Disconnect(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From bd412405a2f773a2df6d3a2bf2689e3bc75c89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 03/17] fix: a decoded Message Expiry Interval takes five
 bytes, not four

---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..f362765 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -68,7 +68,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From ebbf19056e096f38c31f2dec1c45e164c1f8caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 04/17] fix: reject a fifth byte of a variable byte integer
 before it overflows

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index ce1f35c..8e42a46 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -278,7 +278,6 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
                     if multiplier > 128 * 128 * 128 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
@@ -286,6 +285,7 @@ impl FromMqttBytes for VBI {
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From fb07cb79a40ce9deaf33dfcade620a84037be2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 05/17] fix: a packet type the client cannot handle ends the
 session with an error, not a panic

---
 src/protocol/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 8e42a46..0b408a3 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            Err(ConvertError::Other(format!(
+                "Packet type {:?} is not expected from the server",
+                ty
+            )))
         }
     };
 
-- 
2.43.0


From 9bc85775e8acc15c9df2bd95aeae3a1f39996102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 06/17] fix: a packet shorter than its fields ends the session
 with an error, not a panic

---
 src/protocol/connack.rs    | 16 +++++++++++++---
 src/protocol/disconnect.rs |  4 +++-
 src/protocol/mod.rs        |  5 ++++-
 src/protocol/properties.rs |  9 +++++++--
 src/protocol/publish.rs    |  4 +++-
 src/protocol/suback.rs     | 10 ++++++++--
 src/protocol/unsuback.rs   | 10 ++++++++--
 7 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..7d68b72 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,10 +108,18 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
-        let flags: ConnackFlags = bytes[bytes_read].try_into()?;
+        let flags: ConnackFlags = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
-        let reason: ConnackReason = bytes[bytes_read].try_into()?;
+        let reason: ConnackReason = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
         let (properties, props_bytes_read) =
@@ -221,7 +229,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 0b408a3..8a19b35 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -408,7 +408,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index f362765..f68b926 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let format = bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(*format), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/publish.rs b/src/protocol/publish.rs
index bca8d6a..ca36aff 100644
--- a/src/protocol/publish.rs
+++ b/src/protocol/publish.rs
@@ -232,7 +232,9 @@ impl FromMqttBytes for Publish {
         bytes_read += props_bytes_read;
         variable_header_len += props_bytes_read;
 
-        let payload_len = remaining_len - variable_header_len;
+        let payload_len = (u32::from(remaining_len) as usize)
+            .checked_sub(variable_header_len)
+            .ok_or(ConvertError::NotEnoughBytes)?;
         let payload: Payload =
             if properties.iter().any(|prop| matches!(prop, Property::PayloadFormatId(1))) {
                 match std::str::from_utf8(&bytes[bytes_read..bytes_read + payload_len]) {
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..be8de37 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,11 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason: SubackReason = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +167,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..95b0e94 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,11 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason: UnsubackReason = bytes
+            .get(bytes_read)
+            .copied()
+            .ok_or(ConvertError::NotEnoughBytes)?
+            .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +157,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From 012871f9b7fcc247e1d9b8cfb680bfe35bbc49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 07/17] fix: an exhausted identifier allocator stays exhausted
 instead of drifting and overflowing

---
 src/pktids.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index 5d83c05..85e0b25 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -50,23 +50,14 @@ impl PktIds {
             } => {
                 let start = *range.start();
                 let end = *range.end();
-                let mut pktid = Some(start);
+                let pktid = Some(start);
                 let mut new_node = None;
 
                 if start >= end {
-                    // this range is exhausted
-                    if let Some(Node::Vacant) = self.ranges.get(*next) {
-                        // if we have no next nodes and all pktids are in use
-                        // just set this node's range as exhausted
-                        *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
-                    } else {
-                        // if we have next node - set this node as vacant and start using next node
-                        new_node = Some(Node::Vacant);
-                        self.start = *next;
-                    }
+                    // this range is exhausted - set this node as vacant and start using next node
+                    // (if there is none, next is 0: node 0 is always vacant and ends the list)
+                    new_node = Some(Node::Vacant);
+                    self.start = *next;
                 } else {
                     *range = (start + 1)..=end;
                 }
-- 
2.43.0


From b4cf1ce10215b45112b18d75a3a364c0e394976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 08/17] fix: returning an identifier that is not in use leaves
 the allocator as it is

---
 src/pktids.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pktids.rs b/src/pktids.rs
index 85e0b25..8281c6b 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -86,6 +86,9 @@ impl PktIds {
         while let Some(Node::Taken { range, next }) = self.ranges.get(next_idx) {
             if *range.start() > id {
                 break;
+            } else if *range.end() >= id {
+                // this id is not in use, there is nothing to return
+                return;
             } else {
                 prev_idx = Some(next_idx);
                 next_idx = *next;
-- 
2.43.0


From 6de45d6a568ea8c83a0fe24f8e0213d37a78fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 09/17] fix: an incoming QoS 2 message, which is not supported,
 ends the session with an error, not a panic

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 26e2a8d..0ded7bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,7 +218,11 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        error!("QoS 2 messages are not supported: {:?}", m);
+                                        return Err(IOError::new(
+                                            ErrorKind::InvalidData,
+                                            "QoS 2 messages are not supported",
+                                        ));
                                     }
                                 }
 
-- 
2.43.0


From b8778d62f5358877e86b74f7083c0e8c35a12519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 10/17] fix: commands wait for an identifier when all are in
 use, instead of a panic

---
 src/lib.rs    | 3 ++-
 src/pktids.rs | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0ded7bc..5c56ae5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -243,7 +243,8 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            // with all packet ids in use commands wait until one is acknowledged
+            cmd = commands_rx.next(), if pktids.has_free_id() => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
diff --git a/src/pktids.rs b/src/pktids.rs
index 8281c6b..612f0a7 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -34,6 +34,10 @@ impl PktIds {
         }
     }
 
+    pub(crate) fn has_free_id(&self) -> bool {
+        matches!(self.ranges.get(self.start), Some(Node::Taken { .. }))
+    }
+
     pub(crate) fn next_id(&mut self) -> Option<PktId> {
         // take node out of vec
         let old_start = self.start;
-- 
2.43.0


From d29f118062568900e415895ccace53ae7743248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 11/17] fix: a connection closed before CONNACK ends with an
 error, not an endless loop

---
 src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5c56ae5..1530e97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,9 +127,14 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            error!("Connection closed before connack");
+            return Err(IOError::new(
+                ErrorKind::UnexpectedEof,
+                "Connection closed before connack",
+            ));
         }
     };
     match pkt {
-- 
2.43.0


From a74d8559bae78457febcc2b1f09f015922b1c0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 12/17] fix: a CONNACK that refuses the connection ends with an
 error instead of opening the session

---
 src/lib.rs          | 11 +++++++++--
 src/protocol/mod.rs |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1530e97..e2a2d55 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
 
-use crate::protocol::{DisconnectReason, PktId, Publish};
+use crate::protocol::{ConnackReason, DisconnectReason, PktId, Publish};
 
 pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
@@ -140,7 +140,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -148,6 +148,13 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+            match reason {
+                ConnackReason::Success => {}
+                reason => {
+                    let e = format!("Connection refused due to: {:?}", reason);
+                    return Err(IOError::new(ErrorKind::ConnectionRefused, e));
+                }
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 8a19b35..1e5165b 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From d6d0ff622749d7949326139c09210efc619e8854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:37 +0000
Subject: [PATCH 13/17] fix: the event loop sleeps instead of spinning once all
 clients are dropped

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e2a2d55..5b6566f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,7 @@ use std::task::Poll;
 
 use anyhow::{anyhow, Error as AnyError, Result as AnyResult};
 use futures::channel::mpsc::{Receiver, Sender};
+use futures::stream::FusedStream;
 use futures::{Future, SinkExt, StreamExt};
 use pin_project::pin_project;
 use protocol::publish::Payload;
@@ -256,7 +257,7 @@ async fn poll(
                 }
             },
             // with all packet ids in use commands wait until one is acknowledged
-            cmd = commands_rx.next(), if pktids.has_free_id() => {
+            cmd = commands_rx.next(), if pktids.has_free_id() && !commands_rx.is_terminated() => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -303,7 +304,9 @@ async fn poll(
                             return Ok(());
                         }
                     }
-                    None => {}
+                    None => {
+                        // all clients were dropped, commands_rx is terminated now
+                    }
                 }
             }
         }
-- 
2.43.0


From 81f7afead385e78463b7b3e9433fd2655c969933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 14/17] fix: after a stall the server gets a whole keep-alive
 interval to answer a ping

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6566f..5d10134 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -186,6 +186,8 @@ async fn poll(
                 }
                 let pkt = protocol::PingReq::new();
                 mqtt_write.send(protocol::Packet::PingReq(pkt)).await?;
+                // however late this ping went out, its answer has a whole interval to arrive
+                ping.reset();
                 pingresp_received = Some(false);
             }
             req = mqtt_read.next() => {
-- 
2.43.0


From ce50e54bcf0cd14411a2fc97d39820410179a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:36 +0000
Subject: [PATCH 15/17] fix: the properties of a short DISCONNECT are read, not
 ignored

---
 src/protocol/disconnect.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index b1fa2c3..7850b1c 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -176,7 +176,7 @@ impl FromMqttBytes for Disconnect {
             reason
         };
 
-        let properties = if remaining_len < 4 {
+        let properties = if remaining_len < 2 {
             vec![]
         } else {
             let (properties, props_bytes_read) =
-- 
2.43.0


From 8bf5a54c8600b0e0681c1fca70be3565157b55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 16/17] fix: PUBACK properties are read one after the other and
 within their section

---
 src/protocol/puback.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..99e47ec 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -166,11 +166,13 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut slice = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
+                while slice.len() > 0 {
                     let bytes_read = match slice.get(0) {
                         Some(0x1F) => {
                             let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
@@ -193,7 +195,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    slice = &slice[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From 1acb57cf1e18b4105fc3780ab0bf0656873ce2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 17/17] fix: refuse requests with fields or packets too long
 for MQTT instead of sending garbage

---
 src/client.rs     | 48 +++++++++++++++++++++++++++++++++++++++++++++--
 src/mqtt_codec.rs |  2 +-
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..d57da91 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,9 @@
-use anyhow::{Context as AnyContext, Error};
+use anyhow::{ensure, Context as AnyContext, Error};
 use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
 
-use crate::protocol::{Connack, Property};
+use crate::protocol::{Connack, Property, ToMqttBytes};
 use crate::{Payload, QoS};
 
 use super::*;
@@ -58,18 +58,21 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_len(topic.len())?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
     }
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
+        publish_builder.check()?;
         self.tx
             .try_send(publish_builder.build())
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_len(topic.len())?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -82,6 +85,16 @@ impl Client {
     }
 }
 
+/// Strings and binary data are sent with a two byte length
+fn check_len(len: usize) -> Result<(), Error> {
+    ensure!(
+        len <= u16::MAX as usize,
+        "Field of {} bytes is longer than 65535 bytes",
+        len
+    );
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct PublishBuilder {
     topic: String,
@@ -122,6 +135,37 @@ impl PublishBuilder {
         self
     }
 
+    /// Whether this message can be represented as MQTT packet
+    fn check(&self) -> Result<(), Error> {
+        check_len(self.topic.len())?;
+        for prop in &self.properties {
+            match prop {
+                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
+                Property::ResponseTopic(s) => check_len(s.len())?,
+                Property::CorrelationData(b) => check_len(b.len())?,
+                Property::UserProperty(k, v) => {
+                    check_len(k.len())?;
+                    check_len(v.len())?;
+                }
+            }
+        }
+
+        // topic, packet id, properties and payload
+        let payload_len = match &self.payload {
+            Payload::String(s) => s.len(),
+            Payload::Bytes(b) => b.len(),
+        };
+        let properties_len = self.properties.as_slice().convert_to_mqtt().len();
+        let len = 2 + self.topic.len() + 2 + properties_len + payload_len;
+        ensure!(
+            len <= mqtt_codec::MAX as usize,
+            "Packet of {} bytes is longer than {} bytes",
+            len,
+            mqtt_codec::MAX
+        );
+        Ok(())
+    }
+
     fn build(self) -> Command {
         Command::Publish {
             topic: self.topic,
diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..9d83da8 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -15,7 +15,7 @@ impl MqttCodec {
 // Packet size is 1 byte for fixed header + len of VBI (at most 4 bytes) + value of VBI for remaining len
 // And the maximum value of VBI is 268_435_455
 // https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901011
-const MAX: u32 = 268_435_455;
+pub(crate) const MAX: u32 = 268_435_455;
 
 impl Decoder for MqttCodec {
     type Item = protocol::Packet;
-- 
2.43.0

