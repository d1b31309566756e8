From 11a1b85ccc51e9a44ac0200b6c2e56f99beee73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 01/23] fix: v5 PUBLISH decoder read past its frame and
 underflowed the payload length

---
 src/mqtt_serde/mqttv5/publish.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 467be22..9e8b0df 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -166,6 +166,9 @@ impl MqttControlPacket for MqttPublish {
             return Ok(ParseOk::Continue(packet_size - buffer.len(), 0));
         }
 
+        // Nothing behind this packet belongs to it: parse inside the frame only.
+        let buffer = &buffer[..packet_size];
+
         // MQTT 5.0: 3.3.2 PUBLISH VARIABLE HEADER
         // MQTT 5.0: 3.3.2.1 Topic Name
         let (topic_name, consumed) =
-- 
2.43.0


From b9645929c1309f5593033a2bc4a00c523c18fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 02/23] fix: v5 CONNECT decoder refused the empty user name,
 password and Will payload MQTT 5 allows

---
 src/mqtt_serde/mqttv5/connect.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index bb31e24..f7c8bdc 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -257,9 +257,9 @@ impl MqttControlPacket for MqttConnect {
             // Will is present
             let (will, consumed) = Will::from_bytes(&buffer[offset..], connect_flags)?;
             offset += consumed;
-            if will.will_topic.is_empty() || will.will_message.is_empty() {
+            if will.will_topic.is_empty() {
                 return Err(ParseError::ParseError(
-                    "Will topic or message cannot be empty".to_string(),
+                    "Will topic cannot be empty".to_string(),
                 ));
             }
             Some(will)
@@ -273,11 +273,6 @@ impl MqttControlPacket for MqttConnect {
             let (username, consumed) =
                 parse_utf8_string(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if username.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Username cannot be empty".to_string(),
-                ));
-            }
             Some(username.to_string())
         } else {
             None
@@ -287,11 +282,6 @@ impl MqttControlPacket for MqttConnect {
             let (password, consumed) =
                 parse_binary_data(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if password.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Password cannot be empty".to_string(),
-                ));
-            }
             Some(password)
         } else {
             None
-- 
2.43.0


From d54d60cf3fbe246b5783b242dbe2d29ac053235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 03/23] fix: stream parser reported an error when a read ended
 inside the fixed header

---
 src/mqtt_serde/parser/stream.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 05a863e..ae906c7 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -35,6 +35,12 @@ impl From<u8> for ParseLevel {
     }
 }
 
+/// Whether the fixed header (first byte and Remaining Length) has arrived completely.
+/// A Remaining Length has at most four bytes; a longer one is left to the decoder to refuse.
+fn fixed_header_complete(buffer: &[u8]) -> bool {
+    buffer.len() > 4 || buffer.iter().skip(1).any(|byte| byte & 0x80 == 0)
+}
+
 impl MqttParser {
     /// Creates a new, empty parser.
     pub fn new(buffer_size: usize, mqtt_version: u8) -> Self {
@@ -115,7 +121,7 @@ impl MqttParser {
             "MQTT version must be set before parsing packets"
         );
 
-        if self.buffer.is_empty() {
+        if !fixed_header_complete(&self.buffer) {
             return Ok(None);
         }
 
@@ -155,6 +161,9 @@ impl MqttParser {
                     self.mqtt_version != 0,
                     "MQTT version must be set before parsing packets"
                 );
+                if !fixed_header_complete(&self.buffer) {
+                    return Ok(None);
+                }
                 match MqttPacket::from_bytes_with_version(&self.buffer, self.mqtt_version) {
                     Ok(ParseOk::Packet(packet, consumed)) => {
                         self.buffer.advance(consumed);
-- 
2.43.0


From a4f44b8b8131942f459d6bf3d7ce7c228dd9ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 04/23] fix: set_mqtt_vsn panicked when no byte had arrived yet

---
 src/mqtt_serde/parser/stream.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index ae906c7..fe9e923 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -79,10 +79,14 @@ impl MqttParser {
         }
 
         // precheck if it's a CONNECT packet
-        if self.buffer[offset] != 0x10 {
-            return Err(ParseError::ParseError(
-                "Expected CONNECT packet to determine MQTT version".to_string(),
-            ));
+        match self.buffer.get(offset) {
+            Some(0x10) => {}
+            Some(_) => {
+                return Err(ParseError::ParseError(
+                    "Expected CONNECT packet to determine MQTT version".to_string(),
+                ));
+            }
+            None => return Err(ParseError::More(1, "MQTT version".to_string())),
         }
         offset += 1;
 
-- 
2.43.0


From 343e19902e1bc0069fc0790bc484ec76999da277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 05/23] fix: MQTT 3.1.1 encoders truncated the length of
 oversized fields and wrote text MQTT forbids

---
 src/mqtt_serde/mqttv3/connect.rs     | 17 ++++++++---------
 src/mqtt_serde/mqttv3/publish.rs     |  5 +++--
 src/mqtt_serde/mqttv3/subscribe.rs   |  5 +++--
 src/mqtt_serde/mqttv3/unsubscribe.rs |  5 +++--
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fabbd3a..3c2455e 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -2,11 +2,12 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
+use crate::mqtt_serde::{encode_binary_data, encode_utf8_string};
 
 /// Represents the Will message and its properties.
 #[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttConnect {
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = Vec::new();
         // Protocol Name
-        vh.extend(Utf8String::encode(&self.protocol_name));
+        vh.extend(encode_utf8_string(&self.protocol_name)?);
         // Protocol Version
         vh.push(self.protocol_version);
 
@@ -86,23 +87,21 @@ impl MqttControlPacket for MqttConnect {
 
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
-        payload.extend(Utf8String::encode(&self.client_id));
+        payload.extend(encode_utf8_string(&self.client_id)?);
 
         if let Some(will) = &self.will {
-            payload.extend(Utf8String::encode(&will.topic));
+            payload.extend(encode_utf8_string(&will.topic)?);
             // Will message is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(will.message.len() as u16));
-            payload.extend_from_slice(&will.message);
+            payload.extend(encode_binary_data(&will.message)?);
         }
 
         if let Some(username) = &self.username {
-            payload.extend(Utf8String::encode(username));
+            payload.extend(encode_utf8_string(username)?);
         }
 
         if let Some(password) = &self.password {
             // Password is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(password.len() as u16));
-            payload.extend_from_slice(password);
+            payload.extend(encode_binary_data(password)?);
         }
 
         Ok(payload)
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index b4a7099..d29a09f 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
-        let mut vh = Utf8String::encode(&self.topic_name);
+        let mut vh = encode_utf8_string(&self.topic_name)?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 001b4c1..6e46a26 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttSubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for sub in &self.subscriptions {
-            payload.extend(Utf8String::encode(&sub.topic_filter));
+            payload.extend(encode_utf8_string(&sub.topic_filter)?);
             // QoS must be 0, 1, or 2.
             if sub.qos > 2 {
                 return Err(ParseError::ParseError("Invalid QoS level".to_string()));
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3a422d4..1c044e7 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -47,7 +48,7 @@ impl MqttControlPacket for MqttUnsubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for topic in &self.topic_filters {
-            payload.extend(Utf8String::encode(topic));
+            payload.extend(encode_utf8_string(topic)?);
         }
         Ok(payload)
     }
-- 
2.43.0


From 88751114fe3844e42048e24d691a3a97dc8ba4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 06/23] fix: shared subscription with a wildcard as ShareName
 was accepted

---
 src/mqtt_serde/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt_serde/mod.rs b/src/mqtt_serde/mod.rs
index b4bb023..4fca9b5 100644
--- a/src/mqtt_serde/mod.rs
+++ b/src/mqtt_serde/mod.rs
@@ -152,6 +152,13 @@ pub(crate) fn validate_shared_subscription(topic_filter: &str) -> Result<(), Par
             ));
         }
 
+        if share_name.contains(['+', '#']) {
+            return Err(ParseError::ParseError(
+                "Shared subscription ShareName must not contain wildcard characters (# or +)"
+                    .to_string(),
+            ));
+        }
+
         if actual_topic_filter.is_empty() {
             return Err(ParseError::ParseError(
                 "Shared subscription TopicFilter cannot be empty".to_string(),
-- 
2.43.0


From 0a9c8e6208e1753908545870e294afe0de6ef5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 07/23] fix: Subscription Identifier beyond the Variable Byte
 Integer range was written as five bytes

---
 src/mqtt_serde/mqttv5/common/properties.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/common/properties.rs b/src/mqtt_serde/mqttv5/common/properties.rs
index 61bac52..1ea140c 100644
--- a/src/mqtt_serde/mqttv5/common/properties.rs
+++ b/src/mqtt_serde/mqttv5/common/properties.rs
@@ -94,6 +94,10 @@ impl Property {
                 bytes.extend(crate::mqtt_serde::encode_binary_data(val)?);
             }
             Property::SubscriptionIdentifier(val) => {
+                // A Variable Byte Integer has at most four bytes.
+                if *val > 268_435_455 {
+                    return Err(ParseError::InvalidVariableByteInteger);
+                }
                 bytes.push(property_id(PropertyID::SubscriptionIdentifier));
                 bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize));
             }
-- 
2.43.0


From 352081c8d130b6aa71aa46835cf343057c1332d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 08/23] fix: server session skipped every other pending publish

---
 src/mqtt_session/server_session.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_session/server_session.rs b/src/mqtt_session/server_session.rs
index e81d827..9d82222 100644
--- a/src/mqtt_session/server_session.rs
+++ b/src/mqtt_session/server_session.rs
@@ -158,12 +158,10 @@ impl ServerSession {
         }
 
         // Send pending publishes
-        let mut i = 0;
-        while i < self.pending_publishes.len() && available_slots > 0 {
-            let publish = self.pending_publishes.remove(i);
+        while !self.pending_publishes.is_empty() && available_slots > 0 {
+            let publish = self.pending_publishes.remove(0);
             packets_to_resend.push(MqttPacket::Publish5(publish));
             available_slots -= 1;
-            i += 1;
         }
 
         self.inflight_messages = self.receive_maximum - available_slots;
-- 
2.43.0


From 5630879f4147dda8245e6817cab0b7c49b4c7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 09/23] fix: get_expired never returned with a zero
 retransmission timeout

---
 src/mqtt_client/inflight.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index c708c45..39ee51e 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -165,7 +165,12 @@ impl InflightQueue {
             return expired;
         }
 
-        while let Some(&(pid, sent_at)) = self.deadline_queue.front() {
+        // Visit each queued deadline at most once: re-queued ones are due again only
+        // after the next timeout, even when that timeout is zero.
+        for _ in 0..self.deadline_queue.len() {
+            let Some(&(pid, sent_at)) = self.deadline_queue.front() else {
+                break;
+            };
             if now.duration_since(sent_at) < self.retransmission_timeout {
                 break;
             }
-- 
2.43.0


From 08a64e768f79da2ea976a6deeb09b2c312808cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 10/23] fix: re-using an inflight packet identifier leaked a
 receive-maximum slot

---
 src/mqtt_client/inflight.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 39ee51e..54159dc 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -121,7 +121,15 @@ impl InflightQueue {
             stream,
         };
 
-        self.entries.insert(packet_id, entry);
+        // Re-using an identifier replaces the entry, which no longer holds a slot
+        if let Some(replaced) = self.entries.insert(packet_id, entry) {
+            if matches!(
+                replaced.packet,
+                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
+            ) {
+                self.publish_count -= 1;
+            }
+        }
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
         // MQTT v5 forbids retransmission, so deadline_queue is not needed
         if self.mqtt_version != 5 {
-- 
2.43.0


From 2a98f341162ba96bda719f7a4165b780a02e476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 11/23] fix: a PUBREC reporting failure was answered by PUBREL
 and never reported

---
 src/mqtt_client/engine.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba2b7d6..a6117d4 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1085,6 +1085,17 @@ impl MqttEngine {
                 self.ping_sent_at = None;
                 events.push(MqttEvent::PingResponse(PingResult { success: true }));
             }
+            // A failing PUBREC ends the exchange: there is nothing to release
+            MqttPacket::PubRec5(rec) if rec.reason_code >= 0x80 => {
+                if let Some(entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                    events.push(MqttEvent::Published(PublishResult {
+                        packet_id: Some(rec.packet_id),
+                        reason_code: Some(rec.reason_code),
+                        properties: Some(rec.properties),
+                        qos: entry.qos,
+                    }));
+                }
+            }
             MqttPacket::PubRec5(rec) => {
                 if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
-- 
2.43.0


From 0de92998a4ba24573c47a7a5f7a6549bdd40443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 12/23] fix: a refused CONNACK resent the session

---
 src/mqtt_client/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a6117d4..26750db 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -944,7 +944,7 @@ impl MqttEngine {
 
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
-                if ack.session_present {
+                if self.is_connected && ack.session_present {
                     let pending = self.inflight_queue.get_all_for_reconnect();
                     for mut packet in pending {
                         packet.set_dup(true);
@@ -967,7 +967,7 @@ impl MqttEngine {
 
                 // Handle session resumption: resend pending messages
                 // Only when server confirms session resumption (session_present=true)
-                if ack.session_present {
+                if self.is_connected && ack.session_present {
                     let pending = self.inflight_queue.get_all_for_reconnect();
                     for mut packet in pending {
                         packet.set_dup(true);
-- 
2.43.0


From 0529e235aa25585d42ef420087f4afccd09c287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 13/23] fix: a refused SUBSCRIBE or UNSUBSCRIBE stayed in
 flight and was sent later

---
 src/mqtt_client/engine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 26750db..ba9ed31 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -748,8 +748,9 @@ impl MqttEngine {
             MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(pid, v3_subs))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        // Track the packet only once it is queued, so that a refusal leaves nothing behind
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
@@ -772,8 +773,9 @@ impl MqttEngine {
             MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, command.topics))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        // Track the packet only once it is queued, so that a refusal leaves nothing behind
+        self.enqueue_packet(packet.clone())?;
+        self.inflight_queue.push(pid, packet, 1)?;
         Ok(pid)
     }
 
-- 
2.43.0


From d57defb13200d32cae40c8352c86a56b02674f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 14/23] fix: engine CONNECT dropped the configured Will and the
 MQTT 3.1.1 credentials

---
 src/mqtt_client/engine.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba9ed31..900d45d 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -562,18 +562,26 @@ impl MqttEngine {
                 self.options.client_id.clone(),
                 self.options.username.clone(),
                 self.options.password.clone(),
-                None, // Will
+                self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
                 Vec::new(), // Properties
             );
             MqttPacket::Connect5(connect)
         } else {
-            let connect = connectv3::MqttConnect::new(
+            let mut connect = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
             );
+            connect.username = self.options.username.clone();
+            connect.password = self.options.password.clone();
+            connect.will = self.options.will.as_ref().map(|will| connectv3::Will {
+                retain: will.will_retain,
+                qos: will.will_qos,
+                topic: will.will_topic.clone(),
+                message: will.will_message.clone(),
+            });
             MqttPacket::Connect3(connect)
         };
 
-- 
2.43.0


From 13f0c80c642de2213b072997f5c3a44fbfc5aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 15/23] fix: bytes, partial input and the pending PINGREQ of a
 lost connection survived into the next

---
 src/mqtt_client/engine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 900d45d..09d7315 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -552,6 +552,9 @@ impl MqttEngine {
             return;
         }
 
+        // CONNECT opens a new connection: nothing of the old one may precede it
+        self.reset_for_new_transport();
+
         // Initialize session if needed
         if self.session.is_none() {
             self.session = Some(ClientSession::new());
-- 
2.43.0


From 4613635f5d5fee6fb622d3d2b61b7db703ee6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 16/23] fix: a QoS 2 publish gave its receive-maximum slot back
 before PUBCOMP

---
 src/mqtt_client/inflight.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 54159dc..602af92 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -44,7 +44,7 @@ pub struct InflightQueue {
     mqtt_version: u8,
     /// Default retransmission timeout
     retransmission_timeout: Duration,
-    /// Current number of PUBLISH packets in the queue (for flow control)
+    /// Current number of QoS 1/2 exchanges in the queue (for flow control)
     publish_count: usize,
 }
 
@@ -69,6 +69,17 @@ impl InflightQueue {
         self.publish_count < self.receive_maximum as usize
     }
 
+    /// A QoS 2 exchange holds its slot until PUBCOMP, that is as PUBREL too
+    fn holds_slot(packet: &MqttPacket) -> bool {
+        matches!(
+            packet,
+            MqttPacket::Publish5(_)
+                | MqttPacket::Publish3(_)
+                | MqttPacket::PubRel5(_)
+                | MqttPacket::PubRel3(_)
+        )
+    }
+
     /// Update the receive maximum limit (e.g., from CONNACK)
     pub fn update_receive_maximum(&mut self, receive_maximum: u16) {
         if receive_maximum > 0 {
@@ -108,7 +119,7 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
+        if Self::holds_slot(&packet) {
             self.publish_count += 1;
         }
 
@@ -123,10 +134,7 @@ impl InflightQueue {
 
         // Re-using an identifier replaces the entry, which no longer holds a slot
         if let Some(replaced) = self.entries.insert(packet_id, entry) {
-            if matches!(
-                replaced.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if Self::holds_slot(&replaced.packet) {
                 self.publish_count -= 1;
             }
         }
@@ -141,10 +149,7 @@ impl InflightQueue {
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if matches!(
-                entry.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if Self::holds_slot(&entry.packet) {
                 self.publish_count -= 1;
             }
             Some(entry)
-- 
2.43.0


From bc02824ae1da2586c19e81fe20cb2fa878ba7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 17/23] fix: session resumption resent retransmitted packets
 out of order

---
 src/mqtt_client/inflight.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 602af92..90b7b63 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -24,6 +24,8 @@ pub struct InflightEntry {
     /// stream). Retransmissions are routed back onto this same channel so the QoS
     /// 1/2 handshake never crosses streams.
     pub stream: Option<u64>,
+    /// Position in the original sending order, which retransmission does not change
+    sequence: u64,
 }
 
 /// A queue for managing inflight QoS 1 and QoS 2 messages.
@@ -46,6 +48,8 @@ pub struct InflightQueue {
     retransmission_timeout: Duration,
     /// Current number of QoS 1/2 exchanges in the queue (for flow control)
     publish_count: usize,
+    /// Sequence number of the next entry
+    next_sequence: u64,
 }
 
 impl InflightQueue {
@@ -61,6 +65,7 @@ impl InflightQueue {
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
+            next_sequence: 0,
         }
     }
 
@@ -130,7 +135,9 @@ impl InflightQueue {
             retry_count: 0,
             qos,
             stream,
+            sequence: self.next_sequence,
         };
+        self.next_sequence += 1;
 
         // Re-using an identifier replaces the entry, which no longer holds a slot
         if let Some(replaced) = self.entries.insert(packet_id, entry) {
@@ -208,8 +215,8 @@ impl InflightQueue {
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
         let mut all = self.entries.values().collect::<Vec<_>>();
-        // Sort by retry_count or original sent time if needed, but here we just send
-        all.sort_by_key(|e| e.sent_at);
+        // In the order they were originally sent (sent_at changes on retransmission)
+        all.sort_by_key(|e| e.sequence);
         all.into_iter().map(|e| e.packet.clone()).collect()
     }
 
-- 
2.43.0


From 17d65f76582ff63771f79c76e0c5f2f79aaecd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 18/23] fix: an acknowledgement owed to the server was dropped
 when the outgoing buffer was full

---
 src/mqtt_client/engine.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 09d7315..674ed51 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -383,9 +383,10 @@ impl MqttEngine {
                     let (packet_events, responses) = self.handle_packet(packet, None);
                     self.events.extend(packet_events);
                     // Single-stream transports (TCP/TLS, QUIC control stream) send
-                    // responses back over the same shared outgoing buffer.
+                    // responses back over the same shared outgoing buffer. They are
+                    // owed to the peer, so a full buffer must not drop them.
                     for response in responses {
-                        let _ = self.enqueue_packet(response);
+                        let _ = self.push_outgoing(response);
                     }
                 }
                 Ok(None) => break,
@@ -1228,6 +1229,11 @@ impl MqttEngine {
             });
         }
 
+        self.push_outgoing(packet)
+    }
+
+    /// Append a packet to the outgoing buffer whatever its length
+    fn push_outgoing(&mut self, packet: MqttPacket) -> Result<(), MqttClientError> {
         match packet.to_bytes() {
             Ok(bytes) => {
                 self.outgoing_buffer.push_back(bytes);
-- 
2.43.0


From c92f49ccbbd91d2ac2a070cb40db5c4d4886c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:16 +0000
Subject: [PATCH 19/23] fix: a QoS 0 publish came back from protobuf with
 packet identifier 0

---
 mqtt_grpc_duality/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index f53972b..4fe12d0 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -310,7 +310,12 @@ impl From<mqttv5pb::Publish> for MqttPublish {
         let mut mqtt_publish = MqttPublish::new(
             publish.qos as u8,
             publish.topic,
-            Some(publish.message_id as u16),
+            // A QoS 0 publish has no packet identifier, which protobuf writes as 0
+            if publish.message_id == 0 {
+                None
+            } else {
+                Some(publish.message_id as u16)
+            },
             publish.payload,
             publish.retain,
             publish.dup,
-- 
2.43.0


From 0ea803d36316986be652c27cc897d8c37983b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:41 +0000
Subject: [PATCH 20/23] fix: the TLS engine dropped what exceeded 64 KiB of
 outgoing MQTT data

---
 src/mqtt_client/tls_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index f945343..c824eb4 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -38,11 +38,14 @@ impl TlsMqttEngine {
             })?
             .to_owned();
 
-        let tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
+        let mut tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
             MqttClientError::InternalError {
                 message: format!("Failed to create TLS connection: {}", e),
             }
         })?;
+        // Outgoing MQTT bytes are handed over whole; rustls would otherwise keep only
+        // the first 64 KiB of them.
+        tls_connection.set_buffer_limit(None);
 
         Ok(Self {
             mqtt_engine,
-- 
2.43.0


From dad401e8f64aa95b052845f7ea589a07d7fe1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:53 +0000
Subject: [PATCH 21/23] fix: the TLS engine lost socket data beyond 16 KiB of
 plaintext per call

---
 src/mqtt_client/tls_engine.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index c824eb4..a724ca4 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -66,14 +66,22 @@ impl TlsMqttEngine {
                 break;
             }
 
-            self.tls_connection.process_new_packets().map_err(|e| {
-                MqttClientError::InternalError {
-                    message: format!("TLS process error: {}", e),
-                }
+            let processed = self.tls_connection.process_new_packets().map(|_| ());
+
+            // rustls refuses further TLS data while plaintext piles up, so take it out
+            // before reading on.
+            self.read_plaintext()?;
+
+            processed.map_err(|e| MqttClientError::InternalError {
+                message: format!("TLS process error: {}", e),
             })?;
         }
 
-        // After processing packets, check if there is any plaintext available
+        Ok(())
+    }
+
+    /// Move the plaintext that is available to the buffer for the MQTT engine.
+    fn read_plaintext(&mut self) -> Result<(), MqttClientError> {
         let mut buf = vec![0u8; 4096];
         loop {
             match self.tls_connection.reader().read(&mut buf) {
-- 
2.43.0


From 9eeea7d683f1586799db2d9cd8fadb2098556a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:14 +0000
Subject: [PATCH 22/23] fix: the TLS and QUIC bindings dropped the user name
 and password

---
 flowsdk_ffi/src/engine.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2073f74..4ffbef4 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -341,15 +341,24 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = MqttClientOptions::builder()
+        let mut builder = MqttClientOptions::builder()
             .client_id(opts.client_id)
             .mqtt_version(opts.mqtt_version)
             .clean_start(opts.clean_start)
             .keep_alive(opts.keep_alive)
             .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
             .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+            .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+        if let Some(username) = opts.username {
+            builder = builder.username(username);
+        }
+
+        if let Some(password) = opts.password {
+            builder = builder.password(password);
+        }
+
+        let options = builder.build();
 
         #[cfg(feature = "quic-openssl")]
         let _ = rustls_openssl::default_provider().install_default();
@@ -606,15 +615,24 @@ pub struct QuicMqttEngineFFI {
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI) -> Self {
-        let options = MqttClientOptions::builder()
+        let mut builder = MqttClientOptions::builder()
             .client_id(opts.client_id)
             .mqtt_version(opts.mqtt_version)
             .clean_start(opts.clean_start)
             .keep_alive(opts.keep_alive)
             .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
             .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+            .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+        if let Some(username) = opts.username {
+            builder = builder.username(username);
+        }
+
+        if let Some(password) = opts.password {
+            builder = builder.password(password);
+        }
+
+        let options = builder.build();
 
         let engine = QuicMqttEngine::new(options).unwrap();
         QuicMqttEngineFFI {
-- 
2.43.0


From 444c47d6f45c48667917f0e969c83a65e6f15c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:03 +0000
Subject: [PATCH 23/23] fix: connect over QUIC after a close brought up no MQTT
 session

QuicMqttEngine::connect kept the control stream, the data streams and the
unsent bytes of the connection before it, so the new connection opened no
control stream and sent no CONNECT. It now starts as reconnect does.
---
 src/mqtt_client/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 674ed51..baf72ce 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1625,9 +1625,9 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = None;
         self.zero_rtt_status = QuicZeroRttStatus::Disabled;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
 
+        // The new connection starts with fresh streams: drop what a previous one left.
+        self.reset_connection_state();
         self.establish(now)
     }
 
@@ -1660,9 +1660,9 @@ impl QuicMqttEngine {
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = Some(zero_rtt_config);
         self.zero_rtt_status = QuicZeroRttStatus::Unavailable;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
 
+        // As in `connect`: drop what a previous connection left.
+        self.reset_connection_state();
         self.establish(now)
     }
 
-- 
2.43.0

