From 548ff75fa686afaf0f4371865389f0bf142f80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 01/32] fix: do not spin forever when a field exceeds the read
 buffer's remaining capacity

BytesMut::split_to() takes the split bytes' capacity away, so after reading
as much as the buffer could hold its capacity was 0 and get_bytes() kept
waiting for 0 bytes: any connection busy-looped a worker thread once a
string or payload reached past the end of the initial 4096 byte buffer.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 30 +++++++------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..1313b2f 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -73,18 +73,11 @@ impl MqttBytesStream {
         let mut remaining_length = size;
 
         while remaining_length > 0 {
-            // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
@@ -221,18 +214,11 @@ impl MqttBytesReadStream {
         let mut remaining_length = size;
 
         while remaining_length > 0 {
-            // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
-- 
2.43.0


From a9a195a9d0ceeadfbf333103f5d67a4b9b730c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 02/32] fix: write the whole packet when the socket accepts
 only part of it

finish_packet() issued a single write and left the rest of the packet in the
buffer until the next packet was sent.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 1313b2f..7bbfde4 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -154,7 +154,7 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
@@ -302,7 +302,7 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
-- 
2.43.0


From 13766043eea4113abef66df3ce1775eead4ca7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 03/32] fix: accept remaining lengths encoded in four bytes

The limit was checked after the multiplier had been advanced past the byte
just decoded, so every packet of 2 MiB or more was refused.
---
 src/mqtt/transport/packet_decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..86e7757 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -49,6 +49,12 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
     loop {
         let byte = buffer.get_u8().await?;
         remaining_length += (byte & 127) as u64 * multiplier;
+
+        let continuation_bit = byte & 128;
+        if continuation_bit == 0 {
+            break;
+        }
+
         multiplier *= 128;
 
         if multiplier > 128 * 128 * 128 {
@@ -57,11 +63,6 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
                 "Malformed remaining length multiplier",
             ));
         }
-
-        let continuation_bit = byte & 128;
-        if continuation_bit == 0 {
-            break;
-        }
     }
 
     Ok(remaining_length)
-- 
2.43.0


From c1d24fa2db91814f6bc4307a830f0584e54856eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 04/32] fix: reject unknown packet types, reserved header flags
 and QoS 3

Unknown packet types and QoS 3 panicked the connection's read task, reserved
header flags of CONNECT, PINGREQ and DISCONNECT were ignored.
---
 src/mqtt/transport/packet_decoder.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 86e7757..3b68488 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -86,9 +86,20 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, 0b11000000)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, 0b11100000)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
+        _ => {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Unsupported packet type",
+            ))
+        }
     };
 
     Ok(packet)
@@ -96,9 +107,11 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
+    first_byte: u8,
     _remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_first_byte(first_byte, 0b00010000)?;
+
     bitflags! {
         struct ConnectFlags: u8 {
             const RESERVED =        0b00000001;
@@ -172,6 +185,12 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
+    if flags.contains(FixedHeaderFlags::QOS) {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed QoS",
+        ));
+    }
     let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
 
     // variable header
-- 
2.43.0


From 9956ca1f7f0ff55d88e87184a8442f9189de4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 05/32] fix: reject packets whose content does not fit their
 remaining length

The remaining length was not enforced: fields could reach into the following
packet, unread bytes were interpreted as the next packet, and a remaining
length too small for the content underflowed.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 37 +++++++++++++++++++++++++
 src/mqtt/transport/packet_decoder.rs    |  4 +++
 2 files changed, 41 insertions(+)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 7bbfde4..df22598 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -18,6 +18,8 @@ pub struct MqttBytesWriteStream {
 pub struct MqttBytesReadStream {
     read_buffer: BytesMut,
     read_stream: OwnedReadHalf,
+    // bytes of the packet being read that are still to be consumed
+    packet_remaining: Option<usize>,
 }
 
 impl MqttBytesStream {
@@ -173,16 +175,49 @@ impl MqttBytesReadStream {
         MqttBytesReadStream {
             read_buffer: BytesMut::with_capacity(buffer_size),
             read_stream,
+            packet_remaining: None,
         }
     }
 
+    /// Starts a packet: until `end_packet`, at most `size` bytes can be consumed.
+    pub fn begin_packet(&mut self, size: usize) {
+        self.packet_remaining = Some(size);
+    }
+
+    /// Ends a packet, which must have been consumed completely.
+    pub fn end_packet(&mut self) -> Result<(), Error> {
+        match self.packet_remaining.take() {
+            Some(remaining) if remaining > 0 => Err(Error::new(
+                ErrorKind::InvalidData,
+                "Packet is longer than its content",
+            )),
+            _ => Ok(()),
+        }
+    }
+
+    fn consume_packet_bytes(&mut self, size: usize) -> Result<(), Error> {
+        if let Some(remaining) = self.packet_remaining {
+            let remaining = remaining.checked_sub(size).ok_or_else(|| {
+                Error::new(
+                    ErrorKind::InvalidData,
+                    "Packet is shorter than its content",
+                )
+            })?;
+            self.packet_remaining = Some(remaining);
+        }
+
+        Ok(())
+    }
+
     pub async fn get_u8(&mut self) -> Result<u8, Error> {
+        self.consume_packet_bytes(1)?;
         self.wait_for_data(1).await?;
 
         Ok(self.read_buffer.get_u8())
     }
 
     pub async fn get_u16(&mut self) -> Result<u16, Error> {
+        self.consume_packet_bytes(2)?;
         self.wait_for_data(2).await?;
 
         Ok(self.read_buffer.get_u16())
@@ -209,6 +244,8 @@ impl MqttBytesReadStream {
     }
 
     pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
+        self.consume_packet_bytes(size)?;
+
         let mut bytes = BytesMut::with_capacity(size);
 
         let mut remaining_length = size;
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 3b68488..73ee83c 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -73,6 +73,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
     let packet_type = first_byte >> 4;
     let remaining_length = decode_remaining_length(mqtt_stream).await?;
 
+    mqtt_stream.begin_packet(remaining_length as usize);
+
     let packet = match packet_type {
         PACKET_TYPE_CONNECT => decode_connect(mqtt_stream, first_byte, remaining_length).await?,
         PACKET_TYPE_PUBLISH => decode_publish(mqtt_stream, first_byte, remaining_length).await?,
@@ -102,6 +104,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
     };
 
+    mqtt_stream.end_packet()?;
+
     Ok(packet)
 }
 
-- 
2.43.0


From 3b73e6193358110ce7a1452ea793dad79d645125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/32] fix: decode the will of a CONNECT

The will topic and message were not read, so they were taken for the user
name and password, or for the next packet.
---
 src/mqtt/transport/packet_decoder.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 73ee83c..d8ee19f 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -143,6 +144,28 @@ async fn decode_connect(
     // payload
     let client_id = buffer.get_string().await?;
 
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        if connect_flags.contains(ConnectFlags::WILL_QOS) {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Malformed will QoS",
+            ));
+        }
+
+        let topic = buffer.get_string().await?;
+        let payload_size = buffer.get_u16().await? as usize;
+        let payload = buffer.get_bytes(payload_size).await?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
+
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
         Some(buffer.get_string().await?)
     } else {
@@ -161,7 +184,7 @@ async fn decode_connect(
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
-- 
2.43.0


From edc060366f659a1eeeb9ba5541b83c816837f4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:56 +0000
Subject: [PATCH 07/32] fix: refuse CONNECTs for protocol versions that are not
 supported

Protocol name and level were ignored, so e.g. MQTT 5 CONNECTs were parsed as
MQTT 3.1.1, taking their properties for the client id. MQTT-3.1.2-2 asks for
a CONNACK with return code 1.
---
 src/broker/client_packet_handler.rs  | 13 +++++++++++++
 src/mqtt/packets/mod.rs              |  1 +
 src/mqtt/transport/packet_decoder.rs | 26 +++++++++++++++++++++++---
 3 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..ebc2165 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -119,6 +119,19 @@ impl ClientPacketHandler {
         let client_id = packet.client_id;
         debug!("New client {:?} connected", &client_id);
 
+        if packet.version != ProtocolVersion::Mqtt3 {
+            info!("Client {:?} uses an unsupported protocol version", &client_id);
+
+            let conn_ack =
+                ConnAckPacket::new(false, ConnAckReturnCode::UnacceptableProtocolVersion);
+            sender
+                .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
+                .await
+                .unwrap();
+            sender.send(ServerEvent::Disconnect).await.unwrap();
+            return;
+        }
+
         if let Some(user_name) = packet.user_name {
             let password = packet.password.unwrap();
             if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
diff --git a/src/mqtt/packets/mod.rs b/src/mqtt/packets/mod.rs
index fb5689f..d73e9cf 100644
--- a/src/mqtt/packets/mod.rs
+++ b/src/mqtt/packets/mod.rs
@@ -57,6 +57,7 @@ pub type ClientId = String;
 pub enum ProtocolVersion {
     Mqtt3,
     Mqtt5,
+    Unsupported,
 }
 
 impl Default for ProtocolVersion {
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index d8ee19f..5528529 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -113,7 +113,7 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     validate_first_byte(first_byte, 0b00010000)?;
 
@@ -132,8 +132,28 @@ async fn decode_connect(
     }
 
     // variable header
-    let _protocol_name = buffer.get_string().await?;
-    let _protocol_level = buffer.get_u8().await?;
+    let protocol_name = buffer.get_string().await?;
+    let protocol_level = buffer.get_u8().await?;
+    match (protocol_name.as_str(), protocol_level) {
+        ("MQIsdp", 3) | ("MQTT", 4) => {}
+        ("MQIsdp", _) | ("MQTT", _) => {
+            // the rest depends on the version; answered with a CONNACK - MQTT-3.1.2-2
+            let rest = remaining_length as usize - 2 - protocol_name.len() - 1;
+            buffer.get_bytes(rest).await?;
+
+            return Ok(ControlPacket::Connect(ConnectPacket {
+                version: ProtocolVersion::Unsupported,
+                ..Default::default()
+            }));
+        }
+        _ => {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Unknown protocol name",
+            ))
+        }
+    }
+
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
 
-- 
2.43.0


From 45517810a285e5162c2ad2d3f87649f387259fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 08/32] fix: refuse CONNECTs with invalid connect flags

The reserved flag, will options without a will and a password without a user
name must be treated as protocol errors (MQTT-3.1.2-3, -11, -13, -15, -22).
---
 src/mqtt/transport/packet_decoder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 5528529..e2959ce 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -157,6 +157,18 @@ async fn decode_connect(
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
 
+    let reserved_set = connect_flags.contains(ConnectFlags::RESERVED);
+    let will_options_without_will = !connect_flags.contains(ConnectFlags::WILL)
+        && connect_flags.intersects(ConnectFlags::WILL_QOS | ConnectFlags::WILL_RETAIN);
+    let password_without_user_name = connect_flags.contains(ConnectFlags::PASSWORD)
+        && !connect_flags.contains(ConnectFlags::USERNAME);
+    if reserved_set || will_options_without_will || password_without_user_name {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed connect flags",
+        ));
+    }
+
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
 
     let keep_alive_seconds = buffer.get_u16().await?;
-- 
2.43.0


From f6749ab9471732e43189f890e20599013f7ca791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 09/32] fix: reject PUBLISH packets with wildcards in or
 without a topic name

Such a message was routed to the subscribers of the wildcard filter, once
per way of reaching it in the subscription tree.
---
 src/mqtt/transport/packet_decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index e2959ce..5ace7c5 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -257,6 +257,14 @@ async fn decode_publish(
     remaining_length -= topic.len() as u64;
     remaining_length -= 2;
 
+    // MQTT-3.3.2-2, MQTT-4.7.3-1
+    if topic.is_empty() || topic.contains(|c| c == '+' || c == '#') {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed topic name",
+        ));
+    }
+
     let packet_id = if qos > QoS::AtMostOnce {
         remaining_length -= 2;
         Some(buffer.get_u16().await?)
-- 
2.43.0


From 66a8b9741b8fcd0f1f10e2e27ffebde0b4a4a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:00 +0000
Subject: [PATCH 10/32] fix: replace an identical subscription instead of
 adding another

Subscribing again to the same filter multiplied the deliveries, and
unsubscribing or disconnecting removed only one of the entries.
---
 src/broker/messaging/subscriptions_repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..b2cf83e 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,10 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        // an identical subscription replaces the existing one - MQTT-3.8.4-3
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From 15ff0a351e9747997eddd37fdcca7905f46761b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:02 +0000
Subject: [PATCH 11/32] fix: do not match filters with a leading wildcard
 against $-topics

---
 src/broker/messaging/subscriptions_repository.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index b2cf83e..8b4a031 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -84,7 +84,7 @@ impl SubscriptionsRepository {
 
         let mut nodes = vec![&self.root];
         let segments: Vec<&str> = topic.split("/").collect();
-        for segment in segments {
+        for (level, segment) in segments.into_iter().enumerate() {
             // nodes.iter().or itera
             let mut descendant_nodes = Vec::new();
             for node in nodes {
@@ -92,6 +92,11 @@ impl SubscriptionsRepository {
                     descendant_nodes.push(direct);
                 };
 
+                // leading wildcards do not match topics beginning with $ - MQTT-4.7.2-1
+                if level == 0 && segment.starts_with('$') {
+                    continue;
+                }
+
                 if let Some(plus) = node.children.get("+") {
                     descendant_nodes.push(plus);
                 };
-- 
2.43.0


From f571ee92c5a1de667e21673e89d1e15a8ce41274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 12/32] fix: do not overflow the stack on deep subscription
 trees

Removing a client and dropping the tree recursed once per topic level, so a
single subscription to a filter of tens of thousands of levels crashed the
broker when its client disconnected, or at shutdown.
---
 .../messaging/subscriptions_repository.rs     | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 8b4a031..89a3e11 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -119,15 +119,17 @@ impl SubscriptionsRepository {
         // None
     }
 
+    // not recursive: clients choose the depth of the tree
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+        let mut nodes = vec![node];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
@@ -146,6 +148,16 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    // not recursive: clients choose the depth of the tree
+    fn drop(&mut self) {
+        let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|c| c.1).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|c| c.1));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0


From 61c340252ecd0c90fa25ef0fe0f8a4287d789e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 13/32] fix: refuse subscriptions to invalid topic filters

Filters with misplaced wildcards were granted, although they can never match
as intended; some matched topics they should not.
---
 src/broker/messaging/subscriptions_repository.rs |  4 ++++
 src/mqtt/subscription.rs                         | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 89a3e11..9438318 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -21,6 +21,10 @@ impl SubscriptionsRepository {
         client_id: &ClientId,
         subscription: &Subscription,
     ) -> SubAckReturnCode {
+        if !subscription.is_valid() {
+            return SubAckReturnCode::Failure;
+        }
+
         let mut node = &mut self.root;
 
         // subscription.topic().split("/").for_each(|x| {
diff --git a/src/mqtt/subscription.rs b/src/mqtt/subscription.rs
index 278b88e..c072b67 100644
--- a/src/mqtt/subscription.rs
+++ b/src/mqtt/subscription.rs
@@ -22,4 +22,16 @@ impl Subscription {
     pub fn topic(&self) -> &str {
         self.topic.as_str()
     }
+
+    /// Wildcards occupy entire levels and '#' only the last one - MQTT-4.7.1-2, -3, MQTT-4.7.3-1
+    pub fn is_valid(&self) -> bool {
+        let mut levels = self.topic.split('/').rev();
+        let last_valid = levels.next().map_or(false, |level| {
+            level == "#" || level == "+" || !level.contains(|c| c == '+' || c == '#')
+        });
+
+        !self.topic.is_empty()
+            && last_valid
+            && levels.all(|level| level == "+" || !level.contains(|c| c == '+' || c == '#'))
+    }
 }
-- 
2.43.0


From 6254a50c8342abeea0bbaafcf0460747d1a58576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 14/32] fix: keep serving when a client's connection is already
 closed

Sending to a connection whose write loop has ended panicked the dispatcher,
which stopped the broker for everyone; e.g. any packet sent after a failed
authentication, or a PINGREQ after DISCONNECT.
---
 src/broker/client_packet_handler.rs | 39 ++++++++---------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index ebc2165..8ac83d1 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -20,6 +20,7 @@ use crate::mqtt::packets::ControlPacket::{ConnAck, PingResp, Publish, SubAck, Un
 use crate::mqtt::packets::*;
 use crate::settings::Settings;
 
+// A client's connection can be closed at any time, so failures to send to it are ignored.
 pub struct ClientPacketHandler {
     rx: mpsc::Receiver<ClientEvent>,
     ctrl_c_rx: broadcast::Receiver<()>,
@@ -124,11 +125,8 @@ impl ClientPacketHandler {
 
             let conn_ack =
                 ConnAckPacket::new(false, ConnAckReturnCode::UnacceptableProtocolVersion);
-            sender
-                .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                .await
-                .unwrap();
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            let _ = sender.send(ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+            let _ = sender.send(ServerEvent::Disconnect).await;
             return;
         }
 
@@ -138,11 +136,8 @@ impl ClientPacketHandler {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
-                    .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                let _ = sender.send(ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+                let _ = sender.send(ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -176,10 +171,7 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
-            .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+        let _ = sender.send(ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -236,7 +228,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            let _ = sender.send(event).await;
         }
     }
 
@@ -263,10 +255,7 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
-            .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+        let _ = sender.send(ServerEvent::ControlPacket(SubAck(sub_ack))).await;
     }
 
     async fn on_unsubscribe(
@@ -284,10 +273,7 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
-            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+        let _ = sender.send(ServerEvent::ControlPacket(UnsubAck(unsub_ack))).await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -316,16 +302,13 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
-                .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+            let _ = sender.send(ServerEvent::ControlPacket(PingResp)).await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            let _ = sender.send(ServerEvent::Disconnect).await;
         }
     }
 }
-- 
2.43.0


From d5414db4b8304865031f3e78c159eb621578d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 15/32] fix: refuse a user name without a password instead of
 panicking

A CONNECT with a user name and no password panicked the dispatcher, which
stopped the broker for everyone.
---
 src/broker/client_packet_handler.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 8ac83d1..7f38f2e 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -7,7 +7,7 @@ use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{broadcast, mpsc, oneshot};
 use uuid::Uuid;
 
-use crate::broker::authentication::{FileIdentityManager, IdentityProvider};
+use crate::broker::authentication::{AuthenticationError, FileIdentityManager, IdentityProvider};
 use crate::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
 use crate::broker::session::Session;
 use crate::mqtt::events::{ClientEvent, ServerEvent};
@@ -131,8 +131,11 @@ impl ClientPacketHandler {
         }
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
-            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
+            let result = match packet.password {
+                Some(password) => self.identity_provider.authenticate(&user_name, &password),
+                None => Err(AuthenticationError::InvalidPassword),
+            };
+            if let Err(e) = result {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-- 
2.43.0


From 6d77c740f12f5b7460bde220446eb82f13fe21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 16/32] fix: close both directions of a connection the broker
 disconnects

Only the write half was closed, so a refused client could go on sending
packets that were processed, and its socket stayed open.
---
 src/mqtt/listener.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..a4582ac 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -73,15 +73,23 @@ impl MqttListener {
 
         let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);
 
-        tokio::spawn(async move {
+        let write_task = tokio::spawn(async move {
             Self::connection_write_loop(server_event_rx, &mut write_stream).await;
         });
 
         let mut read_stream = MqttBytesReadStream::new(4096, tcp_read);
 
         tokio::spawn(async move {
-            Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address)
-                .await;
+            select! {
+                _ = Self::connection_read_loop(
+                    client_event_tx,
+                    server_event_tx,
+                    &mut read_stream,
+                    address,
+                ) => {}
+                // disconnected by the broker
+                _ = write_task => {}
+            }
         });
     }
 
-- 
2.43.0


From 3319c52cab6b587626bd13a8e9c10edef5528651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 17/32] fix: end the session of a client whose connection is
 lost

Nothing reported lost connections, so the session, its subscriptions and the
broker's socket stayed forever and a reconnecting client inherited the old
subscriptions. Packets following a DISCONNECT are no longer processed.
---
 src/broker/client_packet_handler.rs       | 19 +++++++++++++++++--
 src/broker/messaging/messaging_service.rs | 19 +++++++++++++++++++
 src/mqtt/events.rs                        |  2 +-
 src/mqtt/listener.rs                      | 12 ++++++++++++
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 7f38f2e..aea71d4 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -70,8 +70,10 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                if self.has_session(&client_id, &tx).await {
+                                    self.on_connection_lost(client_id).await;
+                                }
                             }
                         }
                     }
@@ -111,6 +113,19 @@ impl ClientPacketHandler {
         };
     }
 
+    // does the session of the client belong to this connection?
+    async fn has_session(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionHasSender {
+            client_id: client_id.clone(),
+            sender: sender.clone(),
+            resp: tx,
+        };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
     async fn on_connect(
         &mut self,
         sender: Sender<ServerEvent>,
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..3a8c366 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -24,6 +24,11 @@ pub enum MessagingOperation {
         client_id: ClientId,
         resp: Responder<bool>,
     },
+    SessionHasSender {
+        client_id: ClientId,
+        sender: mpsc::Sender<ServerEvent>,
+        resp: Responder<bool>,
+    },
     SessionInsert {
         session: Session,
         resp: Responder<()>,
@@ -90,6 +95,10 @@ impl MessagingService {
                     let result = self.session_exists(&client_id);
                     let _ = resp.send(result);
                 }
+                MessagingOperation::SessionHasSender { client_id, sender, resp } => {
+                    let result = self.session_has_sender(&client_id, &sender);
+                    let _ = resp.send(result);
+                }
                 MessagingOperation::SessionInsert { session, resp } => {
                     self.session_insert(session);
                     let _ = resp.send(());
@@ -140,6 +149,16 @@ impl MessagingService {
         self.sessions.exists(client_id)
     }
 
+    pub fn session_has_sender(
+        &self,
+        client_id: &ClientId,
+        sender: &mpsc::Sender<ServerEvent>,
+    ) -> bool {
+        self.sessions
+            .get(client_id)
+            .map_or(false, |session| session.sender().same_channel(sender))
+    }
+
     pub fn session_insert(&mut self, session: Session) {
         // trace!()
         self.sessions.insert(session)
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index a4582ac..4aef187 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -129,11 +129,23 @@ impl MqttListener {
         while let Ok(packet) = read_packet(&mut read_stream).await {
             trace!("Read packet: {:?}", &packet);
 
+            // nothing may follow a DISCONNECT
+            let disconnected = matches!(packet, ControlPacket::Disconnect(_));
+
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
                 error!("Error while sending client event to be processed: {}", &e);
             }
+
+            if disconnected {
+                return;
+            }
+        }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
         }
         trace!("Client read task ended");
     }
-- 
2.43.0


From ba03f357b3e04033b9b5a652a76af351fa63913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 18/32] fix: ignore the packets of connections that have no
 session

Packets following a refused CONNECT were processed as if the client had
authenticated: it could publish, and with another client's id unsubscribe or
disconnect that client.
---
 src/broker/client_packet_handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index aea71d4..d2dd7bd 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -92,6 +92,11 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        if !self.has_session(&client_id, &tx).await {
+            debug!("Ignored packet {} of client {:?} without session", &packet, &client_id);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
-- 
2.43.0


From 407f2c11a3ef459162f3a83cc4f2727f802f0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 19/32] fix: replace an existing connection with the same
 client id

The older connection stayed open and its packets, including DISCONNECT,
acted on the new connection's session, which also kept the older one's
subscriptions.
---
 src/broker/client_packet_handler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index d2dd7bd..40d74a5 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -165,6 +165,17 @@ impl ClientPacketHandler {
             }
         };
 
+        // an existing connection with the same client id is replaced - MQTT-3.1.4-2
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::ConnectionLost { client_id: client_id.clone(), resp: tx };
+        self.messaging_tx.send(op).await.unwrap();
+        if let Some(replaced) = rx.await.unwrap() {
+            // its queue may be full
+            tokio::spawn(async move {
+                let _ = replaced.sender().send(ServerEvent::Disconnect).await;
+            });
+        }
+
         let session_present = {
             let (tx, rx) = oneshot::channel();
             let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
-- 
2.43.0


From 7a53ab55069c9d8360bc54c941d1b5f4640267c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 20/32] fix: close connections that send a second CONNECT

MQTT-3.1.0-2; it was ignored with an error message.
---
 src/mqtt/listener.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 4aef187..17f6f1a 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -129,6 +129,11 @@ impl MqttListener {
         while let Ok(packet) = read_packet(&mut read_stream).await {
             trace!("Read packet: {:?}", &packet);
 
+            if let ControlPacket::Connect(_) = packet {
+                warn!("Client {:?} sent a second CONNECT", &client_id);
+                break;
+            }
+
             // nothing may follow a DISCONNECT
             let disconnected = matches!(packet, ControlPacket::Disconnect(_));
 
-- 
2.43.0


From 0ac1e097163c8baafe005d1d103a9388812fced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:51 +0000
Subject: [PATCH 21/32] fix: forward messages with the granted QoS and without
 the publisher's flags

The publisher's QoS, packet identifier, DUP and RETAIN flag were passed on to
subscribers that were granted QoS 0.
---
 src/broker/client_packet_handler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 40d74a5..7466b0f 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -246,7 +246,7 @@ impl ClientPacketHandler {
     async fn on_publish(
         &self,
         _sender: Sender<ServerEvent>,
-        publish: PublishPacket,
+        mut publish: PublishPacket,
         client_id: ClientId,
     ) {
         debug!(
@@ -260,6 +260,12 @@ impl ClientPacketHandler {
         self.messaging_tx.send(op).await.unwrap();
         let senders_to_publish = rx.await.unwrap();
 
+        // subscriptions are granted QoS 0; the flags are the publisher's - MQTT-3.3.1-3, -9
+        publish.packet_id = None;
+        publish.dup = false;
+        publish.message.qos = QoS::AtMostOnce;
+        publish.message.retain = false;
+
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
             let _ = sender.send(event).await;
-- 
2.43.0


From 59693463d6411dbd957099da58061939412bfa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 22/32] fix: ratelmq-passwd: find the entry of exactly the
 named user

The search was neither anchored nor case sensitive: setting or deleting a
user changed the entry of any user whose name ends with it or differs in
case. An entry on a last line without newline was not found at all.
---
 ratelmq-passwd/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..d816731 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,8 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*(\n|\z)");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
-- 
2.43.0


From a24c426360fa4b159d331d539df81e859d39cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:58 +0000
Subject: [PATCH 23/32] fix: ratelmq-passwd: start a new line when the file
 does not end with one

The new entry was appended to the last user's hash, losing both.
---
 ratelmq-passwd/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index d816731..3181d9a 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -46,7 +46,11 @@ fn main() {
                 .into_owned(),
         )
     } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
+        let separator = match credentials.is_empty() || credentials.ends_with('\n') {
+            true => "",
+            false => "\n",
+        };
+        Some(credentials + separator + build_entry(user_name, password).as_str())
     } else {
         None
     };
-- 
2.43.0


From 89b93d50870bb86d7bdb2cea417f3131d5723093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 24/32] fix: ratelmq-passwd: update all entries of a user that
 has several

Only the first one was changed or deleted, but the broker uses the last.
---
 ratelmq-passwd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 3181d9a..fee1cff 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -42,7 +42,7 @@ fn main() {
 
         Some(
             regexp
-                .replace(credentials.as_str(), text.as_str())
+                .replace_all(credentials.as_str(), text.as_str())
                 .into_owned(),
         )
     } else if !delete {
-- 
2.43.0


From 41162280229fc9299315d8914294810085070675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 25/32] fix: ratelmq-passwd: refuse user names the password
 file cannot hold

An entry for a name with a colon or line break is read as an entry of
another user, locking that user out.
---
 ratelmq-passwd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index fee1cff..292ee26 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,6 +25,11 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
+    if !delete && user_name.contains(|c| c == ':' || c == '\n') {
+        eprintln!("User names cannot contain ':' or line breaks");
+        std::process::exit(1);
+    }
+
     let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*(\n|\z)");
     let regexp = RegexBuilder::new(regexp_format.as_str())
         .multi_line(true)
-- 
2.43.0


From 40b6b5589f5bfbe4bef3bb42f0e3d542224563d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 26/32] fix: ratelmq-passwd: replace the password file
 atomically

It was truncated and rewritten in place, so being interrupted, or running out
of disk space, lost the entries of all users.
---
 ratelmq-passwd/src/main.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 292ee26..c153fc5 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,5 +1,8 @@
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
+use std::fs::OpenOptions;
+use std::io::Write;
+use std::os::unix::fs::{chown, MetadataExt, OpenOptionsExt};
 
 use argon2::{
     password_hash::{rand_core::OsRng, PasswordHasher, SaltString},
@@ -61,10 +64,37 @@ fn main() {
     };
 
     if let Some(new_file_content) = updated_credentials {
-        std::fs::write(file_name, new_file_content).unwrap();
+        replace_file(file_name, new_file_content.as_str()).unwrap();
     }
 }
 
+/// Replaces the file in one step, so that no failure can leave it incomplete.
+fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
+    let path = std::fs::canonicalize(file_name)?;
+    let metadata = std::fs::metadata(&path)?;
+
+    let mut new_path = path.clone().into_os_string();
+    new_path.push(format!(".{}.new", std::process::id()));
+
+    let mut new_file = OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .mode(0o600)
+        .open(&new_path)?;
+
+    let result = new_file
+        .write_all(content.as_bytes())
+        .and_then(|_| chown(&new_path, Some(metadata.uid()), Some(metadata.gid())))
+        .and_then(|_| new_file.set_permissions(metadata.permissions()))
+        .and_then(|_| new_file.sync_all())
+        .and_then(|_| std::fs::rename(&new_path, &path));
+
+    if result.is_err() {
+        let _ = std::fs::remove_file(&new_path);
+    }
+    result
+}
+
 fn build_arguments(version: String) -> ArgMatches {
     App::new("ratelmq-passwd")
         .version(version.as_str())
-- 
2.43.0


From b62e2526ae4da6dd64bd53b163534983602de60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 27/32] Verification hook: random pauses at suspension points,
 with --cfg verif_hooks

Off by default; no effect without the cfg flag and the VERIF_PAUSE variable.
---
 src/broker/client_packet_handler.rs       |  7 ++++
 src/broker/messaging/messaging_service.rs |  2 +
 src/lib.rs                                |  3 ++
 src/mqtt/listener.rs                      |  9 +++++
 src/verif_hooks.rs                        | 49 +++++++++++++++++++++++
 5 files changed, 70 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 7466b0f..370d431 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -63,6 +63,9 @@ impl ClientPacketHandler {
                     if let Some(event) = maybe_event {
                         trace!("Got event {:?}", &event);
 
+                        #[cfg(verif_hooks)]
+                        crate::verif_hooks::pause(5).await;
+
                         match event {
 
                             ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
@@ -176,6 +179,8 @@ impl ClientPacketHandler {
             });
         }
 
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::pause(7).await;
         let session_present = {
             let (tx, rx) = oneshot::channel();
             let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
@@ -267,6 +272,8 @@ impl ClientPacketHandler {
         publish.message.retain = false;
 
         for sender in senders_to_publish {
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::pause(6).await;
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
             let _ = sender.send(event).await;
         }
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index 3a8c366..4af3ff7 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -90,6 +90,8 @@ impl MessagingService {
     pub async fn run(mut self, mut rx: mpsc::Receiver<MessagingOperation>) {
         debug!("Started Messaging Manager");
         while let Some(op) = rx.recv().await {
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::pause(8).await;
             match op {
                 MessagingOperation::SessionExists { client_id, resp } => {
                     let result = self.session_exists(&client_id);
diff --git a/src/lib.rs b/src/lib.rs
index ef29b74..e142756 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,9 @@ pub mod settings;
 
 mod application;
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
+
 pub async fn run(config_filename: &str) {
     application::run(config_filename).await;
 }
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 17f6f1a..a04970b 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -114,6 +114,8 @@ impl MqttListener {
                 };
 
                 c.client_id = client_id.clone();
+                #[cfg(verif_hooks)]
+                crate::verif_hooks::pause(4).await;
                 let event = ClientEvent::Connected(c, address, server_event_tx.clone());
                 if let Err(e) = client_event_tx.send(event).await {
                     error!("Error while sending client event to be processed: {}", &e);
@@ -137,6 +139,8 @@ impl MqttListener {
             // nothing may follow a DISCONNECT
             let disconnected = matches!(packet, ControlPacket::Disconnect(_));
 
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::pause(1).await;
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
@@ -148,6 +152,8 @@ impl MqttListener {
             }
         }
 
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::pause(2).await;
         let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
         if let Err(e) = client_event_tx.send(event).await {
             error!("Error while sending client event to be processed: {}", &e);
@@ -162,6 +168,9 @@ impl MqttListener {
         while let Some(event) = server_event_rx.recv().await {
             trace!("Received server event: {:?}", &event);
 
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::pause(3).await;
+
             match event {
                 ServerEvent::ControlPacket(packet) => {
                     trace!("Writing packet: {:?}", &packet);
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..30d32f9
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,49 @@
+//! Schedule diversity for runtime verification, compiled only with `--cfg verif_hooks`.
+//!
+//! `pause` sits at existing suspension points. When the environment variable VERIF_PAUSE is set to
+//! "SEED,PERMILLE,MAX_US", it yields or sleeps there at random, so that tasks interleave in more ways.
+
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::OnceLock;
+use std::time::Duration;
+
+struct Settings {
+    seed: u64,
+    permille: u64,
+    max_us: u64,
+}
+
+static SETTINGS: OnceLock<Option<Settings>> = OnceLock::new();
+static COUNTER: AtomicU64 = AtomicU64::new(0);
+
+fn settings() -> &'static Option<Settings> {
+    SETTINGS.get_or_init(|| {
+        let value = std::env::var("VERIF_PAUSE").ok()?;
+        let numbers: Vec<u64> = value.split(',').filter_map(|n| n.parse().ok()).collect();
+        match numbers[..] {
+            [seed, permille, max_us] => Some(Settings { seed, permille, max_us }),
+            _ => None,
+        }
+    })
+}
+
+pub async fn pause(site: u64) {
+    if let Some(s) = settings() {
+        let n = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let mut x = s.seed ^ n.wrapping_mul(0x9E3779B97F4A7C15) ^ (site << 56);
+        x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
+        x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
+        x ^= x >> 31;
+
+        if x % 1000 < s.permille {
+            match (x >> 10) % 3 {
+                0 => tokio::time::sleep(Duration::from_micros((x >> 12) % (s.max_us + 1))).await,
+                _ => {
+                    for _ in 0..(x >> 12) % 8 {
+                        tokio::task::yield_now().await;
+                    }
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From efae79718f8f67102fb727f2a9c0140cd61194a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 28/32] fix: an interrupt stops the broker even while a
 subscriber's queue is full

---
 src/broker/client_packet_handler.rs | 62 +++++++++++++++--------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 370d431..e846e46 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -23,7 +23,7 @@ use crate::settings::Settings;
 // A client's connection can be closed at any time, so failures to send to it are ignored.
 pub struct ClientPacketHandler {
     rx: mpsc::Receiver<ClientEvent>,
-    ctrl_c_rx: broadcast::Receiver<()>,
+    ctrl_c_rx: Option<broadcast::Receiver<()>>,
     // sessions: SessionService<InMemorySessionRepository>,
     // messaging: MessagingServiceSync,
     messaging_tx: MessagingTx,
@@ -44,7 +44,7 @@ impl ClientPacketHandler {
 
         ClientPacketHandler {
             rx,
-            ctrl_c_rx,
+            ctrl_c_rx: Some(ctrl_c_rx),
             // sessions: SessionService::default(),
             // messaging,
             messaging_tx,
@@ -53,40 +53,42 @@ impl ClientPacketHandler {
     }
 
     pub async fn run(mut self) {
-        loop {
-            select! {
-                _ = self.ctrl_c_rx.recv() => {
-                    debug!("Stopping manager...");
-                    break;
-                }
-                 maybe_event = self.rx.recv() => {
-                    if let Some(event) = maybe_event {
-                        trace!("Got event {:?}", &event);
-
-                        #[cfg(verif_hooks)]
-                        crate::verif_hooks::pause(5).await;
-
-                        match event {
-
-                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
-                            ClientEvent::ControlPacket(client_id, packet, tx) => {
-                                self.on_packet(client_id, packet, tx).await;
-                            }
-                            ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id, tx) => {
-                                if self.has_session(&client_id, &tx).await {
-                                    self.on_connection_lost(client_id).await;
-                                }
-                            }
-                        }
-                    }
-                 }
+        let mut ctrl_c_rx = self.ctrl_c_rx.take().unwrap();
+
+        // also interrupts a client's event waiting for a full queue of another client
+        select! {
+            _ = ctrl_c_rx.recv() => {
+                debug!("Stopping manager...");
             }
+            _ = self.process_events() => {}
         }
 
         debug!("Stopped Manager");
     }
 
+    async fn process_events(&mut self) {
+        while let Some(event) = self.rx.recv().await {
+            trace!("Got event {:?}", &event);
+
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::pause(5).await;
+
+            match event {
+
+                ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
+                ClientEvent::ControlPacket(client_id, packet, tx) => {
+                    self.on_packet(client_id, packet, tx).await;
+                }
+                ClientEvent::Disconnected(_client_id) => {}
+                ClientEvent::ConnectionLost(client_id, tx) => {
+                    if self.has_session(&client_id, &tx).await {
+                        self.on_connection_lost(client_id).await;
+                    }
+                }
+            }
+        }
+    }
+
     async fn on_packet(
         &mut self,
         client_id: String,
-- 
2.43.0


From 897ba14cd1dd422b7b1016dd711dd8e5279bd828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 29/32] fix: PUBLISH ending in its packet identifier is refused
 without an overflow

---
 src/mqtt/transport/packet_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 5ace7c5..606d145 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -266,8 +266,9 @@ async fn decode_publish(
     }
 
     let packet_id = if qos > QoS::AtMostOnce {
+        let packet_id = buffer.get_u16().await?;
         remaining_length -= 2;
-        Some(buffer.get_u16().await?)
+        Some(packet_id)
     } else {
         None
     };
-- 
2.43.0


From 00edc08f63a6b60fbcf8b0213adb6506e3276e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 30/32] fix: subscription tree nodes are removed with the last
 subscription that needs them

---
 .../messaging/subscriptions_repository.rs     | 82 +++++++++++--------
 1 file changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 9438318..aba33a2 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs::remove_dir;
 
 use crate::mqtt::packets::suback::SubAckReturnCode;
@@ -7,12 +7,14 @@ use crate::mqtt::subscription::Subscription;
 
 pub struct SubscriptionsRepository {
     root: SubscriptionNode,
+    client_topics: HashMap<ClientId, HashSet<String>>,
 }
 
 impl SubscriptionsRepository {
     pub fn new() -> SubscriptionsRepository {
         SubscriptionsRepository {
             root: SubscriptionNode::new(),
+            client_topics: HashMap::new(),
         }
     }
 
@@ -41,6 +43,10 @@ impl SubscriptionsRepository {
         // an identical subscription replaces the existing one - MQTT-3.8.4-3
         if !node.clients.contains(client_id) {
             node.clients.push(client_id.clone());
+            self.client_topics
+                .entry(client_id.clone())
+                .or_insert(HashSet::new())
+                .insert(subscription.topic().to_string());
         }
         // println!("Nodes: {:?}", &self.root);
 
@@ -49,38 +55,23 @@ impl SubscriptionsRepository {
 
     pub fn unsubscribe(&mut self, client_id: &ClientId, topics: &Vec<String>) {
         for topic in topics {
-            // if let Some(client_ids) = self.subscriptions.get_mut(topic) {
-            // client_ids.remove(client_id);
-            // }
-            let mut node = &mut self.root;
-
-            // subscription.topic().split("/").for_each(|x| {
-            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
-            // });
-
-            let segments: Vec<&str> = topic.split("/").collect();
-            for segment in segments {
-                node = node
-                    .children
-                    .entry(segment.to_string())
-                    .or_insert(SubscriptionNode::new());
+            if let Some(client_topics) = self.client_topics.get_mut(client_id) {
+                if client_topics.remove(topic) {
+                    if client_topics.is_empty() {
+                        self.client_topics.remove(client_id);
+                    }
+                    self.root.remove_client(client_id, topic);
+                }
             }
-
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
-            // node.clients.(client_id.clone());
-            // println!("Nodes: {:?}", &self.root);
         }
     }
 
     pub fn disconnected(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn connections_lost(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn subscribed_clients(&self, topic: &String) -> Option<Vec<ClientId>> {
@@ -123,16 +114,9 @@ impl SubscriptionsRepository {
         // None
     }
 
-    // not recursive: clients choose the depth of the tree
-    fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        let mut nodes = vec![node];
-        while let Some(node) = nodes.pop() {
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
-
-            nodes.extend(node.children.values_mut());
+    fn remove_client(&mut self, client_id: &ClientId) {
+        for topic in self.client_topics.remove(client_id).unwrap_or_default() {
+            self.root.remove_client(client_id, &topic);
         }
     }
 }
@@ -150,6 +134,34 @@ impl SubscriptionNode {
             clients: Vec::new(),
         }
     }
+
+    /// Removes the client from the topic's node, and the nodes that are of no use without it.
+    fn remove_client(&mut self, client_id: &ClientId, topic: &str) {
+        let segments: Vec<&str> = topic.split("/").collect();
+
+        let mut node = &mut *self;
+        // level of the last node on the way that is also used by others
+        let mut last_used = 0;
+        for (level, segment) in segments.iter().enumerate() {
+            if node.children.len() > 1 || !node.clients.is_empty() {
+                last_used = level;
+            }
+            match node.children.get_mut(*segment) {
+                Some(child) => node = child,
+                None => return,
+            }
+        }
+
+        node.clients.retain(|c| c != client_id);
+
+        if node.clients.is_empty() && node.children.is_empty() {
+            let mut node = self;
+            for segment in &segments[..last_used] {
+                node = node.children.get_mut(*segment).unwrap();
+            }
+            node.children.remove(segments[last_used]);
+        }
+    }
 }
 
 impl Drop for SubscriptionNode {
-- 
2.43.0


From 07ba429279ae1fd372d69b5e4a2589e4c0aa7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:32 +0000
Subject: [PATCH 31/32] fix: deleting a user name with ':' or a line break in
 it deleted other users' entries

---
 ratelmq-passwd/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index c153fc5..f97d3d4 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -28,7 +28,7 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    if !delete && user_name.contains(|c| c == ':' || c == '\n') {
+    if user_name.contains(|c| c == ':' || c == '\n') {
         eprintln!("User names cannot contain ':' or line breaks");
         std::process::exit(1);
     }
-- 
2.43.0


From 9ea43aab2791d0a77dcbe71e200e8c9f98401828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:58 +0000
Subject: [PATCH 32/32] fix: overlapping runs of the password tool lost each
 other's updates

A run that replaced the file while another one was computing its contents
had its entry removed by the other one. Runs now wait for each other.
---
 ratelmq-passwd/src/main.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f97d3d4..df76259 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,6 +1,6 @@
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
 use std::io::Write;
 use std::os::unix::fs::{chown, MetadataExt, OpenOptionsExt};
 
@@ -33,6 +33,8 @@ fn main() {
         std::process::exit(1);
     }
 
+    let _lock = lock_file(file_name).unwrap();
+
     let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*(\n|\z)");
     let regexp = RegexBuilder::new(regexp_format.as_str())
         .multi_line(true)
@@ -68,6 +70,20 @@ fn main() {
     }
 }
 
+/// Keeps other runs of this tool from updating the file until the result is dropped.
+fn lock_file(file_name: &str) -> std::io::Result<File> {
+    loop {
+        let file = File::open(file_name)?;
+        file.lock()?;
+
+        // the run that held the lock may have replaced the file
+        let (locked, current) = (file.metadata()?, std::fs::metadata(file_name)?);
+        if (locked.dev(), locked.ino()) == (current.dev(), current.ino()) {
+            return Ok(file);
+        }
+    }
+}
+
 /// Replaces the file in one step, so that no failure can leave it incomplete.
 fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
     let path = std::fs::canonicalize(file_name)?;
-- 
2.43.0

