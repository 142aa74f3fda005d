From fe7071792098020835e007c766a4c998d23bdfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 01/29] fix: reject unknown packet types and QoS 3 instead of
 panicking

The panic ended the connection's read task only; the session and its socket
were left behind.
---
 src/mqtt/transport/packet_decoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..88c2117 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -87,7 +87,12 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Invalid packet type",
+            ))
+        }
     };
 
     Ok(packet)
@@ -171,6 +176,12 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
+    if flags.contains(FixedHeaderFlags::QOS) {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed QoS",
+        ));
+    }
     let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
 
     // variable header
-- 
2.43.0


From 782b0463b7eb56574e6a688c7b7b9887261c9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 02/29] fix: accept remaining lengths of four bytes

The limit was checked after the multiplier had been advanced, so every packet
of 2 MiB or more was taken for malformed.
---
 src/mqtt/transport/packet_decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 88c2117..61c80f0 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -48,8 +48,6 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
 
     loop {
         let byte = buffer.get_u8().await?;
-        remaining_length += (byte & 127) as u64 * multiplier;
-        multiplier *= 128;
 
         if multiplier > 128 * 128 * 128 {
             return Err(tokio::io::Error::new(
@@ -58,6 +56,9 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
             ));
         }
 
+        remaining_length += (byte & 127) as u64 * multiplier;
+        multiplier *= 128;
+
         let continuation_bit = byte & 128;
         if continuation_bit == 0 {
             break;
-- 
2.43.0


From 30ce1682940ff3c70005c87e9f5c39da81ac940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 03/29] fix: do not spin when the read buffer has no capacity
 left

split_to() shrinks the buffer's capacity. Once it was zero, get_bytes() waited
for zero bytes over and over without ever yielding.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 28 +++++++------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..66b896b 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -74,17 +74,11 @@ impl MqttBytesStream {
 
         while remaining_length > 0 {
             // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
@@ -222,17 +216,11 @@ impl MqttBytesReadStream {
 
         while remaining_length > 0 {
             // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
-- 
2.43.0


From 8df53327417b290f4223f8fe88ff00f71dd3ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 04/29] fix: write out the whole buffer when a packet is
 finished

write_buf() may write only a part. The rest of the packet stayed in the buffer
until a later packet was sent on the connection.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 66b896b..303bb42 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -155,14 +155,16 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+            self.tcp_stream
+                .write_all_buf(&mut self.write_buffer)
+                .await?;
         }
 
         Ok(())
@@ -304,14 +306,16 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.write_stream.write_buf(&mut self.write_buffer).await?;
+            self.write_stream
+                .write_all_buf(&mut self.write_buffer)
+                .await?;
         }
 
         Ok(())
-- 
2.43.0


From 6c5c89214f07263e213e8e13c45c18b19ca31f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:54 +0000
Subject: [PATCH 05/29] fix: hold packets to their remaining length

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 36 +++++++++++++++++++++++++
 src/mqtt/transport/packet_decoder.rs    |  2 ++
 2 files changed, 38 insertions(+)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 303bb42..ec808df 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -18,6 +18,8 @@ pub struct MqttBytesWriteStream {
 pub struct MqttBytesReadStream {
     read_buffer: BytesMut,
     read_stream: OwnedReadHalf,
+    /// bytes left in the packet being decoded, None outside of a packet
+    packet_remaining: Option<usize>,
 }
 
 impl MqttBytesStream {
@@ -176,16 +178,49 @@ impl MqttBytesReadStream {
         MqttBytesReadStream {
             read_buffer: BytesMut::with_capacity(buffer_size),
             read_stream,
+            packet_remaining: None,
         }
     }
 
+    /// Starts a packet: until `end_packet`, not more than `remaining_length` bytes can be read.
+    pub fn begin_packet(&mut self, remaining_length: usize) {
+        self.packet_remaining = Some(remaining_length);
+    }
+
+    /// Ends the packet, all of its bytes must have been read.
+    pub fn end_packet(&mut self) -> Result<(), Error> {
+        match self.packet_remaining.take() {
+            None | Some(0) => Ok(()),
+            Some(remaining) => Err(Error::new(
+                ErrorKind::InvalidData,
+                format!("Malformed packet: {} unexpected bytes at the end", remaining),
+            )),
+        }
+    }
+
+    fn take_from_packet(&mut self, size: usize) -> Result<(), Error> {
+        if let Some(remaining) = self.packet_remaining {
+            let remaining = remaining.checked_sub(size).ok_or_else(|| {
+                Error::new(
+                    ErrorKind::InvalidData,
+                    "Malformed packet: shorter than its content",
+                )
+            })?;
+            self.packet_remaining = Some(remaining);
+        }
+
+        Ok(())
+    }
+
     pub async fn get_u8(&mut self) -> Result<u8, Error> {
+        self.take_from_packet(1)?;
         self.wait_for_data(1).await?;
 
         Ok(self.read_buffer.get_u8())
     }
 
     pub async fn get_u16(&mut self) -> Result<u16, Error> {
+        self.take_from_packet(2)?;
         self.wait_for_data(2).await?;
 
         Ok(self.read_buffer.get_u16())
@@ -212,6 +247,7 @@ impl MqttBytesReadStream {
     }
 
     pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
+        self.take_from_packet(size)?;
         let mut bytes = BytesMut::with_capacity(size);
 
         let mut remaining_length = size;
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 61c80f0..9808be5 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -72,6 +72,7 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
     let first_byte = mqtt_stream.get_u8().await?;
     let packet_type = first_byte >> 4;
     let remaining_length = decode_remaining_length(mqtt_stream).await?;
+    mqtt_stream.begin_packet(remaining_length as usize);
 
     let packet = match packet_type {
         PACKET_TYPE_CONNECT => decode_connect(mqtt_stream, first_byte, remaining_length).await?,
@@ -95,6 +96,7 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
             ))
         }
     };
+    mqtt_stream.end_packet()?;
 
     Ok(packet)
 }
-- 
2.43.0


From 59843ac02bebf6e56e5b455b8855cccc5e8f0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 06/29] fix: check the fixed header flags of CONNECT, PINGREQ
 and DISCONNECT

---
 src/mqtt/transport/packet_decoder.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 9808be5..cd596fa 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -87,8 +87,14 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, 0b11000000)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, 0b11100000)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
         _ => {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
@@ -103,7 +109,7 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
+    first_byte: u8,
     _remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     bitflags! {
@@ -120,11 +126,19 @@ async fn decode_connect(
         }
     }
 
+    validate_first_byte(first_byte, 0b00010000)?;
+
     // variable header
     let _protocol_name = buffer.get_string().await?;
     let _protocol_level = buffer.get_u8().await?;
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
+    if connect_flags.contains(ConnectFlags::RESERVED) {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed connect flags",
+        ));
+    }
 
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
 
-- 
2.43.0


From 5fa03da42236be2018655a35ff24e33cf9d64c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:32 +0000
Subject: [PATCH 07/29] fix: decode the will topic and message of CONNECT

---
 src/mqtt/transport/packet_decoder.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index cd596fa..b643b58 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -147,6 +148,28 @@ async fn decode_connect(
     // payload
     let client_id = buffer.get_string().await?;
 
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        if connect_flags.contains(ConnectFlags::WILL_QOS) {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Malformed will QoS",
+            ));
+        }
+
+        let topic = buffer.get_string().await?;
+        let payload_size = buffer.get_u16().await? as usize;
+        let payload = buffer.get_bytes(payload_size).await?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
+
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
         Some(buffer.get_string().await?)
     } else {
@@ -165,7 +188,7 @@ async fn decode_connect(
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
-- 
2.43.0


From 96b55c9008ac42f908928407f3ecd371a472ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 08/29] fix: refuse a user name without a password instead of
 panicking

---
 src/broker/client_packet_handler.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..d3f3aae 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -7,7 +7,7 @@ use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{broadcast, mpsc, oneshot};
 use uuid::Uuid;
 
-use crate::broker::authentication::{FileIdentityManager, IdentityProvider};
+use crate::broker::authentication::{AuthenticationError, FileIdentityManager, IdentityProvider};
 use crate::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
 use crate::broker::session::Session;
 use crate::mqtt::events::{ClientEvent, ServerEvent};
@@ -120,8 +120,11 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
-            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
+            let result = match packet.password {
+                Some(password) => self.identity_provider.authenticate(&user_name, &password),
+                None => Err(AuthenticationError::InvalidPassword),
+            };
+            if let Err(e) = result {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-- 
2.43.0


From d602eef4aaff2852cad3f3d7e7ff4fda59b2f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 09/29] fix: do not stop the broker when a connection is gone
 before it is answered

---
 src/broker/client_packet_handler.rs | 31 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index d3f3aae..f32d4ac 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -128,11 +128,10 @@ impl ClientPacketHandler {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
+                let _ = sender
                     .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                    .await;
+                let _ = sender.send(ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -166,10 +165,9 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
+        let _ = sender
             .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+            .await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -226,7 +224,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            let _ = sender.send(event).await;
         }
     }
 
@@ -253,10 +251,9 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
+        let _ = sender
             .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+            .await;
     }
 
     async fn on_unsubscribe(
@@ -274,10 +271,9 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
+        let _ = sender
             .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+            .await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -306,16 +302,15 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
+            let _ = sender
                 .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+                .await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            let _ = sender.send(ServerEvent::Disconnect).await;
         }
     }
 }
-- 
2.43.0


From c1879606b52461773b0685a5cc77b287330f626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:30 +0000
Subject: [PATCH 10/29] fix: ignore packets of connections that hold no session

---
 src/broker/client_packet_handler.rs       | 18 ++++++++++++++++++
 src/broker/messaging/messaging_service.rs | 20 ++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index f32d4ac..9cb8986 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -89,6 +89,12 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        // e.g. the client was not authorized
+        if !self.holds_session(&client_id, &tx).await {
+            debug!("Ignoring packet {} from {:?}, it has no session", &packet, &client_id);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
@@ -110,6 +116,18 @@ impl ClientPacketHandler {
         };
     }
 
+    async fn holds_session(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionHeldBy {
+            client_id: client_id.clone(),
+            sender: sender.clone(),
+            resp: tx,
+        };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
     async fn on_connect(
         &mut self,
         sender: Sender<ServerEvent>,
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..38c95b9 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -24,6 +24,12 @@ pub enum MessagingOperation {
         client_id: ClientId,
         resp: Responder<bool>,
     },
+    /// Does the connection with this sender hold the session of the client?
+    SessionHeldBy {
+        client_id: ClientId,
+        sender: mpsc::Sender<ServerEvent>,
+        resp: Responder<bool>,
+    },
     SessionInsert {
         session: Session,
         resp: Responder<()>,
@@ -90,6 +96,10 @@ impl MessagingService {
                     let result = self.session_exists(&client_id);
                     let _ = resp.send(result);
                 }
+                MessagingOperation::SessionHeldBy { client_id, sender, resp } => {
+                    let result = self.session_held_by(&client_id, &sender);
+                    let _ = resp.send(result);
+                }
                 MessagingOperation::SessionInsert { session, resp } => {
                     self.session_insert(session);
                     let _ = resp.send(());
@@ -140,6 +150,16 @@ impl MessagingService {
         self.sessions.exists(client_id)
     }
 
+    pub fn session_held_by(
+        &self,
+        client_id: &ClientId,
+        sender: &mpsc::Sender<ServerEvent>,
+    ) -> bool {
+        self.sessions
+            .get(client_id)
+            .map_or(false, |session| session.sender().same_channel(sender))
+    }
+
     pub fn session_insert(&mut self, session: Session) {
         // trace!()
         self.sessions.insert(session)
-- 
2.43.0


From f82955a1c108055d429bca92c6efcc50aabc5824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 11/29] fix: end the session and the connection when a client
 is finished

---
 src/broker/client_packet_handler.rs | 10 ++++++---
 src/mqtt/events.rs                  |  2 +-
 src/mqtt/listener.rs                | 33 ++++++++++++++++++++++++++++-
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 9cb8986..f65dada 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -69,8 +69,8 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                self.on_connection_lost(client_id, tx).await;
                             }
                         }
                     }
@@ -208,7 +208,11 @@ impl ClientPacketHandler {
         // );
     }
 
-    async fn on_connection_lost(&mut self, client_id: ClientId) {
+    async fn on_connection_lost(&mut self, client_id: ClientId, sender: Sender<ServerEvent>) {
+        if !self.holds_session(&client_id, &sender).await {
+            return;
+        }
+
         info!("Client {:?} disconnected unexpectedly", &client_id);
 
         let (tx, rx) = oneshot::channel();
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..1fd0286 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -118,14 +118,44 @@ impl MqttListener {
             return;
         }
 
-        while let Ok(packet) = read_packet(&mut read_stream).await {
+        loop {
+            let packet = select! {
+                result = read_packet(&mut read_stream) => match result {
+                    Ok(packet) => packet,
+                    Err(e) => {
+                        debug!("Stopped reading from client {:?}: {:?}", &client_id, &e);
+                        break;
+                    }
+                },
+                // the write task has ended, nothing can be sent to the client anymore
+                _ = server_event_tx.closed() => break,
+            };
             trace!("Read packet: {:?}", &packet);
 
+            // the second CONNECT is a protocol violation - MQTT-3.1.0-2
+            if let ControlPacket::Connect(_) = packet {
+                warn!("Client {:?} sent the second CONNECT", &client_id);
+                break;
+            }
+
+            let disconnect = matches!(packet, ControlPacket::Disconnect(_));
+
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
                 error!("Error while sending client event to be processed: {}", &e);
+                return;
             }
+
+            if disconnect {
+                trace!("Client read task ended after DISCONNECT");
+                return;
+            }
+        }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
         }
         trace!("Client read task ended");
     }
@@ -142,6 +172,7 @@ impl MqttListener {
                     trace!("Writing packet: {:?}", &packet);
                     if let Err(e) = write_packet(&mut write_stream, packet).await {
                         error!("Error while writing packet: {:?}", &e);
+                        break;
                     }
                 }
                 ServerEvent::Disconnect => {
-- 
2.43.0


From e7c87a76119751a5e346c945fdecb3c77ad32e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 12/29] fix: disconnect the previous connection of a client id

---
 src/broker/client_packet_handler.rs       |  7 +++++++
 src/broker/messaging/messaging_service.rs | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index f65dada..28e3643 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -177,6 +177,13 @@ impl ClientPacketHandler {
                 let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
                 self.messaging_tx.send(op).await.unwrap();
                 let insert_result = insert_rx.await.unwrap();
+
+                // a client id belongs to the newest connection - MQTT-3.1.4-2
+                if let Some(replaced) = insert_result {
+                    tokio::spawn(async move {
+                        let _ = replaced.sender().send(ServerEvent::Disconnect).await;
+                    });
+                }
                 false
             }
         };
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index 38c95b9..e8bb41e 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -30,9 +30,10 @@ pub enum MessagingOperation {
         sender: mpsc::Sender<ServerEvent>,
         resp: Responder<bool>,
     },
+    /// Responds with the session it replaces
     SessionInsert {
         session: Session,
-        resp: Responder<()>,
+        resp: Responder<Option<Session>>,
     },
     SessionGet {
         client_id: ClientId,
@@ -101,8 +102,8 @@ impl MessagingService {
                     let _ = resp.send(result);
                 }
                 MessagingOperation::SessionInsert { session, resp } => {
-                    self.session_insert(session);
-                    let _ = resp.send(());
+                    let result = self.session_insert(session);
+                    let _ = resp.send(result);
                 }
                 MessagingOperation::SessionGet { client_id, resp } => {
                     // let result = self.session_get(&client_id);
@@ -160,9 +161,15 @@ impl MessagingService {
             .map_or(false, |session| session.sender().same_channel(sender))
     }
 
-    pub fn session_insert(&mut self, session: Session) {
+    pub fn session_insert(&mut self, session: Session) -> Option<Session> {
         // trace!()
-        self.sessions.insert(session)
+        let replaced = if self.sessions.exists(session.client_id()) {
+            self.disconnect(session.client_id())
+        } else {
+            None
+        };
+        self.sessions.insert(session);
+        replaced
     }
 
     pub fn session_get(&self, client_id: &ClientId) -> Option<&Session> {
-- 
2.43.0


From 060b5be3ebcb904fededb2f443b1ef11b5979f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 13/29] fix: keep one subscription per client and filter

---
 src/broker/messaging/subscriptions_repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..9fab5a3 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,10 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        // subscribing again to the same filter replaces the subscription - MQTT-3.8.4-3
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From a68a5e7b6b6c5f018ee5eb3cfc05c04bad0b0577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 14/29] fix: forward messages with the granted QoS and clean
 flags

---
 src/broker/client_packet_handler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 28e3643..5bbe212 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -237,7 +237,7 @@ impl ClientPacketHandler {
     async fn on_publish(
         &self,
         _sender: Sender<ServerEvent>,
-        publish: PublishPacket,
+        mut publish: PublishPacket,
         client_id: ClientId,
     ) {
         debug!(
@@ -251,6 +251,12 @@ impl ClientPacketHandler {
         self.messaging_tx.send(op).await.unwrap();
         let senders_to_publish = rx.await.unwrap();
 
+        // every subscription is granted QoS 0
+        publish.packet_id = None;
+        publish.dup = false;
+        publish.message.qos = QoS::AtMostOnce;
+        publish.message.retain = false;
+
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
             let _ = sender.send(event).await;
-- 
2.43.0


From c088a02fef11f98744168f4a9647d7d79c273847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 15/29] fix: do not panic on a PUBLISH that ends before its
 packet id

---
 src/mqtt/transport/packet_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index b643b58..5b2f4aa 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -230,8 +230,9 @@ async fn decode_publish(
     remaining_length -= 2;
 
     let packet_id = if qos > QoS::AtMostOnce {
+        let packet_id = buffer.get_u16().await?;
         remaining_length -= 2;
-        Some(buffer.get_u16().await?)
+        Some(packet_id)
     } else {
         None
     };
-- 
2.43.0


From 578ab5612a95f6ace3e309660f76e02ae9aaeb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 16/29] fix: remove subscriptions without recursing into every
 topic level

---
 .../messaging/subscriptions_repository.rs     | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 9fab5a3..d72be0f 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -115,14 +115,16 @@ impl SubscriptionsRepository {
     }
 
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+        // not recursive: a filter may have tens of thousands of levels
+        let mut nodes = vec![node];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
@@ -141,6 +143,16 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    fn drop(&mut self) {
+        // not recursive, see SubscriptionsRepository::remove_client
+        let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|(_, n)| n).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|(_, n)| n));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0


From 06e845745d84c1a4349ee04230c7717788ddb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:35 +0000
Subject: [PATCH 17/29] fix: stop on the interrupt even while a client is being
 served

---
 src/broker/client_packet_handler.rs | 50 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 5bbe212..27005a6 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -22,7 +22,7 @@ use crate::settings::Settings;
 
 pub struct ClientPacketHandler {
     rx: mpsc::Receiver<ClientEvent>,
-    ctrl_c_rx: broadcast::Receiver<()>,
+    ctrl_c_rx: Option<broadcast::Receiver<()>>,
     // sessions: SessionService<InMemorySessionRepository>,
     // messaging: MessagingServiceSync,
     messaging_tx: MessagingTx,
@@ -43,7 +43,7 @@ impl ClientPacketHandler {
 
         ClientPacketHandler {
             rx,
-            ctrl_c_rx,
+            ctrl_c_rx: Some(ctrl_c_rx),
             // sessions: SessionService::default(),
             // messaging,
             messaging_tx,
@@ -52,35 +52,33 @@ impl ClientPacketHandler {
     }
 
     pub async fn run(mut self) {
-        loop {
-            select! {
-                _ = self.ctrl_c_rx.recv() => {
-                    debug!("Stopping manager...");
-                    break;
-                }
-                 maybe_event = self.rx.recv() => {
-                    if let Some(event) = maybe_event {
-                        trace!("Got event {:?}", &event);
-
-                        match event {
-
-                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
-                            ClientEvent::ControlPacket(client_id, packet, tx) => {
-                                self.on_packet(client_id, packet, tx).await;
-                            }
-                            ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id, tx) => {
-                                self.on_connection_lost(client_id, tx).await;
-                            }
-                        }
-                    }
-                 }
-            }
+        let mut ctrl_c_rx = self.ctrl_c_rx.take().unwrap();
+
+        select! {
+            _ = ctrl_c_rx.recv() => debug!("Stopping manager..."),
+            _ = self.process_events() => {}
         }
 
         debug!("Stopped Manager");
     }
 
+    async fn process_events(&mut self) {
+        while let Some(event) = self.rx.recv().await {
+            trace!("Got event {:?}", &event);
+
+            match event {
+                ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
+                ClientEvent::ControlPacket(client_id, packet, tx) => {
+                    self.on_packet(client_id, packet, tx).await;
+                }
+                ClientEvent::Disconnected(_client_id) => {}
+                ClientEvent::ConnectionLost(client_id, tx) => {
+                    self.on_connection_lost(client_id, tx).await;
+                }
+            }
+        }
+    }
+
     async fn on_packet(
         &mut self,
         client_id: String,
-- 
2.43.0


From a77d0796c1da9bff94d560d2a609d2e96a556464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:22 +0000
Subject: [PATCH 18/29] fix: change exactly the entry of the given user in the
 password file

---
 ratelmq-passwd/src/main.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..1904e2e 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,13 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    if user_name.contains(|c| c == ':' || c == '\n') {
+        eprintln!("User name must not contain a colon or a new line");
+        std::process::exit(1);
+    }
+
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
@@ -43,11 +47,16 @@ fn main() {
 
         Some(
             regexp
-                .replace(credentials.as_str(), text.as_str())
+                .replace_all(credentials.as_str(), text.as_str())
                 .into_owned(),
         )
     } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
+        let missing_newline = match credentials.is_empty() || credentials.ends_with('\n') {
+            true => "",
+            false => "\n",
+        };
+
+        Some(credentials + missing_newline + build_entry(user_name, password).as_str())
     } else {
         None
     };
-- 
2.43.0


From 2e330f0f45ce99d901630cf46013721d5e9bb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:22 +0000
Subject: [PATCH 19/29] fix: replace the password file in one step

---
 ratelmq-passwd/src/main.rs | 41 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 1904e2e..de37429 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,5 +1,9 @@
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
+use std::fs::{File, OpenOptions};
+use std::io::Write;
+use std::os::unix::fs::{fchown, MetadataExt, OpenOptionsExt};
+use std::path::Path;
 
 use argon2::{
     password_hash::{rand_core::OsRng, PasswordHasher, SaltString},
@@ -62,10 +66,45 @@ fn main() {
     };
 
     if let Some(new_file_content) = updated_credentials {
-        std::fs::write(file_name, new_file_content).unwrap();
+        replace_file(file_name, new_file_content.as_str()).unwrap();
     }
 }
 
+/// Replaces the file in one step, so that a crash leaves either the old or the new contents.
+fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
+    let path = std::fs::canonicalize(file_name)?;
+    let mut temporary_path = path.clone().into_os_string();
+    temporary_path.push(format!(".{}.tmp", std::process::id()));
+
+    let result = write_copy(&path, temporary_path.as_ref(), content)
+        .and_then(|_| std::fs::rename(&temporary_path, &path));
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temporary_path);
+        return result;
+    }
+
+    match path.parent() {
+        Some(directory) => File::open(directory)?.sync_all(),
+        None => Ok(()),
+    }
+}
+
+fn write_copy(original: &Path, copy: &Path, content: &str) -> std::io::Result<()> {
+    let metadata = std::fs::metadata(original)?;
+
+    let mut file = OpenOptions::new()
+        .write(true)
+        .create(true)
+        .truncate(true)
+        .mode(0o600)
+        .open(copy)?;
+    fchown(&file, Some(metadata.uid()), Some(metadata.gid()))?;
+    file.set_permissions(metadata.permissions())?;
+
+    file.write_all(content.as_bytes())?;
+    file.sync_all()
+}
+
 fn build_arguments(version: String) -> ArgMatches {
     App::new("ratelmq-passwd")
         .version(version.as_str())
-- 
2.43.0


From 869e201246cb05c8018628044c2f312f13f16bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 20/29] fix: give up the connection of a client that does not
 read

A client that stops reading filled its queue of outgoing packets and, with it, the session
manager's: everybody else was then kept waiting for as long as that client liked. A client that
takes no data at all for 20 s is now treated as gone.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index ec808df..6dbd48b 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -3,6 +3,10 @@ use log::trace;
 use tokio::io::{AsyncReadExt, AsyncWriteExt, Error, ErrorKind};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
+use tokio::time::{timeout, Duration};
+
+/// How long a client may take no data at all until its connection is given up.
+const WRITE_TIMEOUT: Duration = Duration::from_secs(20);
 
 pub struct MqttBytesStream {
     read_buffer: BytesMut,
@@ -342,16 +346,30 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
+        self.write_out().await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.write_stream
-                .write_all_buf(&mut self.write_buffer)
-                .await?;
+            self.write_out().await?;
+        }
+
+        Ok(())
+    }
+
+    /// Writes the whole buffer, fails when the client has stopped reading.
+    async fn write_out(&mut self) -> Result<(), Error> {
+        while self.write_buffer.has_remaining() {
+            let write = self.write_stream.write_buf(&mut self.write_buffer);
+            let written = timeout(WRITE_TIMEOUT, write)
+                .await
+                .map_err(|_| Error::new(ErrorKind::TimedOut, "client does not read"))??;
+
+            if written == 0 {
+                return Err(Error::new(ErrorKind::WriteZero, "connection does not accept data"));
+            }
         }
 
         Ok(())
-- 
2.43.0


From aee332395d9c3c1253dc5719076cdce44f201975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:17 +0000
Subject: [PATCH 21/29] fix: forget the filters that nobody holds any more

Nodes of the subscription tree were never removed, and unsubscribing even
created them, so the tree grew with every filter that was ever named.
---
 .../messaging/subscriptions_repository.rs     | 86 +++++++++++--------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index d72be0f..262e3df 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs::remove_dir;
 
 use crate::mqtt::packets::suback::SubAckReturnCode;
@@ -7,12 +7,15 @@ use crate::mqtt::subscription::Subscription;
 
 pub struct SubscriptionsRepository {
     root: SubscriptionNode,
+    /// Filters of each client, to find its nodes when it leaves
+    filters: HashMap<ClientId, HashSet<String>>,
 }
 
 impl SubscriptionsRepository {
     pub fn new() -> SubscriptionsRepository {
         SubscriptionsRepository {
             root: SubscriptionNode::new(),
+            filters: HashMap::new(),
         }
     }
 
@@ -37,6 +40,10 @@ impl SubscriptionsRepository {
         // subscribing again to the same filter replaces the subscription - MQTT-3.8.4-3
         if !node.clients.contains(client_id) {
             node.clients.push(client_id.clone());
+            self.filters
+                .entry(client_id.clone())
+                .or_default()
+                .insert(subscription.topic().to_string());
         }
         // println!("Nodes: {:?}", &self.root);
 
@@ -45,38 +52,24 @@ impl SubscriptionsRepository {
 
     pub fn unsubscribe(&mut self, client_id: &ClientId, topics: &Vec<String>) {
         for topic in topics {
-            // if let Some(client_ids) = self.subscriptions.get_mut(topic) {
-            // client_ids.remove(client_id);
-            // }
-            let mut node = &mut self.root;
-
-            // subscription.topic().split("/").for_each(|x| {
-            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
-            // });
-
-            let segments: Vec<&str> = topic.split("/").collect();
-            for segment in segments {
-                node = node
-                    .children
-                    .entry(segment.to_string())
-                    .or_insert(SubscriptionNode::new());
+            if let Some(filters) = self.filters.get_mut(client_id) {
+                if filters.remove(topic) {
+                    self.root.remove(client_id, topic);
+                }
+                if filters.is_empty() {
+                    self.filters.remove(client_id);
+                }
             }
-
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
-            // node.clients.(client_id.clone());
             // println!("Nodes: {:?}", &self.root);
         }
     }
 
     pub fn disconnected(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn connections_lost(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn subscribed_clients(&self, topic: &String) -> Option<Vec<ClientId>> {
@@ -114,16 +107,9 @@ impl SubscriptionsRepository {
         // None
     }
 
-    fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        // not recursive: a filter may have tens of thousands of levels
-        let mut nodes = vec![node];
-        while let Some(node) = nodes.pop() {
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
-
-            nodes.extend(node.children.values_mut());
+    fn remove_client(&mut self, client_id: &ClientId) {
+        for topic in self.filters.remove(client_id).unwrap_or_default() {
+            self.root.remove(client_id, &topic);
         }
     }
 }
@@ -141,11 +127,41 @@ impl SubscriptionNode {
             clients: Vec::new(),
         }
     }
+
+    /// Removes the client from the node of the filter, and the nodes that nobody needs then.
+    fn remove(&mut self, client_id: &ClientId, filter: &str) {
+        let segments: Vec<&str> = filter.split("/").collect();
+
+        // the last node on the way that has to stay, whatever is below it
+        let mut stays = 0;
+        let mut node = &*self;
+        for (level, segment) in segments.iter().enumerate() {
+            if node.children.len() > 1 || !node.clients.is_empty() {
+                stays = level;
+            }
+            node = match node.children.get(*segment) {
+                Some(child) => child,
+                None => return,
+            };
+        }
+        let unused = node.children.is_empty() && node.clients.iter().all(|c| c == client_id);
+
+        let mut node = self;
+        let end = if unused { stays } else { segments.len() };
+        for segment in &segments[..end] {
+            node = node.children.get_mut(*segment).unwrap();
+        }
+        if unused {
+            node.children.remove(segments[stays]);
+        } else {
+            node.clients.retain(|c| c != client_id);
+        }
+    }
 }
 
 impl Drop for SubscriptionNode {
     fn drop(&mut self) {
-        // not recursive, see SubscriptionsRepository::remove_client
+        // not recursive: a filter may have tens of thousands of levels
         let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|(_, n)| n).collect();
         while let Some(mut node) = nodes.pop() {
             nodes.extend(node.children.drain().map(|(_, n)| n));
-- 
2.43.0


From 7823af0c5538bc4d5a65e985063a2af98b4b0420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:53 +0000
Subject: [PATCH 22/29] fix: let RATELMQ_MQTT__LISTENERS_TCP override the list
 in the file

Environment variables take precedence, but the text could not be read as a
list, so that the broker did not start with this variable set.
---
 README.md           |  1 +
 src/settings/mod.rs | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 522acd1..0ed1ade 100644
--- a/README.md
+++ b/README.md
@@ -34,6 +34,7 @@ When using environment variables:
 
 * add `RATELMQ_` prefix
 * separate nested items with `__`, e.g. `RATELMQ_MQTT__SOMETHING`
+* separate the items of a list with `,`, e.g. `RATELMQ_MQTT__LISTENERS_TCP=127.0.0.1:1883,127.0.0.1:1884`
 
 For the default values with description please see [config/ratelmq.toml](config/ratelmq.toml).
 
diff --git a/src/settings/mod.rs b/src/settings/mod.rs
index fac0357..58d383c 100644
--- a/src/settings/mod.rs
+++ b/src/settings/mod.rs
@@ -1,8 +1,9 @@
 use config::{Config, ConfigError, Environment, File, FileFormat};
-use serde::Deserialize;
+use serde::{Deserialize, Deserializer};
 
 #[derive(Debug, Deserialize)]
 pub struct MqttSettings {
+    #[serde(deserialize_with = "list")]
     pub listeners_tcp: Vec<String>,
 }
 
@@ -28,4 +29,19 @@ impl Settings {
     }
 }
 
+/// A list, or a comma-separated text: an environment variable cannot hold anything else
+fn list<'de, D: Deserializer<'de>>(deserializer: D) -> Result<Vec<String>, D::Error> {
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum List {
+        Items(Vec<String>),
+        Text(String),
+    }
+
+    Ok(match List::deserialize(deserializer)? {
+        List::Items(items) => items,
+        List::Text(text) => text.split(',').map(|s| s.trim().to_string()).collect(),
+    })
+}
+
 // todo: tests for envs precedence
-- 
2.43.0


From 5f30ee825784607a30c5d8400e87d646b3a72ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 23/29] fix: topic names with wildcards and malformed topic
 filters were accepted

A message published on a topic with a wildcard level was delivered twice to
those who hold the filter of the same text. The specification forbids
wildcards in topic names (MQTT-3.3.2-2), wildcards that do not stand alone
in their level, a '#' that is not the last one (MQTT-4.7.1-2, MQTT-4.7.1-3)
and empty topics (MQTT-4.7.3-1).
---
 src/mqtt/transport/packet_decoder.rs | 35 ++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 5b2f4aa..60bf3dc 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -226,6 +226,7 @@ async fn decode_publish(
 
     // variable header
     let topic = buffer.get_string().await?;
+    validate_topic_name(&topic)?;
     remaining_length -= topic.len() as u64;
     remaining_length -= 2;
 
@@ -300,6 +301,7 @@ async fn decode_subscribe(
     let mut subscriptions = Vec::new();
     while remaining_length > 0 {
         let topic = buffer.get_string().await?;
+        validate_topic_filter(&topic)?;
         let qos = buffer.get_u8().await?;
         if qos > 2 {
             return Err(tokio::io::Error::new(
@@ -336,6 +338,7 @@ async fn decode_unsubscribe(
     let mut topics = Vec::new();
     while remaining_length > 0 {
         let topic = buffer.get_string().await?;
+        validate_topic_filter(&topic)?;
 
         remaining_length -= topic.len() as u64 + 2u64/* 2 topic length */;
 
@@ -367,3 +370,35 @@ fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
         ))
     }
 }
+
+// MQTT-3.3.2-2, MQTT-4.7.3-1
+fn validate_topic_name(topic: &str) -> Result<(), Error> {
+    if !topic.is_empty() && !topic.contains(|c| c == '+' || c == '#') {
+        Ok(())
+    } else {
+        Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed topic name",
+        ))
+    }
+}
+
+// MQTT-4.7.1-2, MQTT-4.7.1-3, MQTT-4.7.3-1
+fn validate_topic_filter(filter: &str) -> Result<(), Error> {
+    let parent = match filter {
+        "#" => "",
+        _ => filter.strip_suffix("/#").unwrap_or(filter),
+    };
+    let valid = parent
+        .split('/')
+        .all(|level| level == "+" || !level.contains(|c| c == '+' || c == '#'));
+
+    if !filter.is_empty() && valid {
+        Ok(())
+    } else {
+        Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed topic filter",
+        ))
+    }
+}
-- 
2.43.0


From bc28520a8fbbaf520e55b84ee685f7b95e23b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 24/29] fix: strings with the null character were accepted

A packet with U+0000 in a string must close the connection (MQTT-1.5.3-2).
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index 6dbd48b..d552261 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -247,6 +247,14 @@ impl MqttBytesReadStream {
             )
         })?;
 
+        // MQTT-1.5.3-2
+        if str.contains('\0') {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Invalid UTF8 String: null character",
+            ));
+        }
+
         Ok(String::from(str))
     }
 
-- 
2.43.0


From c7263ceeb82737fd4dd26a373f4f14c2afe93c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 25/29] fix: packet id 0 was accepted

SUBSCRIBE, UNSUBSCRIBE and PUBLISH with QoS above 0 need a packet id other
than 0 (MQTT-2.3.1-1).
---
 src/mqtt/transport/packet_decoder.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 60bf3dc..7d5c3f8 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -231,7 +231,7 @@ async fn decode_publish(
     remaining_length -= 2;
 
     let packet_id = if qos > QoS::AtMostOnce {
-        let packet_id = buffer.get_u16().await?;
+        let packet_id = get_packet_id(buffer).await?;
         remaining_length -= 2;
         Some(packet_id)
     } else {
@@ -356,8 +356,18 @@ async fn decode_packet_with_packet_id(
 ) -> Result<u16, Error> {
     validate_first_byte(first_byte, expected_first_byte)?;
 
-    let packet_id = buffer.get_u16().await?;
-    Ok(packet_id)
+    get_packet_id(buffer).await
+}
+
+// MQTT-2.3.1-1
+async fn get_packet_id(buffer: &mut MqttBytesReadStream) -> Result<u16, Error> {
+    match buffer.get_u16().await? {
+        0 => Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed packet id",
+        )),
+        packet_id => Ok(packet_id),
+    }
 }
 
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
-- 
2.43.0


From c1d54b87572d278307341a181f99068cd4c3dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 26/29] fix: CONNECT with a password but no user name was
 accepted

The flags forbid it (MQTT-3.1.2-22). The client was let in without any
authentication, although it had presented a password.
---
 src/mqtt/transport/packet_decoder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 7d5c3f8..7b03120 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -140,6 +140,15 @@ async fn decode_connect(
             "Malformed connect flags",
         ));
     }
+    // MQTT-3.1.2-22
+    if connect_flags.contains(ConnectFlags::PASSWORD)
+        && !connect_flags.contains(ConnectFlags::USERNAME)
+    {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed connect flags: password without user name",
+        ));
+    }
 
     let clean_session = connect_flags.contains(ConnectFlags::CLEAN_SESSION);
 
-- 
2.43.0


From df09710aa00fea31e7a09ab436418b6e20ca0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:50 +0000
Subject: [PATCH 27/29] fix: memory was reserved for whatever length a packet
 announced

A few bytes were enough to make the broker reserve 256 MB per connection
for a payload that never comes.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index d552261..f24e278 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -8,6 +8,9 @@ use tokio::time::{timeout, Duration};
 /// How long a client may take no data at all until its connection is given up.
 const WRITE_TIMEOUT: Duration = Duration::from_secs(20);
 
+/// How much memory is taken for bytes that are announced but not received yet.
+const MAX_INITIAL_CAPACITY: usize = 4096;
+
 pub struct MqttBytesStream {
     read_buffer: BytesMut,
     write_buffer: BytesMut,
@@ -260,7 +263,7 @@ impl MqttBytesReadStream {
 
     pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
         self.take_from_packet(size)?;
-        let mut bytes = BytesMut::with_capacity(size);
+        let mut bytes = BytesMut::with_capacity(size.min(MAX_INITIAL_CAPACITY));
 
         let mut remaining_length = size;
 
-- 
2.43.0


From 14017eafc90caae2fefe205d9f0fd833ba674c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 28/29] fix: passwords of clients were written to the log

At debug level the whole CONNECT packet is logged, the password in it.
---
 src/mqtt/packets/connect.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packets/connect.rs b/src/mqtt/packets/connect.rs
index e24e349..e9c5707 100644
--- a/src/mqtt/packets/connect.rs
+++ b/src/mqtt/packets/connect.rs
@@ -2,7 +2,9 @@ use crate::mqtt::packets::{ClientId, ProtocolVersion};
 
 use crate::mqtt::message::Message;
 
-#[derive(Debug, PartialEq, Clone, Default)]
+use std::fmt;
+
+#[derive(PartialEq, Clone, Default)]
 pub struct ConnectPacket {
     pub version: ProtocolVersion,
     pub client_id: ClientId,
@@ -36,3 +38,18 @@ impl ConnectPacket {
         }
     }
 }
+
+// Packets are logged, passwords must not be
+impl fmt::Debug for ConnectPacket {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("ConnectPacket")
+            .field("version", &self.version)
+            .field("client_id", &self.client_id)
+            .field("keep_alive_seconds", &self.keep_alive_seconds)
+            .field("clean_session", &self.clean_session)
+            .field("will_message", &self.will_message)
+            .field("user_name", &self.user_name)
+            .field("password", &self.password.as_ref().map(|_| "***"))
+            .finish()
+    }
+}
-- 
2.43.0


From 3bcd093f3b8e62113050aa93a91f684901e5eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:28 +0000
Subject: [PATCH 29/29] fix: two updates of the password file at once lost one
 of them

Each run wrote back what it had read, without the entries that others had
changed in between.
---
 ratelmq-passwd/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index de37429..80bd5f3 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -40,6 +40,7 @@ fn main() {
         .build()
         .unwrap();
 
+    let _lock = lock_file(file_name).unwrap();
     let credentials = std::fs::read_to_string(file_name).unwrap();
 
     let entry_exists = regexp.is_match(credentials.as_str());
@@ -70,6 +71,20 @@ fn main() {
     }
 }
 
+/// Keeps other runs from updating the file until the result is dropped.
+fn lock_file(file_name: &str) -> std::io::Result<File> {
+    loop {
+        let file = File::open(file_name)?;
+        file.lock()?;
+
+        // the run that held the lock has replaced the file
+        let (locked, current) = (file.metadata()?, std::fs::metadata(file_name)?);
+        if (locked.dev(), locked.ino()) == (current.dev(), current.ino()) {
+            return Ok(file);
+        }
+    }
+}
+
 /// Replaces the file in one step, so that a crash leaves either the old or the new contents.
 fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
     let path = std::fs::canonicalize(file_name)?;
-- 
2.43.0

