From d0565a82fc710a3aeb6cc5f112bb772fa687a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 01/23] fix: a block counts as stored only when all of its
 bytes were written

A writer may accept only a part of a block. That was taken for a short last
block: the transfer was acknowledged and reported as complete while the file
was truncated. Write until everything is stored or fail.
---
 src/writers/encrypted_stream_writer.rs |  7 +++----
 src/writers/mod.rs                     | 16 ++++++++++++++++
 src/writers/single_block_writer.rs     |  5 +++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/writers/encrypted_stream_writer.rs b/src/writers/encrypted_stream_writer.rs
index 2d20429..db2ca41 100644
--- a/src/writers/encrypted_stream_writer.rs
+++ b/src/writers/encrypted_stream_writer.rs
@@ -1,6 +1,7 @@
 use log::error;
 use log::trace;
 
+use super::write_all;
 use crate::buffer::new_data_block_07;
 use crate::buffer::resize_data_block_07;
 use crate::buffer::SliceExt;
@@ -89,10 +90,8 @@ impl<W: Write> Write for StreamWriter<W> {
                 }
             })?;
 
-        let written = self
-            .writer
-            .write(buffer)
-            .map(|s| s + from + ENCRYPTION_TAG_SIZE as usize)?;
+        write_all(&mut self.writer, buffer)?;
+        let written = buffer.len() + from + ENCRYPTION_TAG_SIZE as usize;
 
         self.key.take();
 
diff --git a/src/writers/mod.rs b/src/writers/mod.rs
index 2342afe..c29c26f 100644
--- a/src/writers/mod.rs
+++ b/src/writers/mod.rs
@@ -1,4 +1,7 @@
 use self::single_block_writer::SingleBlockWriter;
+use crate::std_compat::io::ErrorKind;
+use crate::std_compat::io::Result as IoResult;
+use crate::std_compat::io::Write;
 
 pub mod block_writer;
 #[cfg(feature = "encryption")]
@@ -9,6 +12,19 @@ pub enum Writers<W> {
     Single(SingleBlockWriter<W>),
 }
 
+/// a writer may accept only a part of the data, however block is stored only when all of it is
+pub(crate) fn write_all<W: Write>(writer: &mut W, mut data: &[u8]) -> IoResult<()> {
+    while !data.is_empty() {
+        match writer.write(data) {
+            Ok(0) => return Err(ErrorKind::WriteZero.into()),
+            Ok(n) => data = data.get(n..).unwrap_or_default(),
+            Err(ref e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(())
+}
+
 #[cfg(feature = "alloc")]
 impl<T: self::block_writer::BlockWriter + ?Sized> self::block_writer::BlockWriter
     for alloc::boxed::Box<T>
diff --git a/src/writers/single_block_writer.rs b/src/writers/single_block_writer.rs
index 8c71642..3edb0e0 100644
--- a/src/writers/single_block_writer.rs
+++ b/src/writers/single_block_writer.rs
@@ -1,6 +1,7 @@
 use log::trace;
 
 use super::block_writer::BlockWriter;
+use super::write_all;
 use crate::block_mapper::BlockMapper;
 use crate::error::ExistingBlock;
 use crate::error::StorageError;
@@ -47,9 +48,9 @@ where
 
         trace!("Writing block {expected_index}");
 
-        let written = self.writer.write(data)?;
+        write_all(&mut self.writer, data)?;
         self.block_written = expected_index;
-        Ok((written, self.block_written))
+        Ok((data.len(), self.block_written))
     }
 }
 
-- 
2.43.0


From d1fc30e719d72f91401e037e0ead7711b3466e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 02/23] fix: single threaded server ignores packets of a failed
 transfer

A failed connection stays in the client list until the next cleanup. Until then
packets kept being written and acknowledged, also after a storage failure or
when the file was already larger than allowed.
---
 src/server/single_thread.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/single_thread.rs b/src/server/single_thread.rs
index 35815b1..7af0636 100644
--- a/src/server/single_thread.rs
+++ b/src/server/single_thread.rs
@@ -239,6 +239,10 @@ where
         match clients.entry(from_client) {
             Entry::Occupied(mut entry) => {
                 let (ref mut connection, ref mut client_type) = entry.get_mut();
+                if connection.invalid.is_some() {
+                    debug!("Connection failed already. Ignoring packet from {from_client}");
+                    continue;
+                }
                 match client_type {
                     ClientType::Reader(r) => {
                         handle_read(connection, r, &mut receive_buffer, instant)
-- 
2.43.0


From 313d57b39322f29f89ea533288814f6d412298ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 03/23] fix: retransmission back-off leaves time for several
 retries before the peer gives up

---
 src/client/sender.rs        |  8 ++++++--
 src/flow_control.rs         |  9 +++++++++
 src/server/helpers/read.rs  | 15 +++++++++++----
 src/server/multi_thread.rs  |  8 +++++++-
 src/server/single_thread.rs | 16 ++++++++++++----
 5 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/client/sender.rs b/src/client/sender.rs
index 02a7b80..cef5022 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -22,6 +22,7 @@ use crate::encryption::VerifyingKey;
 use crate::error::BoxedResult;
 use crate::error::PacketError;
 use crate::error::StorageError;
+use crate::flow_control::retry_timeout;
 use crate::flow_control::RateControl;
 use crate::macros::cfg_encryption;
 use crate::macros::cfg_seek;
@@ -195,8 +196,11 @@ where
 
         resize_buffer(&mut send_buffer, send_max_buffer_size);
 
-        let timeout_interval =
-            rate_control.timeout_interval(options.retry_packet_after_timeout, options.block_size);
+        let timeout_interval = retry_timeout(
+            rate_control.timeout_interval(options.retry_packet_after_timeout, options.block_size),
+            options.retry_packet_after_timeout,
+            config.request_timeout,
+        );
         let retry = last_sent.elapsed() > timeout_interval;
         let next_block =
             match block_reader.next(&mut send_buffer[DATA_PACKET_HEADER_SIZE.into()..], retry) {
diff --git a/src/flow_control.rs b/src/flow_control.rs
index 8e17da9..3d9e739 100644
--- a/src/flow_control.rs
+++ b/src/flow_control.rs
@@ -212,6 +212,15 @@ impl RateControl {
     }
 }
 
+/// increased timeout must leave time for several retries until the peer gives up
+pub fn retry_timeout(
+    timeout: Duration,
+    min_retry_timeout: Duration,
+    request_timeout: Duration,
+) -> Duration {
+    min(timeout, max(min_retry_timeout, request_timeout / 8))
+}
+
 fn packets_to_send(allowed_rate: u32, time_window: Duration, block_size: u16) -> u32 {
     if allowed_rate > 0 {
         (allowed_rate as f32 / block_size as f32 * time_window.as_secs_f32()) as u32
diff --git a/src/server/helpers/read.rs b/src/server/helpers/read.rs
index b4d27d9..dac2b37 100644
--- a/src/server/helpers/read.rs
+++ b/src/server/helpers/read.rs
@@ -1,4 +1,5 @@
 use core::num::NonZeroU8;
+use core::time::Duration;
 
 use log::debug;
 use log::error;
@@ -9,6 +10,7 @@ use rand::RngCore;
 use crate::buffer::resize_buffer;
 use crate::config::DATA_PACKET_HEADER_SIZE;
 use crate::error::StorageError;
+use crate::flow_control::retry_timeout;
 use crate::packet::prepend_data_header;
 use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
@@ -27,11 +29,16 @@ pub fn send_data_block<R: BlockReader, B: BoundSocket, Rng: CryptoRng + RngCore
     block_reader: &mut R,
     buffer: &mut DataBuffer,
     instant: InstantCallback,
+    request_timeout: Duration,
 ) -> bool {
-    let timeout = connection
-        .options
-        .retry_packet_after_timeout
-        .mul_f32(connection.retry_packet_multiplier.get() as f32);
+    let timeout = retry_timeout(
+        connection
+            .options
+            .retry_packet_after_timeout
+            .mul_f32(connection.retry_packet_multiplier.get() as f32),
+        connection.options.retry_packet_after_timeout,
+        request_timeout,
+    );
     let retry = connection.last_sent.elapsed() > timeout;
     if retry {
         debug!(
diff --git a/src/server/multi_thread.rs b/src/server/multi_thread.rs
index e68cd4a..b954122 100644
--- a/src/server/multi_thread.rs
+++ b/src/server/multi_thread.rs
@@ -258,7 +258,13 @@ fn spawn_reader<
             if timeout_client(&mut connection, request_timeout, &mut send_buffer) {
                 return;
             }
-            let sent = send_data_block(&mut connection, &mut reader, &mut send_buffer, instant);
+            let sent = send_data_block(
+                &mut connection,
+                &mut reader,
+                &mut send_buffer,
+                instant,
+                request_timeout,
+            );
             wait_control.sending(sent);
 
             resize_buffer(&mut receive_buffer, max_buffer_size);
diff --git a/src/server/single_thread.rs b/src/server/single_thread.rs
index 7af0636..3122956 100644
--- a/src/server/single_thread.rs
+++ b/src/server/single_thread.rs
@@ -155,8 +155,13 @@ where
 
         let sent_in = instant();
 
-        let (sent, recv_next_client_to_send) =
-            send_data_blocks(&mut clients, next_client_to_send, &mut send_buffer, instant);
+        let (sent, recv_next_client_to_send) = send_data_blocks(
+            &mut clients,
+            next_client_to_send,
+            &mut send_buffer,
+            instant,
+            config.request_timeout,
+        );
 
         next_client_to_send = recv_next_client_to_send;
         wait_control.sending(sent);
@@ -425,6 +430,7 @@ fn send_data_blocks<R: BlockReader, W, B: BoundSocket, Rng: CryptoRng + RngCore
     next_client: usize,
     buffer: &mut DataBuffer,
     instant: InstantCallback,
+    request_timeout: Duration,
 ) -> (bool, usize) {
     let mut current_client: Option<usize> = clients
         .iter_mut()
@@ -435,7 +441,9 @@ fn send_data_blocks<R: BlockReader, W, B: BoundSocket, Rng: CryptoRng + RngCore
         .enumerate()
         .skip(next_client)
         .find_map(|(index, (_, (c, ct)))| match ct {
-            ClientType::Reader(r) => send_data_block(c, r, buffer, instant).then_some(index + 1),
+            ClientType::Reader(r) => {
+                send_data_block(c, r, buffer, instant, request_timeout).then_some(index + 1)
+            }
             _ => None,
         });
     if current_client.is_none() {
@@ -449,7 +457,7 @@ fn send_data_blocks<R: BlockReader, W, B: BoundSocket, Rng: CryptoRng + RngCore
             .enumerate()
             .find_map(|(index, (_, (c, ct)))| match ct {
                 ClientType::Reader(r) => {
-                    send_data_block(c, r, buffer, instant).then_some(index + 1)
+                    send_data_block(c, r, buffer, instant, request_timeout).then_some(index + 1)
                 }
                 _ => None,
             });
-- 
2.43.0


From 3a98b2ee5c4edb94469b78f7fa58774defdac939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 04/23] fix: transfer without an option acknowledgement runs
 with the default options

---
 src/client/connection.rs |  5 ++--
 src/client/receiver.rs   | 52 +++++++++++++++++++++-------------------
 src/config.rs            | 10 ++++++++
 3 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 4a6d713..47b8863 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -10,7 +10,6 @@ use super::extensions::validate_extensions;
 use super::ClientConfig;
 use crate::buffer::resize_buffer;
 use crate::config::ConnectionOptions;
-use crate::config::DEFAULT_DATA_BLOCK_SIZE;
 use crate::encryption::EncryptionLevel;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
@@ -132,7 +131,7 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: None,
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: options.without_extensions(),
                     endpoint,
                     remote_session_public_keys: None,
                 });
@@ -142,7 +141,7 @@ pub fn query_server<'a>(
                 return Ok(QueryResult {
                     received_length: Some(length),
                     acknowledge: false,
-                    options: options.with_block_size(DEFAULT_DATA_BLOCK_SIZE),
+                    options: options.without_extensions(),
                     endpoint,
                     remote_session_public_keys: None,
                 });
diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 07fa1d4..91ae6af 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -127,33 +127,35 @@ where
     // server sent data packet so no encryption
     if let Some(packet_length) = received_length.take() {
         if let Ok(Packet::Data(p)) = Packet::from_bytes(&receive_buffer[..packet_length]) {
-            handle_file_size(&socket, endpoint, packet_length, config.max_file_size)?;
-            match write_block(&mut block_writer, p.block, p.data) {
-                Ok((written, index, block)) => {
-                    if let Some(w) = written {
-                        total += w;
-                    }
+            // without extensions transfer starts with the first block of a default size
+            if p.block != 1 || p.data.len() > options.block_size as usize {
+                let message = format_str!(
+                    DefaultString,
+                    "Unexpected block {} of size {} received",
+                    p.block,
+                    p.data.len()
+                );
+                send_error(&socket, endpoint, ErrorCode::IllegalOperation, message)?;
+                return Err(PacketError::Invalid.into());
+            }
+            handle_file_size(&socket, endpoint, p.data.len(), config.max_file_size)?;
+            let (written, index, block) = write_block(&mut block_writer, p.block, p.data)?;
+            trace!("Ack send {}", block);
+            let packet = Packet::Ack(AckPacket { block });
+            socket.send_to(&mut packet.to_bytes(), endpoint)?;
+            last_block_ack = index;
 
-                    if options.window_size <= 1
-                        || last_block_ack + options.window_size as u64 == index
-                        || written.unwrap_or(0) < options.block_size_with_encryption() as usize
-                    {
-                        trace!("Ack send {}", block);
-                        let packet = Packet::Ack(AckPacket { block });
-                        socket.send_to(&mut packet.to_bytes(), endpoint)?;
-                        last_block_ack = index;
-                    }
-                }
-                Err(e) => return Err(e),
-            };
+            if let Some(w) = written {
+                total += w;
 
-            if packet_length != options.block_size_with_encryption() as usize {
-                info!("Client finished receiving {local_file_path} {total} bytes");
-                histogram!("tftp.client.connection.duration", "connection_type" => "read")
-                    .record(started.elapsed());
-                counter!("tftp.client.connection.transfer.size", "connection_type" => "read")
-                    .increment(total as u64);
-                return Ok((packet_length, None));
+                if w < options.block_size as usize {
+                    info!("Client finished receiving {local_file_path} {total} bytes");
+                    histogram!("tftp.client.connection.duration", "connection_type" => "read")
+                        .record(started.elapsed());
+                    counter!("tftp.client.connection.transfer.size", "connection_type" => "read")
+                        .increment(total as u64);
+                    return Ok((total, None));
+                }
             }
         }
     }
diff --git a/src/config.rs b/src/config.rs
index 2f090e8..92fbd6d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -91,6 +91,16 @@ impl ConnectionOptions {
         self
     }
 
+    /// options in force when server did not acknowledge any extension
+    pub fn without_extensions(self) -> Self {
+        Self {
+            block_size: DEFAULT_DATA_BLOCK_SIZE,
+            encryption_level: EncryptionLevel::None,
+            window_size: EXTENSION_WINDOW_SIZE_MIN,
+            ..self
+        }
+    }
+
     pub fn with_file_size(mut self, file_size: u64) -> Self {
         self.file_size = Some(file_size);
         self
-- 
2.43.0


From 343c52883e8cd8f8bb91f53e46e30e68f3c3c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:10 +0000
Subject: [PATCH 05/23] fix: client that requires encryption refuses an answer
 without it or with a lower level

---
 src/client/connection.rs | 11 +++++++++++
 src/client/extensions.rs | 13 +++----------
 src/encryption.rs        | 14 ++++++++++++++
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 47b8863..3ee35e3 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -14,6 +14,7 @@ use crate::encryption::EncryptionLevel;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
 use crate::error::DefaultBoxedResult;
+use crate::error::ExtensionError;
 use crate::error::PacketError;
 use crate::packet::ByteConverter;
 use crate::packet::ErrorCode;
@@ -126,6 +127,16 @@ pub fn query_server<'a>(
                     remote_session_public_keys,
                 });
             }
+            (PacketType::Write, Ok(Packet::Ack(_))) | (PacketType::Read, Ok(Packet::Data(_)))
+                if matches!(
+                    options.encryption_level,
+                    EncryptionLevel::Data | EncryptionLevel::Protocol | EncryptionLevel::Full
+                ) =>
+            {
+                return Err(
+                    ExtensionError::ClientRequiredEncryption(options.encryption_level).into(),
+                );
+            }
             (PacketType::Write, Ok(Packet::Ack(_))) => {
                 // server disregards extensions
                 return Ok(QueryResult {
diff --git a/src/client/extensions.rs b/src/client/extensions.rs
index 019f2e3..c09d2d1 100644
--- a/src/client/extensions.rs
+++ b/src/client/extensions.rs
@@ -181,20 +181,13 @@ pub fn parse_extensions(
             return Ok((options, None));
         }
 
-        if matches!(
-            expected_encryption_level,
-            EncryptionLevel::Data | EncryptionLevel::Protocol
-        ) && !matches!(
-            encryption_level,
-            Some(EncryptionLevel::Data | EncryptionLevel::Protocol)
-        ) {
+        if !expected_encryption_level.satisfied_by(server_encryption_level) {
             return Err(ExtensionError::ClientRequiredEncryption(
-                options.encryption_level,
+                expected_encryption_level,
             ));
         }
 
-        options.encryption_level =
-            encryption_level.ok_or(ExtensionError::InvalidExtension(Extension::EncryptionLevel))?;
+        options.encryption_level = server_encryption_level;
 
         let remote_session_public_key = server_extensions
             .get(&Extension::SessionPublicKey)
diff --git a/src/encryption.rs b/src/encryption.rs
index f3e7b5d..9670ca8 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -163,6 +163,20 @@ pub enum EncryptionLevel {
     None,
 }
 
+impl EncryptionLevel {
+    /// remote side may answer a request for this level with another one
+    pub fn satisfied_by(&self, remote: Self) -> bool {
+        match self {
+            Self::Full => remote == Self::Full,
+            Self::Protocol => remote == Self::Protocol,
+            Self::Data | Self::OptionalData | Self::OptionalProtocol => {
+                matches!(remote, Self::Data | Self::Protocol)
+            }
+            Self::None => remote == Self::None,
+        }
+    }
+}
+
 impl FromStr for EncryptionLevel {
     type Err = EncryptionError;
 
-- 
2.43.0


From 1c46bf959bb4df6e914b4dabdd181cba880a4655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 06/23] fix: client refuses unexpected options with an error
 packet

---
 src/client/connection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 3ee35e3..3d061a1 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -100,7 +100,7 @@ pub fn query_server<'a>(
             (_, Ok(Packet::OptionalAck(p))) => {
                 if let Err(e) = validate_extensions(&p.extensions, &used_extensions) {
                     let message = e.message.clone();
-                    socket.send_to(&mut e.to_bytes(), endpoint)?;
+                    socket.send_to(&mut Packet::Error(e).to_bytes(), endpoint)?;
                     return Err(PacketError::RemoteError(message).into());
                 }
                 let (conn, remote_session_public_keys) = parse_extensions(p.extensions, options)?;
-- 
2.43.0


From c8118e4b948c15af1d7586ee6b86ccfea6a8b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 07/23] fix: client refuses a retry timeout larger than it
 requested

---
 src/client/extensions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client/extensions.rs b/src/client/extensions.rs
index c09d2d1..8faafb0 100644
--- a/src/client/extensions.rs
+++ b/src/client/extensions.rs
@@ -142,7 +142,12 @@ pub fn parse_extensions(
 
     if let Some(timeout) = server_extensions.get(&Extension::Timeout) {
         let server_retry_seconds: u8 = timeout.parse().unwrap_or(0);
-        if (EXTENSION_TIMEOUT_SIZE_MIN..=EXTENSION_TIMEOUT_SIZE_MAX).contains(&server_retry_seconds)
+        let max_retry_seconds = options
+            .retry_packet_after_timeout
+            .as_secs()
+            .min(EXTENSION_TIMEOUT_SIZE_MAX as u64);
+        if (EXTENSION_TIMEOUT_SIZE_MIN as u64..=max_retry_seconds)
+            .contains(&(server_retry_seconds as u64))
         {
             options.retry_packet_after_timeout = Duration::from_secs(server_retry_seconds as u64);
         } else {
-- 
2.43.0


From 38055f16e55b44a8f385071a31742f2265365654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 08/23] fix: server acknowledges the size of an empty file

---
 src/server/connection_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/connection_builder.rs b/src/server/connection_builder.rs
index dcbcad6..14a2681 100644
--- a/src/server/connection_builder.rs
+++ b/src/server/connection_builder.rs
@@ -269,7 +269,7 @@ where
             self.options.file_size,
             self.used_extensions.entry(Extension::TransferSize),
         ) {
-            (Some(s), Entry::Occupied(mut entry)) if s > 0 => {
+            (Some(s), Entry::Occupied(mut entry)) => {
                 *entry.get_mut() = format_str!(ExtensionValue, "{}", s);
             }
             #[allow(unused_mut)]
-- 
2.43.0


From c80302881cd51a8daa72760841a6444ed4bb028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 09/23] fix: server that requires full encryption refuses an
 encrypted request for a weaker level

---
 src/server/extensions.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/extensions.rs b/src/server/extensions.rs
index 2494f09..d82c3b7 100644
--- a/src/server/extensions.rs
+++ b/src/server/extensions.rs
@@ -114,7 +114,11 @@ pub fn parse_extensions<R: CryptoRng + RngCore + Copy>(
         let client_encryption_level_with_default =
             client_encryption_level.unwrap_or(EncryptionLevel::None);
 
-        if config.require_full_encryption && options.encryption_level != EncryptionLevel::Full {
+        // both the request and the transfer must be fully encrypted
+        if config.require_full_encryption
+            && (options.encryption_level != EncryptionLevel::Full
+                || client_encryption_level_with_default != EncryptionLevel::Full)
+        {
             debug!(
                 "Server requires full encryption however client_encryption_level={}",
                 client_encryption_level_with_default
-- 
2.43.0


From e4d6a541572517ad6870f58d0021965124b7cc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:25 +0000
Subject: [PATCH 10/23] fix: client that requires full encryption needs the key
 of the server

---
 src/client/encryption_socket_builder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/client/encryption_socket_builder.rs b/src/client/encryption_socket_builder.rs
index 20a59b4..c1d8b54 100644
--- a/src/client/encryption_socket_builder.rs
+++ b/src/client/encryption_socket_builder.rs
@@ -12,6 +12,7 @@ use crate::encryption::EncryptionLevel;
 use crate::encryption::InitialKeys;
 use crate::encryption::PublicKeyPair;
 use crate::error::BoxedResult;
+use crate::error::ExtensionError;
 use crate::socket::Socket;
 
 pub fn create_initial_socket<Rng: CryptoRng + RngCore + Copy>(
@@ -27,6 +28,11 @@ pub fn create_initial_socket<Rng: CryptoRng + RngCore + Copy>(
         ));
     }
 
+    // without the key of the server the request would leave in the clear
+    if options.encryption_level == EncryptionLevel::Full && config.remote_public_key.is_none() {
+        return Err(ExtensionError::InvalidPublicKey.into());
+    }
+
     let initial_keys = create_initial_keys(config.private_key.as_ref(), rng);
 
     let socket = if let Some(remote) = config.remote_public_key {
-- 
2.43.0


From 92d7020cf726d34cf2dfe055ad5ef8653f1fa848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 11/23] fix: short encrypted data packet is an error instead of
 a panic

---
 src/encryption.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index 9670ca8..a8321a9 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -317,6 +317,9 @@ impl<R: CryptoRng + RngCore + Clone> Encryptor<R> {
             .ok_or(EncryptionError::Decrypt)?
             .into();
         buffer.truncate(buffer.len() - nonce.len() - tag.len());
+        if buffer.len() < from_position {
+            return Err(EncryptionError::Decrypt);
+        }
         let (_, data) = buffer.split_at_mut(from_position);
         self.cipher
             .decrypt_in_place_detached(&nonce, &[], data, &tag)
-- 
2.43.0


From 7386f83b9f5952100a17dfbba1a613064384ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 12/23] fix: client ignores packets that are not of its
 encrypted session

---
 src/client/encryption_socket.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/client/encryption_socket.rs b/src/client/encryption_socket.rs
index 8e1e583..f44a4f3 100644
--- a/src/client/encryption_socket.rs
+++ b/src/client/encryption_socket.rs
@@ -1,6 +1,7 @@
 use core::net::SocketAddr;
 use core::time::Duration;
 
+use log::debug;
 use log::error;
 use rand::CryptoRng;
 use rand::RngCore;
@@ -72,18 +73,19 @@ where
 
         match (self.encryption_level, &self.connection_encryptor) {
             (EncryptionLevel::Protocol | EncryptionLevel::Full, Some(encryptor)) => {
-                EncryptedPacket::decrypt(encryptor, buff).map_err(|e| {
-                    error!("Failed to decrypt data {e}");
-                    Error::from(ErrorKind::InvalidData)
-                })?;
+                if let Err(e) = EncryptedPacket::decrypt(encryptor, buff) {
+                    debug!("Failed to decrypt packet from {s} {e}");
+                    // not a packet of this session: the caller ignores it
+                    buff.truncate(0);
+                }
             }
             (EncryptionLevel::Data, Some(encryptor))
                 if matches!(PacketType::from_bytes(buff), Ok(PacketType::Data)) =>
             {
-                EncryptedDataPacket::decrypt(encryptor, buff).map_err(|e| {
-                    error!("Failed to decrypt data {e}");
-                    Error::from(ErrorKind::InvalidData)
-                })?;
+                if let Err(e) = EncryptedDataPacket::decrypt(encryptor, buff) {
+                    debug!("Failed to decrypt data from {s} {e}");
+                    buff.truncate(0);
+                }
             }
             _ => (),
         }
-- 
2.43.0


From 3fe6eb9183a184f7480916f4ddf46553447bb209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 13/23] fix: packets of other hosts neither cut nor prolong the
 exchange of options

---
 src/client/connection.rs | 44 ++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/client/connection.rs b/src/client/connection.rs
index 3d061a1..f6af49f 100644
--- a/src/client/connection.rs
+++ b/src/client/connection.rs
@@ -201,6 +201,7 @@ fn wait_for_initial_packet(
     mut retry_timeout: Duration,
 ) -> BoxedResult<(usize, SocketAddr)> {
     let timeout = instant();
+    let buffer_size = buffer.len();
     loop {
         socket.send_to(&mut packet.clone().to_bytes(), endpoint)?;
         debug!(
@@ -209,27 +210,34 @@ fn wait_for_initial_packet(
             retry_timeout.as_secs_f32()
         );
 
-        match socket.recv_from(buffer, retry_timeout.into()) {
-            Ok((n, s)) => {
-                if s.ip() == endpoint.ip() {
-                    return Ok((n, s));
-                }
-                continue;
+        let sent = instant();
+        loop {
+            // packets of other hosts do not prolong the wait
+            let wait_for = retry_timeout.saturating_sub(sent.elapsed());
+            if wait_for.is_zero() {
+                break;
             }
-            Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > request_timeout {
-                    return Err(PacketError::Timeout(elapsed).into());
+            resize_buffer(buffer, buffer_size);
+            match socket.recv_from(buffer, wait_for.into()) {
+                Ok((n, s)) => {
+                    if s.ip() == endpoint.ip() {
+                        return Ok((n, s));
+                    }
+                }
+                Err(ref e) if e.kind() == ErrorKind::WouldBlock => break,
+                Err(e) => {
+                    return Err(e.into());
                 }
-                retry_timeout = min(
-                    request_timeout.saturating_sub(elapsed),
-                    retry_timeout.saturating_mul(2),
-                );
-                continue;
-            }
-            Err(e) => {
-                return Err(e.into());
             }
         }
+
+        let elapsed = timeout.elapsed();
+        if elapsed >= request_timeout {
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+        retry_timeout = min(
+            request_timeout.saturating_sub(elapsed),
+            retry_timeout.saturating_mul(2),
+        );
     }
 }
-- 
2.43.0


From f3898f1e5f123dbf367739cc4b870882faaca947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 14/23] fix: client gives up in time when only packets without
 progress arrive

---
 src/client/receiver.rs | 16 +++++++++-------
 src/client/sender.rs   | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/client/receiver.rs b/src/client/receiver.rs
index 91ae6af..754ac1a 100644
--- a/src/client/receiver.rs
+++ b/src/client/receiver.rs
@@ -181,6 +181,15 @@ where
     loop {
         resize_buffer(&mut receive_buffer, max_receive_buffer_size);
 
+        // packets which are no progress do not prolong the wait
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Received timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         let received = match socket.recv_from(&mut receive_buffer, Duration::from_secs(1).into()) {
             Ok((n, s)) => {
                 if s != endpoint {
@@ -189,13 +198,6 @@ where
                 n
             }
             Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Received timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
                 continue;
             }
             Err(e) => {
diff --git a/src/client/sender.rs b/src/client/sender.rs
index cef5022..9bfc010 100644
--- a/src/client/sender.rs
+++ b/src/client/sender.rs
@@ -251,6 +251,15 @@ where
 
         resize_buffer(&mut receive_buffer, receive_max_buffer_size);
 
+        // packets which are no progress do not prolong the wait
+        let elapsed = timeout.elapsed();
+        if elapsed > config.request_timeout {
+            if let Ok(s) = socket.local_addr() {
+                debug!("Send timeout for {}", s);
+            }
+            return Err(PacketError::Timeout(elapsed).into());
+        }
+
         let wait_for = if no_work.0 > 2 {
             Duration::from_millis(no_work.0 as u64).into()
         } else {
@@ -274,13 +283,6 @@ where
                 n
             }
             Err(ref e) if e.kind() == ErrorKind::WouldBlock => {
-                let elapsed = timeout.elapsed();
-                if elapsed > config.request_timeout {
-                    if let Ok(s) = socket.local_addr() {
-                        debug!("Send timeout for {}", s);
-                    }
-                    return Err(PacketError::Timeout(elapsed).into());
-                }
                 no_work += 1;
 
                 continue;
-- 
2.43.0


From 3c369af181adebd83b0f5ce63c976e5232c28285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 15/23] fix: error code 8 of RFC 2347 is understood

---
 src/packet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packet.rs b/src/packet.rs
index 59ad023..6405cf7 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -464,6 +464,7 @@ pub enum ErrorCode {
     UnknownId,
     FileAlreadyExists,
     NotSuchUser,
+    OptionNegotiationFailed,
 }
 
 impl Display for ErrorCode {
@@ -477,6 +478,7 @@ impl Display for ErrorCode {
             ErrorCode::UnknownId => write!(f, "UnknownId"),
             ErrorCode::FileAlreadyExists => write!(f, "FileAlreadyExists"),
             ErrorCode::NotSuchUser => write!(f, "NotSuchUser"),
+            ErrorCode::OptionNegotiationFailed => write!(f, "OptionNegotiationFailed"),
         }
     }
 }
@@ -492,6 +494,7 @@ impl ErrorCode {
             5 => ErrorCode::UnknownId,
             6 => ErrorCode::FileAlreadyExists,
             7 => ErrorCode::NotSuchUser,
+            8 => ErrorCode::OptionNegotiationFailed,
             _ => return None,
         }
         .into()
-- 
2.43.0


From 30c2e2163bbf4fe74e940bf42e9e0731266b3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 16/23] fix: an upload creates nothing outside the directory
 through a link

---
 std-binary/src/io.rs | 57 +++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index 27b96d7..cdf3774 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -97,38 +97,41 @@ pub fn create_server_writer(requested_path: &FilePath, config: &ServerConfig) ->
     if !path.starts_with(&dir) {
         return Err(FileError::InvalidFileName.into());
     }
-    if let Some(dir) = path.parent() {
-        if !dir.is_dir() {
-            create_dir_all(dir).map_err(from_io_err)?
-        }
+    if !dir.is_dir() {
+        create_dir_all(&dir).map_err(from_io_err)?
+    }
+    let real_dir = canonicalize(dir).map_err(from_io_err)?;
+    let (Some(parent), Some(file_name)) = (path.parent(), path.file_name()) else {
+        return Err(FileError::InvalidFileName.into());
     };
-
-    let file = if config.allow_overwrite {
-        let mut options = OpenOptions::new();
-        // while path is not resolved do not truncate, but create if it does not exist
-        options.write(true).create(true);
-        options.open(&path).map_err(from_io_err)?
+    // links can lead out of the directory: nothing is created before the existing part is resolved
+    let existing = parent
+        .ancestors()
+        .find(|p| p.symlink_metadata().is_ok())
+        .and_then(|p| canonicalize(p).ok());
+    if !existing.is_some_and(|p| p.starts_with(&real_dir)) {
+        return Err(FileError::InvalidFileName.into());
+    }
+    if !parent.is_dir() {
+        create_dir_all(parent).map_err(from_io_err)?
+    }
+    let real_path = if path.symlink_metadata().is_ok() {
+        canonicalize(&path).map_err(from_io_err)?
     } else {
-        let mut options = OpenOptions::new();
-        options.write(true).create_new(true);
-        options.open(&path).map_err(from_io_err)?
+        canonicalize(parent).map_err(from_io_err)?.join(file_name)
     };
+    if !real_path.starts_with(&real_dir) {
+        return Err(FileError::InvalidFileName.into());
+    }
 
-    let real_dir = canonicalize(dir);
-    let real_path = canonicalize(path);
-    if let (Ok(d), Ok(p)) = (real_dir, real_path) {
-        if p.starts_with(d) {
-            if config.allow_overwrite {
-                drop(file);
-                let mut options = OpenOptions::new();
-                options.write(true).create(true).truncate(true);
-                let file = options.open(&p).map_err(from_io_err)?;
-                return Ok(file.into());
-            }
-            return Ok(file.into());
-        }
+    let mut options = OpenOptions::new();
+    if config.allow_overwrite {
+        options.write(true).create(true).truncate(true);
+    } else {
+        options.write(true).create_new(true);
     }
-    Err(FileError::InvalidFileName.into())
+    let file = options.open(real_path).map_err(from_io_err)?;
+    Ok(file.into())
 }
 
 #[allow(dead_code)]
-- 
2.43.0


From 7d395e879ab895f8974f98d909fd7ff495af7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:02 +0000
Subject: [PATCH 17/23] fix: a file name that fills the path keeps its last
 character

---
 src/server/validation.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/validation.rs b/src/server/validation.rs
index c79e925..259aa64 100644
--- a/src/server/validation.rs
+++ b/src/server/validation.rs
@@ -77,18 +77,20 @@ pub fn validate_file_name(file_name: &FilePath) -> Result<FilePath, ErrorPacket>
 }
 
 fn normalize_remote_name(file_path: &FilePath) -> Result<FilePath, FileError> {
-    #[allow(unused_must_use)]
-    let mut result = file_path
+    // the separator goes before a segment: a name that fills the path has no room for one behind it
+    #[allow(unused_must_use, clippy::redundant_as_str)]
+    let result = file_path
         .as_str()
         .trim_start_matches('/')
         .split('/')
         .filter(|c| !matches!(c.trim(), "." | ".." | "/" | ""))
         .fold(FilePath::new(), |mut f, c| {
+            if !f.as_str().is_empty() {
+                f.push('/');
+            }
             f.push_str(c);
-            f.push('/');
             f
         });
-    result.pop();
     #[allow(clippy::redundant_as_str)]
     if result.as_str().is_empty() {
         return Err(FileError::InvalidFileName);
-- 
2.43.0


From fb05693c8fe0c01693e14a2d7c48ef42f2d30c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 18/23] fix: the mode and the names of options are read in any
 letter case

---
 src/packet.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 6405cf7..f988e09 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -197,10 +197,12 @@ impl FromStr for Mode {
     type Err = PacketError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(match s {
-            "octet" => Self::Octet,
-            _ => return Err(PacketError::InvalidMode),
-        })
+        // modes may be written in any combination of upper and lower case
+        if s.eq_ignore_ascii_case(Self::Octet.as_str()) {
+            Ok(Self::Octet)
+        } else {
+            Err(PacketError::InvalidMode)
+        }
     }
 }
 
@@ -249,17 +251,20 @@ impl FromStr for Extension {
     type Err = PacketError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(match s {
-            "blksize" | "BLKSIZE" => Self::BlockSize,
-            "timeout" | "TIMEOUT" => Self::Timeout,
-            "tsize" | "TSIZE" => Self::TransferSize,
-            "spubk" | "SPUBK" => Self::SessionPublicKey,
-            "apubk" | "APUBK" => Self::AuthPublicKey,
-            "sig" | "SIG" => Self::Signature,
-            "enclevel" | "ENCLEVEL" => Self::EncryptionLevel,
-            "windowsize" | "WINDOWSIZE" => Self::WindowSize,
-            _ => return Err(PacketError::Invalid),
-        })
+        // option names are case insensitive
+        [
+            Self::BlockSize,
+            Self::Timeout,
+            Self::TransferSize,
+            Self::SessionPublicKey,
+            Self::AuthPublicKey,
+            Self::Signature,
+            Self::EncryptionLevel,
+            Self::WindowSize,
+        ]
+        .into_iter()
+        .find(|e| s.eq_ignore_ascii_case(e.as_str()))
+        .ok_or(PacketError::Invalid)
     }
 }
 
-- 
2.43.0


From ce048ceed0d899477150a62da389de1c8cab0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 19/23] fix: shortening a long file name does not split a
 character

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ffb379..da79b79 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,11 +53,12 @@ mod string {
     pub(crate) use format_str;
 
     pub fn ensure_size(s: &str, max_size: usize) -> &str {
-        if s.len() > max_size {
-            let (f, _) = s.split_at(max_size);
-            return f;
+        let mut size = max_size.min(s.len());
+        while !s.is_char_boundary(size) {
+            size -= 1;
         }
-        s
+        let (f, _) = s.split_at(size);
+        f
     }
 }
 
-- 
2.43.0


From b783ad44f5a4217f34f7c457b459a4664284896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 20/23] fix: a stream at rest without its end is not a success

---
 src/writers/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/writers/mod.rs b/src/writers/mod.rs
index c29c26f..c80f2e4 100644
--- a/src/writers/mod.rs
+++ b/src/writers/mod.rs
@@ -14,6 +14,10 @@ pub enum Writers<W> {
 
 /// a writer may accept only a part of the data, however block is stored only when all of it is
 pub(crate) fn write_all<W: Write>(writer: &mut W, mut data: &[u8]) -> IoResult<()> {
+    // an empty block ends the data: a writer that verifies the end has to know about it
+    if data.is_empty() {
+        return writer.write(data).map(|_| ());
+    }
     while !data.is_empty() {
         match writer.write(data) {
             Ok(0) => return Err(ErrorKind::WriteZero.into()),
-- 
2.43.0


From 847058c869ab052c8b089e3cf074ba1427d829d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 21/23] fix: an upload with an encryption key is not seeked

---
 std-binary/src/sender.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std-binary/src/sender.rs b/std-binary/src/sender.rs
index 65a2a8d..793b68f 100644
--- a/std-binary/src/sender.rs
+++ b/std-binary/src/sender.rs
@@ -72,7 +72,9 @@ where
             .parse()
             .expect("Invalid local file name"),
     };
-    let client_config = config.try_into(listen, prefer_seek)?;
+    let mut client_config = config.try_into(listen, prefer_seek)?;
+    // encrypted stream can not seek
+    client_config.prefer_seek &= client_config.encryption_key.is_none();
     let result = match client_config.encryption_key {
         #[cfg(feature = "encryption")]
         Some(key) => send_file(
-- 
2.43.0


From cacfb322526955bbf0340be8943764d2932ec648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 22/23] fix: data written before a file is closed is sent

---
 std-binary/src/blocking_reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/std-binary/src/blocking_reader.rs b/std-binary/src/blocking_reader.rs
index 28c77da..955441b 100644
--- a/std-binary/src/blocking_reader.rs
+++ b/std-binary/src/blocking_reader.rs
@@ -43,6 +43,8 @@ impl<R: Read> Read for BlockingReader<R> {
     // reader will error with WouldBlock if there is no data to read
     fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
         let expected_size = buffer.len();
+        // data can be written and the file closed between the read and the check
+        let finished = self.finished.load(Ordering::Relaxed);
         let result = if !self.temp_buf.is_empty() {
             let temp_len = self.temp_buf.len();
             for (to_buf, data) in buffer.iter_mut().zip(self.temp_buf.iter()) {
@@ -58,7 +60,7 @@ impl<R: Read> Read for BlockingReader<R> {
         };
         match result {
             Ok(0) => {
-                if self.finished.load(Ordering::Relaxed) {
+                if finished {
                     return Ok(0);
                 }
 
@@ -68,7 +70,7 @@ impl<R: Read> Read for BlockingReader<R> {
             }
             Ok(n) if expected_size == n => Ok(n),
             Ok(n) => {
-                if self.finished.load(Ordering::Relaxed) {
+                if finished {
                     return Ok(n);
                 }
 
-- 
2.43.0


From c09c84439ec4d85eb3c55110dc1e635240c23568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 23/23] fix: a short read of a pipe does not end an upload

---
 std-binary/src/io.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/std-binary/src/io.rs b/std-binary/src/io.rs
index cdf3774..d9bebe7 100644
--- a/std-binary/src/io.rs
+++ b/std-binary/src/io.rs
@@ -15,6 +15,9 @@ use tftp_dus::error::BoxedResult;
 use tftp_dus::error::FileError;
 use tftp_dus::server::ServerConfig;
 use tftp_dus::std_compat::io;
+use tftp_dus::std_compat::io::Read;
+use tftp_dus::std_compat::io::Seek;
+use tftp_dus::std_compat::io::SeekFrom;
 use tftp_dus::std_compat::time::Instant;
 use tftp_dus::types::FilePath;
 
@@ -41,7 +44,35 @@ pub fn create_writer(path: &FilePath) -> BoxedResult<File> {
     Ok(file.into())
 }
 
-pub fn create_reader(path: &FilePath) -> BoxedResult<(Option<u64>, File)> {
+/// short block ends the transfer: pipe returns less than requested before its end
+pub struct FullReader<R>(R);
+
+impl<R: Read> Read for FullReader<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> io::Result<usize> {
+        let mut read = 0;
+        while let Some(rest) = buffer.get_mut(read..).filter(|b| !b.is_empty()) {
+            match self.0.read(rest) {
+                Ok(0) => break,
+                Ok(n) => read += n,
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(read)
+    }
+}
+
+impl<R: Seek> Seek for FullReader<R> {
+    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
+pub fn create_reader(path: &FilePath) -> BoxedResult<(Option<u64>, FullReader<File>)> {
+    open_file(path).map(|(size, file)| (size, FullReader(file)))
+}
+
+fn open_file(path: &FilePath) -> BoxedResult<(Option<u64>, File)> {
     let file = match StdFile::open(path.as_str()).map_err(from_io_err) {
         Ok(f) => f,
         Err(e) => {
@@ -81,7 +112,7 @@ pub fn create_server_reader(
                     .to_str()
                     .and_then(|s| s.parse().ok())
                     .ok_or(FileError::InvalidFileName)?;
-                create_reader(&file_path).map(|(s, f)| (s, ReaderCreator::from_file(f)))
+                open_file(&file_path).map(|(s, f)| (s, ReaderCreator::from_file(f)))
             };
         }
     }
-- 
2.43.0

