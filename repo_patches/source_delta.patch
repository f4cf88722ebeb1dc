From f913b84efe83accc78110e7e6abb00ca33714f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 01/42] fix: avoid overflow when final packet has maximum index

---
 src/core/transport/wire/input/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 9807414..fd09b3e 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -125,8 +125,10 @@ impl Decoder {
         self.packet_groups
             .get(&group_id.into())
             .and_then(|g| {
-                let total_packets = g.packets.len() as u32;
-                g.final_index.map(|i| i + 1 == total_packets)
+                // NOTE: Comparing as usize so a final packet at the maximum
+                //       index does not overflow
+                let total_packets = g.packets.len();
+                g.final_index.map(|i| i as usize + 1 == total_packets)
             })
             .unwrap_or_default()
     }
-- 
2.43.0


From 055828fc223911fe58cd10f19ab11aaeeb69f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 02/42] fix: decrypt messages whose final packet does not
 arrive last

---
 src/core/transport/wire/input/decoder.rs | 9 +++++++++
 src/core/transport/wire/input/mod.rs     | 5 ++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index fd09b3e..5ed7b85 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -1,3 +1,4 @@
+use crate::core::transport::crypto::Nonce;
 use crate::core::transport::{constants, wire::packet::Packet};
 use crate::utils::TtlValue;
 use derive_more::{Display, Error};
@@ -133,6 +134,14 @@ impl Decoder {
             .unwrap_or_default()
     }
 
+    /// Retrieves the nonce associated with a group of packets, which is
+    /// available once the final packet of the group has been added
+    pub fn nonce(&self, group_id: u32) -> Option<Nonce> {
+        let group = self.packet_groups.get(&group_id.into())?;
+        let final_packet = group.packets.get(&group.final_index?)?;
+        final_packet.nonce().cloned()
+    }
+
     /// Reconstructs the data represented by the packets
     /// NOTE: This currently produces a copy of all data instead of passing
     ///       back out ownership
diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 3d53473..08d2fd3 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -59,7 +59,6 @@ where
         }
 
         let group_id = p.id();
-        let nonce = p.nonce().cloned();
 
         // Ensure that packet groups are still valid
         self.decoder.remove_expired();
@@ -67,6 +66,10 @@ where
         // Add the packet, see if we are ready to decode the data, and do so
         let do_decode = add_packet_and_verify(&mut self.decoder, p)?;
         if do_decode {
+            // The nonce comes from the final packet of the group, which is
+            // not necessarily the packet that we just received
+            let nonce = self.decoder.nonce(group_id);
+
             // Gather the complete data
             let data = decode_and_decrypt(
                 group_id,
-- 
2.43.0


From 2b2762aa2e88d44a4071a0ac695b0ee6b17de152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:49 +0000
Subject: [PATCH 03/42] fix: never produce packets larger than the transmission
 size

---
 src/core/transport/wire/output/encoder.rs | 51 ++++++++++++++++-------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5bd8d70..1e7f06c 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -109,22 +109,43 @@ impl Encoder {
             // Ensure data section size does not exceed our remaining data
             let data_size = std::cmp::min(data_size, remaining_data_size);
 
-            // Grab our chunk of data to store into a packet
-            let chunk = &data[i..i + data_size];
-
             // Construct the packet based on whether or not is final
-            let packet = Self::make_new_packet(
-                id,
-                packets.len() as u32,
-                if can_fit_all_in_final_packet {
-                    PacketType::Final { encryption }
-                } else {
-                    PacketType::NotFinal
-                },
-                chunk,
-                signer,
-            )
-            .map_err(|_| EncoderError::FailedToSignPacket)?;
+            //
+            // NOTE: Our maximum data sizes are estimates as the serialized
+            //       size of a signature varies with its content, so if the
+            //       actual packet is too large we move the excess data into
+            //       the packets that follow
+            let mut is_final = can_fit_all_in_final_packet;
+            let mut data_size = data_size;
+            let packet = loop {
+                let packet = Self::make_new_packet(
+                    id,
+                    packets.len() as u32,
+                    if is_final {
+                        PacketType::Final { encryption }
+                    } else {
+                        PacketType::NotFinal
+                    },
+                    &data[i..i + data_size],
+                    signer,
+                )
+                .map_err(|_| EncoderError::FailedToSignPacket)?;
+
+                let packet_size = packet
+                    .to_vec()
+                    .map_err(|_| EncoderError::FailedToEstimateDataSize)?
+                    .len();
+                if packet_size <= max_packet_size {
+                    break packet;
+                }
+
+                let overflow_size = packet_size - max_packet_size;
+                if overflow_size >= data_size {
+                    return Err(EncoderError::MaxPacketSizeTooSmall);
+                }
+                data_size -= overflow_size;
+                is_final = false;
+            };
 
             // Store packet in our collection
             packets.push(packet);
-- 
2.43.0


From 409786f7e0eae7816a87b34579d849b7d00e45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 04/42] fix: register nonces atomically in the nonce cache

---
 src/core/transport/crypto/nonce/cache.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 0b542f0..8bc6e0d 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -34,12 +34,17 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
     ) -> Result<&'a [u8], CryptError> {
         if let Some(cache) = &self.cache {
             let nonce_vec = nonce.to_vec();
-            if cache.read().unwrap().contains(&nonce_vec) {
+
+            // NOTE: Checking and marking must happen under the same lock as
+            //       otherwise a nonce could be used more than once when
+            //       multiple threads try to register it at the same time
+            let mut cache = cache.write().unwrap();
+            if cache.contains(&nonce_vec) {
                 return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });
             }
 
             // Mark that we have used the nonce
-            cache.write().unwrap().put(nonce_vec, ());
+            cache.put(nonce_vec, ());
         }
 
         Ok(nonce)
-- 
2.43.0


From 3ca339b7a055100198b5f3ef4f2d80049ae91df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 05/42] fix: do not lose TCP messages whose packets are split
 or merged in transit

---
 src/core/transport/wire/tcp.rs | 69 ++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index a6c2355..3b4d1e2 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -86,6 +86,9 @@ where
     inbound_wire: InboundWire<V, D>,
     stream: ReadHalf<TcpStream>,
     remote_addr: SocketAddr,
+
+    /// Bytes received on the stream that have not been processed yet
+    buffer: Vec<u8>,
 }
 
 impl<V, D> TcpStreamInboundWire<V, D>
@@ -102,22 +105,60 @@ where
             inbound_wire,
             stream,
             remote_addr,
+            buffer: Vec::new(),
         }
     }
 
+    /// Reads from the stream until a single packet has been processed
+    ///
+    /// NOTE: A stream has no message boundaries, meaning that the bytes
+    ///       available can contain part of a packet or several packets; so,
+    ///       bytes are kept until they form an entire packet
     pub async fn read(
         &mut self,
     ) -> Result<(Option<Vec<u8>>, SocketAddr), InboundWireError> {
-        let mut buf =
-            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
-        let size = self
-            .stream
-            .read(&mut buf)
-            .await
-            .map_err(InboundWireError::IO)?;
-        let data = self.inbound_wire.process(&buf[..size])?;
-
-        Ok((data, self.remote_addr))
+        let max_size = self.inbound_wire.transmission_size();
+        let mut buf = vec![0; max_size].into_boxed_slice();
+
+        loop {
+            let packet_size = match next_packet_size(&self.buffer) {
+                // A packet never exceeds the transmission size, so these
+                // bytes will never become a packet
+                None if self.buffer.len() > max_size => {
+                    Some(self.buffer.len())
+                }
+                x => x,
+            };
+
+            if let Some(size) = packet_size {
+                let packet: Vec<u8> = self.buffer.drain(..size).collect();
+                let data = self.inbound_wire.process(&packet)?;
+                return Ok((data, self.remote_addr));
+            }
+
+            let size = self
+                .stream
+                .read(&mut buf)
+                .await
+                .map_err(InboundWireError::IO)?;
+            if size == 0 {
+                return Ok((None, self.remote_addr));
+            }
+            self.buffer.extend_from_slice(&buf[..size]);
+        }
+    }
+}
+
+/// Determines the size of the packet at the beginning of the given bytes,
+/// which is none if more bytes are needed; if the bytes are not the start of
+/// a packet, covers all of them
+fn next_packet_size(bytes: &[u8]) -> Option<usize> {
+    let mut stream = serde_cbor::Deserializer::from_slice(bytes)
+        .into_iter::<serde::de::IgnoredAny>();
+    match stream.next() {
+        Some(Ok(_)) => Some(stream.byte_offset()),
+        Some(Err(x)) if !x.is_eof() => Some(bytes.len()),
+        _ => None,
     }
 }
 
@@ -149,14 +190,10 @@ where
         let data = self.outbound_wire.process(buf)?;
 
         for packet_bytes in data.iter() {
-            let size = self
-                .stream
-                .write(packet_bytes)
+            self.stream
+                .write_all(packet_bytes)
                 .await
                 .map_err(OutboundWireError::IO)?;
-            if size < packet_bytes.len() {
-                return Err(OutboundWireError::IncompleteSend);
-            }
         }
 
         Ok(())
-- 
2.43.0


From aef5fb5b404cad60e24dfde52fb6a45d4b650b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 06/42] fix: stop reading a closed TCP stream and release its
 connection

---
 src/core/event/tcp.rs          | 23 ++++++++++++++++++-----
 src/core/transport/wire/tcp.rs |  4 +++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index d8d7816..31781cd 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -34,8 +34,9 @@ impl EventManager {
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>(max_outbound_queue);
 
-        let inbound_handle = handle.spawn(tcp_stream_outbound_loop(rx, writer));
-        let outbound_handle = handle.spawn(tcp_stream_inbound_loop(
+        let outbound_handle =
+            handle.spawn(tcp_stream_outbound_loop(rx, writer));
+        let inbound_handle = handle.spawn(tcp_stream_inbound_loop(
             tx.clone(),
             reader,
             on_inbound_tx,
@@ -168,13 +169,25 @@ async fn tcp_listener_spawn_stream<A, B>(
         .await
         .insert(addr, event_manager.tx.clone());
 
-    // Wait for the stream's event manager to exit,
-    // and remove the connection once it does
-    if let Err(x) = event_manager.wait().await {
+    // Wait for the stream to have no more inbound data and remove the
+    // connection once it does; the outbound loop ends after all replies have
+    // been sent, which requires that we do not keep a sender ourselves
+    let EventManager {
+        inbound_handle,
+        outbound_handle,
+        tx,
+    } = event_manager;
+    drop(tx);
+
+    if let Err(x) = inbound_handle.await {
         error!("Event manager exited badly: {}", x);
     }
 
     connections.lock().await.remove(&addr);
+
+    if let Err(x) = outbound_handle.await {
+        error!("Event manager exited badly: {}", x);
+    }
 }
 
 /// Loops continuously, reading outbound data and sending it out over the wire
diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index 3b4d1e2..27a0d1d 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -142,7 +142,9 @@ where
                 .await
                 .map_err(InboundWireError::IO)?;
             if size == 0 {
-                return Ok((None, self.remote_addr));
+                return Err(InboundWireError::IO(
+                    io::ErrorKind::UnexpectedEof.into(),
+                ));
             }
             self.buffer.extend_from_slice(&buf[..size]);
         }
-- 
2.43.0


From dc11ff1fbfd54bbe3eb1c8d50b797ecc5d82b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 07/42] fix: keep sending over UDP after failing to send a
 message

---
 src/core/event/udp.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index fab8228..5126757 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -93,7 +93,6 @@ async fn udp_socket_outbound_loop<S, E>(
     while let Some((msg, addr)) = rx.recv().await {
         if let Err(x) = writer.write_to(&msg, addr).await {
             error!("Failed to send: {}", x);
-            break;
         }
     }
 }
-- 
2.43.0


From 59d5bde6d431f6625add9443dbe0d8bacfbf8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 08/42] fix: keep receiving over UDP after a datagram could not
 be delivered

---
 src/core/event/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 5e6b539..4600346 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -5,6 +5,7 @@ use crate::core::Msg;
 
 use log::{error, trace, warn};
 use crate::core::transport::InboundWireError;
+use std::io;
 use std::net::SocketAddr;
 use tokio::{sync::mpsc, task};
 
@@ -81,6 +82,14 @@ where
             }
         }
         Err(x) => match x {
+            // Reported by UDP when an earlier datagram could not be delivered,
+            // which says nothing about the datagrams still to come
+            InboundWireError::IO(x)
+                if x.kind() == io::ErrorKind::ConnectionRefused =>
+            {
+                warn!("Remote end is not reachable: {}", x);
+                true
+            }
             InboundWireError::IO(x) => {
                 error!("Fatal IO on wire: {}", x);
                 false
-- 
2.43.0


From f6fbbf6ec90262686515cf1db7bf0831dced0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 09/42] fix: bind and connect TCP sockets with current Rust
 versions

---
 src/core/client/mod.rs | 20 ++++++++++++++++++--
 src/core/server/mod.rs |  5 ++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/core/client/mod.rs b/src/core/client/mod.rs
index 32ec763..d8b8950 100644
--- a/src/core/client/mod.rs
+++ b/src/core/client/mod.rs
@@ -20,12 +20,13 @@ use crate::core::transport::{
 };
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::thread;
 use std::time::{Duration, Instant};
 use tokio::{
     io,
     net::{TcpStream, UdpSocket},
     runtime::Handle,
-    sync::{mpsc, Mutex},
+    sync::{mpsc, oneshot, Mutex},
 };
 
 /// Represents a client configuration prior to connecting
@@ -92,7 +93,7 @@ where
     let stream = {
         let mut stream = None;
         for addr in addrs.iter() {
-            match TcpStream::connect(addr).await {
+            match connect_tcp_stream(*addr).await {
                 Ok(s) => {
                     stream = Some(s);
                     break;
@@ -134,6 +135,21 @@ where
     })
 }
 
+/// Connects to a remote address using std as mio hands the address to the OS
+/// assuming a memory layout that newer versions of Rust do not use; happens
+/// on a separate thread as it blocks until connected
+async fn connect_tcp_stream(addr: SocketAddr) -> io::Result<TcpStream> {
+    let (tx, rx) = oneshot::channel();
+    thread::Builder::new().spawn(move || {
+        let _ = tx.send(std::net::TcpStream::connect(addr));
+    })?;
+
+    let stream = rx
+        .await
+        .map_err(|x| io::Error::new(io::ErrorKind::Other, x))??;
+    TcpStream::from_std(stream)
+}
+
 async fn build_and_connect_udp_client<A, B>(
     client: Client<A, B>,
     state: Arc<Mutex<state::ClientState>>,
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index e6223e1..c7ce4a0 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -149,7 +149,10 @@ where
     let listener = {
         let mut listener = None;
         for addr in addrs.iter() {
-            let result = TcpListener::bind(addr).await;
+            // NOTE: Binding via std as mio hands the address to the OS assuming
+            //       a memory layout that newer versions of Rust do not use
+            let result = std::net::TcpListener::bind(addr)
+                .and_then(TcpListener::from_std);
             if result.is_ok() {
                 listener = result.ok();
                 break;
-- 
2.43.0


From 7063522c8db572cc133c0d10b13c1ee456ccfd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 10/42] fix: close a file when it is removed by its handle

---
 src/core/server/action/handler/fs.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index dc5746d..97d4160 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -150,13 +150,19 @@ pub async fn remove_file(
     debug!("handler::remove_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.remove(args.sig).await {
             Ok(_) => {
+                // The file no longer exists, so stop tracking it as open
+                let handle = local_file.handle();
+                fs_manager.close_file(handle).map_err(FileIoError::Io)?;
+
                 state.remove_file_id(args.id).await;
                 Ok(FileRemovedArgs {
-                    id: args.id,
-                    sig: local_file.sig(),
+                    id: handle.id,
+                    sig: handle.sig,
                 })
             }
             Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-- 
2.43.0


From 569e28842811f34ab2f828dc907d1c88ee4671a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 11/42] fix: keep the canonical path of a file after renaming
 it

---
 src/core/server/fs/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index ee2b38c..f10fd5b 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -145,7 +145,9 @@ impl LocalFile {
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
         self.sig = OsRng.next_u32();
-        self.path = to.as_ref().to_path_buf();
+        self.path = fs::canonicalize(to.as_ref())
+            .await
+            .unwrap_or_else(|_| to.as_ref().to_path_buf());
 
         Ok(self.sig)
     }
-- 
2.43.0


From b6804073898859f7158485f91d1d1a5881f92e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 12/42] fix: rename and remove symlinks instead of what they
 point to

---
 src/core/server/fs/mod.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/core/server/fs/mod.rs b/src/core/server/fs/mod.rs
index 0775431..bb1202e 100644
--- a/src/core/server/fs/mod.rs
+++ b/src/core/server/fs/mod.rs
@@ -46,8 +46,8 @@ impl FileSystemManager {
         from: impl AsRef<Path>,
         to: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let from = clean_path(from.as_ref()).await;
-        let to = clean_path(to.as_ref()).await;
+        let from = clean_entry_path(from.as_ref()).await;
+        let to = clean_entry_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
 
@@ -64,7 +64,7 @@ impl FileSystemManager {
         path: impl AsRef<Path>,
         non_empty: bool,
     ) -> io::Result<()> {
-        let path = clean_path(path.as_ref()).await;
+        let path = clean_entry_path(path.as_ref()).await;
 
         self.check_no_open_files(path.as_path())?;
 
@@ -189,8 +189,8 @@ impl FileSystemManager {
         from: impl AsRef<Path>,
         to: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let from = clean_path(from.as_ref()).await;
-        let to = clean_path(to.as_ref()).await;
+        let from = clean_entry_path(from.as_ref()).await;
+        let to = clean_entry_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
 
@@ -202,7 +202,7 @@ impl FileSystemManager {
         &mut self,
         path: impl AsRef<Path>,
     ) -> io::Result<()> {
-        let path = clean_path(path.as_ref()).await;
+        let path = clean_entry_path(path.as_ref()).await;
 
         self.check_no_open_files(path.as_path())?;
 
@@ -263,6 +263,26 @@ async fn clean_path(path: impl AsRef<Path>) -> PathBuf {
         .unwrap_or_else(|| path.as_ref().to_path_buf())
 }
 
+/// Attempts to canonicalize only the parent of the path, leaving the final
+/// component untouched such that an operation on a symlink is applied to the
+/// symlink itself rather than what it points to
+async fn clean_entry_path(path: impl AsRef<Path>) -> PathBuf {
+    let path = path.as_ref();
+
+    // A trailing separator asks for what the symlink points to
+    if path.to_string_lossy().ends_with(std::path::is_separator) {
+        return clean_path(path).await;
+    }
+
+    match (path.parent(), path.file_name()) {
+        (Some(parent), Some(name)) if parent == Path::new("") => {
+            clean_path(".").await.join(name)
+        }
+        (Some(parent), Some(name)) => clean_path(parent).await.join(name),
+        _ => clean_path(path).await,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4b3455e6043ef4a62a603f4fd888b04391b08538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 13/42] fix: refuse to rename a file or directory onto a file
 that is open

---
 src/core/server/action/handler/fs.rs | 12 +++++++++---
 src/core/server/fs/mod.rs            | 23 ++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index 97d4160..3287427 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -107,8 +107,14 @@ pub async fn rename_file(
     debug!("handler::rename_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
-        Some(local_file) => match local_file.rename(args.sig, &args.to).await {
+    let mut fs_manager = state.fs_manager.lock().await;
+    let can_move = fs_manager.check_can_move(args.id, &args.to).await;
+
+    match (fs_manager.get_mut(args.id), can_move) {
+        (Some(local_file), Err(x)) if local_file.sig() == args.sig => {
+            Err(FileIoError::Io(x))
+        }
+        (Some(local_file), _) => match local_file.rename(args.sig, &args.to).await {
             Ok(_) => Ok(FileRenamedArgs {
                 id: args.id,
                 sig: local_file.sig(),
@@ -119,7 +125,7 @@ pub async fn rename_file(
             }),
             Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
         },
-        None => Err(FileIoError::Io(
+        (None, _) => Err(FileIoError::Io(
             IoErrorArgs::invalid_file_id(args.id).into(),
         )),
     }
diff --git a/src/core/server/fs/mod.rs b/src/core/server/fs/mod.rs
index bb1202e..6ed6aff 100644
--- a/src/core/server/fs/mod.rs
+++ b/src/core/server/fs/mod.rs
@@ -50,6 +50,7 @@ impl FileSystemManager {
         let to = clean_entry_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
+        self.check_no_open_files(to.as_path())?;
 
         // No open file is within this directory, so good to attempt to rename
         dir::rename(from.as_path(), to.as_path()).await?;
@@ -183,7 +184,7 @@ impl FileSystemManager {
 
     /// Attempts to rename a file at `from` into `to`.
     ///
-    /// Will fail if file is open at `from`.
+    /// Will fail if file is open at `from` or at `to`.
     pub async fn rename_file(
         &mut self,
         from: impl AsRef<Path>,
@@ -193,6 +194,7 @@ impl FileSystemManager {
         let to = clean_entry_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
+        self.check_no_open_files(to.as_path())?;
 
         file::rename(from.as_path(), to.as_path()).await
     }
@@ -235,6 +237,25 @@ impl FileSystemManager {
         self.get(id).is_some()
     }
 
+    /// Checks that moving the open file with the specified `id` to `path`
+    /// would not replace another file that is open
+    pub async fn check_can_move(
+        &self,
+        id: u32,
+        path: impl AsRef<Path>,
+    ) -> io::Result<()> {
+        let path = clean_entry_path(path.as_ref()).await;
+
+        if self.files.values().any(|f| f.id != id && f.path() == path) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("File at {:?} is open and must be closed", path),
+            ));
+        }
+
+        Ok(())
+    }
+
     /// Checks that `path` is not an open file or (if dir) does not contain any
     /// open files managed by the file system manager
     fn check_no_open_files(&self, path: impl AsRef<Path>) -> io::Result<()> {
-- 
2.43.0


From ec8b6d0ca135246b8de4515846a1239fd6f29e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:23 +0000
Subject: [PATCH 14/42] fix: decode messages that hold a forward request or
 reply

---
 src/core/msg/content/addr.rs            | 22 ++++++++++++++++++++++
 src/core/msg/content/mod.rs             |  1 +
 src/core/msg/content/reply/forward.rs   |  2 ++
 src/core/msg/content/request/forward.rs |  2 ++
 4 files changed, 27 insertions(+)
 create mode 100644 src/core/msg/content/addr.rs

diff --git a/src/core/msg/content/addr.rs b/src/core/msg/content/addr.rs
new file mode 100644
index 0000000..32905d0
--- /dev/null
+++ b/src/core/msg/content/addr.rs
@@ -0,0 +1,22 @@
+//! Serializes a socket address as text in every format
+//!
+//! Content is untagged and deserializing it goes through a human-readable
+//! intermediate form, which expects the address to be text and would reject
+//! the form used by binary formats otherwise
+
+use serde::{de::Error, Deserialize, Deserializer, Serializer};
+use std::net::SocketAddr;
+
+pub fn serialize<S>(addr: &SocketAddr, s: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    s.collect_str(addr)
+}
+
+pub fn deserialize<'de, D>(d: D) -> Result<SocketAddr, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    String::deserialize(d)?.parse().map_err(D::Error::custom)
+}
diff --git a/src/core/msg/content/mod.rs b/src/core/msg/content/mod.rs
index 950b3ae..e7809ff 100644
--- a/src/core/msg/content/mod.rs
+++ b/src/core/msg/content/mod.rs
@@ -1,3 +1,4 @@
+mod addr;
 pub mod reply;
 pub mod request;
 
diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index 1dd4bc3..46b88f2 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -5,6 +5,8 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(with = "crate::core::msg::content::addr")]
+    #[schemars(with = "SocketAddr")]
     pub address: SocketAddr,
     pub reply: Box<Reply>,
 }
diff --git a/src/core/msg/content/request/forward.rs b/src/core/msg/content/request/forward.rs
index 2619c01..bd9b64a 100644
--- a/src/core/msg/content/request/forward.rs
+++ b/src/core/msg/content/request/forward.rs
@@ -5,6 +5,8 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(with = "crate::core::msg::content::addr")]
+    #[schemars(with = "SocketAddr")]
     pub address: SocketAddr,
     pub request: Box<Request>,
 }
-- 
2.43.0


From a2b19c3bd8e5c504329ff5f5f0fa5519062767f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 15/42] fix: reply to sequences and batches that hold an
 operation without a reply

---
 src/core/server/action/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index cf3b43d..8d65440 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -319,14 +319,14 @@ fn route_and_execute(
                     for op in args.operations.drain(..) {
                         results.push(
                             match try_transform_request(op, results.last()) {
-                                Ok(req) => {
+                                Ok(req) => into_nested_reply(
                                     route_and_execute(
                                         Arc::clone(&state),
                                         req,
                                         max_depth - 1,
                                     )
-                                    .await
-                                }
+                                    .await,
+                                ),
                                 Err(x) => Reply::Error(ReplyError::from(
                                     format!("{}", x),
                                 )),
@@ -350,7 +350,7 @@ fn route_and_execute(
                         .await
                         .drain(..)
                         .map(|r| {
-                            r.unwrap_or_else(|x| {
+                            r.map(into_nested_reply).unwrap_or_else(|x| {
                                 Reply::Error(From::from(format!("{}", x)))
                             })
                         })
@@ -377,6 +377,18 @@ fn route_and_execute(
     .boxed()
 }
 
+/// Converts a reply to be placed within the results of a sequence or batch;
+/// ignoring an operation is only possible when it is not part of a larger
+/// reply as there is nothing to represent a missing reply
+fn into_nested_reply(reply: Reply) -> Reply {
+    match reply {
+        Reply::Ignore => {
+            Reply::Error(ReplyError::from("Operation yielded no reply"))
+        }
+        x => x,
+    }
+}
+
 #[derive(Debug, Display, Error)]
 enum SequenceError {
     Abort,
-- 
2.43.0


From 49b8dc88a4bd5061b1c2406bcdb3edd9a48b75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 16/42] fix: report a changed file signature as such to the
 caller

---
 src/core/client/connected.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 739eb03..7cd9b2c 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -622,6 +622,9 @@ fn make_file_ask_error(x: Reply) -> FileAskError {
         Reply::Error(ReplyError::Io(args)) => {
             FileAskError::IoError(args.into())
         }
+        Reply::Error(ReplyError::FileSigChanged(args)) => {
+            FileAskError::FileSignatureChanged { id: args.id }
+        }
         x => From::from(make_ask_error(x)),
     }
 }
-- 
2.43.0


From c6b671851b37e35d1a7067eae67f55b9caf4e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 17/42] fix: find delimiters across reads of any size

---
 src/utils/delimiter.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 83bdb48..2ae955d 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -5,7 +5,6 @@ pub const DEFAULT_DELIMITER: &[u8] = b"</>";
 
 #[derive(Clone, Copy)]
 struct PreReadResult {
-    buf_len: usize,
     delimiter_len: usize,
 }
 
@@ -73,17 +72,14 @@ impl DelimiterReader {
         // delimiter size and try again; this creates a sliding window where
         // we keep the max data size specified at all times
         if self.buf_pos > (buf_len - delimiter_len) {
-            let (pd_pos, pdelimiter_len) = self.find_partial_delimiter();
+            let (_, pdelimiter_len) = self.find_partial_delimiter();
             let shift_len = delimiter_len - pdelimiter_len;
             self.buf.rotate_left(shift_len);
             self.buf_filled -= shift_len;
-            self.buf_pos = pd_pos - shift_len;
+            self.buf_pos = buf_len - delimiter_len;
         };
 
-        PreReadResult {
-            buf_len,
-            delimiter_len,
-        }
+        PreReadResult { delimiter_len }
     }
 
     /// Performs update to buffer based on read bytes, copying data to external
@@ -94,20 +90,18 @@ impl DelimiterReader {
         bytes_read: Option<&usize>,
         preread_result: PreReadResult,
     ) -> usize {
-        let PreReadResult {
-            buf_len,
-            delimiter_len,
-        } = preread_result;
+        let PreReadResult { delimiter_len } = preread_result;
 
         // Mark where we will start reading and then update the filled count
         if let Some(bytes_read) = bytes_read {
             self.buf_filled += bytes_read;
         }
 
-        // Scan for the delimiter starting from the last place searched
+        // Scan for the delimiter starting from the last place searched, not
+        // going past what has been read so far
         let mut size = 0;
-        if self.buf_filled > 0 {
-            for i in self.buf_pos..=(buf_len - delimiter_len) {
+        if self.buf_filled >= delimiter_len {
+            for i in self.buf_pos..=(self.buf_filled - delimiter_len) {
                 // If we have a match, we want to copy the contents (minus the delimiter) to the
                 // provided buffer, shift over any remaining data, and reset our buf filled count
                 if self.buf[i..i + delimiter_len] == self.delimiter[..] {
-- 
2.43.0


From 52f5562fb8cc8847acc08c988dbe88e5e478a3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 18/42] fix: report that the client cannot connect instead of
 crashing

---
 src/cli/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d914358..724b93d 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -150,9 +150,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
 
     validate_opts(&cmd.opts)?;
 
-    let mut client = builder::start_client(&cmd)
-        .await
-        .expect("Failed to connect with client");
+    let mut client = builder::start_client(&cmd).await?;
 
     match &cmd.command {
         client::Subcommand::Version(_) => {
-- 
2.43.0


From ffc55e43064bf0a77ff10be2ff594619f5326655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 19/42] fix: make the client wait as long as --timeout says

---
 src/cli/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 724b93d..b75cbc1 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -151,6 +151,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
     validate_opts(&cmd.opts)?;
 
     let mut client = builder::start_client(&cmd).await?;
+    client.timeout = cmd.opts.timeout;
 
     match &cmd.command {
         client::Subcommand::Version(_) => {
-- 
2.43.0


From 80fb1996fe77ae96663e5f06685c68c638eccd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 20/42] fix: support the AES-SIV encryption that the options
 offer

---
 src/cli/builder/mod.rs                       | 44 ++++++++++++++++----
 src/core/transport/crypto/aes/aes_siv_128.rs |  6 ++-
 src/core/transport/crypto/aes/aes_siv_256.rs |  6 ++-
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/cli/builder/mod.rs b/src/cli/builder/mod.rs
index d2715d2..e1f1ec5 100644
--- a/src/cli/builder/mod.rs
+++ b/src/cli/builder/mod.rs
@@ -70,10 +70,24 @@ pub async fn start_client(cmd: &ClientCommand) -> io::Result<ConnectedClient> {
             auth::Authenticator::Sha512(a),
             crypto::Bicrypter::Aes256GcmSiv(b),
         ) => build_client_and_connect(cmd, a, b).await,
-        _ => Err(io::Error::new(
-            io::ErrorKind::InvalidInput,
-            "Unsupported authentication or encryption protocol",
-        )),
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
     }
 }
 
@@ -184,10 +198,24 @@ pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
             auth::Authenticator::Sha512(a),
             crypto::Bicrypter::Aes256GcmSiv(b),
         ) => build_server_and_listen(cmd, a, b).await,
-        _ => Err(io::Error::new(
-            io::ErrorKind::InvalidInput,
-            "Unsupported authentication or encryption protocol",
-        )),
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
     }
 }
 
diff --git a/src/core/transport/crypto/aes/aes_siv_128.rs b/src/core/transport/crypto/aes/aes_siv_128.rs
index 661d011..54ee354 100644
--- a/src/core/transport/crypto/aes/aes_siv_128.rs
+++ b/src/core/transport/crypto/aes/aes_siv_128.rs
@@ -6,9 +6,11 @@ use super::super::{
 use aead::generic_array::GenericArray;
 use aead::{Aead, NewAead};
 use aes_siv::Aes128SivAead;
+use std::sync::Arc;
 
+#[derive(Clone)]
 pub struct Aes128SivBicrypter {
-    inner: Aes128SivAead,
+    inner: Arc<Aes128SivAead>,
     nonce_size: NonceSize,
 }
 
@@ -23,7 +25,7 @@ impl Aes128SivBicrypter {
     pub fn new(key: &Key256Bits) -> Self {
         let key = GenericArray::clone_from_slice(key);
         Aes128SivBicrypter {
-            inner: Aes128SivAead::new(key),
+            inner: Arc::new(Aes128SivAead::new(key)),
             nonce_size: NonceSize::Nonce128Bits,
         }
     }
diff --git a/src/core/transport/crypto/aes/aes_siv_256.rs b/src/core/transport/crypto/aes/aes_siv_256.rs
index 8c1f24b..7074445 100644
--- a/src/core/transport/crypto/aes/aes_siv_256.rs
+++ b/src/core/transport/crypto/aes/aes_siv_256.rs
@@ -6,9 +6,11 @@ use super::super::{
 use aead::generic_array::GenericArray;
 use aead::{Aead, NewAead};
 use aes_siv::Aes256SivAead;
+use std::sync::Arc;
 
+#[derive(Clone)]
 pub struct Aes256SivBicrypter {
-    inner: Aes256SivAead,
+    inner: Arc<Aes256SivAead>,
     nonce_size: NonceSize,
 }
 
@@ -23,7 +25,7 @@ impl Aes256SivBicrypter {
     pub fn new(key: &Key512Bits) -> Self {
         let key = GenericArray::clone_from_slice(key);
         Aes256SivBicrypter {
-            inner: Aes256SivAead::new(key),
+            inner: Arc::new(Aes256SivAead::new(key)),
             nonce_size: NonceSize::Nonce128Bits,
         }
     }
-- 
2.43.0


From 09a0ed8679ac5677727c2948f7ef046b4e8e0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 21/42] fix: refuse durations that are none instead of crashing

---
 src/cli/opts/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/opts/parsers.rs b/src/cli/opts/parsers.rs
index c9d47f3..546ea4b 100644
--- a/src/cli/opts/parsers.rs
+++ b/src/cli/opts/parsers.rs
@@ -4,7 +4,7 @@ use std::time::Duration;
 
 pub fn parse_duration_secs(s: &str) -> Result<Duration, Box<dyn Error>> {
     let secs: f64 = s.parse()?;
-    Ok(Duration::from_secs_f64(secs))
+    Ok(Duration::try_from_secs_f64(secs)?)
 }
 
 pub fn parse_duration_millis(s: &str) -> Result<Duration, Box<dyn Error>> {
-- 
2.43.0


From 87e3e681f6989e05a39538995ceb9d1d5edfcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 22/42] fix: connect to an IPv6 address without asking for IPv6
 in addition

---
 src/cli/builder/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cli/builder/mod.rs b/src/cli/builder/mod.rs
index e1f1ec5..666acdc 100644
--- a/src/cli/builder/mod.rs
+++ b/src/cli/builder/mod.rs
@@ -100,11 +100,15 @@ where
     A: Authenticator + Send + Sync + Clone + Default + 'static,
     B: Bicrypter + Send + Sync + Clone + Default + 'static,
 {
-    // Attempt to resolve provided address, filtering out IPv4 if looking for
-    // IPv6 and vice versa, selecting very first match in resolution
-    let maybe_resolved_addr = net::lookup_host(cmd.addr.clone())
-        .await?
-        .find(|x| x.is_ipv6() == cmd.ipv6);
+    // Attempt to resolve provided address, preferring IPv6 over IPv4 if looking
+    // for IPv6 and vice versa, selecting very first match in resolution
+    let resolved_addrs: Vec<_> =
+        net::lookup_host(cmd.addr.clone()).await?.collect();
+    let maybe_resolved_addr = resolved_addrs
+        .iter()
+        .find(|x| x.is_ipv6() == cmd.ipv6)
+        .or_else(|| resolved_addrs.first())
+        .copied();
 
     debug!(
         "Resolved {} to {}",
-- 
2.43.0


From 27bdd87346371cd80c082461653eb00281319f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 23/42] fix: read-file neither creates the file nor needs write
 access to it

---
 src/cli/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index b75cbc1..a4b3d1c 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -254,7 +254,10 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
             )?;
         }
         client::Subcommand::ReadFile(c) => {
-            let file = client.ask_open_file(c.path.clone()).await?.into();
+            let file = client
+                .ask_open_file_with_options(c.path.clone(), false, false, true)
+                .await?
+                .into();
             let x = client.ask_read_file(&file).await?;
             format_content_write!(
                 cmd.output_format,
-- 
2.43.0


From 4829019bd5df54bcced63c9308bd602f3eaefe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 24/42] fix: finish writing redirected output before exiting

---
 src/cli/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index a4b3d1c..78fd204 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -79,13 +79,15 @@ async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
+            let mut file = tokio::fs::OpenOptions::new()
                 .create(true)
                 .append(true)
                 .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
+                .await?;
+            file.write_all(text.as_bytes()).await?;
+
+            // NOTE: The write happens in the background until flushed
+            file.flush().await
         }
         None => {
             print!("{}", text);
@@ -98,13 +100,15 @@ async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
+            let mut file = tokio::fs::OpenOptions::new()
                 .create(true)
                 .append(true)
                 .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
+                .await?;
+            file.write_all(text.as_bytes()).await?;
+
+            // NOTE: The write happens in the background until flushed
+            file.flush().await
         }
         None => {
             eprint!("{}", text);
-- 
2.43.0


From 80bb0cadaffe14ab01c94b6622adc76e3187fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 25/42] fix: redirect formatted output as well

---
 src/cli/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 78fd204..d64ceaa 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -142,9 +142,14 @@ macro_rules! format_content_write {
                 }
                 Ok(())
             }
-            _ => format::format_content_println($format, $content, |_| {
+            f => match format::format_content(f, $content, |_| {
                 Err("Unreachable".into())
-            }),
+            }) {
+                Ok(x) => write_stdout(format!("{}\n", x), $path)
+                    .await
+                    .map_err(Box::<dyn Error>::from),
+                Err(x) => Err(x),
+            },
         }
     };
 }
-- 
2.43.0


From 9e69e857aafc346b5e3584d70f52912c7977fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 26/42] fix: pass the output of a proc on as it is

---
 src/cli/mod.rs | 71 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d64ceaa..81fb71b 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -75,7 +75,10 @@ fn validate_opts(opts: &opts::CommonOpts) -> io::Result<()> {
     Ok(())
 }
 
-async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stdout(
+    output: impl AsRef<[u8]>,
+    path: Option<&PathBuf>,
+) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
@@ -84,19 +87,22 @@ async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
                 .append(true)
                 .open(p)
                 .await?;
-            file.write_all(text.as_bytes()).await?;
+            file.write_all(output.as_ref()).await?;
 
             // NOTE: The write happens in the background until flushed
             file.flush().await
         }
         None => {
-            print!("{}", text);
-            Ok(())
+            use std::io::Write;
+            io::stdout().write_all(output.as_ref())
         }
     }
 }
 
-async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stderr(
+    output: impl AsRef<[u8]>,
+    path: Option<&PathBuf>,
+) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
@@ -105,14 +111,14 @@ async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
                 .append(true)
                 .open(p)
                 .await?;
-            file.write_all(text.as_bytes()).await?;
+            file.write_all(output.as_ref()).await?;
 
             // NOTE: The write happens in the background until flushed
             file.flush().await
         }
         None => {
-            eprint!("{}", text);
-            Ok(())
+            use std::io::Write;
+            io::stderr().write_all(output.as_ref())
         }
     }
 }
@@ -137,8 +143,8 @@ macro_rules! format_content_write {
             FormatOption::Human => {
                 let result: Result<String, String> = $human_expr;
                 match result {
-                    Ok(x) => write_stdout(format!("{}", x), $path).await?,
-                    Err(x) => write_stderr(format!("{}", x), $path).await?,
+                    Ok(x) => write_stdout(x, $path).await?,
+                    Err(x) => write_stderr(x, $path).await?,
                 }
                 Ok(())
             }
@@ -506,12 +512,21 @@ async fn process_proc(
             .await
             .expect("Failed to get stdout");
         if !stdout_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stdout_path.as_ref(),
-                Content::from(Reply::ProcStdoutContents(stdout_args)),
-                Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
-            )
+            // NOTE: Output is bytes that need not be text, let alone text that
+            //       is not cut within a character
+            match format {
+                FormatOption::Human => {
+                    write_stdout(stdout_args.output, stdout_path.as_ref())
+                        .await
+                        .map_err(Box::<dyn Error>::from)
+                }
+                f => format_content_write!(
+                    f,
+                    stdout_path.as_ref(),
+                    Content::from(Reply::ProcStdoutContents(stdout_args)),
+                    Err("unreachable!".into()),
+                ),
+            }
             .expect("Failed to format stdout");
         }
 
@@ -520,15 +535,21 @@ async fn process_proc(
             .await
             .expect("Failed to get stderr");
         if !stderr_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stderr_path.as_ref(),
-                Content::from(Reply::ProcStderrContents(stderr_args)),
-                Err(format!(
-                    "{}",
-                    String::from_utf8_lossy(&stderr_args.output)
-                )),
-            )
+            // NOTE: Output is bytes that need not be text, let alone text that
+            //       is not cut within a character
+            match format {
+                FormatOption::Human => {
+                    write_stderr(stderr_args.output, stderr_path.as_ref())
+                        .await
+                        .map_err(Box::<dyn Error>::from)
+                }
+                f => format_content_write!(
+                    f,
+                    stderr_path.as_ref(),
+                    Content::from(Reply::ProcStderrContents(stderr_args)),
+                    Err("unreachable!".into()),
+                ),
+            }
             .expect("Failed to format stderr");
         }
 
-- 
2.43.0


From 148dbeb1aa1c7f2d73acf88e2a4819d9a3f2480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 27/42] fix: keep reporting on a proc that no longer reads its
 stdin

---
 src/cli/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 81fb71b..b7ab1f8 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -4,7 +4,7 @@ mod opts;
 
 use crate::core::{ConnectedClient, Content, RemoteProc, Reply, SchemaInfo};
 use format::FormatOption;
-use log::info;
+use log::{info, warn};
 use opts::{
     client::{self, ClientCommand},
     schema::{SchemaSubcommand, SchemaType},
@@ -472,7 +472,7 @@ async fn execute_raw_and_report(
 
 async fn process_proc(
     mut client: ConnectedClient,
-    send_stdin: bool,
+    mut send_stdin: bool,
     stdout_path: Option<PathBuf>,
     stderr_path: Option<PathBuf>,
     post_exit_duration: Duration,
@@ -500,10 +500,15 @@ async fn process_proc(
             }
 
             if !line.is_empty() {
-                client
+                // NOTE: A proc that no longer reads its stdin (most likely as
+                //       it has exited) still has output & status to report
+                if let Err(x) = client
                     .ask_write_proc_stdin(&proc, &line.into_bytes())
                     .await
-                    .expect("Failed to write stdin");
+                {
+                    warn!("Failed to write stdin: {}", x);
+                    send_stdin = false;
+                }
             }
         }
 
-- 
2.43.0


From bd659c1c4c91b3367c192a89ad0384a718acef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 28/42] fix: keep untouched files open for the documented 2.5
 minutes

---
 src/core/server/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/server/state.rs b/src/core/server/state.rs
index a3c42a4..818e044 100644
--- a/src/core/server/state.rs
+++ b/src/core/server/state.rs
@@ -11,7 +11,7 @@ pub mod constants {
     use std::time::Duration;
 
     /// Default file ttl (time since last touched) before until closing (2.5 min)
-    pub const DEFAULT_FILE_TTL: Duration = Duration::from_secs(60 * 2.5 as u64);
+    pub const DEFAULT_FILE_TTL: Duration = Duration::from_secs(60 * 5 / 2);
 
     /// Default proc ttl (time since last touched) before until killing (5 min)
     pub const DEFAULT_PROC_TTL: Duration = Duration::from_secs(60 * 5);
-- 
2.43.0


From 15dfe737c660eb612564fd0db431c26010a8ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 29/42] fix: keep the schemas of same-named requests and
 replies apart

The definitions within a schema are found by name. As the arguments of the
batch, sequence, forward and internal debug replies share their names with
those of the requests, the schema of all content (and so schema info content)
described the replies as if they were the requests.
---
 src/core/msg/content/reply/batch.rs          | 3 +++
 src/core/msg/content/reply/forward.rs        | 3 +++
 src/core/msg/content/reply/internal_debug.rs | 3 +++
 src/core/msg/content/reply/sequence.rs       | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/core/msg/content/reply/batch.rs b/src/core/msg/content/reply/batch.rs
index 250a6e8..0229a89 100644
--- a/src/core/msg/content/reply/batch.rs
+++ b/src/core/msg/content/reply/batch.rs
@@ -5,6 +5,9 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+// NOTE: Schema definitions are found by name, so this must differ from the
+//       name of the arguments to the request
+#[schemars(rename = "BatchReplyArgs")]
 pub struct BatchArgs {
     pub results: Vec<Reply>,
 }
diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index 46b88f2..69e6644 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -4,6 +4,9 @@ use serde::{Deserialize, Serialize};
 use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
+// NOTE: Schema definitions are found by name, so this must differ from the
+//       name of the arguments to the request
+#[schemars(rename = "ForwardReplyArgs")]
 pub struct ForwardArgs {
     #[serde(with = "crate::core::msg::content::addr")]
     #[schemars(with = "SocketAddr")]
diff --git a/src/core/msg/content/reply/internal_debug.rs b/src/core/msg/content/reply/internal_debug.rs
index c81b752..262070f 100644
--- a/src/core/msg/content/reply/internal_debug.rs
+++ b/src/core/msg/content/reply/internal_debug.rs
@@ -4,6 +4,9 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+// NOTE: Schema definitions are found by name, so this must differ from the
+//       name of the arguments to the request
+#[schemars(rename = "InternalDebugReplyArgs")]
 pub struct InternalDebugArgs {
     pub output: Vec<u8>,
 }
diff --git a/src/core/msg/content/reply/sequence.rs b/src/core/msg/content/reply/sequence.rs
index a358dd4..cd53e33 100644
--- a/src/core/msg/content/reply/sequence.rs
+++ b/src/core/msg/content/reply/sequence.rs
@@ -6,6 +6,9 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+// NOTE: Schema definitions are found by name, so this must differ from the
+//       name of the arguments to the request
+#[schemars(rename = "SequenceReplyArgs")]
 pub struct SequenceArgs {
     pub results: Vec<Reply>,
 }
-- 
2.43.0


From 81fe7e68645eb3b7f9d67880353b9822061c8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 30/42] fix: waiting for a stream ends when the stream does

Waiting for an event manager, and so for a connected client, kept one of
the senders whose absence ends the outbound loop: it never returned, even
after the remote end had closed the connection and nothing could be sent
any more.
---
 src/core/event/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 4600346..9231ecc 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -21,7 +21,16 @@ impl EventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        // NOTE: The outbound loop only ends once all senders are gone, which
+        //       requires that we do not keep one ourselves while waiting
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
@@ -41,7 +50,16 @@ impl AddrEventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        // NOTE: The outbound loop only ends once all senders are gone, which
+        //       requires that we do not keep one ourselves while waiting
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
-- 
2.43.0


From 1ab3d28d587668c267a47ceb9d0e25cd67300547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 31/42] fix: an ask ends in time though its request cannot be
 sent

Sending waits while the server does not keep up with what it is sent,
which was not covered by the timeout: once the outbound queue was full, an
ask never ended.
---
 src/core/client/connected.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 7cd9b2c..0e8bfd7 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -88,12 +88,15 @@ impl ConnectedClient {
         );
 
         // Send the msg and report back an error if it occurs
-        self.send_msg(msg).await.map_err(AskError::from)?;
-
-        tokio::time::timeout(timeout, rx)
-            .await
-            .map_err(|_| AskError::Timeout)?
-            .map_err(|_| AskError::CallbackLost)?
+        //
+        // NOTE: Sending has to wait if the server is not keeping up, which
+        //       is part of the time that we are willing to wait
+        tokio::time::timeout(timeout, async {
+            self.send_msg(msg).await.map_err(AskError::from)?;
+            rx.await.map_err(|_| AskError::CallbackLost)?
+        })
+        .await
+        .map_err(|_| AskError::Timeout)?
     }
 
     /// Sends a msg to the server, not expecting a response
-- 
2.43.0


From 43fe4fe9a3b6f195e8f6b3c9b8a93dd4424ae175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 32/42] fix: waiting for more than about two years panicked

The timer panics if its deadline is too far away: an ask with a very long
timeout crashed its caller, and a server with a very long clean-up interval
panicked within its clean-up.
---
 src/core/client/connected.rs | 5 +++--
 src/core/server/mod.rs       | 4 +++-
 src/utils/mod.rs             | 7 +++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 0e8bfd7..66cabc4 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -15,8 +15,9 @@ use crate::core::{
         Msg,
     },
 };
-use crate::utils::Either;
+use crate::utils::{Either, MAX_TIMER_DURATION};
 use log::{error, trace};
+use std::cmp;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
@@ -63,7 +64,7 @@ impl ConnectedClient {
 
     /// Generic ask of the server that is expecting a response
     pub async fn ask(&mut self, request: Request) -> Result<Reply, AskError> {
-        let timeout = self.timeout;
+        let timeout = cmp::min(self.timeout, MAX_TIMER_DURATION);
         let (tx, rx) = oneshot::channel::<Result<Reply, AskError>>();
         let msg = Msg::from(request);
 
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index c7ce4a0..ea5e368 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -9,8 +9,10 @@ pub use listening::ListeningServer;
 
 use crate::core::transport::{Authenticator, Bicrypter, NetTransmission, Wire};
 use crate::core::{event::AddrEventManager, Msg, Transport};
+use crate::utils::MAX_TIMER_DURATION;
 use derive_builder::Builder;
 use log::error;
+use std::cmp;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use std::time::Duration;
@@ -286,7 +288,7 @@ async fn cleanup_loop(state: Arc<state::ServerState>, period: Duration) {
     while state.is_running() {
         state.evict_files().await;
         state.evict_procs().await;
-        time::delay_for(period).await;
+        time::delay_for(cmp::min(period, MAX_TIMER_DURATION)).await;
     }
 }
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index cec7773..6f41e7a 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -13,3 +13,10 @@ pub use delay::Delay;
 pub use delimiter::{DelimiterReader, DelimiterWriter, DEFAULT_DELIMITER};
 pub use either::Either;
 pub use ttl::{EmptyTtlValue, TtlValue};
+
+use std::time::Duration;
+
+/// Longest time to wait using a timer (2 years), which panics if asked for
+/// a deadline that is too far away
+pub(crate) const MAX_TIMER_DURATION: Duration =
+    Duration::from_secs(60 * 60 * 24 * 365 * 2);
-- 
2.43.0


From 7da2c8d7f2ba8fa51cefaa69add93ff251724846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 33/42] fix: an internal buffer of no or too many messages is
 an error

The tool accepted any size and then panicked while starting.
---
 src/cli/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index b7ab1f8..177ea79 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -47,6 +47,9 @@ pub async fn run(opts: Opts) -> Result<(), Box<dyn Error>> {
     Ok(())
 }
 
+/// Maximum number of msgs that fit in a channel between the loops
+const MAX_INTERNAL_BUFFER_SIZE: usize = usize::max_value() >> 4;
+
 fn validate_opts(opts: &opts::CommonOpts) -> io::Result<()> {
     if opts.encryption != opts::types::Encryption::None
         && opts.encryption_key.is_none()
@@ -72,6 +75,18 @@ fn validate_opts(opts: &opts::CommonOpts) -> io::Result<()> {
         ));
     }
 
+    if opts.internal_buffer_size == 0
+        || opts.internal_buffer_size > MAX_INTERNAL_BUFFER_SIZE
+    {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!(
+                "Internal buffer size must be from 1 to {}!",
+                MAX_INTERNAL_BUFFER_SIZE
+            ),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 017bade7335927bf70e5a08732a1fdd3385eda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 34/42] fix: report failures of a remote process in the command
 line tool instead of crashing

---
 src/cli/mod.rs | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 177ea79..33d6971 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -494,7 +494,7 @@ async fn process_proc(
     proc: RemoteProc,
     format: FormatOption,
     exit_print: bool,
-) -> io::Result<()> {
+) -> Result<(), Box<dyn Error>> {
     let stdin = io::stdin();
     let mut exit_instant: Option<Instant> = None;
 
@@ -527,10 +527,7 @@ async fn process_proc(
             }
         }
 
-        let stdout_args = client
-            .ask_read_proc_stdout(&proc)
-            .await
-            .expect("Failed to get stdout");
+        let stdout_args = client.ask_read_proc_stdout(&proc).await?;
         if !stdout_args.output.is_empty() {
             // NOTE: Output is bytes that need not be text, let alone text that
             //       is not cut within a character
@@ -546,14 +543,10 @@ async fn process_proc(
                     Content::from(Reply::ProcStdoutContents(stdout_args)),
                     Err("unreachable!".into()),
                 ),
-            }
-            .expect("Failed to format stdout");
+            }?;
         }
 
-        let stderr_args = client
-            .ask_read_proc_stderr(&proc)
-            .await
-            .expect("Failed to get stderr");
+        let stderr_args = client.ask_read_proc_stderr(&proc).await?;
         if !stderr_args.output.is_empty() {
             // NOTE: Output is bytes that need not be text, let alone text that
             //       is not cut within a character
@@ -569,16 +562,12 @@ async fn process_proc(
                     Content::from(Reply::ProcStderrContents(stderr_args)),
                     Err("unreachable!".into()),
                 ),
-            }
-            .expect("Failed to format stderr");
+            }?;
         }
 
         // Mark ready for exit if proc has exited
         if exit_instant.is_none() {
-            let status = client
-                .ask_read_proc_status(&proc)
-                .await
-                .expect("Failed to get proc status");
+            let status = client.ask_read_proc_status(&proc).await?;
             if !status.is_alive {
                 match format {
                     FormatOption::Human if exit_print => format_content_write!(
@@ -598,8 +587,7 @@ async fn process_proc(
                         Content::from(Reply::ProcStatus(status)),
                         Err("unreachable!".into()),
                     ),
-                }
-                .expect("Failed to format status");
+                }?;
                 exit_instant = Some(Instant::now());
             }
         }
-- 
2.43.0


From e87403a5fe5a9b64ba142e97a11b7ca8dd2c85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 35/42] fix: pass input that is not text on to a remote process
 in the command line tool

---
 src/cli/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 33d6971..e56cde0 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -507,8 +507,9 @@ async fn process_proc(
         if send_stdin {
             use io::BufRead;
             let mut handle = stdin.lock();
-            let mut line = String::new();
-            match handle.read_line(&mut line) {
+            // NOTE: Input is bytes that need not be text
+            let mut line = Vec::new();
+            match handle.read_until(b'\n', &mut line) {
                 Ok(_) => (),
                 Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
                 Err(x) => panic!("Failed to read line of input: {:?}", x),
@@ -517,9 +518,7 @@ async fn process_proc(
             if !line.is_empty() {
                 // NOTE: A proc that no longer reads its stdin (most likely as
                 //       it has exited) still has output & status to report
-                if let Err(x) = client
-                    .ask_write_proc_stdin(&proc, &line.into_bytes())
-                    .await
+                if let Err(x) = client.ask_write_proc_stdin(&proc, &line).await
                 {
                     warn!("Failed to write stdin: {}", x);
                     send_stdin = false;
-- 
2.43.0


From 77f8bb15d11f009d941e1b52c9b44fce3b23e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 36/42] fix: answer raw lines that are not text with an error
 instead of ending the session

---
 src/cli/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index e56cde0..8d6c62e 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -359,7 +359,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
             if let Some(line) = &c.input {
                 execute_raw_and_report(
                     &mut client,
-                    &line,
+                    line.as_bytes(),
                     c.format,
                     c.format,
                     c.meta_mode,
@@ -370,12 +370,10 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
             // If marked interactive, continue to read stdin for more lines
             // to execute
             if c.interactive {
-                let mut line = String::new();
-                while let Ok(n) = std::io::stdin().read_line(&mut line) {
-                    if n == 0 {
-                        break;
-                    }
-
+                use std::io::BufRead;
+                let stdin = std::io::stdin();
+                let mut line = Vec::new();
+                while stdin.lock().read_until(b'\n', &mut line)? > 0 {
                     execute_raw_and_report(
                         &mut client,
                         &line,
@@ -406,10 +404,11 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
 
 async fn execute_raw_content(
     client: &mut ConnectedClient,
-    input: &str,
+    input: &[u8],
     format: FormatOption,
 ) -> Result<Reply, Box<dyn std::error::Error>> {
-    let content: Content = format::convert_text(format, input)?;
+    let content: Content =
+        format::convert_text(format, std::str::from_utf8(input)?)?;
     match content {
         Content::Request(x) => Ok(client.ask(x).await?),
         x => Err(format!("Unexpected input: {:?}", x).into()),
@@ -418,7 +417,7 @@ async fn execute_raw_content(
 
 async fn execute_raw_content_and_metadata(
     client: &mut ConnectedClient,
-    input: &str,
+    input: &[u8],
     format: FormatOption,
 ) -> Result<
     (
@@ -428,7 +427,7 @@ async fn execute_raw_content_and_metadata(
     Box<dyn std::error::Error>,
 > {
     let content_and_metadata: ContentAndMetadata =
-        format::convert_text(format, input)?;
+        format::convert_text(format, std::str::from_utf8(input)?)?;
     match content_and_metadata {
         ContentAndMetadata {
             content: Content::Request(x),
@@ -440,7 +439,7 @@ async fn execute_raw_content_and_metadata(
 
 async fn execute_raw_and_report(
     client: &mut ConnectedClient,
-    input: &str,
+    input: &[u8],
     input_format: FormatOption,
     output_format: FormatOption,
     meta_mode: bool,
-- 
2.43.0


From bea40188f63f3a06c43abfb94d686b1f1c3a8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 37/42] fix: write the answers to raw input where asked with
 --redirect-stdout

---
 src/cli/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 8d6c62e..1fec2dd 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -363,6 +363,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
                     c.format,
                     c.format,
                     c.meta_mode,
+                    cmd.redirect_stdout.as_ref(),
                 )
                 .await?;
             }
@@ -380,6 +381,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
                         c.format,
                         c.format,
                         c.meta_mode,
+                        cmd.redirect_stdout.as_ref(),
                     )
                     .await?;
 
@@ -443,12 +445,13 @@ async fn execute_raw_and_report(
     input_format: FormatOption,
     output_format: FormatOption,
     meta_mode: bool,
+    stdout_path: Option<&PathBuf>,
 ) -> Result<(), Box<dyn std::error::Error>> {
-    if meta_mode {
+    let text = if meta_mode {
         match execute_raw_content_and_metadata(client, &input, input_format)
             .await
         {
-            Ok((result, metadata)) => format::format_println(
+            Ok((result, metadata)) => format::format(
                 output_format,
                 ContentAndMetadata {
                     content: match result {
@@ -459,7 +462,7 @@ async fn execute_raw_and_report(
                 },
                 |_| Err("Unreachable".into()),
             ),
-            Err(x) => format::format_println(
+            Err(x) => format::format(
                 output_format,
                 ContentAndMetadata {
                     content: Content::from(Reply::from(x)),
@@ -470,18 +473,21 @@ async fn execute_raw_and_report(
         }
     } else {
         match execute_raw_content(client, &input, input_format).await {
-            Ok(reply) => format::format_content_println(
+            Ok(reply) => format::format_content(
                 output_format,
                 Content::from(reply),
                 |_| Err("Unreachable".into()),
             ),
-            Err(x) => format::format_content_println(
+            Err(x) => format::format_content(
                 output_format,
                 Content::from(Reply::from(x)),
                 |_| Err("Unreachable".into()),
             ),
         }
-    }
+    }?;
+
+    write_stdout(format!("{}\n", text), stdout_path).await?;
+    Ok(())
 }
 
 async fn process_proc(
-- 
2.43.0


From a86617e107bfb1617201a4d2a561b0e1979fe21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 38/42] fix: write pieces with a delimiter as a whole, also
 when taken in parts

---
 src/utils/delimiter.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 2ae955d..39cc9c6 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -208,15 +208,30 @@ impl DelimiterWriter {
         F: FnMut(&[u8]) -> io::Result<usize>,
     {
         // Send all of the requested data first
-        f(data)?;
+        write_fully(data, &mut f)?;
 
         // Then send our delimiter
-        f(&self.delimiter)?;
+        write_fully(&self.delimiter, &mut f)?;
 
         Ok(data.len())
     }
 }
 
+/// Writes all of the data, which can take several calls as each of them
+/// is allowed to write only a part of what it is given
+fn write_fully<F>(mut data: &[u8], f: &mut F) -> io::Result<()>
+where
+    F: FnMut(&[u8]) -> io::Result<usize>,
+{
+    while !data.is_empty() {
+        match f(data)? {
+            0 => return Err(io::ErrorKind::WriteZero.into()),
+            n => data = &data[n..],
+        }
+    }
+    Ok(())
+}
+
 impl Default for DelimiterWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 3abdf593aa3c2204143143a990a38d9867da6775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 39/42] fix: keep accepting connections after failing to accept
 one

---
 src/core/event/tcp.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 31781cd..83f966c 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -9,12 +9,17 @@ use crate::core::transport::{
 use std::collections::HashMap;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
     sync::{mpsc, Mutex},
+    time,
 };
 
+/// Time to wait after failing to accept a connection before trying again
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 /// Implementation of EventManager for TCP stream
 impl EventManager {
     pub fn for_tcp_stream<A, B>(
@@ -132,9 +137,12 @@ async fn tcp_listener_inbound_loop<A, B>(
                     max_outbound_queue,
                 ));
             }
+            // Either the connection to be accepted is gone already or we lack
+            // resources at the moment, neither of which is a reason to stop
+            // accepting connections altogether
             Err(x) => {
                 error!("Listening for connections encountered error: {}", x);
-                break;
+                time::delay_for(ACCEPT_RETRY_DELAY).await;
             }
         }
     }
-- 
2.43.0


From 5f281f23a38b535fb12889f02beb59d2cb3b8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:44 +0000
Subject: [PATCH 40/42] fix: only take a request once its sender has room for
 the reply, so a client that does not read stops no other

---
 src/core/event/tcp.rs  | 67 ++++++++++++++++++++++++++++++++++++++++--
 src/core/server/mod.rs |  3 +-
 2 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 83f966c..3702df5 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -1,6 +1,7 @@
 use super::{AddrEventManager, EventManager};
 use crate::core::Msg;
 
+use futures::future;
 use log::error;
 use crate::core::transport::{
     Authenticator, Bicrypter, Decrypter, Encrypter, Signer,
@@ -30,6 +31,32 @@ impl EventManager {
         wire: Wire<A, B>,
         on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     ) -> EventManager
+    where
+        A: Authenticator + Send + Sync + 'static,
+        B: Bicrypter + Send + Sync + 'static,
+    {
+        Self::for_tcp_stream_with_room(
+            handle,
+            max_outbound_queue,
+            stream,
+            remote_addr,
+            wire,
+            on_inbound_tx,
+            false,
+        )
+    }
+
+    /// Same as `for_tcp_stream`, optionally only passing on an inbound msg once
+    /// its sender has room for one outbound msg
+    fn for_tcp_stream_with_room<A, B>(
+        handle: Handle,
+        max_outbound_queue: usize,
+        stream: TcpStream,
+        remote_addr: SocketAddr,
+        wire: Wire<A, B>,
+        on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
+        await_room: bool,
+    ) -> EventManager
     where
         A: Authenticator + Send + Sync + 'static,
         B: Bicrypter + Send + Sync + 'static,
@@ -45,6 +72,7 @@ impl EventManager {
             tx.clone(),
             reader,
             on_inbound_tx,
+            await_room,
         ));
 
         EventManager {
@@ -65,6 +93,31 @@ impl AddrEventManager {
         wire: Wire<A, B>,
         on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     ) -> AddrEventManager
+    where
+        A: Authenticator + Send + Sync + Clone + 'static,
+        B: Bicrypter + Send + Sync + Clone + 'static,
+    {
+        Self::for_tcp_listener_with_room(
+            handle,
+            max_outbound_queue,
+            listener,
+            wire,
+            on_inbound_tx,
+            false,
+        )
+    }
+
+    /// Same as `for_tcp_listener`, optionally only passing on an inbound msg
+    /// once its sender has room for one outbound msg; so, whoever sends one
+    /// reply to each msg never waits for a peer that does not read
+    pub(crate) fn for_tcp_listener_with_room<A, B>(
+        handle: Handle,
+        max_outbound_queue: usize,
+        listener: TcpListener,
+        wire: Wire<A, B>,
+        on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
+        await_room: bool,
+    ) -> AddrEventManager
     where
         A: Authenticator + Send + Sync + Clone + 'static,
         B: Bicrypter + Send + Sync + Clone + 'static,
@@ -85,6 +138,7 @@ impl AddrEventManager {
             connections,
             on_inbound_tx,
             max_outbound_queue,
+            await_room,
         ));
 
         AddrEventManager {
@@ -120,6 +174,7 @@ async fn tcp_listener_inbound_loop<A, B>(
     connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
     on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     max_outbound_queue: usize,
+    await_room: bool,
 ) where
     A: Authenticator + Send + Sync + Clone + 'static,
     B: Bicrypter + Send + Sync + Clone + 'static,
@@ -135,6 +190,7 @@ async fn tcp_listener_inbound_loop<A, B>(
                     Arc::clone(&connections),
                     on_inbound_tx.clone(),
                     max_outbound_queue,
+                    await_room,
                 ));
             }
             // Either the connection to be accepted is gone already or we lack
@@ -159,17 +215,19 @@ async fn tcp_listener_spawn_stream<A, B>(
     connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
     on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     max_outbound_queue: usize,
+    await_room: bool,
 ) where
     A: Authenticator + Send + Sync + 'static,
     B: Bicrypter + Send + Sync + 'static,
 {
-    let event_manager = EventManager::for_tcp_stream(
+    let event_manager = EventManager::for_tcp_stream_with_room(
         handle,
         max_outbound_queue,
         stream,
         addr,
         wire,
         on_inbound_tx,
+        await_room,
     );
 
     connections
@@ -219,13 +277,18 @@ async fn tcp_stream_inbound_loop<V, D>(
     tx: mpsc::Sender<Vec<u8>>,
     mut reader: TcpStreamInboundWire<V, D>,
     on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
+    await_room: bool,
 ) where
     V: Verifier,
     D: Decrypter,
 {
     loop {
-        let tx_2 = tx.clone();
+        let mut tx_2 = tx.clone();
         let result = reader.read().await;
+        if await_room && future::poll_fn(|cx| tx_2.poll_ready(cx)).await.is_err()
+        {
+            break;
+        }
         if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {
             break;
         }
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index ea5e368..ef0c3f0 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -174,12 +174,13 @@ where
 
     let (tx, rx) = mpsc::channel(server.buffer);
     let event_handle = handle.spawn(tcp_event_loop(Arc::clone(&state), rx));
-    let addr_event_manager = AddrEventManager::for_tcp_listener(
+    let addr_event_manager = AddrEventManager::for_tcp_listener_with_room(
         handle.clone(),
         server.buffer,
         listener,
         wire,
         tx,
+        true,
     );
 
     Ok(ListeningServer {
-- 
2.43.0


From 42c3e98a41a26d9ec6975d27c49eaedd11053fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:12 +0000
Subject: [PATCH 41/42] fix: end a server's tasks, connections included, when
 it is shut down

---
 src/core/event/mod.rs        | 30 ++++++++++++++++++-
 src/core/event/tcp.rs        | 58 +++++++++++++++++++++++++-----------
 src/core/event/udp.rs        | 20 ++++++-------
 src/core/server/listening.rs |  8 ++++-
 src/core/server/mod.rs       | 13 ++++++--
 5 files changed, 96 insertions(+), 33 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 9231ecc..ea74b27 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -3,14 +3,17 @@ mod udp;
 
 use crate::core::Msg;
 
+use futures::future::{self, AbortHandle};
 use log::{error, trace, warn};
 use crate::core::transport::InboundWireError;
+use std::future::Future;
 use std::io;
 use std::net::SocketAddr;
-use tokio::{sync::mpsc, task};
+use tokio::{runtime::Handle, sync::mpsc, task};
 
 pub struct EventManager {
     inbound_handle: task::JoinHandle<()>,
+    inbound_abort_handle: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
     tx: mpsc::Sender<Vec<u8>>,
 }
@@ -27,6 +30,7 @@ impl EventManager {
             inbound_handle,
             outbound_handle,
             tx,
+            ..
         } = self;
         drop(tx);
 
@@ -36,6 +40,7 @@ impl EventManager {
 
 pub struct AddrEventManager {
     inbound_handle: task::JoinHandle<()>,
+    inbound_abort_handle: AbortHandle,
     outbound_handle: task::JoinHandle<()>,
     tx: mpsc::Sender<(Vec<u8>, SocketAddr)>,
 }
@@ -49,6 +54,11 @@ impl AddrEventManager {
         self.tx.send((data, addr)).await.map_err(|x| x.0)
     }
 
+    /// Stops receiving data and accepting connections
+    pub(crate) fn stop_inbound(&self) {
+        self.inbound_abort_handle.abort();
+    }
+
     pub async fn wait(self) -> Result<(), task::JoinError> {
         // NOTE: The outbound loop only ends once all senders are gone, which
         //       requires that we do not keep one ourselves while waiting
@@ -56,6 +66,7 @@ impl AddrEventManager {
             inbound_handle,
             outbound_handle,
             tx,
+            ..
         } = self;
         drop(tx);
 
@@ -63,6 +74,21 @@ impl AddrEventManager {
     }
 }
 
+/// Spawns a task that also ends, dropping all that it holds, once aborted
+pub(crate) fn spawn_abortable<F>(
+    handle: &Handle,
+    task: F,
+) -> (task::JoinHandle<()>, AbortHandle)
+where
+    F: Future<Output = ()> + Send + 'static,
+{
+    let (task, abort_handle) = future::abortable(task);
+    let join_handle = handle.spawn(async move {
+        let _ = task.await;
+    });
+    (join_handle, abort_handle)
+}
+
 /// Process result of receiving data, indicating whether should continue
 /// processing additional data
 async fn process_inbound<T>(
@@ -84,7 +110,9 @@ where
                     if let Err(x) =
                         on_inbound_tx.send((msg, addr, sender)).await
                     {
+                        // Nobody is left to receive any msg
                         error!("Encountered error: {}", x);
+                        return false;
                     }
 
                     true
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 3702df5..38af417 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -1,7 +1,10 @@
 use super::{AddrEventManager, EventManager};
 use crate::core::Msg;
 
-use futures::future;
+use futures::{
+    channel::oneshot,
+    future::{self, Either, FutureExt},
+};
 use log::error;
 use crate::core::transport::{
     Authenticator, Bicrypter, Decrypter, Encrypter, Signer,
@@ -68,15 +71,19 @@ impl EventManager {
 
         let outbound_handle =
             handle.spawn(tcp_stream_outbound_loop(rx, writer));
-        let inbound_handle = handle.spawn(tcp_stream_inbound_loop(
-            tx.clone(),
-            reader,
-            on_inbound_tx,
-            await_room,
-        ));
+        let (inbound_handle, inbound_abort_handle) = super::spawn_abortable(
+            &handle,
+            tcp_stream_inbound_loop(
+                tx.clone(),
+                reader,
+                on_inbound_tx,
+                await_room,
+            ),
+        );
 
         EventManager {
             inbound_handle,
+            inbound_abort_handle,
             outbound_handle,
             tx,
         }
@@ -131,19 +138,23 @@ impl AddrEventManager {
         let outbound_handle = handle
             .spawn(tcp_listener_outbound_loop(rx, Arc::clone(&connections)));
 
-        let inbound_handle = handle.spawn(tcp_listener_inbound_loop(
-            handle.clone(),
-            listener,
-            wire,
-            connections,
-            on_inbound_tx,
-            max_outbound_queue,
-            await_room,
-        ));
+        let (inbound_handle, inbound_abort_handle) = super::spawn_abortable(
+            &handle,
+            tcp_listener_inbound_loop(
+                handle.clone(),
+                listener,
+                wire,
+                connections,
+                on_inbound_tx,
+                max_outbound_queue,
+                await_room,
+            ),
+        );
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
+            inbound_abort_handle,
             tx,
         }
     }
@@ -179,10 +190,15 @@ async fn tcp_listener_inbound_loop<A, B>(
     A: Authenticator + Send + Sync + Clone + 'static,
     B: Bicrypter + Send + Sync + Clone + 'static,
 {
+    // Dropped together with this loop, at which point connections are to end
+    let (_stop_tx, stop_rx) = oneshot::channel::<()>();
+    let stop_rx = stop_rx.shared();
+
     loop {
         match listener.accept().await {
             Ok((stream, addr)) => {
                 handle.spawn(tcp_listener_spawn_stream(
+                    stop_rx.clone(),
                     stream,
                     addr,
                     handle.clone(),
@@ -208,6 +224,7 @@ async fn tcp_listener_inbound_loop<A, B>(
 /// outbound msgs, waits for the EventManager to conclude (when the stream
 /// is closed), and cleans up
 async fn tcp_listener_spawn_stream<A, B>(
+    stop_rx: future::Shared<oneshot::Receiver<()>>,
     stream: TcpStream,
     addr: SocketAddr,
     handle: Handle,
@@ -240,13 +257,18 @@ async fn tcp_listener_spawn_stream<A, B>(
     // been sent, which requires that we do not keep a sender ourselves
     let EventManager {
         inbound_handle,
+        inbound_abort_handle,
         outbound_handle,
         tx,
     } = event_manager;
     drop(tx);
 
-    if let Err(x) = inbound_handle.await {
-        error!("Event manager exited badly: {}", x);
+    match future::select(inbound_handle, stop_rx).await {
+        Either::Left((Ok(_), _)) => {}
+        Either::Left((Err(x), _)) => {
+            error!("Event manager exited badly: {}", x)
+        }
+        Either::Right(_) => inbound_abort_handle.abort(),
     }
 
     connections.lock().await.remove(&addr);
diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index 5126757..792896b 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -32,15 +32,15 @@ impl AddrEventManager {
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
         let outbound_handle =
             handle.spawn(udp_socket_outbound_loop(rx, writer));
-        let inbound_handle = handle.spawn(udp_socket_inbound_loop(
-            tx.clone(),
-            reader,
-            on_inbound_tx,
-        ));
+        let (inbound_handle, inbound_abort_handle) = super::spawn_abortable(
+            &handle,
+            udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx),
+        );
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
+            inbound_abort_handle,
             tx,
         }
     }
@@ -69,15 +69,15 @@ impl AddrEventManager {
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
         let outbound_handle =
             handle.spawn(udp_socket_outbound_loop(rx, writer));
-        let inbound_handle = handle.spawn(udp_socket_inbound_loop(
-            tx.clone(),
-            reader,
-            on_inbound_tx,
-        ));
+        let (inbound_handle, inbound_abort_handle) = super::spawn_abortable(
+            &handle,
+            udp_socket_inbound_loop(tx.clone(), reader, on_inbound_tx),
+        );
 
         AddrEventManager {
             outbound_handle,
             inbound_handle,
+            inbound_abort_handle,
             tx,
         }
     }
diff --git a/src/core/server/listening.rs b/src/core/server/listening.rs
index 71cf137..9322f41 100644
--- a/src/core/server/listening.rs
+++ b/src/core/server/listening.rs
@@ -1,5 +1,6 @@
 use super::state::ServerState;
 use crate::core::event::AddrEventManager;
+use futures::future::AbortHandle;
 use std::net::SocketAddr;
 use std::sync::Arc;
 use tokio::task::{JoinError, JoinHandle};
@@ -17,6 +18,9 @@ pub struct ListeningServer {
 
     /// Represents the handle for processing events
     pub(super) event_handle: JoinHandle<()>,
+
+    /// Represents the handle for ending the processing of events
+    pub(super) event_abort_handle: AbortHandle,
 }
 
 impl ListeningServer {
@@ -33,7 +37,9 @@ impl ListeningServer {
     /// Flags the server's internal state as no longer running, closing down
     /// all running tasks
     pub fn shutdown(&self) {
-        self.state.shutdown()
+        self.state.shutdown();
+        self.addr_event_manager.stop_inbound();
+        self.event_abort_handle.abort();
     }
 
     /// Waits for the server to complete
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index ef0c3f0..332b641 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -8,7 +8,10 @@ pub mod state;
 pub use listening::ListeningServer;
 
 use crate::core::transport::{Authenticator, Bicrypter, NetTransmission, Wire};
-use crate::core::{event::AddrEventManager, Msg, Transport};
+use crate::core::{
+    event::{self, AddrEventManager},
+    Msg, Transport,
+};
 use crate::utils::MAX_TIMER_DURATION;
 use derive_builder::Builder;
 use log::error;
@@ -173,7 +176,8 @@ where
     );
 
     let (tx, rx) = mpsc::channel(server.buffer);
-    let event_handle = handle.spawn(tcp_event_loop(Arc::clone(&state), rx));
+    let (event_handle, event_abort_handle) =
+        event::spawn_abortable(&handle, tcp_event_loop(Arc::clone(&state), rx));
     let addr_event_manager = AddrEventManager::for_tcp_listener_with_room(
         handle.clone(),
         server.buffer,
@@ -188,6 +192,7 @@ where
         addr_event_manager,
         state,
         event_handle,
+        event_abort_handle,
     })
 }
 
@@ -228,7 +233,8 @@ where
     );
 
     let (tx, rx) = mpsc::channel(server.buffer);
-    let event_handle = handle.spawn(udp_event_loop(Arc::clone(&state), rx));
+    let (event_handle, event_abort_handle) =
+        event::spawn_abortable(&handle, udp_event_loop(Arc::clone(&state), rx));
     let addr_event_manager = AddrEventManager::for_udp_socket(
         handle.clone(),
         server.buffer,
@@ -242,6 +248,7 @@ where
         addr_event_manager,
         state,
         event_handle,
+        event_abort_handle,
     })
 }
 
-- 
2.43.0


From 9ea4ffdda9b8ee343d127df87c4ee63644acce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 42/42] fix: answer a request that panics with an error instead
 of ending all handling of requests

---
 src/core/server/action/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index 8d65440..79489df 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -10,6 +10,7 @@ use futures::future::{BoxFuture, FutureExt};
 use log::trace;
 use std::collections::hash_map::Entry;
 use std::net::SocketAddr;
+use std::panic::AssertUnwindSafe;
 use std::sync::Arc;
 use std::time::Instant;
 use tokio::{runtime::Handle, sync::mpsc};
@@ -180,7 +181,17 @@ async fn validate_route_and_execute(
         .into_request()
         .ok_or(ActionError::UnexpectedContent)?;
     update_origin_last_touched(Arc::clone(&state), origin).await;
-    Ok(route_and_execute(state, request, max_depth).await)
+
+    // A request that panics, such as through the handler of a custom request,
+    // must not take down the task that all requests are executed by
+    Ok(
+        AssertUnwindSafe(route_and_execute(state, request, max_depth))
+            .catch_unwind()
+            .await
+            .unwrap_or_else(|_| {
+                Reply::Error(ReplyError::from("Panicked handling request"))
+            }),
+    )
 }
 
 /// Determines the appropriate handler for a request and executes it
-- 
2.43.0

