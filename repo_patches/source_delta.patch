From 855eb3cefd1ba1900a0e1c6f6749807855dfc08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 01/12] fix: stop the async writer task once the shaped writer
 is dropped

---
 traffic/src/futures.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..a1ae30b 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,12 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let cmd = match cmd {
+                    Some(cmd) => cmd,
+                    None => break,
+                };
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +248,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From 3754ae072a10b97ef246c2c7328bf7ae1dddad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 02/12] fix: report a too small ciphertext instead of
 underflowing in decrypt_to_vec

---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..5048bf2 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -572,6 +572,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From 17a40b7e772b61b9d9933494c638ca74a02e7829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 03/12] fix: enforce the packet size limit before allocating
 when reading packets

---
 protocol/src/futures.rs | 6 ++++++
 protocol/src/io.rs      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dd6af62..46f74fb 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -418,6 +418,12 @@ where
                     }
 
                     let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(*length_bytes);
+                    if InboundCipher::decryption_buffer_len(packet_bytes_len)
+                        > MAX_PACKET_SIZE_FOR_ALLOCATION
+                    {
+                        self.state = DecryptState::init_reading_length();
+                        return Err(ProtocolError::Internal(Error::PacketTooBig));
+                    }
                     self.state = DecryptState::init_reading_payload(packet_bytes_len);
                 }
                 DecryptState::ReadingPayload {
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..fd5f9d7 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -527,6 +527,9 @@ where
         let mut length_bytes = [0u8; NUM_LENGTH_BYTES];
         self.reader.read_exact(&mut length_bytes)?;
         let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(length_bytes);
+        if InboundCipher::decryption_buffer_len(packet_bytes_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
+            return Err(ProtocolError::Internal(Error::PacketTooBig));
+        }
 
         // Read packet data.
         let mut packet_bytes = vec![0u8; packet_bytes_len];
-- 
2.43.0


From 13be81ab386f6bf2b3f7af71346e84175c1eedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 04/12] fix: refuse to encrypt contents which do not fit the
 packet length prefix

---
 protocol/src/io.rs  | 11 ++++++++---
 protocol/src/lib.rs | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index fd5f9d7..cdbac81 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -567,9 +567,14 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 5048bf2..cb88c55 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -168,6 +168,8 @@ const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + N
 // 14 extra bytes are for the BIP-324 header byte and 13 serialization header bytes (message type).
 #[cfg(feature = "std")]
 const MAX_PACKET_SIZE_FOR_ALLOCATION: usize = 4000014;
+// Maximum number of content bytes which can be encoded in the length prefix of a packet.
+const MAX_CONTENT_BYTES: usize = (1 << (8 * NUM_LENGTH_BYTES)) - 1;
 // Version content is always empty for the current version of the protocol.
 const VERSION_CONTENT: [u8; 0] = [];
 
@@ -614,6 +616,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext is too long for the length prefix of a packet.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -621,6 +624,11 @@ impl OutboundCipher {
         packet_type: PacketType,
         aad: Option<&[u8]>,
     ) -> Result<(), Error> {
+        // A longer plaintext would be silently truncated by the length prefix.
+        if plaintext.len() > MAX_CONTENT_BYTES {
+            return Err(Error::PacketTooBig);
+        }
+
         // Validate buffer capacity.
         if ciphertext_buffer.len() < Self::encryption_buffer_len(plaintext.len()) {
             return Err(Error::BufferTooSmall {
@@ -671,6 +679,10 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext is too long for the 3 byte length prefix of a packet.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -681,9 +693,9 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // This only fails for an unencodable length since we allocate the exact required size
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
-            .expect("encrypt should never fail with correctly sized buffer");
+            .expect("plaintext should fit in a packet");
 
         ciphertext_buffer
     }
-- 
2.43.0


From df1be9fbbecaddaac9761397f8ec3c6da4a1e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 05/12] fix: do not overflow the length cipher counter after
 2^32 packets

---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..a87ed8f 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_div = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_div);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From 3a94687071f2ae73184190e2786ba4937ed4778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 06/12] fix: retry interrupted reads while searching for the
 garbage terminator

---
 protocol/src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index cdbac81..d7dd576 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -379,6 +379,8 @@ where
                     Ok(n) => {
                         garbage_buffer.extend_from_slice(&temp[..n]);
                     }
+                    // Retryable, matches the behavior of read_exact.
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                     Err(e) => return Err(ProtocolError::from(e)),
                 }
             }
-- 
2.43.0


From 7eb130cfa02ba3a77d3b3628791a0d3838081906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 07/12] fix: ignore the reserved header bits when checking the
 decoy flag

---
 protocol/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index cb88c55..bd79324 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,9 +396,9 @@ pub enum PacketType {
 }
 
 impl PacketType {
-    /// Check if header byte has the decoy flag flipped.
+    /// Check if header byte has the decoy flag flipped, all other bits are ignored.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From ea6f1bff999b2489bae1f2d1b81c207e6a2db0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 08/12] fix: count idle time of default traffic stats from
 their creation

---
 traffic/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index d7be82a..575d134 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -241,7 +241,7 @@ pub trait TrafficStats: Send + Sync {
 ///
 /// All methods on this struct are safe to call from multiple threads concurrently.
 /// The statistics use atomic operations to ensure consistency without locks.
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct AtomicTrafficStats {
     /// Total bytes read from the connection.
     bytes_read: AtomicU64,
@@ -282,6 +282,12 @@ impl AtomicTrafficStats {
     }
 }
 
+impl Default for AtomicTrafficStats {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl TrafficStats for AtomicTrafficStats {
     fn record_read(&self, bytes: usize) {
         self.bytes_read.fetch_add(bytes as u64, Ordering::Relaxed);
-- 
2.43.0


From 5e98acf534101a1b27c30ca6c63ef4cebcb2a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 09/12] fix: pick a random looking encoding of the ephemeral
 public key

---
 protocol/src/handshake.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/protocol/src/handshake.rs b/protocol/src/handshake.rs
index 2bcc693..08d68a4 100644
--- a/protocol/src/handshake.rs
+++ b/protocol/src/handshake.rs
@@ -11,7 +11,8 @@ use core::borrow::Borrow;
 
 use secp256k1::{
     ellswift::{ElligatorSwift, ElligatorSwiftParty},
-    PublicKey, Secp256k1, SecretKey, Signing,
+    ffi::{self, CPtr},
+    Secp256k1, SecretKey, Signing,
 };
 
 use crate::{
@@ -96,6 +97,28 @@ pub struct Handshake<State> {
     state: State,
 }
 
+/// Encode the public key of a secret key, picking one of its many encodings pseudo-randomly
+/// based on the secret.
+///
+/// [`ElligatorSwift::from_pubkey`] always picks the same encoding of a public key. An observer
+/// could recompute it from the transmitted bytes and tell them apart from random bytes.
+fn encode_key<C: Signing>(curve: &Secp256k1<C>, sk: &SecretKey) -> ElligatorSwift {
+    let mut encoding = [0u8; NUM_ELLIGATOR_SWIFT_BYTES];
+    // SAFETY: The context is capable of signing, both buffers have the required size, and the
+    // auxiliary randomness is optional. [`ElligatorSwift::from_seckey`] is the same call, but
+    // is restricted to verification contexts.
+    let ret = unsafe {
+        ffi::secp256k1_ellswift_create(
+            curve.ctx().as_ptr(),
+            encoding.as_mut_c_ptr(),
+            sk.as_c_ptr(),
+            core::ptr::null(),
+        )
+    };
+    debug_assert_eq!(ret, 1);
+    ElligatorSwift::from_array(encoding)
+}
+
 // Methods available in all states.
 impl<State> Handshake<State> {
     /// Get the network this handshake is operating on.
@@ -129,8 +152,7 @@ impl Handshake<Initialized> {
         rng.fill_bytes(&mut secret_key_buffer);
         debug_assert_ne!([0u8; 32], secret_key_buffer);
         let sk = SecretKey::from_slice(&secret_key_buffer)?;
-        let pk = PublicKey::from_secret_key(curve, &sk);
-        let es = ElligatorSwift::from_pubkey(pk);
+        let es = encode_key(curve, &sk);
 
         let point = EcdhPoint {
             secret_key: sk,
-- 
2.43.0


From 9627534b85e1e911007eea01922fd08bfd2c1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:50 +0000
Subject: [PATCH 10/12] fix: report failed background decoy writes instead of
 corrupting the stream

---
 traffic/src/futures.rs | 24 +++++++++++++++++-------
 traffic/src/io.rs      | 14 +++++++++++++-
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index a1ae30b..ae82c64 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -211,6 +211,9 @@ async fn writer_task<W, R>(
 {
     let mut decoy_interval =
         tokio::time::interval(Duration::from_millis(DEFAULT_CHECK_INTERVAL_MS));
+    let mut decoys_enabled = true;
+    // Failed write of a decoy which has not been reported to the caller yet.
+    let mut decoy_error = None;
 
     loop {
         tokio::select! {
@@ -221,12 +224,16 @@ async fn writer_task<W, R>(
                     Some(cmd) => cmd,
                     None => break,
                 };
-                let mut result = Ok(());
+                // The remote may have only received a part of a failed decoy and can't make
+                // sense of anything following it.
+                let mut result = decoy_error.take().map_or(Ok(()), Err);
 
                 // First, send decoy packet if padding is enabled.
-                if let Some(decoy) = shaper.pad(&cmd.payload, &stats) {
-                    if let Err(e) = writer.write(&decoy).await {
-                        result = Err(e);
+                if result.is_ok() {
+                    if let Some(decoy) = shaper.pad(&cmd.payload, &stats) {
+                        if let Err(e) = writer.write(&decoy).await {
+                            result = Err(e);
+                        }
                     }
                 }
 
@@ -242,10 +249,13 @@ async fn writer_task<W, R>(
             }
 
             // Concurrently send decoys.
-            _ = decoy_interval.tick() => {
+            _ = decoy_interval.tick(), if decoys_enabled => {
                 if let Some(decoy) = shaper.decoy(&stats) {
-                    // Ignore write errors for decoys - they're best-effort.
-                    let _ = writer.write(&decoy).await;
+                    // Stop sending decoys and report the error with the next write.
+                    if let Err(e) = writer.write(&decoy).await {
+                        decoys_enabled = false;
+                        decoy_error = Some(e);
+                    }
                 }
             }
         }
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..37c42ec 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -19,6 +19,8 @@ use crate::{
 struct WriterState<W, R = rand::rngs::StdRng> {
     writer: ProtocolWriter<W>,
     shaper: TrafficShaper<R>,
+    /// Failed write of a decoy which has not been reported to the caller yet.
+    decoy_error: Option<ProtocolError>,
 }
 
 /// Traffic-shaped protocol reader half.
@@ -124,6 +126,7 @@ where
         let writer_state = Arc::new(Mutex::new(WriterState {
             writer: protocol_writer,
             shaper,
+            decoy_error: None,
         }));
 
         // Create shutdown flag and spawn decoy thread.
@@ -184,6 +187,11 @@ where
     /// Write a payload with traffic shaping.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
         let mut state = self.writer_state.lock().unwrap();
+        // The remote may have only received a part of the decoy and can't make sense of
+        // anything following it.
+        if let Some(e) = state.decoy_error.take() {
+            return Err(e);
+        }
         if let Some(decoy) = state.shaper.pad(payload, &self.stats) {
             state.writer.write(&decoy)?;
         }
@@ -227,7 +235,11 @@ fn decoy_thread<W, R>(
         };
 
         if let Some(decoy) = state.shaper.decoy(&stats) {
-            let _ = state.writer.write(&decoy);
+            if let Err(e) = state.writer.write(&decoy) {
+                // Reported by the next write.
+                state.decoy_error = Some(e);
+                break;
+            }
         }
     }
 }
-- 
2.43.0


From ea7b673b162f738d0f5ec6d39edc215e467c6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:43 +0000
Subject: [PATCH 11/12] hook: seek to a packet index under cfg(bip324_verif)

---
 protocol/src/fschacha20poly1305.rs | 19 +++++++++++++++++++
 protocol/src/lib.rs                | 24 ++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index a87ed8f..1ea3597 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -175,3 +175,22 @@ impl FSChaCha20 {
         self.chunk_counter += 1;
     }
 }
+
+/// Verification hooks, jump to a position in the stream without applying the skipped re-keyings.
+#[cfg(bip324_verif)]
+mod verif {
+    use super::*;
+
+    impl FSChaCha20Poly1305 {
+        pub(crate) fn verif_seek(&mut self, packets: u64) {
+            self.message_counter = packets as _;
+        }
+    }
+
+    impl FSChaCha20 {
+        pub(crate) fn verif_seek(&mut self, packets: u64) {
+            self.chunk_counter = packets as _;
+            self.block_counter = (packets % REKEY_INTERVAL) as u32 * LENGTH_BYTES;
+        }
+    }
+}
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index bd79324..7923a4f 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -121,6 +121,8 @@
 //! The protocol supports both genuine packets containing application data and decoy
 //! packets with random data for traffic analysis resistance.
 #![no_std]
+// The bip324_verif configuration guards hooks for external verification.
+#![allow(unknown_lints, unexpected_cfgs)]
 
 #[cfg(feature = "std")]
 extern crate std;
@@ -701,6 +703,28 @@ impl OutboundCipher {
     }
 }
 
+/// Verification hooks, jump to a position in the stream without applying the skipped re-keyings.
+#[cfg(bip324_verif)]
+mod verif {
+    use super::*;
+
+    impl InboundCipher {
+        #[doc(hidden)]
+        pub fn verif_seek(&mut self, packets: u64) {
+            self.length_cipher.verif_seek(packets);
+            self.packet_cipher.verif_seek(packets);
+        }
+    }
+
+    impl OutboundCipher {
+        #[doc(hidden)]
+        pub fn verif_seek(&mut self, packets: u64) {
+            self.length_cipher.verif_seek(packets);
+            self.packet_cipher.verif_seek(packets);
+        }
+    }
+}
+
 /// Manages cipher state for a BIP-324 encrypted connection.
 #[derive(Clone)]
 pub struct CipherSession {
-- 
2.43.0


From d68703a70f18a7a5bd6d858f3ccc7c3a21e46b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:43 +0000
Subject: [PATCH 12/12] hook: expose the statistics of shaped connections under
 cfg(bip324_verif)

---
 traffic/src/futures.rs | 12 ++++++++++++
 traffic/src/io.rs      | 13 +++++++++++++
 traffic/src/lib.rs     |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index ae82c64..e6a2c70 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -262,6 +262,18 @@ async fn writer_task<W, R>(
     }
 }
 
+/// Verification hook, expose the statistics recorded for the connection.
+#[cfg(bip324_verif)]
+impl<R> ShapedProtocol<R>
+where
+    R: AsyncRead + Unpin + Send,
+{
+    #[doc(hidden)]
+    pub fn verif_stats(&self) -> Arc<AtomicTrafficStats> {
+        self.reader.stats.clone()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 37c42ec..d0bd26d 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -244,6 +244,19 @@ fn decoy_thread<W, R>(
     }
 }
 
+/// Verification hook, expose the statistics recorded for the connection.
+#[cfg(bip324_verif)]
+impl<R, W> ShapedProtocol<R, W>
+where
+    R: Read,
+    W: Write,
+{
+    #[doc(hidden)]
+    pub fn verif_stats(&self) -> Arc<AtomicTrafficStats> {
+        self.reader.stats.clone()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index 575d134..93b4dda 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -78,6 +78,9 @@
 //! # }
 //! ```
 
+// The bip324_verif configuration guards hooks for external verification.
+#![allow(unknown_lints, unexpected_cfgs)]
+
 use core::sync::atomic::{AtomicU64, Ordering};
 use core::time::Duration;
 
-- 
2.43.0

