From b473027dba52961cb2c135deb67bc51c71a61803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 01/10] fix: refuse too short messages and wrong declared
 lengths instead of panicking

---
 src/encryption/chacha20_poly1305_aead.rs |  4 +++
 src/reader.rs                            | 37 ++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..6d08c80 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,9 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..cba68d6 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -42,6 +42,11 @@ pub(crate) fn read(
     incoming_data: &[u8],
     check_encrypt_state: bool,
 ) -> std::result::Result<DecryptedIncomingData, Error> {
+    // Any message must be long enough to contain the magic value
+    if incoming_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
@@ -61,20 +66,28 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
+    if decrypted_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
+    if decrypted_data.len() < VERSION_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
+    if decrypted_data.len() < ENCAPSULED_MSG_BEGIN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -84,20 +97,35 @@ pub(crate) fn read(
         Err(Error::RecvInvalidMsg(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
+    } else if encapsuled_msg_size < type_headers_len as u64
+        || encapsuled_msg_size > (decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64
+    {
+        // The declared size does not fit the received data
+        Err(IncomingMsgErr::MessageTooShort.into())
     } else {
         Ok(DecryptedIncomingData {
             data: decrypted_data,
             user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
-            user_msg_end,
+            user_msg_end: ENCAPSULED_MSG_BEGIN + encapsuled_msg_size as usize,
             msg_type_headers,
         })
     }
 }
 
+fn check_len(bytes: &[u8], min_len: usize) -> Result<()> {
+    if bytes.len() < min_len {
+        Err(IncomingMsgErr::MessageTooShort.into())
+    } else {
+        Ok(())
+    }
+}
+
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    check_len(type_headers, MSG_TYPE_LEN)?;
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
+            check_len(type_headers, MSG_TYPE_LEN + NONCE_SIZE)?;
             let mut nonce = [0u8; NONCE_SIZE];
             nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
             Ok((
@@ -108,12 +136,14 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             ))
         }
         CONNECT_MSG_TYPE => {
+            check_len(type_headers, SIG_PUBKEY_BEGIN)?;
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
             peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
             // Read SIG_ALGO and SIG_PUBKEY
             match &type_headers[(MSG_TYPE_LEN + EPK_SIZE)..(SIG_PUBKEY_BEGIN)] {
                 SIG_ALGO_ED25519 => {
+                    check_len(type_headers, SIG_PUBKEY_BEGIN + 32)?;
                     let mut sig_algo = [0u8; SIG_ALGO_LEN];
                     sig_algo.copy_from_slice(
                         &type_headers
@@ -133,6 +163,7 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             }
         }
         ACK_MSG_TYPE => {
+            check_len(type_headers, MSG_TYPE_LEN + CHALLENGE_SIZE)?;
             let mut challenge = [0u8; CHALLENGE_SIZE];
             challenge
                 .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
-- 
2.43.0


From 41e81d2eda8a75b72a3e149de90c5976dae54f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 02/10] fix: adopt the peer public key only once its signature
 is verified

---
 src/minimal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..70b3e14 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -205,6 +203,11 @@ impl MinimalSecureLayer {
                     return Err(IncomingMsgErr::InvalidHashOrSig.into());
                 }
 
+                // Get peer sig pubkey
+                if self.peer_sig_pubkey.is_none() {
+                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+                }
+
                 // Update status
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
-- 
2.43.0


From 2e8b52ab9b6d96d76ec0bd018a127026b8b9e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 03/10] fix: fail the layer when no agreement can be computed
 with the peer ephemeral key

---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 70b3e14..6cd9e0c 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -214,7 +214,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From b378b975c9dd4a4e36247efbdebc40ca95ff04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 04/10] fix: write messages entirely even if the writer accepts
 only a part at a time

---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 6d08c80..52ea8b3 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag)
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From f15a7b21c2b6b031402d15e38cea1f85d63c9745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 05/10] fix: return an error instead of panicking on plain text
 typed messages

---
 src/complete/serde/deserializer.rs | 5 +++--
 src/complete/serde/serializer.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..efeeba7 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -89,7 +89,9 @@ where
     M: Debug + DeserializeOwned,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -101,6 +103,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..57288d2 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -104,7 +104,9 @@ where
     W: Write,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -116,6 +118,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
-- 
2.43.0


From b565524a940e457d11cd9bc3b6da57cc481d6dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 06/10] fix: do not lose the early user messages when one of
 them is a duplicate

---
 src/minimal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 6cd9e0c..56a0855 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -134,8 +134,13 @@ impl MinimalSecureLayer {
         let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
         let mut msgs = Vec::with_capacity(bin_msgs.len());
         for bin_msg in bin_msgs {
-            if let Some(msg) = self.read_inner(&bin_msg, false)? {
-                msgs.push(msg);
+            match self.read_inner(&bin_msg, false) {
+                Ok(Some(msg)) => msgs.push(msg),
+                Ok(None) => {}
+                // A duplicate or corrupted message must not prevent from delivering the others
+                Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidNonce))
+                | Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidHashOrSig)) => {}
+                Err(e) => return Err(e),
             }
         }
         Ok(msgs)
-- 
2.43.0


From f5805f56698250ae2f11dcbb676abbe2239b454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 07/10] fix: bound the number of user messages held before the
 end of the negotiation

---
 src/minimal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index 56a0855..8aab13a 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -261,6 +261,10 @@ impl MinimalSecureLayer {
                     .status
                     .apply_action(Action::Receive(MsgType::UserMsg))?
                 {
+                    if self.tmp_stack_user_msgs.len() >= MAX_ORPHAN_NONCES {
+                        self.status = SecureLayerStatus::Fail;
+                        return Err(Error::TooManyUnorderedMsgs);
+                    }
                     self.tmp_stack_user_msgs.push(data);
                     return Ok(None);
                 }
-- 
2.43.0


From 7057ca4de881be77523635868adf9ef18e11038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 08/10] fix: do not negotiate with our own connect message sent
 back

---
 src/minimal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index 8aab13a..147e107 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -208,6 +208,12 @@ impl MinimalSecureLayer {
                     return Err(IncomingMsgErr::InvalidHashOrSig.into());
                 }
 
+                // The peer can't have the same ephemeral key: this is our own message sent back
+                if peer_ephemeral_pk[..] == *self.ephemeral_pubkey.as_ref() {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(IncomingMsgErr::UnexpectedConnectMsg.into());
+                }
+
                 // Get peer sig pubkey
                 if self.peer_sig_pubkey.is_none() {
                     self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
-- 
2.43.0


From 2a05c5bafe007a0305f7930cf28140a8db3554f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 09/10] fix: report the connect message even if the ack message
 set aside is forged

---
 src/complete.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index d7fa065..61b6d43 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -23,6 +23,7 @@ pub mod writer;
 #[cfg(feature = "ser")]
 pub use self::serde::IncomingMessage;
 
+use crate::errors::IncomingMsgErr;
 use crate::{Error, Message, MinimalSecureLayer, Result, SecureLayerConfig, Seed32};
 use flate2::write::{DeflateDecoder, DeflateEncoder};
 use message::IncomingBinaryMessage;
@@ -130,9 +131,13 @@ impl SecureLayer {
                         },
                         peer_sig_public_key: sig_pubkey,
                     });
-                    if let Some(Message::Ack { custom_data }) =
-                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?
-                    {
+                    let ack_msg_recv_too_early =
+                        match self.minimal_secure_layer.take_ack_msg_recv_too_early() {
+                            // A forged ack message must not hide the connect message
+                            Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidHashOrSig)) => None,
+                            result => result?,
+                        };
+                    if let Some(Message::Ack { custom_data }) = ack_msg_recv_too_early {
                         messages.push(IncomingBinaryMessage::Ack {
                             custom_data: if let Some(custom_data) = custom_data {
                                 Some(Self::uncompress(&custom_data)?)
-- 
2.43.0


From 16d50113fb7b7e57a8e6a2b370dc8497caad2913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 10/10] fix: the crate does not compile without the zip-sign
 feature

SecureLayerConfig was removed together with its compression fields when the
feature is off, although everything else refers to it.
---
 src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index b883b23..418e449 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -23,7 +23,6 @@ const DEFAULT_COMPRESSION_MIN_SIZE: usize = 8_192;
 #[cfg(feature = "ser")]
 use crate::format::MessageFormat;
 
-#[cfg(feature = "zip-sign")]
 #[derive(Clone, Copy, Debug, PartialEq)]
 /// PKSTL Configuration
 pub struct SecureLayerConfig {
-- 
2.43.0

