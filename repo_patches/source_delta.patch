From f2942aa4b8a49aa0bb1e654552df38a614336ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:05 +0000
Subject: [PATCH 01/31] fix: use the alert numbers of RFC 8446

---
 anothertls/src/net/alert.rs  | 20 ++++++++++----------
 anothertls/src/net/record.rs |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..1011fbe 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -30,8 +30,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -49,6 +49,7 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -58,18 +59,16 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
             109 => TlsError::MissingExtension,
             112 => TlsError::UnrecognizedName,
             116 => TlsError::CertificateRequired,
-            250 => TlsError::NotOfficial,
-            253 => TlsError::NotOfficial, // GotAlert has an associated value that we can't match here
-            254 => TlsError::BrokenPipe,
-            _ => TlsError::DecodeError,
+            // keep the number of alerts without a name
+            _ => TlsError::GotAlert(code),
         }
     }
 
@@ -78,6 +77,7 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -87,8 +87,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..3448dbb 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -219,7 +219,7 @@ impl RecordPayloadProtection {
             .decrypt(key, &nonce, ciphertext, &record.header, ahead)
         {
             Ok(e) => e,
-            Err(_) => return Err(TlsError::DecryptError),
+            Err(_) => return Err(TlsError::BadRecordMac),
         };
 
         // 5.4. Record Padding
-- 
2.43.0


From f2c506141122fadcc017c3e92acc19936f53483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 02/31] fix: keep leading zero bytes when writing numbers in
 big endian

---
 anothertls/src/crypto/ellipticcurve/curve.rs | 3 ++-
 anothertls/src/utils/bytes.rs                | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/curve.rs b/anothertls/src/crypto/ellipticcurve/curve.rs
index 3f1bd22..1e0f5d4 100644
--- a/anothertls/src/crypto/ellipticcurve/curve.rs
+++ b/anothertls/src/crypto/ellipticcurve/curve.rs
@@ -49,7 +49,8 @@ impl Curve {
             b: ibig!(1),
             n: ibig!(_1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed base 16),
             g: Point {
-                x: ibig!(9),
+                // 9, read in the byte order in which coordinates are sent
+                x: ibig!(_0900000000000000000000000000000000000000000000000000000000000000 base 16),
                 y: ibig!(_20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9 base 16),
             },
         }
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..1d846ff 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,13 +33,15 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
-    let b = ibig_to_vec(num, order);
+    let big = order == ByteOrder::Big;
+    // the most significant byte has its place at one end, so fill from the other one
+    let b = ibig_to_vec(num, ByteOrder::Little);
     let mut c = [0; 32];
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
             break;
         }
-        c[i] = *d;
+        c[if big { 31 - i } else { i }] = *d;
     }
     c
 }
-- 
2.43.0


From 0ab46f81494511c2e637de339e4f5e57278f80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:26 +0000
Subject: [PATCH 03/31] fix: encode short signature integers as minimal DER

---
 anothertls/src/crypto/ellipticcurve/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..3ac9f9c 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -63,6 +63,11 @@ impl Signature {
         let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
         let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
 
+        // DER integers have no unneeded leading zero bytes
+        let strip = |b: &[u8]| b[b.iter().take(b.len() - 1).take_while(|x| **x == 0).count()..].to_vec();
+        let s = strip(&s);
+        let r = strip(&r);
+
         let integer_type = 0x02;
         let sequence_type = 0x30;
 
-- 
2.43.0


From 7be2fba3bc5c0cdd0af0de7e21cfc99fe44e8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 04/31] fix: ChaCha20 left the last block in clear when it was
 a full one

---
 anothertls/src/crypto/chacha20/cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..c3cec3e 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -97,7 +97,7 @@ impl ChaCha20 {
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
             let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
+            if (j * 64) + 64 > input.len() {
                 count = input.len() % 64;
             }
             for i in 0..count {
-- 
2.43.0


From 856796af91389cc404bfe52aefae686634ef1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 05/31] fix: refuse hello messages and extensions with
 inconsistent lengths

---
 anothertls/src/net/client/client_hello.rs     | 28 +++++++----
 .../src/net/extensions/certificate_request.rs | 10 ++--
 anothertls/src/net/extensions/client.rs       | 20 +++-----
 anothertls/src/net/extensions/key_share.rs    | 50 +++++++++----------
 anothertls/src/net/extensions/server.rs       | 16 +++---
 anothertls/src/net/extensions/server_name.rs  | 23 +++++----
 .../src/net/extensions/signature_algorithm.rs | 15 ++++--
 .../src/net/extensions/supported_versions.rs  | 18 ++++---
 anothertls/src/net/server/server_hello.rs     | 26 ++++++----
 anothertls/src/utils/bytes.rs                 | 12 +++++
 10 files changed, 121 insertions(+), 97 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..97f1e11 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -10,7 +10,7 @@ use crate::{
         alert::TlsError,
         extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
     },
-    utils::log,
+    utils::{bytes, log},
 };
 use std::result::Result;
 
@@ -83,21 +83,22 @@ impl<'a> ClientHello<'a> {
         }
 
         let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            legacy_session_id_echo = Some(bytes::take(buf, &mut consumed, session_id_length)?);
         }
 
         // Cipher Suites
-        let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
+        let cipher_suites_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
         if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
             return Err(TlsError::IllegalParameter);
         }
-        consumed += 2;
         let mut cipher_suites = vec![];
         log::debug!("Clients CipherSuites:");
         for i in (consumed..(consumed + cipher_suites_len as usize)).step_by(2) {
@@ -112,13 +113,18 @@ impl<'a> ClientHello<'a> {
 
         // Compression Methode
         // TLS 1.3 no longer allows compression
-        consumed += 2;
+        let compression_len = bytes::take(buf, &mut consumed, 1)?[0] as usize;
+        if bytes::take(buf, &mut consumed, compression_len)? != [0x00] {
+            return Err(TlsError::IllegalParameter);
+        }
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        let extensions_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+        let extensions_raw = bytes::take(buf, &mut consumed, extensions_len)?;
+        if consumed != buf.len() {
+            return Err(TlsError::DecodeError);
+        }
 
-        let extensions =
-            ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
+        let extensions = ClientExtension::from_client_hello(extensions_raw)?;
 
         Ok(ClientHello {
             random,
diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..b9bd377 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -29,12 +29,11 @@ impl CertificateRequestExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
             let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
+            let size = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+            let data = bytes::take(buf, &mut consumed, size)?;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
@@ -42,12 +41,11 @@ impl CertificateRequestExtensions {
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(data)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..0775b85 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -38,32 +38,26 @@ impl ClientExtension {
         let mut extensions = ClientExtensions::new();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
             let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
+            let size = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+            let data = bytes::take(buf, &mut consumed, size)?;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
+                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(data)?),
+                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(data)?),
                 ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
+                    SupportedVersions::server_parse(data)?,
                 ),
                 ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
+                    SignatureAlgorithms::server_parse(data)?,
                 ),
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..f6bd178 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -19,20 +19,17 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let group = bytes::to_u16(buf);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
-        let public_key_len = bytes::to_u16(&buf[2..]);
-        Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
-                group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
-            },
-        ))
+    /// Returns no entry if the group is not known
+    fn parse(buf: &[u8]) -> Result<(usize, Option<KeyShareEntry>), TlsError> {
+        let mut consumed = 0;
+        let group = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+        let public_key_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+        let opaque = bytes::take(buf, &mut consumed, public_key_len)?.to_vec();
+        if opaque.is_empty() {
+            return Err(TlsError::DecodeError);
+        }
+        let entry = NamedGroup::new(group).map(|group| KeyShareEntry { group, opaque });
+        Ok((consumed, entry))
     }
     fn as_bytes(&self) -> Vec<u8> {
         let mut out = vec![];
@@ -57,22 +54,25 @@ impl KeyShare {
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
         let mut entries = vec![];
-        let mut len = 0;
         let mut consumed = 0;
         if !is_client {
-            len = bytes::to_u16(buf) as usize;
-            consumed += 2;
+            let len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+            if len != buf.len() - consumed {
+                return Err(TlsError::DecodeError);
+            }
         }
-        loop {
+        while consumed < buf.len() {
             let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
-            }
-            entries.push(entry);
             consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
+            match entry {
+                Some(entry) => entries.push(entry),
+                // a client may offer groups which are not known here
+                None if !is_client => (),
+                None => return Err(TlsError::IllegalParameter),
+            }
+            // the server selects exactly one
+            if is_client && consumed != buf.len() {
+                return Err(TlsError::DecodeError);
             }
         }
         Ok(KeyShare(entries))
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..0454bcd 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -36,29 +36,25 @@ impl ServerExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
-            let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let extension_type = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
             let extension_type = ExtensionType::new(extension_type);
-            let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
-            consumed += 4;
+            let size = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+            let data = bytes::take(buf, &mut consumed, size)?;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
+                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(data)?),
                 ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
+                    SupportedVersions::client_parse(data)?,
                 ),
                 ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                    SignatureAlgorithms::client_parse(data)?,
                 ), // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..c8d2b88 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -41,22 +41,23 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
-        let server_name_list_len = bytes::to_u16(buf);
-        let mut consumed = 2;
+        let mut consumed = 0;
+        let server_name_list_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
+        if server_name_list_len as usize != buf.len() - consumed {
+            return Err(TlsError::DecodeError);
+        }
         let mut server_name = String::new();
         if server_name_list_len > 0 {
-            let name_type = buf[consumed];
-            consumed += 1;
+            let name_type = bytes::take(buf, &mut consumed, 1)?[0];
             if name_type != 0 {
                 return Err(TlsError::DecodeError);
             }
-            let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
-            consumed += 2;
-            server_name =
-                match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
-                    Ok(a) => a,
-                    Err(_) => return Err(TlsError::DecodeError),
-                };
+            let server_name_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+            let name = bytes::take(buf, &mut consumed, server_name_len)?;
+            server_name = match String::from_utf8(name.to_vec()) {
+                Ok(a) => a,
+                Err(_) => return Err(TlsError::DecodeError),
+            };
         }
         Ok(ServerName(server_name))
     }
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..b4ba7ab 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -96,12 +96,17 @@ impl Extension for SignatureAlgorithms {
     where
         Self: Sized,
     {
-        let len = bytes::to_u16(buf) as usize;
+        let mut consumed = 0;
+        let len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+        let list = bytes::take(buf, &mut consumed, len)?;
         let mut out = vec![];
-        if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
-                let tes = bytes::to_u16(&buf[i..(i + 2)]);
-                out.push(SignatureScheme::new(tes)?);
+        if len % 2 != 0 || consumed != buf.len() {
+            return Err(TlsError::DecodeError);
+        }
+        for tes in list.chunks(2) {
+            // schemes which are not known can not be selected
+            if let Ok(scheme) = SignatureScheme::new(bytes::to_u16(tes)) {
+                out.push(scheme);
             }
         }
         Ok(SignatureAlgorithms(out))
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..afb3a83 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,12 +34,15 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
-        let len = buf[0] as usize;
-        if len % 2 == 0 {
-            for i in (1..len + 1).step_by(2) {
-                if bytes::to_u16(&buf[i..(i + 2)]) == 0x0304 {
-                    return Ok(SupportedVersions::new(true));
-                }
+        let mut consumed = 0;
+        let len = bytes::take(buf, &mut consumed, 1)?[0] as usize;
+        let list = bytes::take(buf, &mut consumed, len)?;
+        if len % 2 != 0 || consumed != buf.len() {
+            return Err(TlsError::DecodeError);
+        }
+        for version in list.chunks(2) {
+            if bytes::to_u16(version) == 0x0304 {
+                return Ok(SupportedVersions::new(true));
             }
         }
         Ok(SupportedVersions::new(false))
@@ -48,6 +51,9 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
+        if buf.len() != 2 {
+            return Err(TlsError::DecodeError);
+        }
         if bytes::to_u16(&buf[0..2]) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..921b188 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -37,25 +37,31 @@ impl<'a> ServerHello<'a> {
         }
 
         let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 {
+            return Err(TlsError::DecodeError);
+        }
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            legacy_session_id_echo = Some(bytes::take(buf, &mut consumed, session_id_length)?);
         }
 
-        let cipher_suite =
-            CipherSuite::new(((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16))?;
+        let cipher_suite = CipherSuite::new(bytes::to_u16(bytes::take(buf, &mut consumed, 2)?))?;
 
-        consumed += 3; // CipherSuite + Compression Method
+        // Compression Method
+        if bytes::take(buf, &mut consumed, 1)? != [0x00] {
+            return Err(TlsError::IllegalParameter);
+        }
 
-        let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
-        consumed += 2;
+        let extensions_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?) as usize;
+        let extensions_raw = bytes::take(buf, &mut consumed, extensions_len)?;
+        if consumed != buf.len() {
+            return Err(TlsError::DecodeError);
+        }
 
-        let extensions =
-            ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
+        let extensions = ServerExtensions::from_server_hello(extensions_raw)?;
 
         let mut tls13_is_supported = false;
         for ext in extensions.as_vec().iter() {
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 1d846ff..0fc737f 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -3,8 +3,20 @@
  *
  */
 
+use crate::net::alert::TlsError;
 use ibig::{ibig, IBig};
 
+/// The next `len` bytes of a received message, which may be shorter than it claims.
+pub fn take<'a>(buf: &'a [u8], consumed: &mut usize, len: usize) -> Result<&'a [u8], TlsError> {
+    let start = *consumed;
+    match buf.get(start..start + len) {
+        Some(bytes) => {
+            *consumed += len;
+            Ok(bytes)
+        }
+        None => Err(TlsError::DecodeError),
+    }
+}
 pub fn to_ibig_le(bytes: &[u8]) -> IBig {
     let mut res = ibig!(0);
     for (i, byte) in bytes.iter().enumerate() {
-- 
2.43.0


From ddb24a9e2ffa7911a68ec664275a65f7894bd3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 06/31] fix: take the X25519 share of a hello, require TLS 1.3
 and a usable share

---
 anothertls/src/net/client/client_hello.rs |  6 ++----
 anothertls/src/net/key_schedule.rs        |  9 +++++++++
 anothertls/src/net/server/server_hello.rs | 11 +++++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 97f1e11..a285ace 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::{bytes, log},
 };
@@ -137,9 +137,7 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
-                }
+                return key_share.0.iter().find(|kse| kse.group == NamedGroup::X25519);
             }
         }
         None
diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..ab12e26 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,6 +135,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
@@ -144,6 +148,11 @@ impl KeySchedule {
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
 
+        // RFC 8446, 7.4.2: a secret that does not depend on both sides is refused
+        if shared_secret == [0; 32] {
+            return Err(TlsError::IllegalParameter);
+        }
+
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
             None => Err(TlsError::HandshakeFailure),
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 921b188..7828c82 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -92,6 +92,7 @@ impl<'a> ServerHello<'a> {
         let mut extensions = ServerExtensions::new();
         let mut private_key = None;
         let mut named_group = None;
+        let mut tls13_is_supported = false;
 
         let random: [u8; 32] = rng.bytes(32).try_into().unwrap();
 
@@ -109,6 +110,7 @@ impl<'a> ServerHello<'a> {
                     if !version.is_tls13_supported() {
                         return Err(TlsError::InsufficientSecurity);
                     }
+                    tls13_is_supported = true;
                 }
                 ClientExtension::KeyShare(key_share) => {
                     for key in key_share.0.iter() {
@@ -128,10 +130,7 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
@@ -159,6 +158,10 @@ impl<'a> ServerHello<'a> {
             }
         }
 
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
         if named_group.is_none() {
             log::error!("No supported group -> Hello Retry Request");
             return Err(TlsError::InsufficientSecurity);
-- 
2.43.0


From 2dbdd701e2452cc4855d6c745f47ba09033f5229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 07/31] fix: the client refuses a server hello that does not
 echo its session id

---
 anothertls/src/net/client/connection.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..f0f7c4d 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -62,6 +62,7 @@ pub struct ClientHandshake<'a> {
     server_cert: Option<Certificate>,
     client_hello_bytes: Option<Vec<u8>>,
     client_hello_random: Option<Vec<u8>>,
+    client_hello_session_id: Option<Vec<u8>>,
 }
 
 impl<'a> ClientHandshake<'a> {
@@ -82,6 +83,7 @@ impl<'a> ClientHandshake<'a> {
             private_key,
             client_hello_bytes: None,
             client_hello_random: None,
+            client_hello_session_id: None,
         }
     }
 
@@ -194,6 +196,7 @@ impl<'a> ClientHandshake<'a> {
             Handshake::to_bytes(HandshakeType::ClientHello, client_hello.as_bytes()?);
 
         self.client_hello_random = Some(random);
+        self.client_hello_session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
         let record = Record::new(
@@ -252,6 +255,12 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        // 4.1.3. A client which receives a legacy_session_id_echo field that does not
+        // match what it sent in the ClientHello MUST abort the handshake
+        if server_hello.legacy_session_id_echo != self.client_hello_session_id.as_deref() {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
 
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
-- 
2.43.0


From 801b18f4c52b963b1144f812ed2bec9a8626bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 08/31] fix: refuse hello messages that repeat an extension

---
 anothertls/src/net/extensions/certificate_request.rs | 2 +-
 anothertls/src/net/extensions/client.rs              | 2 +-
 anothertls/src/net/extensions/server.rs              | 2 +-
 anothertls/src/net/extensions/shared.rs              | 9 +++++++++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index b9bd377..8d5f46a 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -46,7 +46,7 @@ impl CertificateRequestExtensions {
                 }
                 _ => continue,
             };
-            extensions.push(extension);
+            extensions.push_received(extension)?;
         }
         Ok(extensions)
     }
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index 0775b85..36d862b 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -58,7 +58,7 @@ impl ClientExtension {
                 ),
                 ExtensionType::SupportedGroups => continue,
             };
-            extensions.push(extension);
+            extensions.push_received(extension)?;
         }
         Ok(extensions)
     }
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index 0454bcd..329a884 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -55,7 +55,7 @@ impl ServerExtensions {
                 ), // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            extensions.push(extension);
+            extensions.push_received(extension)?;
         }
         Ok(extensions)
     }
diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index dc1e7fd..6c2e965 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -45,6 +45,15 @@ impl<T: ExtensionWrapper> Extensions<T> {
     pub fn push(&mut self, ext: T) {
         self.extensions.push(ext)
     }
+    /// Adds a received extension. There must not be two of one type.
+    pub fn push_received(&mut self, ext: T) -> Result<(), TlsError> {
+        let typ = std::mem::discriminant(&ext);
+        if self.extensions.iter().any(|e| std::mem::discriminant(e) == typ) {
+            return Err(TlsError::IllegalParameter);
+        }
+        self.push(ext);
+        Ok(())
+    }
     pub fn set_is_client(&mut self) {
         self.is_client = true;
     }
-- 
2.43.0


From f6420e52779f4238e5136f0d9ccaceab42e69bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:25 +0000
Subject: [PATCH 09/31] fix: reassemble records from the TCP stream

A record could only be read when it arrived in one piece, the application
data behind the last handshake record was lost, records larger than the
buffer of tls_read or more than one record per segment hit a todo!, and an
interrupted read closed the connection.
---
 anothertls/src/net/client/connection.rs | 40 +-----------
 anothertls/src/net/record.rs            | 15 ++++-
 anothertls/src/net/server/connection.rs | 13 ++--
 anothertls/src/net/stream.rs            | 82 +++++++++++++++----------
 4 files changed, 71 insertions(+), 79 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index f0f7c4d..12a2c50 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -104,44 +104,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
+            let rxbuf = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&rxbuf)?;
+            self.handle_handshake_record(record)?;
 
             // send server handshake records to the client
             self.stream.flush()?;
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 3448dbb..54612a4 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,10 +85,10 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        let consumed = 5 + len;
+        if buf.len() < consumed {
             return Err(TlsError::DecodeError);
         }
-        let consumed = 5 + len;
         Ok((
             consumed,
             Record {
@@ -100,6 +100,17 @@ impl<'a> Record<'a> {
             },
         ))
     }
+
+    /// The number of bytes the record at the start of buf has in total, as
+    /// soon as the header is there.
+    pub fn get_size(buf: &[u8]) -> Result<Option<usize>, TlsError> {
+        if buf.len() < 5 {
+            return Ok(None);
+        }
+        RecordType::new(buf[0])?;
+        Ok(Some(5 + (((buf[3] as usize) << 8) | buf[4] as usize)))
+    }
+
     pub fn as_bytes(&self) -> Vec<u8> {
         let len = self.fraqment.len();
         let mut t = vec![
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..82fd1b7 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,11 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let rx_buf = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&rx_buf)?;
+            self.handle_handshake_record(record)?;
+
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..60308e7 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -8,13 +8,18 @@ use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::utils::log;
 
 use core::result::Result;
-use std::io::{Read, Write};
+use std::collections::VecDeque;
+use std::io::{ErrorKind, Read, Write};
 use std::net::TcpStream;
 
 pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Bytes from the socket which are not a complete record yet
+    rx_buffer: Vec<u8>,
+    /// Application data which was received, but not read yet
+    plaintext: VecDeque<u8>,
 }
 
 impl TlsStream {
@@ -23,6 +28,8 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            rx_buffer: Vec::with_capacity(2048),
+            plaintext: VecDeque::new(),
         }
     }
 
@@ -68,9 +75,29 @@ impl TlsStream {
 
     /// Read directly from the TCP socket
     pub fn tcp_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        match self.stream.read(buf) {
-            Ok(n) if n != 0 => Ok(n),
-            _ => Err(TlsError::BrokenPipe),
+        loop {
+            return match self.stream.read(buf) {
+                Ok(n) if n != 0 => Ok(n),
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                _ => Err(TlsError::BrokenPipe),
+            };
+        }
+    }
+
+    /// Read the next record from the TCP socket, which can hand over a record in
+    /// several pieces and several records at once.
+    pub fn read_record(&mut self) -> Result<Vec<u8>, TlsError> {
+        let mut rx_buf: [u8; 4096] = [0; 4096];
+
+        loop {
+            match Record::get_size(&self.rx_buffer)? {
+                Some(size) if size <= self.rx_buffer.len() => {
+                    return Ok(self.rx_buffer.drain(..size).collect());
+                }
+                _ => (),
+            }
+            let n = self.tcp_read(&mut rx_buf)?;
+            self.rx_buffer.extend_from_slice(&rx_buf[..n]);
         }
     }
 
@@ -95,39 +122,32 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
-        let n = self.tcp_read(&mut rx_buf)?;
-
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
-
-        log::debug!("--> EncryptedData");
-
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
-        }
-
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
-                log::error!("Not yet implemented: Handle handshake messages");
+        // A record can be bigger than buf or empty
+        while self.plaintext.is_empty() && !buf.is_empty() {
+            let rx_buf = self.read_record()?;
+
+            let (_consumed, mut record) = Record::from_raw(&rx_buf)?;
+
+            log::debug!("--> EncryptedData");
+
+            if let Some(protection) = self.protection.as_mut() {
+                let (typ, data) = protection.decrypt(record)?;
+                record = Record::new(typ, Value::Owned(data));
+                if record.content_type != RecordType::ApplicationData {
+                    log::error!("Not yet implemented: Handle handshake messages");
+                    return Err(TlsError::UnexpectedMessage);
+                }
+            } else if record.content_type != RecordType::Handshake {
                 return Err(TlsError::UnexpectedMessage);
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
-        }
 
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
+            self.plaintext.extend(record.fraqment.as_ref());
         }
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+        match self.plaintext.read(buf) {
+            Ok(n) => Ok(n),
+            Err(_) => Err(TlsError::InternalError),
         }
-
-        Ok(record.fraqment.len())
     }
 
     /// Write to the TLS stream.
-- 
2.43.0


From 572fc7ce6ffec16153ab884f1554311eb9f94512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 10/31] fix: keep records within 2^14 bytes

A larger tls_write or certificate was sent as one record, whose length
field wrapped around from 2^16 bytes on.
---
 anothertls/src/net/record.rs |  3 +++
 anothertls/src/net/stream.rs | 30 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 54612a4..4995ffd 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -10,6 +10,9 @@ use crate::net::key_schedule::KeySchedule;
 use crate::net::{alert::TlsError, key_schedule::WriteKeys};
 use std::sync::Arc;
 
+/// 5.1. Record Layer: The length MUST NOT exceed 2^14 bytes.
+pub const MAX_FRAGMENT_LEN: usize = 1 << 14;
+
 #[derive(PartialEq, Clone, Copy, Debug)]
 pub enum RecordType {
     Invalid = 0,
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 60308e7..1b10824 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -4,7 +4,9 @@
  */
 
 use crate::net::alert::{AlertLevel, TlsError};
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
+use crate::net::record::{
+    Record, RecordPayloadProtection, RecordType, Value, MAX_FRAGMENT_LEN,
+};
 use crate::utils::log;
 
 use core::result::Result;
@@ -37,12 +39,14 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
-        let record = Record::new(typ, Value::Ref(data));
+        for fraqment in data.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(typ, Value::Ref(fraqment));
 
-        if let Some(protect) = self.protection.as_mut() {
-            self.buffer.append(&mut protect.encrypt(record)?);
-        } else {
-            self.buffer.append(&mut record.as_bytes());
+            if let Some(protect) = self.protection.as_mut() {
+                self.buffer.append(&mut protect.encrypt(record)?);
+            } else {
+                self.buffer.append(&mut record.as_bytes());
+            }
         }
 
         // TODO: Find a smart value
@@ -158,13 +162,15 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
+        for fraqment in src.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(fraqment));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
 
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                return Err(TlsError::BrokenPipe);
+            };
+        }
 
         Ok(())
     }
-- 
2.43.0


From d664a77d10a2685a082b23c7df5c8e5d19b5cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 11/31] fix: send the whole client hello when the socket takes
 only a part of it

---
 anothertls/src/net/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1b10824..e3004b8 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -71,8 +71,8 @@ impl TlsStream {
 
     /// Write directly to the TCP socket
     pub fn tcp_write(&mut self, buf: &[u8]) -> Result<usize, TlsError> {
-        match self.stream.write(buf) {
-            Ok(n) => Ok(n),
+        match self.stream.write_all(buf) {
+            Ok(_) => Ok(buf.len()),
             Err(_) => Err(TlsError::BrokenPipe),
         }
     }
-- 
2.43.0


From 9c18404050b0ca501d8a196a07b10ef75ccf4c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 12/31] fix: accept handshake messages however they are spread
 over records

The server handled only one message per record and both sides failed, with a
panic, on a message which continues in the next record. A message behind the
hello or the Finished, where the keys change, is refused now.
---
 anothertls/src/net/client/connection.rs | 31 +++++++++++----
 anothertls/src/net/handshake/mod.rs     | 33 ++++++++++++++++
 anothertls/src/net/server/connection.rs | 50 +++++++++++++++++++------
 3 files changed, 95 insertions(+), 19 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 12a2c50..d9d704c 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -12,7 +12,8 @@ use crate::net::extensions::{
     SignatureAlgorithms, SignatureScheme, SupportedGroups, SupportedVersions,
 };
 use crate::net::handshake::{
-    get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
+    get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake,
+    HandshakeMessages, HandshakeType,
 };
 use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::net::server::ServerHello;
@@ -54,6 +55,7 @@ pub struct ClientHandshake<'a> {
     stream: &'a mut TlsStream,
     config: &'a ClientConfig,
     state: ClientHsState,
+    messages: HandshakeMessages,
     certificate_request: Option<Vec<u8>>,
     keylog: Option<KeyLog>,
     rng: Box<dyn RngCore<IBig>>,
@@ -75,6 +77,7 @@ impl<'a> ClientHandshake<'a> {
             stream,
             config,
             state: ClientHsState::ServerHello,
+            messages: HandshakeMessages::default(),
             certificate_request: None,
             keylog: None,
             rng,
@@ -178,7 +181,9 @@ impl<'a> ClientHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ClientHsState::ServerHello {
+                // 5. A change_cipher_spec can arrive at any time after the ClientHello,
+                // but not between the parts of a handshake message
+                if record.fraqment.as_ref() != [0x01] || !self.messages.is_empty() {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
@@ -197,7 +202,15 @@ impl<'a> ClientHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_server_hello(record)?;
+                    self.messages.push(record.fraqment.as_ref())?;
+                    if let Some(message) = self.messages.pop() {
+                        // the next message has to be encrypted
+                        if !self.messages.is_empty() {
+                            return Err(TlsError::UnexpectedMessage);
+                        }
+                        let record = Record::new(RecordType::Handshake, Value::Owned(message));
+                        self.handle_server_hello(record)?;
+                    }
                 }
                 ClientHsState::EncryptedExtensions
                 | ClientHsState::ClientCertificateRequest
@@ -280,11 +293,15 @@ impl<'a> ClientHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        let mut consumed = 0;
+        self.messages.push(record.fraqment.as_ref())?;
+
+        while let Some(message) = self.messages.pop() {
+            let handshake = Handshake::from_raw(&message)?;
 
-        while consumed < record.fraqment.len() {
-            let handshake = Handshake::from_raw(&record.fraqment.as_ref()[consumed..])?;
-            consumed += handshake.as_bytes().len();
+            // the keys change with the Finished message
+            if handshake.handshake_type == HandshakeType::Finished && !self.messages.is_empty() {
+                return Err(TlsError::UnexpectedMessage);
+            }
 
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..5a47d6f 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -63,6 +63,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < len + 4 {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
@@ -82,3 +85,33 @@ impl<'a> Handshake<'a> {
     //     self.len == self.fraqment.len() as u32
     // }
 }
+
+/// 5.1. Record Layer: Handshake messages MAY be coalesced into a single record or
+/// fragmented across several records.
+#[derive(Default)]
+pub struct HandshakeMessages(Vec<u8>);
+
+impl HandshakeMessages {
+    /// Add the content of a handshake record
+    pub fn push(&mut self, fraqment: &[u8]) -> Result<(), TlsError> {
+        if fraqment.is_empty() {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        self.0.extend_from_slice(fraqment);
+        Ok(())
+    }
+    /// The next message, as soon as it is complete
+    pub fn pop(&mut self) -> Option<Vec<u8>> {
+        if self.0.len() < 4 {
+            return None;
+        }
+        let len = ((self.0[1] as usize) << 16) | ((self.0[2] as usize) << 8) | self.0[3] as usize;
+        if self.0.len() < len + 4 {
+            return None;
+        }
+        Some(self.0.drain(..len + 4).collect())
+    }
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+}
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 82fd1b7..636cca3 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -5,14 +5,15 @@
 
 use crate::crypto::ellipticcurve::Signature;
 use crate::hash::TranscriptHash;
-use crate::net::record::{Record, RecordPayloadProtection, RecordType};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
 use crate::net::server::{ServerConfig, ServerHello};
 use crate::net::{
     alert::TlsError,
     client::ClientHello,
     extensions::{ServerExtensions, SignatureScheme},
     handshake::{
-        get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
+        get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake,
+        HandshakeMessages, HandshakeType,
     },
 };
 use crate::net::{KeySchedule, TlsStream};
@@ -66,6 +67,7 @@ struct ServerHandshake<'a> {
     stream: &'a mut TlsStream,
     config: &'a ServerConfig,
     state: ServerHsState,
+    messages: HandshakeMessages,
     keylog: Option<KeyLog>,
     client_cert: Option<Certificate>,
     certificate_request_context: Option<Vec<u8>>,
@@ -80,6 +82,7 @@ impl<'a> ServerHandshake<'a> {
             stream,
             config,
             state: ServerHsState::ClientHello,
+            messages: HandshakeMessages::default(),
             keylog: None,
             client_cert: None,
             certificate_request_context: None,
@@ -121,7 +124,10 @@ impl<'a> ServerHandshake<'a> {
         match record.content_type {
             RecordType::ChangeCipherSpec => {
                 log::debug!("--> ChangeCipherSpec");
-                if self.state == ServerHsState::ClientHello {
+                if self.state == ServerHsState::ClientHello
+                    || record.fraqment.as_ref() != [0x01]
+                    || !self.messages.is_empty()
+                {
                     return Err(TlsError::UnexpectedMessage);
                 }
                 return Ok(());
@@ -140,7 +146,15 @@ impl<'a> ServerHandshake<'a> {
                     if record.content_type != RecordType::Handshake {
                         return Err(TlsError::UnexpectedMessage);
                     }
-                    self.handle_client_hello(record)?;
+                    self.messages.push(record.fraqment.as_ref())?;
+                    if let Some(message) = self.messages.pop() {
+                        // the next message has to be encrypted
+                        if !self.messages.is_empty() {
+                            return Err(TlsError::UnexpectedMessage);
+                        }
+                        let record = Record::new(RecordType::Handshake, Value::Owned(message));
+                        self.handle_client_hello(record)?;
+                    }
                 }
                 ServerHsState::ClientCertificate
                 | ServerHsState::ClientCertificateVerify
@@ -305,15 +319,27 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        match self.state {
-            ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
-            ServerHsState::ClientCertificateVerify => {
-                self.handle_client_certificate_verify(record)?
-            }
-            ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
-                self.handle_client_finish(record)?
+        self.messages.push(record.fraqment.as_ref())?;
+
+        while let Some(message) = self.messages.pop() {
+            let record = Record::new(RecordType::Handshake, Value::Owned(message));
+
+            match self.state {
+                ServerHsState::ClientCertificate => self.handle_client_certificate(record)?,
+                ServerHsState::ClientCertificateVerify => {
+                    self.handle_client_certificate_verify(record)?
+                }
+                ServerHsState::ClientFinished | ServerHsState::FinishWithError(_) => {
+                    // the keys change with the Finished message
+                    if record.fraqment.as_ref()[0] == HandshakeType::Finished as u8
+                        && !self.messages.is_empty()
+                    {
+                        return Err(TlsError::UnexpectedMessage);
+                    }
+                    self.handle_client_finish(record)?
+                }
+                _ => (),
             }
-            _ => (),
         }
         Ok(())
     }
-- 
2.43.0


From 7fdd764239d9af4771c207a07ff56350bd5af387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 13/31] fix: refuse protected records without a tag or of
 another type

A record with less than 16 bytes ended in a panic, and the type in the header
was not looked at.
---
 anothertls/src/net/record.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 4995ffd..711fac2 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -213,6 +213,14 @@ impl RecordPayloadProtection {
 
     /// Returns Vec instead of a Record because of the borrow checker <3
     pub fn decrypt(&mut self, record: Record) -> Result<(RecordType, Vec<u8>), TlsError> {
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        // 16 bytes of the record are the authentication tag
+        if record.fraqment.len() < 16 {
+            return Err(TlsError::BadRecordMac);
+        }
+
         let keys = if self.application_keys.is_some() {
             self.application_keys.as_mut().unwrap()
         } else {
-- 
2.43.0


From 549a975c875d99e468d76f136e84a9570a9e7066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 14/31] fix: report every received alert as what it is

A short alert ended in a panic, and tls_read answered an alert of the peer,
close_notify included, with UnexpectedMessage.
---
 anothertls/src/net/client/connection.rs | 7 +++----
 anothertls/src/net/record.rs            | 9 +++++++++
 anothertls/src/net/server/connection.rs | 7 +++----
 anothertls/src/net/stream.rs            | 6 ++++++
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index d9d704c..edc8a81 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -189,13 +189,12 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
-                let alert = TlsError::new(alert_code);
+                let alert = record.get_alert();
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ClientHsState::Ready {
                     log::error!("Handshake aborted by client");
                 }
-                return Err(TlsError::GotAlert(alert_code));
+                return Err(alert);
             }
             _ => match self.state {
                 ClientHsState::ServerHello => {
@@ -288,7 +287,7 @@ impl<'a> ClientHandshake<'a> {
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                return Err(record.get_alert());
             }
             return Err(TlsError::UnexpectedMessage);
         }
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 711fac2..72aacf3 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -114,6 +114,15 @@ impl<'a> Record<'a> {
         Ok(Some(5 + (((buf[3] as usize) << 8) | buf[4] as usize)))
     }
 
+    /// The error an alert record stands for
+    pub fn get_alert(&self) -> TlsError {
+        // 6. Alert Protocol: level and description
+        match self.fraqment.as_ref() {
+            [_, description] => TlsError::GotAlert(*description),
+            _ => TlsError::DecodeError,
+        }
+    }
+
     pub fn as_bytes(&self) -> Vec<u8> {
         let len = self.fraqment.len();
         let mut t = vec![
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 636cca3..c08721b 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -133,13 +133,12 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
-                let alert = TlsError::new(alert_code);
+                let alert = record.get_alert();
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ServerHsState::Ready {
                     log::error!("Handshake aborted by client");
                 }
-                return Err(TlsError::GotAlert(alert_code));
+                return Err(alert);
             }
             _ => match self.state {
                 ServerHsState::ClientHello => {
@@ -314,7 +313,7 @@ impl<'a> ServerHandshake<'a> {
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                return Err(record.get_alert());
             }
             return Err(TlsError::UnexpectedMessage);
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index e3004b8..b4eb323 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -137,6 +137,12 @@ impl TlsStream {
             if let Some(protection) = self.protection.as_mut() {
                 let (typ, data) = protection.decrypt(record)?;
                 record = Record::new(typ, Value::Owned(data));
+                if record.content_type == RecordType::Alert {
+                    return Err(match record.get_alert() {
+                        TlsError::GotAlert(code) => TlsError::new(code),
+                        err => err,
+                    });
+                }
                 if record.content_type != RecordType::ApplicationData {
                     log::error!("Not yet implemented: Handle handshake messages");
                     return Err(TlsError::UnexpectedMessage);
-- 
2.43.0


From a609ccc475ea9eafc017eb0223910541e8beb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:58 +0000
Subject: [PATCH 15/31] fix: do not read on behind a record that was refused

After a truncated or damaged record tls_read continued with the next one.
---
 anothertls/src/net/stream.rs | 61 +++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index b4eb323..ec6a7ed 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -22,6 +22,8 @@ pub struct TlsStream {
     rx_buffer: Vec<u8>,
     /// Application data which was received, but not read yet
     plaintext: VecDeque<u8>,
+    /// Nothing behind a record that was refused can be trusted
+    rx_error: Option<TlsError>,
 }
 
 impl TlsStream {
@@ -32,6 +34,7 @@ impl TlsStream {
             buffer: Vec::with_capacity(2048),
             rx_buffer: Vec::with_capacity(2048),
             plaintext: VecDeque::new(),
+            rx_error: None,
         }
     }
 
@@ -128,30 +131,15 @@ impl TlsStream {
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
         // A record can be bigger than buf or empty
         while self.plaintext.is_empty() && !buf.is_empty() {
-            let rx_buf = self.read_record()?;
-
-            let (_consumed, mut record) = Record::from_raw(&rx_buf)?;
-
-            log::debug!("--> EncryptedData");
-
-            if let Some(protection) = self.protection.as_mut() {
-                let (typ, data) = protection.decrypt(record)?;
-                record = Record::new(typ, Value::Owned(data));
-                if record.content_type == RecordType::Alert {
-                    return Err(match record.get_alert() {
-                        TlsError::GotAlert(code) => TlsError::new(code),
-                        err => err,
-                    });
-                }
-                if record.content_type != RecordType::ApplicationData {
-                    log::error!("Not yet implemented: Handle handshake messages");
-                    return Err(TlsError::UnexpectedMessage);
+            if let Some(err) = self.rx_error {
+                return Err(err);
+            }
+            if let Err(err) = self.read_application_data() {
+                if err != TlsError::BrokenPipe {
+                    self.rx_error = Some(err);
                 }
-            } else if record.content_type != RecordType::Handshake {
-                return Err(TlsError::UnexpectedMessage);
+                return Err(err);
             }
-
-            self.plaintext.extend(record.fraqment.as_ref());
         }
 
         match self.plaintext.read(buf) {
@@ -160,6 +148,35 @@ impl TlsStream {
         }
     }
 
+    /// Read the next record with application data.
+    fn read_application_data(&mut self) -> Result<(), TlsError> {
+        let rx_buf = self.read_record()?;
+
+        let (_consumed, mut record) = Record::from_raw(&rx_buf)?;
+
+        log::debug!("--> EncryptedData");
+
+        if let Some(protection) = self.protection.as_mut() {
+            let (typ, data) = protection.decrypt(record)?;
+            record = Record::new(typ, Value::Owned(data));
+            if record.content_type == RecordType::Alert {
+                return Err(match record.get_alert() {
+                    TlsError::GotAlert(code) => TlsError::new(code),
+                    err => err,
+                });
+            }
+            if record.content_type != RecordType::ApplicationData {
+                log::error!("Not yet implemented: Handle handshake messages");
+                return Err(TlsError::UnexpectedMessage);
+            }
+        } else if record.content_type != RecordType::Handshake {
+            return Err(TlsError::UnexpectedMessage);
+        }
+
+        self.plaintext.extend(record.fraqment.as_ref());
+        Ok(())
+    }
+
     /// Write to the TLS stream.
     pub fn tls_write<'b>(&'b mut self, src: &'b [u8]) -> Result<(), TlsError> {
         if self.protection.is_none() {
-- 
2.43.0


From b6c27a3f36648326c73a91da2bbbff6c4390c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 16/31] fix: refuse malformed or foreign CertificateVerify
 messages without a panic

---
 .../src/crypto/ellipticcurve/signature.rs     |  9 +++--
 anothertls/src/net/client/connection.rs       | 10 ++++--
 anothertls/src/net/server/connection.rs       | 11 ++++---
 anothertls/src/utils/der.rs                   | 33 ++++++++++---------
 4 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index 3ac9f9c..fa1d052 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -41,8 +41,13 @@ impl Signature {
                     return Err(TlsError::BadCertificate);
                 }
             } else {
-                let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
-                consumed += size;
+                if der_type != EncodedForm::Primitive(DerType::Integer) {
+                    return Err(TlsError::BadCertificate);
+                }
+                let int = match bytes::take(buf, &mut consumed, size) {
+                    Ok(e) => bytes::to_ibig_be(e),
+                    Err(_) => return Err(TlsError::BadCertificate),
+                };
                 if r.is_none() {
                     r = Some(int);
                 } else {
diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index edc8a81..2bc2a28 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -392,9 +392,14 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
+        let mut consumed = 0;
+        let algo = bytes::take(handshake.fraqment, &mut consumed, 2)?;
+        let algo = SignatureScheme::new(bytes::to_u16(algo))?;
+        let sign_len = bytes::to_u16(bytes::take(handshake.fraqment, &mut consumed, 2)?) as usize;
+        if handshake.fraqment.len() != consumed + sign_len {
+            return Err(TlsError::DecodeError);
+        }
 
-        let mut consumed = 4; // algo and len
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
                 let (signature, size) = match Signature::from_der(&handshake.fraqment[consumed..]) {
@@ -421,7 +426,6 @@ impl<'a> ClientHandshake<'a> {
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
         if sign_len != consumed - 4 {
             self.state = ClientHsState::FinishWithError(TlsError::BadCertificate);
             return Ok(());
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index c08721b..fea04f7 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -414,9 +414,13 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
-        let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
-
-        let mut consumed = 4; // algo and len
+        let mut consumed = 0;
+        let algo = bytes::take(handshake.fraqment, &mut consumed, 2)?;
+        let algo = SignatureScheme::new(bytes::to_u16(algo))?;
+        let sign_len = bytes::to_u16(bytes::take(handshake.fraqment, &mut consumed, 2)?) as usize;
+        if handshake.fraqment.len() != consumed + sign_len {
+            return Err(TlsError::DecodeError);
+        }
 
         match algo {
             SignatureScheme::ecdsa_secp256r1_sha256 => {
@@ -442,7 +446,6 @@ impl<'a> ServerHandshake<'a> {
             e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
         }
 
-        let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
         if sign_len != consumed - 4 {
             self.state = ServerHsState::FinishWithError(TlsError::BadCertificate);
             return Ok(());
diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..4ddab2e 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -74,28 +74,29 @@ impl DerType {
 }
 
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
-    let der_type = match DerType::from_u8(data[*consumed]) {
+    let der_type = match data.get(*consumed).and_then(|tag| DerType::from_u8(*tag)) {
         Some(a) => a,
         None => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
-        return Err(ParseError::DerParseLen);
+    // the content has to be in data
+    match get_len(data, consumed) {
+        Some(size) if size <= data.len() - *consumed => Ok((size, der_type)),
+        _ => Err(ParseError::DerParseLen),
     }
-    Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
-    let size;
-    if len[*consumed] >> 7 & 1 == 1 {
-        let consume_len = len[*consumed] & 0x7F;
-        *consumed += 1;
-        size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
-        *consumed += consume_len as usize;
-    } else {
-        size = len[*consumed] as usize;
-        *consumed += 1;
+fn get_len(len: &[u8], consumed: &mut usize) -> Option<usize> {
+    let first = *len.get(*consumed)?;
+    *consumed += 1;
+    if first >> 7 & 1 == 0 {
+        return Some(first as usize);
+    }
+    let consume_len = (first & 0x7F) as usize;
+    // 0 is the indefinite form, which DER does not have
+    if consume_len == 0 || consume_len > 4 {
+        return None;
     }
-    size
+    let size = bytes::take(len, consumed, consume_len).ok()?;
+    Some(bytes::to_u128_be_fill(size) as usize)
 }
-- 
2.43.0


From 9a552457bfd2b87f52b42d93ce9842e9c484829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 17/31] fix: check the lengths in Certificate and
 CertificateRequest messages

---
 anothertls/src/net/client/connection.rs     | 20 ++++++++---------
 anothertls/src/net/handshake/certificate.rs | 25 ++++++++++-----------
 anothertls/src/net/server/connection.rs     |  9 ++++++--
 3 files changed, 28 insertions(+), 26 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 2bc2a28..72f33af 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -495,19 +495,17 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
-        let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
+        let mut consumed = 0;
+        let context_len = bytes::take(request, &mut consumed, 1)?[0];
+        let mut response: Vec<u8> = vec![context_len];
+        response.extend_from_slice(bytes::take(request, &mut consumed, context_len as usize)?);
 
-        let mut consumed = 1;
-        if context_len > 0 {
-            response.extend_from_slice(&request[1..context_len + 1]);
-            consumed += context_len;
+        let ext_len = bytes::to_u16(bytes::take(request, &mut consumed, 2)?) as usize;
+        let extensions = bytes::take(request, &mut consumed, ext_len)?;
+        if consumed != request.len() {
+            return Err(TlsError::DecodeError);
         }
-
-        let ext_len = bytes::to_u16(&request[consumed..]) as usize;
-        consumed += 2;
-        let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+        let _extensions = CertificateRequestExtensions::from_request(extensions)?;
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..58ca882 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -50,13 +50,14 @@ impl Certificate {
     }
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
-        let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let mut consumed = 0;
+        let cert_request_context_len = bytes::take(buf, &mut consumed, 1)?[0] as usize;
+        bytes::take(buf, &mut consumed, cert_request_context_len)?;
 
-        consumed += cert_request_context_len;
-
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-        consumed += 3;
+        let certs_len = bytes::to_u128_be_fill(bytes::take(buf, &mut consumed, 3)?) as usize;
+        if buf.len() != consumed + certs_len {
+            return Err(TlsError::DecodeError);
+        }
 
         if certs_len == 0 {
             log::debug!("Client send no certificate!");
@@ -69,15 +70,13 @@ impl Certificate {
 
         #[allow(clippy::never_loop)]
         while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
-            consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
-            consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
-            consumed += 2;
+            let cert_len = bytes::to_u128_be_fill(bytes::take(buf, &mut consumed, 3)?) as usize;
+            let cert = bytes::take(buf, &mut consumed, cert_len)?.to_vec();
+            let cert = Certificate::from_raw_x509(cert)?;
+            let cert_ext_len = bytes::to_u16(bytes::take(buf, &mut consumed, 2)?);
             if cert_ext_len > 0 {
                 log::error!("Certificate has Extensions");
-                consumed += cert_ext_len as usize;
+                bytes::take(buf, &mut consumed, cert_ext_len as usize)?;
             }
 
             if !cert
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index fea04f7..9310803 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -361,8 +361,13 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let mut consumed = 0;
+        let cert_request_context_len = bytes::take(handshake.fraqment, &mut consumed, 1)?[0];
+        let cert_request_context = bytes::take(
+            handshake.fraqment,
+            &mut consumed,
+            cert_request_context_len as usize,
+        )?;
 
         if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
             return Err(TlsError::HandshakeFailure);
-- 
2.43.0


From 78e93019b0f7b90ea8e060023ce015c41b672a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 18/31] fix: send an empty certificate list when there is no
 client certificate

The three bytes behind the list made it a message of the wrong length.
---
 anothertls/src/net/client/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 72f33af..c33ad03 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -510,8 +510,8 @@ impl<'a> ClientHandshake<'a> {
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // an empty list of certificates
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From 91c4e4f586b319a763c314aa9b8276903639f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 19/31] fix: the client refuses a second CertificateRequest

---
 anothertls/src/net/client/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index c33ad03..57ab53c 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -305,7 +305,9 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.certificate_request.is_none()
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-- 
2.43.0


From 25cf7a3677e23094aea9597d26d55183d8fc60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 20/31] fix: the server refuses a CertificateVerify of a scheme
 it did not offer

---
 anothertls/src/net/server/connection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 9310803..39664db 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -448,7 +448,11 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
+            e => {
+                // not offered in signature_algorithms
+                log::error!("SignatureScheme {e:?} for client cert not implemented yet");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         if sign_len != consumed - 4 {
-- 
2.43.0


From e929da4ded53b3ff9fbfbd8517ca516defdab8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 21/31] fix: the server sends with its application keys right
 after its Finished

An alert about the client's part of the handshake went out under the handshake
keys, which the client does not use any more then.
---
 anothertls/src/net/client/connection.rs |  1 +
 anothertls/src/net/record.rs            |  5 ++++-
 anothertls/src/net/server/connection.rs | 26 ++++++++++---------------
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 57ab53c..4d260ab 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -485,6 +485,7 @@ impl<'a> ClientHandshake<'a> {
         // Derive-Secret: ClientHello..server Finished
         let protection = self.stream.protection.as_mut().unwrap();
         protection.generate_application_keys(application_tshash.as_ref())?;
+        protection.is_peer_finished = true;
 
         if let Some(k) = &self.keylog {
             k.append_from_record_payload_protection(protection);
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 72aacf3..0959976 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -143,6 +143,8 @@ pub struct RecordPayloadProtection {
     pub handshake_keys: WriteKeys,
     pub is_client: bool,
     pub application_keys: Option<WriteKeys>,
+    /// The keys of the other side change with its Finished message
+    pub is_peer_finished: bool,
 }
 
 impl RecordPayloadProtection {
@@ -159,6 +161,7 @@ impl RecordPayloadProtection {
             // application_keys: WriteKeys::handshake_keys(&key_schedule)?,
             key_schedule,
             is_client,
+            is_peer_finished: false,
         })
     }
 
@@ -230,7 +233,7 @@ impl RecordPayloadProtection {
             return Err(TlsError::BadRecordMac);
         }
 
-        let keys = if self.application_keys.is_some() {
+        let keys = if self.is_peer_finished && self.application_keys.is_some() {
             self.application_keys.as_mut().unwrap()
         } else {
             &mut self.handshake_keys
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 39664db..94b7ff7 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -73,7 +73,6 @@ struct ServerHandshake<'a> {
     certificate_request_context: Option<Vec<u8>>,
     rng: Box<dyn RngCore<IBig>>,
     tshash: Option<Box<dyn TranscriptHash>>,
-    tshash_clienthello_serverfinished: Option<Box<dyn TranscriptHash>>,
 }
 
 impl<'a> ServerHandshake<'a> {
@@ -91,7 +90,6 @@ impl<'a> ServerHandshake<'a> {
                 PRNG::URandom => Box::new(URandomRng::new()),
             },
             tshash: None,
-            tshash_clienthello_serverfinished: None,
         }
     }
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
@@ -294,6 +292,15 @@ impl<'a> ServerHandshake<'a> {
             .write_record(RecordType::Handshake, &handshake_raw)?;
         log::debug!("<-- ServerFinished");
 
+        // Derive-Secret: ClientHello..server Finished
+        // Everything sent from here on, alerts as well, belongs to these keys
+        let protection = self.stream.protection.as_mut().unwrap();
+        protection.generate_application_keys(tshash.as_ref())?;
+
+        if let Some(k) = &self.keylog {
+            k.append_from_record_payload_protection(protection);
+        }
+
         self.state = if self.config.client_cert_ca.is_some() {
             ServerHsState::ClientCertificate
         } else {
@@ -352,8 +359,6 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::UnexpectedMessage);
         }
 
-        self.tshash_clienthello_serverfinished = Some((*self.tshash.as_ref().unwrap()).clone());
-
         self.tshash
             .as_mut()
             .unwrap()
@@ -493,18 +498,7 @@ impl<'a> ServerHandshake<'a> {
             return Err(TlsError::DecryptError);
         }
 
-        // Derive-Secret: ClientHello..server Finished
-        let tshash = if self.tshash_clienthello_serverfinished.is_some() {
-            self.tshash_clienthello_serverfinished.as_mut().unwrap()
-        } else {
-            self.tshash.as_mut().unwrap()
-        };
-
-        protection.generate_application_keys(tshash.as_ref())?;
-
-        if let Some(k) = &self.keylog {
-            k.append_from_record_payload_protection(protection);
-        }
+        protection.is_peer_finished = true;
 
         if let ServerHsState::FinishWithError(err) = self.state {
             log::error!("Abort connection: {err:?}");
-- 
2.43.0


From 38059df3385da27e1eef79ea0f7480d2e9ceb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 22/31] fix: append each entry to the key log at once and do
 not depend on it

Lines of connections which log to the same file got mixed up, and a key log
that can not be opened ended in a panic.
---
 anothertls/src/utils/keylog.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/utils/keylog.rs b/anothertls/src/utils/keylog.rs
index 9d07c2e..86b1917 100644
--- a/anothertls/src/utils/keylog.rs
+++ b/anothertls/src/utils/keylog.rs
@@ -66,15 +66,24 @@ impl KeyLog {
         self.append_to_file(content)
     }
 
-    fn append_to_file(&self, content: String) {
-        let mut file = OpenOptions::new()
+    fn append_to_file(&self, mut content: String) {
+        let file = OpenOptions::new()
             .create(true)
             .write(true)
             .append(true)
-            .open(&self.filepath)
-            .unwrap_or_else(|_| panic!("Couldn't open or create keylog file {}", self.filepath));
+            .open(&self.filepath);
 
-        if let Err(e) = writeln!(file, "{}", content) {
+        let mut file = match file {
+            Ok(file) => file,
+            Err(e) => {
+                eprintln!("Couldn't open or create keylog file {}: {}", self.filepath, e);
+                return;
+            }
+        };
+
+        // in one piece, because other connections append to the file as well
+        content += "\n";
+        if let Err(e) = file.write_all(content.as_bytes()) {
             eprintln!("Couldn't write to file: {}", e);
         }
     }
-- 
2.43.0


From df8b98a07aa26bb479050e3bd6545e7180e182df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 23/31] fix: SimpleRng returns the number of bytes it is asked
 for

It returned none, which ended the handshake of a server with PRNG::Simple in a
panic.
---
 anothertls/src/rand/simplerng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
-- 
2.43.0


From da60c94cc511ddb1d17183cd3654fa975257048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 24/31] fix: compute the validity of certificates for every
 date and clock

Leap days, the years 1950 to 1969, dates that do not exist, the missing
GeneralizedTime and a clock before 1970 gave wrong results or a panic.
---
 anothertls/src/utils/x509.rs | 97 ++++++++++++++++++++++++------------
 1 file changed, 66 insertions(+), 31 deletions(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..d05b28c 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -45,22 +45,42 @@ pub struct UtcTime {
 }
 
 impl UtcTime {
+    /// YYMMDDHHMMSSZ, see RFC 5280 4.1.2.5.1
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        let (year, t) = t.split_at(2.min(t.len()));
+        let year = match to_decimal(year)? {
+            year if year < 50 => year + 2000,
+            year => year + 1900,
+        };
+        Self::from_year_and_rest(year, t)
+    }
+    /// YYYYMMDDHHMMSSZ, see RFC 5280 4.1.2.5.2
+    fn from_generalized_timestamp(t: &str) -> Option<UtcTime> {
+        let (century, t) = t.split_at(2.min(t.len()));
+        let (year, t) = t.split_at(2.min(t.len()));
+        Self::from_year_and_rest(to_decimal(century)? * 100 + to_decimal(year)?, t)
+    }
+    fn from_year_and_rest(year: u16, t: &str) -> Option<UtcTime> {
+        if t.len() != 11 || t.as_bytes()[10] != b'Z' {
             return None;
         }
-        let (mut year, month, day, hour, minute, second) = (
-            str_to_u16(&t[0..]),
-            str_to_u16(&t[2..]),
-            str_to_u16(&t[4..]),
-            str_to_u16(&t[6..]),
-            str_to_u16(&t[8..]),
-            str_to_u16(&t[10..]),
+        let (month, day, hour, minute, second) = (
+            to_decimal(&t[0..2])?,
+            to_decimal(&t[2..4])?,
+            to_decimal(&t[4..6])?,
+            to_decimal(&t[6..8])?,
+            to_decimal(&t[8..10])?,
         );
-        if year < 50 {
-            year += 2000;
-        } else {
-            year += 1900;
+        let is_leap_year = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
+        let days_in_month = match month {
+            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
+            4 | 6 | 9 | 11 => 30,
+            2 if is_leap_year => 29,
+            2 => 28,
+            _ => return None,
+        };
+        if day < 1 || day > days_in_month || hour > 23 || minute > 59 || second > 59 {
+            return None;
         }
         Some(UtcTime {
             year,
@@ -71,24 +91,34 @@ impl UtcTime {
             second,
         })
     }
-    pub fn get_unix_timestamp(&self) -> u64 {
-        let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
-        let year = self.year as u64;
-
-        let leap_years =
-            ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
-        let mut days = (year - 1970) * 365 + leap_years;
+    pub fn get_unix_timestamp(&self) -> i64 {
+        let days_since_year_start = [0_i64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
+        let year = self.year as i64;
+
+        // the leap day of a year counts from March on
+        let last = if self.month > 2 { year } else { year - 1 };
+        let leap_days = |year: i64| {
+            year.div_euclid(4) - year.div_euclid(100) + year.div_euclid(400)
+        };
+        let mut days = (year - 1970) * 365 + leap_days(last) - leap_days(1969);
         days += days_since_year_start[(self.month - 1) as usize];
-        days += (self.day - 1) as u64;
+        days += (self.day - 1) as i64;
 
         let mut res = 0;
         res += days * 86400;
-        res += ((self.hour) as u64) * 3600;
-        res += ((self.minute) as u64) * 60;
-        res += (self.second) as u64;
+        res += ((self.hour) as i64) * 3600;
+        res += ((self.minute) as i64) * 60;
+        res += (self.second) as i64;
         res
     }
 }
+/// The value of two decimal digits
+fn to_decimal(digits: &str) -> Option<u16> {
+    if digits.len() != 2 || !digits.bytes().all(|c| c.is_ascii_digit()) {
+        return None;
+    }
+    Some(str_to_u16(digits))
+}
 impl Display for UtcTime {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         // 1678989832
@@ -113,10 +143,11 @@ impl Validity {
     }
     pub fn is_valid(&self) -> bool {
         let current_time = SystemTime::now();
-        let since_the_epoch = current_time
-            .duration_since(UNIX_EPOCH)
-            .expect("Time went backwards");
-        let current = since_the_epoch.as_secs();
+        let current = match current_time.duration_since(UNIX_EPOCH) {
+            Ok(since_the_epoch) => since_the_epoch.as_secs() as i64,
+            // the clock is set to a time before 1970
+            Err(e) => -1 - e.duration().as_secs() as i64,
+        };
 
         if let Some(not_before) = self.not_before.as_ref() {
             if current < not_before.get_unix_timestamp() {
@@ -571,12 +602,16 @@ fn parse(
                 *consumed += size;
                 todo!("GOT OctetString");
             }
-            DerType::UTCTime => {
+            DerType::UTCTime | DerType::GeneralizedTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
-                    Ok(e) => e,
-                    Err(_) => return Err(ParseError::UTF8StringTimestamp),
+                    Ok(e) if e.is_ascii() => e,
+                    _ => return Err(ParseError::UTF8StringTimestamp),
+                };
+                let timestamp = if prim == DerType::UTCTime {
+                    UtcTime::from_utc_timestamp(&timestamp)
+                } else {
+                    UtcTime::from_generalized_timestamp(&timestamp)
                 };
-                let timestamp = UtcTime::from_utc_timestamp(&timestamp);
                 if timestamp.is_none() {
                     return Err(ParseError::TimeStamp);
                 }
-- 
2.43.0


From e366c912c510bb5c7c9f2a92f0b26d28087fe278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 25/31] fix: take from a certificate only what its signature
 covers

The parser took certificates as a flat list of values, so that values behind
the signed part replaced the validity and the names in it. The signed part was
found only with a header of four bytes. Many encodings ended in a panic.
---
 anothertls/src/net/handshake/certificate.rs |  18 +-
 anothertls/src/utils/x509.rs                | 178 +++++++++++++-------
 2 files changed, 131 insertions(+), 65 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 58ca882..c0c0187 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -174,12 +174,13 @@ impl Certificate {
             return Err(TlsError::InternalError);
         }
 
-        let ca_public_key = self
-            .x509
-            .as_ref()
-            .unwrap()
-            .get_public_key()
-            .expect("CA for client certificate has no public key");
+        let ca_public_key = match self.x509.as_ref().unwrap().get_public_key() {
+            Some(e) => e,
+            None => {
+                log::error!("CA for client certificate has no public key");
+                return Err(TlsError::InternalError);
+            }
+        };
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
@@ -187,7 +188,10 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let context = match &other_x509.tbs_certificate.raw_data {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index d05b28c..ee7dfb7 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -20,6 +20,7 @@ use std::time::{SystemTime, UNIX_EPOCH};
 #[derive(Debug)]
 pub enum ParseError {
     Algorithms,
+    Signature,
     SubjectPublicKeyInfo,
     UTF8StringTimestamp,
     NameGet,
@@ -225,7 +226,7 @@ impl SubjectPublicKeyInfoBuilder {
         }
     }
     fn build(self) -> Result<SubjectPublicKeyInfo, ParseError> {
-        if self.algorithm.is_none() {
+        if self.algorithm.is_none() || self.subject_public_key.is_none() {
             return Err(ParseError::SubjectPublicKeyInfo);
         }
         Ok(SubjectPublicKeyInfo {
@@ -354,7 +355,11 @@ impl TBSCertificateBuilder {
         }
     }
     pub fn build(self) -> Result<TBSCertificate, ParseError> {
-        if self.serial_number.is_none() || self.signature.is_none() {
+        if self.serial_number.is_none()
+            || self.signature.is_none()
+            || self.validity.not_before.is_none()
+            || self.validity.not_after.is_none()
+        {
             return Err(ParseError::TBSBuilder);
         }
         Ok(TBSCertificate {
@@ -379,16 +384,50 @@ impl Default for TBSCertificateBuilder {
 
 pub struct X509 {
     pub tbs_certificate: TBSCertificate,
-    pub tbs_certificate_size: usize,
     pub signature_algorithm: Algorithms,
     pub signature: Option<Signature>,
 }
 impl X509 {
     pub fn from_raw(data: &[u8]) -> Result<X509, ParseError> {
         let mut res = X509Builder::new();
-        let mut consumed = 0;
         log::debug!("Start parsing X509 certificate");
-        parse(&mut res, ParsingState::Init, data, &mut consumed)?;
+
+        // Certificate  ::=  SEQUENCE  {
+        //      tbsCertificate       TBSCertificate,
+        //      signatureAlgorithm   AlgorithmIdentifier,
+        //      signatureValue       BIT STRING  }
+        let mut consumed = 0;
+        let certificate = parse_element(data, &mut consumed, CONSTRUCTED_SEQUENCE)?;
+        if consumed != data.len() {
+            return Err(ParseError::DerParseLen);
+        }
+
+        // Everything that is signed, and nothing else, describes the certificate
+        let mut consumed = 0;
+        parse_element(certificate, &mut consumed, CONSTRUCTED_SEQUENCE)?;
+        let tbs_certificate = &certificate[..consumed];
+        parse(&mut res, ParsingState::Init, tbs_certificate, &mut 0, 0)?;
+        res.tbs_certificate.raw_data = Some(tbs_certificate.to_vec());
+
+        let algorithm = parse_element(certificate, &mut consumed, CONSTRUCTED_SEQUENCE)?;
+        let algorithm = parse_element(
+            algorithm,
+            &mut 0,
+            EncodedForm::Primitive(DerType::ObjectIdentifier),
+        )?;
+        let algorithm = Algorithms::new(&parse_object_identifier(algorithm)?)?;
+
+        let signature = parse_element(
+            certificate,
+            &mut consumed,
+            EncodedForm::Primitive(DerType::BitString),
+        )?;
+        if consumed != certificate.len() {
+            return Err(ParseError::DerParseLen);
+        }
+        res.parse_signature(&algorithm, signature)?;
+        res.signature_algorithm = Some(algorithm);
+
         res.build()
     }
     pub fn get_public_key(&self) -> Option<PublicKey> {
@@ -420,8 +459,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            log::error!("not yet implemented: compressed points");
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -432,7 +472,6 @@ impl X509 {
 }
 pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
-    tbs_certificate_size: usize,
     signature_algorithm: Option<Algorithms>,
     signature: (Option<IBig>, Option<IBig>),
 }
@@ -440,11 +479,28 @@ impl X509Builder {
     fn new() -> X509Builder {
         X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
-            tbs_certificate_size: 0,
             signature_algorithm: None,
             signature: (None, None),
         }
     }
+    fn parse_signature(&mut self, algorithm: &Algorithms, body: &[u8]) -> Result<(), ParseError> {
+        match algorithm {
+            Algorithms::EcdsaWithSha256 | Algorithms::EcdsaWithSha384 => (),
+            _ => return Ok(()),
+        }
+        // the first byte is the number of unused bits
+        let body = match body.split_first() {
+            Some((0, body)) => body,
+            _ => return Err(ParseError::Signature),
+        };
+        match Signature::from_der(body) {
+            Ok((signature, size)) if size == body.len() => {
+                self.signature = (Some(signature.r), Some(signature.s));
+                Ok(())
+            }
+            _ => Err(ParseError::Signature),
+        }
+    }
     fn build(self) -> Result<X509, ParseError> {
         let mut signature = None;
 
@@ -457,8 +513,7 @@ impl X509Builder {
 
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
-            tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
+            signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
             signature,
         })
     }
@@ -467,10 +522,28 @@ impl X509Builder {
 #[derive(PartialEq, Debug, Clone)]
 enum ParsingState {
     Init,
-    InBitString,
     InSet,
 }
 
+/// The nesting of a certificate is limited, the stack is as well
+const MAX_DEPTH: usize = 10;
+
+const CONSTRUCTED_SEQUENCE: EncodedForm = EncodedForm::Constructed(DerType::Sequence);
+
+/// The content of the next element, which has to be of the given type.
+fn parse_element<'a>(
+    data: &'a [u8],
+    consumed: &mut usize,
+    expected: EncodedForm,
+) -> Result<&'a [u8], ParseError> {
+    let (size, der) = der_parse(consumed, data)?;
+    if der != expected {
+        return Err(ParseError::DerParseType);
+    }
+    *consumed += size;
+    Ok(&data[*consumed - size..*consumed])
+}
+
 #[derive(Debug, Clone)]
 pub enum Version {
     V1 = 0,
@@ -495,27 +568,28 @@ fn parse(
     state: ParsingState,
     data: &[u8],
     consumed: &mut usize,
+    depth: usize,
 ) -> Result<(), ParseError> {
+    if depth > MAX_DEPTH {
+        return Err(ParseError::NotYetImplemented);
+    }
     let (size, der) = der_parse(consumed, data)?;
     let body = &data[*consumed..*consumed + size];
 
     match der {
         EncodedForm::Constructed(cons) => match cons {
             DerType::Sequence => {
-                if res.tbs_certificate_size == 0 {
-                    res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
-                } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
-                }
                 let size_should = size + *consumed;
                 while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                    parse(res, state.clone(), &data[..size_should], consumed, depth + 1)?;
                 }
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
-                        res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
+                        let integer = EncodedForm::Primitive(DerType::Integer);
+                        let version = parse_element(body, &mut 0, integer)?;
+                        res.tbs_certificate.version = Some(Version::parse(version)?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
                     _ => (),
@@ -523,11 +597,14 @@ fn parse(
                 *consumed += size;
             }
             DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
-                // *consumed += size;
+                let size_should = size + *consumed;
+                while size_should > *consumed {
+                    parse(res, ParsingState::InSet, &data[..size_should], consumed, depth + 1)?;
+                }
             }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
@@ -536,10 +613,6 @@ fn parse(
                 *consumed += size;
                 if res.tbs_certificate.serial_number.is_none() {
                     res.tbs_certificate.serial_number = Some(int);
-                } else if res.signature.0.is_none() {
-                    res.signature.0 = Some(int);
-                } else {
-                    res.signature.1 = Some(int);
                 }
             }
             DerType::ObjectIdentifier => match state {
@@ -579,12 +652,9 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -598,10 +668,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime | DerType::GeneralizedTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) if e.is_ascii() => e,
@@ -617,40 +683,36 @@ fn parse(
                 }
                 if res.tbs_certificate.validity.not_before.is_none() {
                     res.tbs_certificate.validity.not_before = timestamp;
-                } else {
+                } else if res.tbs_certificate.validity.not_after.is_none() {
                     res.tbs_certificate.validity.not_after = timestamp;
+                } else {
+                    return Err(ParseError::TimeStamp);
                 }
                 *consumed += size;
             }
             DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
-                    *consumed += 1;
-                    let size_should = size + *consumed - 1;
-                    while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
-                    }
-                } else {
-                    let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
-                    }
+                let (number_of_unused_bits, key) = match body.split_first() {
+                    Some(e) => e,
+                    None => return Err(ParseError::SubjectPublicKeyInfo),
+                };
+                if *number_of_unused_bits != 0 {
+                    return Err(ParseError::SubjectPublicKeyInfo);
+                }
 
-                    if res
-                        .tbs_certificate
+                if res
+                    .tbs_certificate
+                    .subject_public_key_info
+                    .subject_public_key
+                    .is_none()
+                {
+                    res.tbs_certificate
                         .subject_public_key_info
-                        .subject_public_key
-                        .is_none()
-                    {
-                        res.tbs_certificate
-                            .subject_public_key_info
-                            .subject_public_key = Some(BitString(body[1..].to_vec()));
-                    }
-                    *consumed += size;
+                        .subject_public_key = Some(BitString(key.to_vec()));
                 }
+                *consumed += size;
             }
-            DerType::Null => {
-                todo!("Null");
-            }
+            // unique ids and the parameters of other algorithms
+            DerType::Null | DerType::ContextSpecific(_) => *consumed += size,
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
-- 
2.43.0


From f06df48708bdbef40119fa6c1787fcd1991e30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:21 +0000
Subject: [PATCH 26/31] fix: load PEM files exactly or not at all

Characters outside of the base64 alphabet, for example of a cut END line or a
carriage return, were decoded as zero bits, and of several certificates in a
file the last one was used.
---
 anothertls/src/utils/base64.rs | 12 ++++++++++--
 anothertls/src/utils/pem.rs    |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..4462b17 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -53,7 +53,8 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
 
     let mut tmp = [0u8; 4];
 
-    let mut reverse_characters = [0u8; 'z' as usize + 1];
+    // 64 is no value of a character
+    let mut reverse_characters = [64u8; 'z' as usize + 1];
 
     for (i, &c) in CHARS.as_bytes().iter().enumerate() {
         reverse_characters[c as usize] = i as u8;
@@ -75,7 +76,11 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
                 *t = 0;
                 padding_len += 1;
             } else {
-                *t = reverse_characters[ch as usize];
+                *t = *reverse_characters.get(ch as usize).filter(|v| **v < 64)?;
+                // there is nothing behind the padding
+                if padding_len > 0 {
+                    return None;
+                }
             }
         }
 
@@ -84,6 +89,9 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
         out.push((tmp[2] << 6) | tmp[3]);
     }
 
+    if padding_len > 2 {
+        return None;
+    }
     for _ in 0..padding_len {
         out.pop();
     }
diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..2206676 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -24,11 +24,13 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
     let mut current_title = String::new();
     let mut current_content = String::new();
     for line in pem.split('\n') {
+        let line = line.trim_end();
         match state {
             PemState::InContent => {
                 if line.starts_with("-----END") {
                     let raw = base64::decode(&current_content)?;
-                    content.insert(current_title.to_owned(), raw);
+                    // the certificate of a chain which is meant comes first
+                    content.entry(current_title.to_owned()).or_insert(raw);
                     state = PemState::End;
                     current_content.clear();
                 } else {
@@ -37,7 +39,7 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
             }
             PemState::End | PemState::Start => {
                 if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                    current_title = line.get(11..line.len().checked_sub(5)?)?.to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From 1fdf1b1305a8c1fa1ac777547c55bc4a53178fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:23 +0000
Subject: [PATCH 27/31] fix: find the private key in every encoding of its file

A header of another length shifted the key or ended in a panic.
---
 .../src/crypto/ellipticcurve/privatekey.rs     | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..9809669 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -4,6 +4,7 @@
  */
 
 use super::{curve::Curve, math, publickey::PublicKey};
+use crate::utils::der::{der_parse, DerType, EncodedForm};
 use crate::utils::{bytes, pem::get_pem_content_from_file};
 use ibig::IBig;
 
@@ -19,7 +20,22 @@ impl PrivateKey {
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
         let secret = raw.get("EC PRIVATE KEY")?;
-        let secret = bytes::to_ibig_be(&secret[7..39]);
+        // RFC 5915: ECPrivateKey ::= SEQUENCE { version INTEGER, privateKey OCTET STRING, .. }
+        let mut consumed = 0;
+        let (size, der) = der_parse(&mut consumed, secret).ok()?;
+        if der != EncodedForm::Constructed(DerType::Sequence) || consumed + size != secret.len() {
+            return None;
+        }
+        let (size, der) = der_parse(&mut consumed, secret).ok()?;
+        if der != EncodedForm::Primitive(DerType::Integer) {
+            return None;
+        }
+        consumed += size;
+        let (size, der) = der_parse(&mut consumed, secret).ok()?;
+        if der != EncodedForm::Primitive(DerType::OctetString) || size != 32 {
+            return None;
+        }
+        let secret = bytes::to_ibig_be(&secret[consumed..consumed + size]);
         // FIXME: PARSE ASN1 OID
         Some(PrivateKey {
             curve: Curve::secp256r1(),
-- 
2.43.0


From 64cf447605c02ec72ff73b5db73c1b8a86748e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 28/31] fix: client refuses a CertificateVerify of a scheme it
 did not offer

---
 anothertls/src/net/client/connection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 4d260ab..8d4437d 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -423,7 +423,11 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            e => {
+                // not offered in signature_algorithms
+                log::error!("SignatureScheme {e:?} for server cert not implemented yet");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-- 
2.43.0


From 6b0ae07f38e372a8fa5fb282d26345c4f456bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:20 +0000
Subject: [PATCH 29/31] fix: report the error of a handshake when its alert can
 not be sent

---
 anothertls/src/net/client/connection.rs | 3 ++-
 anothertls/src/net/server/connection.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 8d4437d..9057018 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -93,7 +93,8 @@ impl<'a> ClientHandshake<'a> {
     pub fn do_handshake_with_error(&mut self) -> Result<(), TlsError> {
         if let Err(mut err) = self.do_handshake() {
             if err < TlsError::NotOfficial {
-                self.stream.write_alert(err)?;
+                // the peer may be gone already, which is not the error to report
+                let _ = self.stream.write_alert(err);
             }
             if let TlsError::GotAlert(err_code) = err {
                 err = TlsError::new(err_code);
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 94b7ff7..cde3f11 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -96,7 +96,8 @@ impl<'a> ServerHandshake<'a> {
         if let Err(mut err) = self.do_handshake() {
             if err < TlsError::NotOfficial {
                 log::error!("<-- Alert ({err:?})");
-                self.stream.write_alert(err)?;
+                // the peer may be gone already, which is not the error to report
+                let _ = self.stream.write_alert(err);
             }
             if let TlsError::GotAlert(err_code) = err {
                 err = TlsError::new(err_code);
-- 
2.43.0


From 77330f2af112010073cc14c785eeb3f1f30e061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 30/31] fix: refuse a server_name list with more than one host
 name

---
 anothertls/src/net/extensions/server_name.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index c8d2b88..952baa7 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -59,6 +59,10 @@ impl Extension for ServerName {
                 Err(_) => return Err(TlsError::DecodeError),
             };
         }
+        // RFC 6066: the list has no more than one host name
+        if consumed != buf.len() {
+            return Err(TlsError::DecodeError);
+        }
         Ok(ServerName(server_name))
     }
 }
-- 
2.43.0


From 8e515cf8928cb09238ba7cb7a0d85588a5071306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 31/31] fix: refuse a private key of another curve

An EC PRIVATE KEY whose parameters name another curve than prime256v1 was
loaded as a P-256 key.
---
 anothertls/src/crypto/ellipticcurve/privatekey.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index 9809669..d676734 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -8,6 +8,11 @@ use crate::utils::der::{der_parse, DerType, EncodedForm};
 use crate::utils::{bytes, pem::get_pem_content_from_file};
 use ibig::IBig;
 
+/// DER encoding of `parameters [0]` with the OID 1.2.840.10045.3.1.7
+const PRIME256V1_PARAMETERS: [u8; 12] = [
+    0xa0, 0x0a, 0x06, 0x08, 0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07,
+];
+
 pub struct PrivateKey {
     pub curve: Curve,
     pub secret: IBig,
@@ -35,8 +40,12 @@ impl PrivateKey {
         if der != EncodedForm::Primitive(DerType::OctetString) || size != 32 {
             return None;
         }
+        // parameters [0] EXPLICIT OBJECT IDENTIFIER OPTIONAL: only prime256v1 is supported
+        let rest = &secret[consumed + size..];
+        if rest.first() == Some(&0xa0) && !rest.starts_with(&PRIME256V1_PARAMETERS) {
+            return None;
+        }
         let secret = bytes::to_ibig_be(&secret[consumed..consumed + size]);
-        // FIXME: PARSE ASN1 OID
         Some(PrivateKey {
             curve: Curve::secp256r1(),
             secret,
-- 
2.43.0

