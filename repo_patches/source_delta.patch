From 7891b60ae2691537dc0c6ab1b841edee325b97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 01/29] fix: reject RSA private keys whose factors are 0 or 1
 instead of panicking

---
 src/ssh/privkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..34ba26d 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -304,6 +304,11 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // p - 1 and q - 1 are used as moduli below so neither may be 0 or 1
+                if matches!(p.as_slice(), [] | [1]) || matches!(q.as_slice(), [] | [1]) {
+                    return Err(Error::InvalidFormat);
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From d764e2c9d20bff01c9effde6e0b7c9289f7fc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 02/29] fix: signing with a truncated Ed25519 secret returns
 None instead of panicking

---
 src/ssh/privkey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 34ba26d..a03be52 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -274,7 +274,7 @@ impl super::SSHCertificateSigner for PrivateKey {
                 };
 
                 let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
+                    match Ed25519KeyPair::from_seed_and_public_key(key.key.get(..32)?, public_key) {
                         Ok(kp) => kp,
                         Err(_) => return None,
                     };
-- 
2.43.0


From e59687ab02165d668ad9f80b54afcd3cf1ba58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 03/29] fix: sign with ECDSA private keys whose scalar is
 shorter than the curve's field

---
 src/ssh/privkey.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index a03be52..aca262b 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -253,14 +253,20 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
-                    &key.key[1..]
-                } else {
-                    &key.key
-                };
-                let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
-                ) {
+                // The scalar is stored as an mpint so it may have a leading zero or
+                // be shorter than the curve's field. Ring needs it at full length.
+                let leading_zeros = key.key.iter().take_while(|b| **b == 0x0_u8).count();
+                let key = &key.key[leading_zeros..];
+                if key.len() > len {
+                    return None;
+                }
+                let mut scalar = vec![0; len];
+                scalar[len - key.len()..].copy_from_slice(key);
+                let key_pair = signature::EcdsaKeyPair::from_private_key_and_public_key(
+                    alg, &scalar, pubkey, &rng,
+                );
+                scalar.zeroize();
+                let key_pair = match key_pair {
                     Ok(kp) => kp,
                     Err(_) => return None,
                 };
-- 
2.43.0


From d535b89262e0b58e19a42883a4d300cf465f03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 04/29] fix: allowed signer timestamps in a time zone
 transition no longer panic

---
 src/ssh/allowed_signer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..51f703d 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -460,8 +460,11 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         datetime.and_utc()
             .timestamp()
     } else {
+        // A local time can be skipped (no instant) or repeated (two instants) around
+        // a time zone transition
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From e360177b6d971860bf4f7f082cfb6fff4e7a4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 05/29] fix: ignore the comment when checking for the expected
 signing key

---
 src/ssh/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8dd3c18..581d7e1 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -210,7 +210,10 @@ impl VerifiedSshSignature {
         // public key before verification. This is useful when you have a signature but additionally
         // need to check the signature is from it.
         if let Some(pub_key) = pub_key {
-            if ssh_signature.pubkey != pub_key {
+            // The comment is not part of the key
+            if ssh_signature.pubkey.key_type != pub_key.key_type
+                || ssh_signature.pubkey.kind != pub_key.kind
+            {
                 return Err(Error::InvalidSignature);
             }
         }
-- 
2.43.0


From 5ad339b15cd9012bc08b85a08292fcbae8301f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 06/29] fix: refuse to create SSH signatures with an empty
 namespace

---
 src/ssh/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 581d7e1..4225443 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -245,6 +245,11 @@ impl VerifiedSshSignature {
         private_key: PrivateKey,
         hash_algorithm: Option<HashAlgorithm>,
     ) -> Result<Self> {
+        // The specification forbids empty namespaces and our own parser rejects them
+        if namespace.is_empty() {
+            return Err(Error::InvalidFormat);
+        }
+
         let hash_algorithm = hash_algorithm.unwrap_or(HashAlgorithm::Sha512);
 
         let mut ssh_signature = SshSignature {
-- 
2.43.0


From 9e5f8784ac6e3e58f6f6db71b6a5fcecb293284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 07/29] fix: write certificate options in lexical order

---
 src/ssh/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..6c31468 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -196,7 +196,11 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // Options must be lexically ordered by name
+        let mut entries: Vec<_> = map.iter().collect();
+        entries.sort();
+
+        for (k, v) in entries {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From c16b97f174ee928325555cdf4bf0538448e12538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 08/29] fix: reject certificates that repeat an option

---
 src/ssh/cert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 385b566..a84ce9f 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -495,7 +495,10 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
             "".to_string()
         };
 
-        options.insert(name, value);
+        // Each named option may only appear once in a certificate
+        if options.insert(name, value).is_some() {
+            return Err(Error::InvalidFormat);
+        }
     }
 
     Ok(options)
-- 
2.43.0


From 71601b1022db6448d45af62f7ab43ff2631e3a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 09/29] fix: write the reserved certificate field that is
 reported

---
 src/ssh/cert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index a84ce9f..005b9d4 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -308,7 +308,7 @@ impl Certificate {
             valid_before: 0,
             critical_options: HashMap::new(),
             extensions: HashMap::new(),
-            reserved: vec![0, 0, 0, 0, 0, 0, 0, 0],
+            reserved: vec![],
             signature_key: signing_key.clone(),
             signature: vec![],
             comment: None,
@@ -422,7 +422,7 @@ impl Certificate {
         writer.write_string_map(&self.extensions);
 
         // Write the unused reserved bytes
-        writer.write_u32(0x0);
+        writer.write_bytes(&self.reserved);
 
         // Write the CA public key
         writer.write_bytes(&self.signature_key.encode());
-- 
2.43.0


From 16e94e777a0328e6dd2de0eb3357406d32cb7412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 10/29] fix: reject certificates whose text label names another
 type of the same kind

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 005b9d4..228cc25 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -157,7 +157,7 @@ impl Certificate {
         let mut cert = Certificate::from_bytes(&decoded)?;
         cert.comment = comment;
 
-        if cert.key_type.kind != outer_kt.kind {
+        if cert.key_type != outer_kt {
             return Err(Error::KeyTypeMismatch);
         }
         Ok(cert)
-- 
2.43.0


From 8752f136222d2e3629b37f44e0523851e63250a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 11/29] fix: keep the reserved data of security key private
 keys when encoding

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index aca262b..7f27e66 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -688,7 +688,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -698,7 +698,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From 42bc3ac878d8b8d55fadff4210513e6fc96d9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 12/29] fix: generated Ed25519 private keys use the 64 byte
 OpenSSH secret

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 7f27e66..d9599fa 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -463,7 +463,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the secret as the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [&seed[..], &public_key_bytes].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 63ac6f657038ee6b8920f27fc1ac547eb1417d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 13/29] fix: do not read a certificate as a public key

---
 src/ssh/pubkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 592b08f..6998f6f 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -256,6 +256,11 @@ impl PublicKey {
     pub(crate) fn from_reader(kt_name: &str, reader: &mut Reader<'_>) -> Result<PublicKey> {
         let kt = KeyType::from_name(kt_name)?;
 
+        // Certificates contain other data before the public key
+        if kt.is_cert {
+            return Err(Error::KeyTypeMismatch);
+        }
+
         let kind = match kt.kind {
             KeyTypeKind::Rsa | KeyTypeKind::RsaCert => {
                 let k = RsaPublicKey {
-- 
2.43.0


From e1d4db87e3c2a13f9f4a71ca22ce64310d8f383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 14/29] fix: reject ECDSA keys whose curve is not the one of
 their type

---
 src/ssh/privkey.rs | 3 +++
 src/ssh/pubkey.rs  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index d9599fa..d17fc57 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -360,6 +360,9 @@ impl PrivateKey {
             KeyTypeKind::Ecdsa => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let pubkey = reader.read_bytes()?;
 
                 let (private_key, sk_application) = match kt.is_sk {
diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 6998f6f..ddd728f 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -273,6 +273,9 @@ impl PublicKey {
             KeyTypeKind::Ecdsa | KeyTypeKind::EcdsaCert => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let key = reader.read_bytes()?;
                 let sk_application = match kt.is_sk {
                     true => Some(reader.read_string()?),
-- 
2.43.0


From 7a855c7f9cff3a6f9de03443220de16e865b2ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 15/29] fix: malformed policy data in a PIV attestation no
 longer panics

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..2232045 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() < 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From 18adcf3d83cb4896e4709b1d365ba60dda450853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 16/29] fix: a malformed PIV root certificate no longer panics

---
 src/yubikey/verification.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 2232045..15a59cd 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -117,8 +117,9 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) =
+        parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From 28a37030eb15a4063c2ad5e4ba5352eead90228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 17/29] fix: report the internal USB transport of FIDO
 attestations

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..097eac0 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..5 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From 30b78a6de4f4f4b3e40bf46f49e6911f62953873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 18/29] fix: use both coordinates of ECDSA FIDO keys

---
 src/fido/parsing.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..1358553 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let mut y_coordinate = None;
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,14 +177,19 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let value = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            parsed_key.key = value;
+                        } else {
+                            y_coordinate = Some(value);
+                        }
                     }
                     x => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
@@ -193,6 +199,10 @@ impl AuthData {
                 };
                 idx += 2;
             }
+            // Keys with two coordinates are represented as an uncompressed point
+            if let Some(y) = y_coordinate {
+                parsed_key.key = [&[0x04], parsed_key.key.as_slice(), &y].concat();
+            }
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From fdd73ef1d6c1eedb7834db9e5679612c00093f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:44 +0000
Subject: [PATCH 19/29] fix: accept allowed signers followed by a comment that
 ends in a double quote

---
 src/ssh/allowed_signer.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 51f703d..47ed512 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -343,14 +343,12 @@ impl AllowedSignerSplitter {
             return Ok(None);
         }
 
-        // If the next token starts with a double quote, then the closing double quote is also
-        // the end of the token
-        if self.buffer[0] == "\"" {
-            if opening_quotes_allowed {
-                return self.split_quote().map(|v| Some(v));
-            } else {
-                return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
-            }
+        // The next token (the buffer is in reverse order) is a quoted one that cannot be quoted
+        if !opening_quotes_allowed
+            && self.buffer.last().map_or(false, |v| v == "\"")
+            && self.buffer[0] == "\""
+        {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
         }
 
         // If the next token doesn't start with a double quote, the token can represent an option.
-- 
2.43.0


From e0c98d6a84c819eccb65c89997b8f9f287ecac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:44 +0000
Subject: [PATCH 20/29] fix: reject allowed signer timestamps with anything but
 digits and one Z

---
 src/ssh/allowed_signer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 47ed512..a0ced47 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -435,7 +435,11 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     if is_utc {
-        s = s.trim_end_matches('Z');
+        s = s.strip_suffix('Z').unwrap_or(s);
+    }
+    // The parsing below would skip over signs and whitespace
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     let datetime = match s.len() {
         8 => {
-- 
2.43.0


From dbffa8e1fb96f0c2ebc8f07ffa6cf580847f1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:44 +0000
Subject: [PATCH 21/29] fix: print allowed signers in the format they are
 parsed from

---
 src/ssh/allowed_signer.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index a0ced47..9243c0f 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -4,7 +4,7 @@ use std::io::Read;
 use std::path::Path;
 
 use chrono::prelude::Local;
-use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{NaiveDate, NaiveDateTime, NaiveTime, TimeZone, Utc};
 
 use super::pubkey::PublicKey;
 use crate::{error::Error, Result};
@@ -209,22 +209,22 @@ impl fmt::Display for AllowedSigner {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut output = String::new();
 
-        output.push_str(&self.principals.join(","));
+        output.push_str(&quote_if_needed(self.principals.join(",")));
         
         if self.cert_authority {
             output.push_str(" cert-authority");
         }
 
         if let Some(ref namespaces) = self.namespaces {
-            output.push_str(&format!(" namespaces={}", namespaces.join(",")));
+            output.push_str(&format!(" namespaces={}", quote_if_needed(namespaces.join(","))));
         }
 
         if let Some(ref valid_after) = self.valid_after {
-            output.push_str(&format!(" valid-after={}", valid_after));
+            output.push_str(&format!(" valid-after={}", format_timestamp(*valid_after)));
         }
 
         if let Some(ref valid_before) = self.valid_before {
-            output.push_str(&format!(" valid-before={}", valid_before));
+            output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
         output.push_str(&format!(" {}", self.key));
@@ -233,6 +233,22 @@ impl fmt::Display for AllowedSigner {
     }
 }
 
+/// Values containing delimiters must be enclosed by quotation marks
+fn quote_if_needed(value: String) -> String {
+    match value.contains([' ', '#']) {
+        true => format!("\"{}\"", value),
+        false => value,
+    }
+}
+
+/// Format a UNIX timestamp the way it is written in an allowed signer
+fn format_timestamp(timestamp: i64) -> String {
+    match Utc.timestamp_opt(timestamp, 0).single() {
+        Some(datetime) => datetime.format("%Y%m%d%H%M%SZ").to_string(),
+        None => timestamp.to_string(),
+    }
+}
+
 impl AllowedSigners {
     /// Reads AllowedSigners from a given path.
     ///
-- 
2.43.0


From 698573a88df4cd612e31b1208a49beee9b85e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:01 +0000
Subject: [PATCH 22/29] fix: reject stray double quotes in allowed signer
 principals

---
 src/ssh/allowed_signer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 9243c0f..e771b40 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -102,6 +102,9 @@ impl AllowedSigner {
         let principals = tokenizer.next(true)?
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingPrincipals))?;
         let principals = principals.trim_matches('"');
+        if principals.contains('"') {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
+        }
         let principals: Vec<String> = principals.split(',')
             .map(|s| s.to_string())
             .collect();
-- 
2.43.0


From a71d246cde57729c5a877595a808eff3703ba4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:22 +0000
Subject: [PATCH 23/29] fix: print public keys under the type name they are
 encoded with

---
 src/ssh/pubkey.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index ddd728f..08693d2 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -80,12 +80,12 @@ impl fmt::Display for PublicKey {
             write!(
                 f,
                 "{} {} {}",
-                self.key_type,
+                self.key_type.plain,
                 base64::encode(&self.encode()),
                 comment
             )
         } else {
-            write!(f, "{} {}", self.key_type, base64::encode(&self.encode()),)
+            write!(f, "{} {}", self.key_type.plain, base64::encode(&self.encode()),)
         }
     }
 }
@@ -423,8 +423,8 @@ impl PublicKey {
         let encoded = self.encode();
         let data = base64::encode(&encoded);
         match self.comment {
-            Some(ref c) => w.write_fmt(format_args!("{} {} {}\n", self.key_type.name, data, c)),
-            None => w.write_fmt(format_args!("{} {}\n", self.key_type.name, data)),
+            Some(ref c) => w.write_fmt(format_args!("{} {} {}\n", self.key_type.plain, data, c)),
+            None => w.write_fmt(format_args!("{} {}\n", self.key_type.plain, data)),
         }
     }
 }
-- 
2.43.0


From 2221dfbb9d1e8f554f9c83bb2bb3a826a427ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:44 +0000
Subject: [PATCH 24/29] fix: do not print the key comment of an allowed signer

An entry whose key carries a comment (any key read from a .pub file)
was printed with the comment as an extra token after the key, which the
parser rejects.
---
 src/ssh/allowed_signer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index e771b40..2993580 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -230,7 +230,10 @@ impl fmt::Display for AllowedSigner {
             output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
-        output.push_str(&format!(" {}", self.key));
+        // A key comment is not part of the format
+        let mut key = self.key.clone();
+        key.comment = None;
+        output.push_str(&format!(" {}", key));
 
         write!(f, "{}", output)
     }
-- 
2.43.0


From 00f97ea7352ccd1aba5ba443815bae95a2519bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:50 +0000
Subject: [PATCH 25/29] fix: wipe the previous PIN when set_pin replaces it

---
 src/ssh/privkey.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index d17fc57..a9cf4aa 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -639,9 +639,11 @@ impl PrivateKey {
     pub fn set_pin(&mut self, pin: &str) {
         match &mut self.kind {
             PrivateKeyKind::EcdsaSk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             PrivateKeyKind::Ed25519Sk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             _ => (),
-- 
2.43.0


From 599ccaed3d0972f21087b01c6ede8037814a7014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 26/29] fix: generate_csr returns an error instead of panicking
 when the token cannot be reached again

---
 src/yubikey/piv/management.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 686cb22..2a0053e 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -25,20 +25,23 @@ impl CSRSigner {
     /// Create a new certificate signer based on a Yubikey serial
     /// and slot
     pub fn new(serial: u32, slot: SlotId) -> Self {
-        let mut yk = super::Yubikey::open(serial).unwrap();
-        let pki = yk.configured(&slot).unwrap();
-        let (public_key, algorithm) = match pki {
-            PublicKeyInfo::Rsa { pubkey: _, .. } => panic!("RSA keys not supported"),
+        Self::try_new(serial, slot).unwrap()
+    }
+
+    fn try_new(serial: u32, slot: SlotId) -> Result<Self> {
+        let mut yk = super::Yubikey::open(serial)?;
+        let (public_key, algorithm) = match yk.configured(&slot)? {
+            PublicKeyInfo::Rsa { .. } => return Err(Error::Unsupported),
             PublicKeyInfo::EcP256(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP256),
             PublicKeyInfo::EcP384(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP384),
         };
 
-        Self {
+        Ok(Self {
             slot,
             serial,
             public_key,
             algorithm,
-        }
+        })
     }
 }
 
@@ -151,7 +154,7 @@ impl super::Yubikey {
             .distinguished_name
             .push(rcgen::DnType::CommonName, common_name.to_string());
 
-        let csr_signer = CSRSigner::new(self.yk.serial().into(), *slot);
+        let csr_signer = CSRSigner::try_new(self.yk.serial().into(), *slot)?;
         params.key_pair = Some(rcgen::KeyPair::from_remote(Box::new(csr_signer)).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?);
 
         let csr = rcgen::Certificate::from_params(params).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?;
-- 
2.43.0


From e590db4783bbfed905f70d86a21f502c1e378f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:59 +0000
Subject: [PATCH 27/29] fix: provision refuses an overlong common name before
 replacing the key in the slot

---
 src/yubikey/piv/management.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 2a0053e..ea5f0bb 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -173,6 +173,12 @@ impl super::Yubikey {
         touch_policy: TouchPolicy,
         pin_policy: PinPolicy,
     ) -> Result<PublicKey> {
+        // A longer common name cannot be put in a certificate. Say so before
+        // the key in the slot is replaced.
+        if common_name.len() > 64 {
+            return Err(Error::Unsupported);
+        }
+
         let key_info = yubikey::piv::generate(&mut self.yk, *slot, alg, pin_policy, touch_policy)?;
         let extensions: &[x509::Extension<'_, &[u64]>] = &[];
         // Generate a self-signed certificate for the new key.
-- 
2.43.0


From a486ee771a1a2b61df4a80e330c6c746972676cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:46 +0000
Subject: [PATCH 28/29] fix: key generation on a FIDO token returns when it
 fails without a PIN error

generate_new_ssh_key waited for a PIN error that never came whenever
registration failed for another reason, because it kept a sender of the
status channel (and the manager that holds the others) alive itself.
---
 src/fido/generate/mozilla.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f17642d..c7f679f 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -115,6 +115,13 @@ pub fn generate_new_ssh_key(
     let register_result = register_rx
         .recv()
         .map_err(|e| Error::FidoError(FidoError::Unknown(e.to_string())))?;
+
+    // The registration is over. Close our end of the status channel and stop
+    // the manager (which holds the others) so the thread above can finish,
+    // otherwise a failure without a PIN error would wait for one forever.
+    drop(status_tx);
+    drop(manager);
+
     let attestation_object = match register_result {
         Ok(attestation) => attestation,
         Err(e) => {
-- 
2.43.0


From 67e09260fd72e6cf5d0e2371f3d4deff51ed260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:58 +0000
Subject: [PATCH 29/29] fix: signing with a FIDO token returns when the token
 wants a PIN it was not given

sign_with_private_key kept a receiver of the status updates it never
reads, so the token's request for a (correct) PIN was waited on forever
instead of failing the signature.
---
 src/fido/signing/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..e53c0df 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -65,7 +65,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         sign_tx.send(rv).unwrap();
     }));
 
-    let (status_tx, _status_rx) = channel::<StatusUpdate>();
+    // Nobody answers status updates here, so do not keep a receiver for them:
+    // a token asking for another PIN would otherwise be waited for forever.
+    let (status_tx, _) = channel::<StatusUpdate>();
     if let Err(e) = manager.sign(
         15_000,
         ctap_args.clone().into(),
-- 
2.43.0

