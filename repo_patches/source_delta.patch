From b625aef74e1c78abc118b60d3a5d784c92c774b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 01/26] fix: reject uncompressed keys where only the point is
 stored

A 65 byte key in a BIP-32 derivation field was accepted and then re-serialized
as a different, 33 byte, key.
---
 src/serialize.rs            | 4 ++++
 src/v0/bitcoin/serialize.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/serialize.rs b/src/serialize.rs
index 5ee5e67..f820be9 100644
--- a/src/serialize.rs
+++ b/src/serialize.rs
@@ -90,6 +90,10 @@ impl Serialize for secp256k1::PublicKey {
 
 impl Deserialize for secp256k1::PublicKey {
     fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
+        // We only store the point so an uncompressed key would be re-serialized as another key.
+        if bytes.len() != secp256k1::constants::PUBLIC_KEY_SIZE {
+            return Err(Error::InvalidSecp256k1PublicKey(secp256k1::Error::InvalidPublicKey));
+        }
         secp256k1::PublicKey::from_slice(bytes).map_err(Error::InvalidSecp256k1PublicKey)
     }
 }
diff --git a/src/v0/bitcoin/serialize.rs b/src/v0/bitcoin/serialize.rs
index def826d..4797e45 100644
--- a/src/v0/bitcoin/serialize.rs
+++ b/src/v0/bitcoin/serialize.rs
@@ -153,6 +153,10 @@ impl Serialize for secp256k1::PublicKey {
 
 impl Deserialize for secp256k1::PublicKey {
     fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
+        // We only store the point so an uncompressed key would be re-serialized as another key.
+        if bytes.len() != secp256k1::constants::PUBLIC_KEY_SIZE {
+            return Err(Error::InvalidSecp256k1PublicKey(secp256k1::Error::InvalidPublicKey));
+        }
         secp256k1::PublicKey::from_slice(bytes).map_err(Error::InvalidSecp256k1PublicKey)
     }
 }
-- 
2.43.0


From b590e6552da2c91a0f17d6e2267bd68ccd31519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 02/26] fix: reject 65 byte taproot signatures using the
 default sighash type

BIP-341 makes these invalid, we accepted them and dropped the sighash byte.
---
 src/serialize.rs            | 5 +++++
 src/v0/bitcoin/serialize.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/serialize.rs b/src/serialize.rs
index f820be9..5b9bec2 100644
--- a/src/serialize.rs
+++ b/src/serialize.rs
@@ -247,6 +247,11 @@ impl Deserialize for taproot::Signature {
     fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
         use taproot::SigFromSliceError::*;
 
+        // BIP-341: a 65 byte signature must not use the default sighash type.
+        if bytes.len() == 65 && bytes[64] == 0 {
+            return Err(Error::NonStandardSighashType(0));
+        }
+
         taproot::Signature::from_slice(bytes).map_err(|e| match e {
             SighashType(err) => Error::NonStandardSighashType(err.0),
             InvalidSignatureSize(_) => Error::InvalidTaprootSignature(e),
diff --git a/src/v0/bitcoin/serialize.rs b/src/v0/bitcoin/serialize.rs
index 4797e45..36d464a 100644
--- a/src/v0/bitcoin/serialize.rs
+++ b/src/v0/bitcoin/serialize.rs
@@ -264,6 +264,11 @@ impl Deserialize for taproot::Signature {
     fn deserialize(bytes: &[u8]) -> Result<Self, Error> {
         use crate::bitcoin::taproot::SigFromSliceError::*;
 
+        // BIP-341: a 65 byte signature must not use the default sighash type.
+        if bytes.len() == 65 && bytes[64] == 0 {
+            return Err(Error::NonStandardSighashType(0));
+        }
+
         taproot::Signature::from_slice(bytes).map_err(|e| match e {
             SighashType(err) => Error::NonStandardSighashType(err.0),
             InvalidSignatureSize(_) => Error::InvalidTaprootSignature(e),
-- 
2.43.0


From bc62fb790afc2325e820ee25b25671901dfaed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 03/26] fix: require 33 byte scan keys and ECDH shares

BIP-375 keys and shares are compressed keys, a 65 byte key was accepted and
re-serialized as a different one.
---
 src/macros.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index 6e5cc88..bbf310a 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -137,8 +137,14 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
+        if $raw_value.len() != 33 {
+            return Err(InsertPairError::ValueWrongLength($raw_value.len(), 33).into());
+        }
         let value = bitcoin::CompressedPublicKey::from_slice(&$raw_value)
             .map_err(|_| InsertPairError::ValueWrongLength($raw_value.len(), 33))?;
         match $map.entry(scan_key) {
@@ -154,6 +160,9 @@ macro_rules! v2_impl_psbt_insert_sp_pair {
         if $raw_key.key.is_empty() {
             return Err(InsertPairError::InvalidKeyDataEmpty($raw_key).into());
         }
+        if $raw_key.key.len() != 33 {
+            return Err(InsertPairError::KeyWrongLength($raw_key.key.len(), 33).into());
+        }
         let scan_key = bitcoin::CompressedPublicKey::from_slice(&$raw_key.key)
             .map_err(|_| InsertPairError::KeyWrongLength($raw_key.key.len(), 33))?;
         let value = $crate::v2::dleq::DleqProof::try_from($raw_value.as_slice())
-- 
2.43.0


From 4c01c25d975f866426efd2eae86fa35bfe3f698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:01 +0000
Subject: [PATCH 04/26] fix: reject ECDSA signatures that do not round trip

Out of range integers were parsed as zero so the signature was altered.
---
 src/serialize.rs            | 12 ++++++++++--
 src/v0/bitcoin/serialize.rs | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/serialize.rs b/src/serialize.rs
index 5b9bec2..b454bbc 100644
--- a/src/serialize.rs
+++ b/src/serialize.rs
@@ -117,13 +117,21 @@ impl Deserialize for ecdsa::Signature {
         // also has a field sighash_u32 (See BIP141). For example, when signing with non-standard
         // 0x05, the sighash message would have the last field as 0x05u32 while, the verification
         // would use check the signature assuming sighash_u32 as `0x01`.
-        ecdsa::Signature::from_slice(bytes).map_err(|e| match e {
+        let sig = ecdsa::Signature::from_slice(bytes).map_err(|e| match e {
             ecdsa::Error::EmptySignature => Error::InvalidEcdsaSignature(e),
             ecdsa::Error::SighashType(err) => Error::NonStandardSighashType(err.0),
             ecdsa::Error::Secp256k1(..) => Error::InvalidEcdsaSignature(e),
             ecdsa::Error::Hex(..) => unreachable!("Decoding from slice, not hex"),
             _ => panic!("TODO: Handle non_exhaustive error"),
-        })
+        })?;
+
+        // Out of range integers are parsed as zero, do not accept and alter such a signature.
+        if sig.to_vec() != bytes {
+            return Err(Error::InvalidEcdsaSignature(ecdsa::Error::Secp256k1(
+                secp256k1::Error::InvalidSignature,
+            )));
+        }
+        Ok(sig)
     }
 }
 
diff --git a/src/v0/bitcoin/serialize.rs b/src/v0/bitcoin/serialize.rs
index 36d464a..e559fd4 100644
--- a/src/v0/bitcoin/serialize.rs
+++ b/src/v0/bitcoin/serialize.rs
@@ -180,13 +180,21 @@ impl Deserialize for ecdsa::Signature {
         // also has a field sighash_u32 (See BIP141). For example, when signing with non-standard
         // 0x05, the sighash message would have the last field as 0x05u32 while, the verification
         // would use check the signature assuming sighash_u32 as `0x01`.
-        ecdsa::Signature::from_slice(bytes).map_err(|e| match e {
+        let sig = ecdsa::Signature::from_slice(bytes).map_err(|e| match e {
             ecdsa::Error::EmptySignature => Error::InvalidEcdsaSignature(e),
             ecdsa::Error::SighashType(err) => Error::NonStandardSighashType(err.0),
             ecdsa::Error::Secp256k1(..) => Error::InvalidEcdsaSignature(e),
             ecdsa::Error::Hex(..) => unreachable!("Decoding from slice, not hex"),
             _ => unreachable!("in rust-bitcoin v0.32.2"),
-        })
+        })?;
+
+        // Out of range integers are parsed as zero, do not accept and alter such a signature.
+        if sig.to_vec() != bytes {
+            return Err(Error::InvalidEcdsaSignature(ecdsa::Error::Secp256k1(
+                secp256k1::Error::InvalidSignature,
+            )));
+        }
+        Ok(sig)
     }
 }
 
-- 
2.43.0


From d28843b65f2875bb63ef88823f2840d747378dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:14 +0000
Subject: [PATCH 05/26] fix: detect a repeated input count rather than
 requiring it before the output count

---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From 49dde4d6117cff8415e5c88db3d707c40deb5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 06/26] fix: track whether an input's outpoint was decoded
 instead of using sentinel values

---
 src/v2/map/input.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..db42b71 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -393,22 +393,33 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
+        // These are placeholder values, replaced when the mandatory pairs are decoded.
         let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
         let mut rv = Self::new(&invalid);
 
+        let mut has_previous_txid = false;
+        let mut has_spent_output_index = false;
+
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => {
+                    match pair.key.type_value {
+                        PSBT_IN_PREVIOUS_TXID => check_unkeyed(&pair.key, &mut has_previous_txid)?,
+                        PSBT_IN_OUTPUT_INDEX =>
+                            check_unkeyed(&pair.key, &mut has_spent_output_index)?,
+                        _ => {}
+                    }
+                    rv.insert_pair(pair)?
+                }
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
+        if !has_previous_txid {
             return Err(DecodeError::MissingPreviousTxid);
         }
-        if rv.spent_output_index == u32::MAX {
+        if !has_spent_output_index {
             return Err(DecodeError::MissingSpentOutputIndex);
         }
 
@@ -429,16 +440,10 @@ impl Input {
 
         match raw_key.type_value {
             PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
                 let txid: Txid = Deserialize::deserialize(&raw_value)?;
                 self.previous_txid = txid;
             }
             PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
                 let vout: u32 = Deserialize::deserialize(&raw_value)?;
                 self.spent_output_index = vout;
             }
@@ -821,6 +826,18 @@ where
     }
 }
 
+/// Checks that the key of a mandatory, non-optional, field has no key data and is not repeated.
+fn check_unkeyed(key: &raw::Key, seen: &mut bool) -> Result<(), InsertPairError> {
+    if !key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(key.clone()));
+    }
+    if *seen {
+        return Err(InsertPairError::DuplicateKey(key.clone()));
+    }
+    *seen = true;
+    Ok(())
+}
+
 /// Enables building an [`Input`] using the standard builder pattern.
 pub struct InputBuilder(Input);
 
-- 
2.43.0


From 7f39ca0ca70272f5faf25276a937b1ecd0ec1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 07/26] fix: track whether an output's amount and script were
 decoded instead of using sentinel values

---
 src/v2/map/output.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..baf0cfe 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -106,24 +106,35 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
+        // These are placeholder values, replaced when the mandatory pairs are decoded.
         let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
         let mut rv = Self::new(invalid);
 
+        let mut has_amount = false;
+        let mut has_script_pubkey = false;
+
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => {
+                    match pair.key.type_value {
+                        PSBT_OUT_AMOUNT => check_unkeyed(&pair.key, &mut has_amount)?,
+                        PSBT_OUT_SCRIPT => check_unkeyed(&pair.key, &mut has_script_pubkey)?,
+                        _ => {}
+                    }
+                    rv.insert_pair(pair)?
+                }
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
+        if !has_amount {
             return Err(DecodeError::MissingValue);
         }
-        // BIP-375 allows outputs to be missing scriptPubkey
-        #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
+        // BIP-375 allows silent payment outputs to be missing scriptPubkey
+        #[cfg(feature = "silent-payments")]
+        let has_script_pubkey = has_script_pubkey || rv.sp_v0_info.is_some();
+        if !has_script_pubkey {
             return Err(DecodeError::MissingScriptPubkey);
         }
 
@@ -140,16 +151,10 @@ impl Output {
 
         match raw_key.type_value {
             PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
                 let amount: Amount = Deserialize::deserialize(&raw_value)?;
                 self.amount = amount;
             }
             PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
-                }
                 let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
                 self.script_pubkey = script;
             }
@@ -331,6 +336,18 @@ impl Map for Output {
     }
 }
 
+/// Checks that the key of a mandatory, non-optional, field has no key data and is not repeated.
+fn check_unkeyed(key: &raw::Key, seen: &mut bool) -> Result<(), InsertPairError> {
+    if !key.key.is_empty() {
+        return Err(InsertPairError::InvalidKeyDataNotEmpty(key.clone()));
+    }
+    if *seen {
+        return Err(InsertPairError::DuplicateKey(key.clone()));
+    }
+    *seen = true;
+    Ok(())
+}
+
 /// Enables building an [`Output`] using the standard builder pattern.
 // This is only provided for uniformity with the `InputBuilder`.
 pub struct OutputBuilder(Output);
-- 
2.43.0


From 4ceea67fa2bb55f2c4d28f12c3347178a7aaa8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:08 +0000
Subject: [PATCH 08/26] fix: do not allocate for untrusted input and output
 counts

---
 src/v2/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..e9fd94f 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,8 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            // The count is not to be trusted so do not allocate for it up front.
+            let mut inputs: Vec<Input> = Vec::new();
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +642,8 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            // The count is not to be trusted so do not allocate for it up front.
+            let mut outputs: Vec<Output> = Vec::new();
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From 19907f645583425934360fbd88d195784f9b2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:58 +0000
Subject: [PATCH 09/26] fix: implement Display and source for errors that had a
 todo or printed a placeholder

---
 src/v2/error.rs     | 24 ++++++++++++++++++++++--
 src/v2/extract.rs   | 18 ++++++++++++++++--
 src/v2/map/input.rs | 10 +++++++++-
 3 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..03305fe 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => f.write_str("invalid magic"),
+            InvalidSeparator => f.write_str("invalid separator"),
+            NoMorePairs => f.write_str("no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "error decoding the global map"; e),
+            DecodeInput(ref e) => write_err!(f, "error decoding an input map"; e),
+            DecodeOutput(ref e) => write_err!(f, "error decoding an output map"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..41716e2 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => f.write_str("attempted to extract tx from an unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            DetermineLockTime(ref e) => Some(e),
+            Unfinalized => None,
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index db42b71..375429f 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -1034,7 +1034,15 @@ pub enum HashType {
 }
 
 impl fmt::Display for HashType {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", stringify!(self)) }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let s = match *self {
+            HashType::Ripemd => "ripemd160",
+            HashType::Sha256 => "sha256",
+            HashType::Hash160 => "hash160",
+            HashType::Hash256 => "hash256",
+        };
+        f.write_str(s)
+    }
 }
 
 /// Error finalizing an input.
-- 
2.43.0


From 5ed54de71626ed8f92b9559e17fc57336d789b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:25 +0000
Subject: [PATCH 10/26] fix: reject data left after the last map of a PSBT

---
 src/v0/bitcoin/serialize.rs | 4 ++++
 src/v2/error.rs             | 5 ++++-
 src/v2/mod.rs               | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/serialize.rs b/src/v0/bitcoin/serialize.rs
index e559fd4..2a4f056 100644
--- a/src/v0/bitcoin/serialize.rs
+++ b/src/v0/bitcoin/serialize.rs
@@ -107,6 +107,10 @@ impl Psbt {
             outputs
         };
 
+        if !d.is_empty() {
+            return Err(Error::PartialDataConsumption);
+        }
+
         global.inputs = inputs;
         global.outputs = outputs;
         Ok(global)
diff --git a/src/v2/error.rs b/src/v2/error.rs
index 03305fe..9f21d0b 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -31,6 +31,8 @@ pub enum DeserializeError {
     DecodeInput(input::DecodeError),
     /// Error decoding an output map.
     DecodeOutput(output::DecodeError),
+    /// There is data left after the last map.
+    PartialDataConsumption,
 }
 
 impl fmt::Display for DeserializeError {
@@ -44,6 +46,7 @@ impl fmt::Display for DeserializeError {
             DecodeGlobal(ref e) => write_err!(f, "error decoding the global map"; e),
             DecodeInput(ref e) => write_err!(f, "error decoding an input map"; e),
             DecodeOutput(ref e) => write_err!(f, "error decoding an output map"; e),
+            PartialDataConsumption => f.write_str("data left after the last map"),
         }
     }
 }
@@ -57,7 +60,7 @@ impl std::error::Error for DeserializeError {
             DecodeGlobal(ref e) => Some(e),
             DecodeInput(ref e) => Some(e),
             DecodeOutput(ref e) => Some(e),
-            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            InvalidMagic | InvalidSeparator | NoMorePairs | PartialDataConsumption => None,
         }
     }
 }
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index e9fd94f..7ce01ac 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -652,6 +652,10 @@ impl Psbt {
             outputs
         };
 
+        if !d.is_empty() {
+            return Err(PartialDataConsumption);
+        }
+
         Ok(Psbt { global, inputs, outputs })
     }
 
-- 
2.43.0


From 1738827238b6de08769ca0fd2b29938390bd295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 11/26] fix: refuse conflicting xpub key sources when combining
 instead of panicking or picking one

---
 src/v0/bitcoin/mod.rs | 5 +++--
 src/v2/map/global.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..7a8c527 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..b4abb35 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 69555c1a46147e8b46f8f7354bd7c949e838eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 12/26] fix: keep the sighash type and fallback lock time of
 either PSBT when combining

---
 src/v0/bitcoin/map/input.rs | 1 +
 src/v2/map/global.rs        | 2 ++
 src/v2/map/input.rs         | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..0a3dcdc 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -323,6 +323,7 @@ impl Input {
         self.proprietary.extend(other.proprietary);
         self.unknown.extend(other.unknown);
 
+        combine!(sighash_type, self, other);
         combine!(redeem_script, self, other);
         combine!(witness_script, self, other);
         combine!(final_script_sig, self, other);
diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index b4abb35..f3e3998 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -405,6 +405,8 @@ impl Global {
             });
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
+
         // BIP 174: The Combiner must remove any duplicate key-value pairs, in accordance with
         //          the specification. It can pick arbitrarily when conflicts occur.
 
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 375429f..bf429e7 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -634,7 +634,7 @@ impl Input {
         }
 
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From 4ac4505b42d82800b87b586768e55ef9df6e95af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 13/26] fix: refuse to combine PSBTs with different numbers of
 inputs or outputs

---
 src/v2/map/global.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index f3e3998..c8e7d39 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -405,6 +405,20 @@ impl Global {
             });
         }
 
+        if self.input_count != other.input_count {
+            return Err(CombineError::InputCountMismatch {
+                this: self.input_count,
+                that: other.input_count,
+            });
+        }
+
+        if self.output_count != other.output_count {
+            return Err(CombineError::OutputCountMismatch {
+                this: self.output_count,
+                that: other.output_count,
+            });
+        }
+
         v2_combine_option!(fallback_lock_time, self, other);
 
         // BIP 174: The Combiner must remove any duplicate key-value pairs, in accordance with
@@ -747,6 +761,20 @@ pub enum CombineError {
         /// Into a PBST with `that` tx version.
         that: transaction::Version,
     },
+    /// The numbers of inputs are not the same.
+    InputCountMismatch {
+        /// Attempted to combine a PBST with `this` many inputs.
+        this: usize,
+        /// Into a PBST with `that` many inputs.
+        that: usize,
+    },
+    /// The numbers of outputs are not the same.
+    OutputCountMismatch {
+        /// Attempted to combine a PBST with `this` many outputs.
+        this: usize,
+        /// Into a PBST with `that` many outputs.
+        that: usize,
+    },
     /// Xpubs have inconsistent key sources.
     InconsistentKeySources(InconsistentKeySourcesError),
 }
@@ -762,6 +790,12 @@ impl fmt::Display for CombineError {
             TxVersionMismatch { ref this, ref that } => {
                 write!(f, "combine two PSBTs with different tx versions: {:?} {:?}", this, that)
             }
+            InputCountMismatch { ref this, ref that } => {
+                write!(f, "combine two PSBTs with different input counts: {} {}", this, that)
+            }
+            OutputCountMismatch { ref this, ref that } => {
+                write!(f, "combine two PSBTs with different output counts: {} {}", this, that)
+            }
             InconsistentKeySources(ref e) => {
                 write_err!(f, "combine with inconsistent key sources"; e)
             }
@@ -776,7 +810,10 @@ impl std::error::Error for CombineError {
 
         match *self {
             InconsistentKeySources(ref e) => Some(e),
-            VersionMismatch { .. } | TxVersionMismatch { .. } => None,
+            VersionMismatch { .. }
+            | TxVersionMismatch { .. }
+            | InputCountMismatch { .. }
+            | OutputCountMismatch { .. } => None,
         }
     }
 }
-- 
2.43.0


From 28d253929f533c6d407699891e1ca6715aa18a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 14/26] fix: keep the non-witness UTXO when combining adds a
 witness UTXO

---
 src/v0/bitcoin/map/input.rs | 6 +-----
 src/v2/map/input.rs         | 8 +-------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index 0a3dcdc..a5f81ce 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -305,11 +305,7 @@ impl Input {
     /// Combines this [`Input`] with `other` `Input` (as described by BIP 174).
     pub fn combine(&mut self, other: Self) {
         combine!(non_witness_utxo, self, other);
-
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        combine!(witness_utxo, self, other);
 
         self.partial_sigs.extend(other.partial_sigs);
         self.bip32_derivation.extend(other.bip32_derivation);
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index bf429e7..a2eae8b 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -626,13 +626,7 @@ impl Input {
         v2_combine_option!(min_time, self, other);
         v2_combine_option!(min_height, self, other);
         v2_combine_option!(non_witness_utxo, self, other);
-
-        // TODO: Copied from v0, confirm this is correct.
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
-
+        v2_combine_option!(witness_utxo, self, other);
         v2_combine_map!(partial_sigs, self, other);
         v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
-- 
2.43.0


From f0e104c8776197b6d477cc63708df01f6d288597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 15/26] fix: return an error instead of panicking when
 extracting a v0 PSBT with an out of bounds UTXO

---
 src/v0/bitcoin/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7a8c527..84571f0 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,8 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            // A UTXO that is out of bounds does not give us the input value either.
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
-- 
2.43.0


From 202e745d5499a0f299a25b366d662b5be620c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 16/26] fix: sign inputs without a sequence number as final, as
 they are extracted

---
 src/v2/map/input.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index a2eae8b..0ae98ec 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // BIP-370: if omitted, the sequence number is assumed to be the final sequence number.
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
-- 
2.43.0


From 163ab1639d6d46b1d335ffce9835067da8ec65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 17/26] fix: v0: do not panic when the spent output index is
 out of bounds

---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 84571f0..5eca68f 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -624,7 +624,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
-- 
2.43.0


From e35fc98b132206dff4025dd7aaa4748705b720ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 18/26] fix: v2: signing an input without a matching key must
 not panic or clear flags

---
 src/v2/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 7ce01ac..aaf48de 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -816,8 +816,12 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // Only a signature that was added has an effect on the flags.
+        if !used.is_empty() {
+            if let Some(ty) = sighash_ty {
+                self.clear_tx_modifiable(ty as u8);
+            }
+        }
 
         Ok(used)
     }
-- 
2.43.0


From d205cbc98cf2963b2348828e5607e0b5357d0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 19/26] fix: v0: signer checks follow BIP-174 for redeem and
 witness scripts

---
 src/v0/mod.rs | 48 +++++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..73f0c18 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -60,6 +60,9 @@ impl Psbt {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
                     Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    // Without the redeem script no signature can be created.
+                    Ok(OutputType::Sh) if input.redeem_script.is_some() =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
@@ -72,40 +75,23 @@ impl Psbt {
             }
 
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
-                        let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
-                        if tx_out.script_pubkey != script_pubkey {
-                            return Err(SignerChecksError::RedeemScriptMismatch);
-                        }
-                    }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                let utxo = self.spend_utxo(i).map_err(|_| SignerChecksError::MissingTxOut)?;
+                let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
+                if utxo.script_pubkey != script_pubkey {
+                    return Err(SignerChecksError::RedeemScriptMismatch);
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
-                        let script_pubkey = &utxo.script_pubkey;
-                        if script_pubkey.is_p2wsh() {
-                            if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
-                                != *script_pubkey
-                            {
-                                return Err(SignerChecksError::WitnessScriptMismatchWsh);
-                            }
-                        } else if script_pubkey.is_p2sh() {
-                            if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
-                                {
-                                    return Err(SignerChecksError::WitnessScriptMismatchShWsh);
-                                }
-                            }
-                        } else {
-                            // BIP does not specifically say there should not be a witness script here?
-                        }
+                let utxo = self.spend_utxo(i).map_err(|_| SignerChecksError::MissingTxOut)?;
+                let p2wsh = ScriptBuf::new_p2wsh(&witness_script.wscript_hash());
+                if utxo.script_pubkey.is_p2sh() {
+                    // The redeem script is checked above to be for the script_pubkey.
+                    if input.redeem_script.as_ref() != Some(&p2wsh) {
+                        return Err(SignerChecksError::WitnessScriptMismatchShWsh);
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                } else if utxo.script_pubkey != p2wsh {
+                    return Err(SignerChecksError::WitnessScriptMismatchWsh);
                 }
             }
 
@@ -130,7 +116,7 @@ pub enum SignerChecksError {
     WitnessAndNonWitnessUtxo,
     /// Redeem script hash did not match the hash in the script_pubkey.
     RedeemScriptMismatch,
-    /// Missing witness_utxo.
+    /// Missing witness_utxo and non_witness_utxo.
     MissingTxOut,
     /// Native segwit p2wsh script_pubkey did not match witness script hash.
     WitnessScriptMismatchWsh,
@@ -149,7 +135,7 @@ impl fmt::Display for SignerChecksError {
             WitnessAndNonWitnessUtxo => write!(f, "input has both witness and non-witness utxos"),
             RedeemScriptMismatch =>
                 write!(f, "redeem script hash did not match the hash in the script_pubkey"),
-            MissingTxOut => write!(f, "missing witness_utxo"),
+            MissingTxOut => write!(f, "missing witness_utxo and non_witness_utxo"),
             WitnessScriptMismatchWsh =>
                 write!(f, "native segwit p2wsh script_pubkey did not match witness script hash"),
             WitnessScriptMismatchShWsh =>
-- 
2.43.0


From 164de27d779561cef33ff3154f462fdf7bcabe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 20/26] fix: v2: finalizing keeps sequence, lock times and
 unknown data and handles legacy inputs

---
 src/v2/map/input.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 0ae98ec..cd04c46 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -227,10 +227,12 @@ impl Input {
             final_script_sig: None,
             final_script_witness: None,
 
+            // Required to keep the transaction as it is (sequence and lock time are signed over).
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
             // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -250,22 +252,20 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
+
+            // BIP-174 demands to keep what we do not know.
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
         // Is there an infallible way to do this?
-        if self.witness_utxo.is_some() {
-            if final_script_witness.is_empty() {
-                return Err(FinalizeError::EmptyWitness);
-            }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
+        if self.witness_utxo.is_some() && final_script_witness.is_empty() {
+            return Err(FinalizeError::EmptyWitness);
         }
+        // Both are required for the input to be considered finalized, see `Self::is_finalized`.
+        ret.final_script_sig = Some(final_script_sig);
+        ret.final_script_witness = Some(final_script_witness);
 
         Ok(ret)
     }
-- 
2.43.0


From 397831b0a9ffee60d8bbe4c161fae7976afc67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 21/26] fix: v2: timelocks are satisfied by the transaction's
 lock time, sequence and version

---
 src/v2/map/input.rs           | 13 -------------
 src/v2/miniscript/finalize.rs |  4 +++-
 src/v2/miniscript/mod.rs      |  4 +---
 src/v2/miniscript/satisfy.rs  | 36 ++++++++++++++---------------------
 4 files changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index cd04c46..efba381 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -270,19 +270,6 @@ impl Input {
         Ok(ret)
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..cbae7bd 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -106,7 +106,9 @@ impl Finalizer {
         let (witness, script_sig) = {
             let spk =
                 &input.funding_utxo().expect("guaranteed by Finalizer invariant").script_pubkey;
-            let sat = InputSatisfier { input };
+            let lock_time =
+                self.0.determine_lock_time().expect("guaranteed by Finalizer invariant");
+            let sat = InputSatisfier { input, version: self.0.global.tx_version, lock_time };
 
             if spk.is_p2tr() {
                 // Deal with taproot case separately, we cannot infer the full descriptor for taproot.
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..df32209 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -88,9 +88,7 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
-        // TODO: is this usage of MAX correct?
+        let cltv = unsigned_tx.lock_time;
         let csv = input.sequence.unwrap_or(Sequence::MAX);
 
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index eb56c62..689a253 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -3,7 +3,7 @@
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
 use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
-use crate::bitcoin::{absolute, ecdsa, relative, ScriptBuf};
+use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf, Sequence};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
@@ -16,6 +16,10 @@ use crate::v2::map::input::Input;
 /// [`Satisfier`]: crate::miniscript::Satisfier
 pub(crate) struct InputSatisfier<'a> {
     pub(crate) input: &'a Input,
+    /// The version of the transaction being satisfied.
+    pub(crate) version: transaction::Version,
+    /// The lock time of the transaction being satisfied.
+    pub(crate) lock_time: absolute::LockTime,
 }
 
 impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
@@ -67,31 +71,19 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pk, sig)| (*pk, *sig))
     }
 
-    // TODO: Verify this is correct.
     fn check_after(&self, n: absolute::LockTime) -> bool {
-        use absolute::LockTime::*;
-
-        match n {
-            Blocks(height) =>
-                if let Some(lock_time) = self.input.min_height {
-                    return height <= lock_time;
-                },
-            Seconds(time) =>
-                if let Some(lock_time) = self.input.min_time {
-                    return time <= lock_time;
-                },
-        }
-        false
+        let sequence = self.input.sequence.unwrap_or(Sequence::MAX);
+        sequence.enables_absolute_lock_time() && n.is_implied_by(self.lock_time)
     }
 
-    // TODO: Verify this is correct.
     fn check_older(&self, n: relative::LockTime) -> bool {
-        match self.input.sequence {
-            Some(seq) => match relative::LockTime::from_sequence(seq) {
-                Err(_) => false,
-                Ok(lock_time) => n.is_implied_by(lock_time),
-            },
-            None => false,
+        if self.version < transaction::Version::TWO {
+            return false;
+        }
+        let sequence = self.input.sequence.unwrap_or(Sequence::MAX);
+        match relative::LockTime::from_sequence(sequence) {
+            Err(_) => false,
+            Ok(lock_time) => n.is_implied_by(lock_time),
         }
     }
 
-- 
2.43.0


From bb0d3b3e179d7b31e961c3464db44b256561a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 22/26] fix: v0: finalizing must not panic when the spent
 output index is out of bounds

---
 src/v0/miniscript/finalizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..4e33e93 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -116,7 +116,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From 4ccbd940d0172406caba6348b9a9658333890adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 23/26] fix: v0: finalizing keeps unknown and proprietary data
 of the input

---
 src/v0/miniscript/finalizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 4e33e93..ff8aac5 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -445,6 +445,8 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
-- 
2.43.0


From 10157e1451d8d52ca3de4180ccb2bb0014e14b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 24/26] fix: v0: malleable finalization of a single input
 allows malleable satisfactions

---
 src/v0/miniscript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..21c197c 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -680,7 +680,7 @@ impl PsbtExt for Psbt {
         if index >= self.inputs.len() {
             return Err(Error::InputIdxOutofBounds { psbt_inp: self.inputs.len(), index });
         }
-        finalizer::finalize_input(self, index, secp, /*allow_mall*/ false)
+        finalizer::finalize_input(self, index, secp, /*allow_mall*/ true)
     }
 
     fn finalize_inp_mall<C: secp256k1::Verification>(
-- 
2.43.0


From 4e3fa2605b262c838c9e20bdce84b35a09e04575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 25/26] fix: v2: taproot inputs with the default sighash type
 can be finalized

---
 src/v2/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index aaf48de..1e8a43b 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -986,6 +986,11 @@ impl Psbt {
         use PartialSigsSighashTypeError::*;
 
         for (input_index, input) in self.inputs.iter().enumerate() {
+            // The sighash type of a taproot input (e.g. the default one) is not an ECDSA one.
+            if input.partial_sigs.is_empty() {
+                continue;
+            }
+
             let target_ecdsa_sighash_ty = match input.sighash_type {
                 Some(psbt_hash_ty) => psbt_hash_ty
                     .ecdsa_hash_ty()
-- 
2.43.0


From d9a58763a0c342d0702b20fc07837ec9bbbacea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 26/26] fix: read preimage maps from deserializers that own
 their strings

---
 src/serde_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..11a4984 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,9 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                // Not every deserializer can lend us a `&str` (e.g. readers, `serde_json::Value`).
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0

