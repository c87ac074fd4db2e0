From 419c39f54a51679144d16545494ef80978451dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 01/21] fix: carry the combined node when adding a leaf to the
 accumulator

add_leaf hashed the original leaf again at every level instead of the node
built so far, so the address of unlock conditions with two or more keys was
not the Merkle root of its fields.
---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From b72a82c70dad08f35149c1ca912802c6aaf17907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 02/21] fix: hash every segment of a sector exactly once in
 sector_root

Each chunk covers four leaves, but the segment offset advanced by one leaf per
chunk, so most of the sector was never hashed and the root was wrong for any
non-uniform sector.
---
 sia/src/rhp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..f630084 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,8 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
-                input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                let start = SEGMENT_SIZE * (i * 4 + j);
+                input[1..].copy_from_slice(&sector[start..start + SEGMENT_SIZE]);
             }
 
             // hash them
-- 
2.43.0


From 7b1a7d289af4b00258042e23d617c42f7c01f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 03/21] fix: return writer errors from State::encode instead of
 panicking

---
 sia/src/consensus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..10e58ef 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -380,10 +380,9 @@ impl SiaEncodable for State {
         } else {
             11
         };
-        self.prev_timestamps
-            .iter()
-            .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+        for ts in self.prev_timestamps.iter().take(timestamps_count) {
+            ts.encode(w)?;
+        }
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From 829cda0feabb801e4e36e88daaa2c7f3ab73c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 04/21] fix: reject out-of-range timestamps instead of
 panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..9fe3b94 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From 5d1dc9853d7318409204416ab4e15898b2860130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 05/21] fix: do not preallocate vectors from an untrusted
 length prefix

A hostile length prefix caused a capacity overflow panic or aborted the
process on a failed allocation.
---
 sia/src/encoding/v1.rs | 3 ++-
 sia/src/encoding/v2.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..2174479 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -116,7 +116,8 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is untrusted; let the vector grow as elements are decoded
+        let mut vec = Vec::new();
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 9fe3b94..bce5f30 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -162,7 +162,8 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // the length is untrusted; let the vector grow as elements are decoded
+        let mut vec = Vec::new();
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From f7ad9507f62433de1cad464e08ac02da7952aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 06/21] fix: do not overflow when computing the height of the
 genesis block

---
 sia/src/types/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..4dd6987 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,8 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        // the parent of the genesis block has height u64::MAX
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From a793d3cee1bd1d81e7de3da9670ab41735144609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:30 +0000
Subject: [PATCH 07/21] fix: fail verification under a malformed public key
 instead of panicking

---
 sia/src/signing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..acaa284 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,9 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let Ok(pk) = VerifyingKey::from_bytes(&self.0) else {
+            return false;
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From 69dee44529817eab85998568b053f6f97cfbcdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 08/21] fix: bound the number of policies accepted when
 decoding a spend policy

Nested thresholds recursed without limit, so a short message from a peer
overflowed the stack and aborted the process. The limit is the one used by
other implementations.
---
 sia/src/types/spendpolicy.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..1c7d278 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -21,6 +21,10 @@ const POLICY_OPAQUE_PREFIX: u8 = 6;
 #[deprecated]
 const POLICY_UNLOCK_CONDITIONS_PREFIX: u8 = 7;
 
+/// The maximum number of policies, including nested ones, that a decoded
+/// policy may contain.
+const MAX_POLICIES: usize = 1024;
+
 const POLICY_ABOVE_STR: &str = "above";
 const POLICY_AFTER_STR: &str = "after";
 const POLICY_PUBLIC_KEY_STR: &str = "pk";
@@ -346,7 +350,10 @@ impl SiaEncodable for SpendPolicy {
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -363,9 +370,13 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *total += n as usize;
+                    if *total > MAX_POLICIES {
+                        return Err(encoding::Error::Custom("policy is too complex".to_string()));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, total)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -383,7 +394,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From b5e3dadc4bfe41e7fae9f307784076adffa317b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 09/21] fix: reject currency strings that overflow or have too
 many fractional digits

Such strings, which can arrive in JSON, panicked in debug builds and were
silently accepted with a wrapped value in release builds.
---
 sia/src/types/currency.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..068307a 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -199,12 +199,20 @@ impl Currency {
             0
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
+        let frac_digits = parts.get(1).map_or(0, |frac| frac.len());
+        let precision = (SIACOIN_PRECISION_I32 + scaling_factor) as usize;
+        if frac_digits > precision {
+            return Err(CurrencyParseError::InvalidFormat(
+                "too many fractional digits".to_string(),
+            ));
+        }
+        let fraction = fraction_part * 10u128.pow((precision - frac_digits) as u32);
 
-        Ok(Currency::new(integer + fraction))
+        integer_part
+            .checked_mul(10u128.pow(precision as u32))
+            .and_then(|integer| integer.checked_add(fraction))
+            .map(Currency::new)
+            .ok_or_else(|| CurrencyParseError::InvalidFormat("value is too large".to_string()))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 0e3e92147298b85a8cbaabd25528d23aebda22bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 10/21] fix: report reader errors when decoding Work

---
 sia/src/types/work.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sia/src/types/work.rs b/sia/src/types/work.rs
index 8bb36ba..858c3f7 100644
--- a/sia/src/types/work.rs
+++ b/sia/src/types/work.rs
@@ -22,9 +22,7 @@ impl SiaEncodable for Work {
 
 impl SiaDecodable for Work {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
-        Ok(Work::from_big_endian(&<[u8; 32]>::decode(r).map_err(
-            |_| encoding::Error::Custom("invalid work".to_string()),
-        )?))
+        Ok(Work::from_big_endian(&<[u8; 32]>::decode(r)?))
     }
 }
 
-- 
2.43.0


From 7265ee7fce615272bef6cd2e5dac1e756740935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 11/21] fix: reject encoded integers that do not fit the
 decoded type

They were silently truncated.
---
 sia/src/encoding/v1.rs | 6 +++++-
 sia/src/encoding/v2.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 2174479..835bb75 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -88,7 +88,11 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let n = u64::from_le_bytes(buf);
+                    if n as Self as u64 != n {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(n as Self)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index bce5f30..758e755 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -134,7 +134,11 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let n = u64::from_le_bytes(buf);
+                    if n as Self as u64 != n {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(n as Self)
                 }
             }
         )*
-- 
2.43.0


From ac7cef9d48f539f0836ced228802a97401c74795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 12/21] fix: refuse to encode a threshold policy with more than
 255 sub-policies

The count was truncated to a byte, so the encoding did not describe the policy
and everything following it in the stream was misread.
---
 sia/src/types/spendpolicy.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 1c7d278..0c96dc3 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -241,6 +241,9 @@ impl<'de> Deserialize<'de> for SpendPolicy {
                         }
                         let thresh: ThreshPolicy =
                             serde_json::from_value(policy_value).map_err(de::Error::custom)?;
+                        if thresh.of.len() > u8::MAX as usize {
+                            return Err(de::Error::custom("too many sub-policies"));
+                        }
                         Ok(SpendPolicy::Threshold(thresh.n, thresh.of))
                     }
                     POLICY_OPAQUE_STR => {
@@ -331,7 +334,9 @@ impl SiaEncodable for SpendPolicy {
                 SpendPolicy::Hash(hash) => hash.encode(w),
                 SpendPolicy::Threshold(of, policies) => {
                     of.encode(w)?;
-                    (policies.len() as u8).encode(w)?;
+                    u8::try_from(policies.len())
+                        .map_err(|_| encoding::Error::InvalidLength)?
+                        .encode(w)?;
                     for policy in policies {
                         encode_policy(policy, w)?;
                     }
-- 
2.43.0


From 01840f92f4471701b57f5655298a87e3844586d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 13/21] fix: reject JSON durations that do not fit in 63 bits

They were read as negative durations; the binary decoder already rejects them.
---
 sia/src/types/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index 39e1c83..dbf4487 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -113,6 +113,7 @@ pub(crate) mod nano_second_duration {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
         let nanos = u64::deserialize(d)?;
-        Ok(Duration::nanoseconds(nanos as i64))
+        let nanos = i64::try_from(nanos).map_err(serde::de::Error::custom)?;
+        Ok(Duration::nanoseconds(nanos))
     }
 }
-- 
2.43.0


From 4b9b3fd9f0e4e06d2e48f2463ffa0a4e75d62ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 14/21] fix: reject JSON states with missing timestamps

Missing timestamps were silently replaced by the Unix epoch.
---
 sia/src/types/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index dbf4487..e5b798c 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -70,6 +70,9 @@ pub(crate) mod timestamp_array {
                     .map_err(serde::de::Error::custom)?;
                     idx += 1;
                 }
+                if idx != timestamps.len() {
+                    return Err(serde::de::Error::invalid_length(idx, &self));
+                }
                 Ok(timestamps)
             }
         }
-- 
2.43.0


From 788e817233b98189b0ea415990caeb3d791928c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 15/21] fix: format specifiers that are not valid UTF-8

The algorithm of an unlock key comes from peers; formatting one that is not
UTF-8 made to_string and JSON serialization panic.
---
 sia/src/types/specifier.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/specifier.rs b/sia/src/types/specifier.rs
index e80f69b..b79d990 100644
--- a/sia/src/types/specifier.rs
+++ b/sia/src/types/specifier.rs
@@ -2,7 +2,7 @@ use crate::encoding::{
     SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable,
     V1SiaEncode,
 };
-use core::{fmt, str};
+use core::fmt;
 use serde::{Deserialize, Serialize};
 
 pub const SPECIFIER_SIZE: usize = 16;
@@ -51,8 +51,7 @@ impl fmt::Display for Specifier {
             .rev()
             .position(|&x| x != 0)
             .map_or(0, |pos| SPECIFIER_SIZE - pos);
-        let str = str::from_utf8(&self.0[..index]).map_err(|_| fmt::Error)?;
-        write!(f, "{}", str)
+        write!(f, "{}", String::from_utf8_lossy(&self.0[..index]))
     }
 }
 
-- 
2.43.0


From ebfc0b936dcf88c04f22e4d88b9e0cc21b8caf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 16/21] fix: keep the compiler from removing the erasure of
 secrets on drop

In optimised builds the plain stores were dead and removed, leaving private
keys and seeds in freed memory.
---
 sia/src/seed.rs    | 5 ++++-
 sia/src/signing.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index e61e948..9bd6aaf 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -2,6 +2,7 @@ use crate::signing::PrivateKey;
 use crate::types::Hash256;
 use bip39::{Error as MnemonicError, Language, Mnemonic};
 use blake2b_simd::Params;
+use core::sync::atomic::{compiler_fence, Ordering};
 
 pub struct Seed([u8; 16]);
 
@@ -66,8 +67,10 @@ impl Drop for Seed {
     fn drop(&mut self) {
         // Zero out the private key
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            // a plain store to memory that is about to be freed may be removed
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        compiler_fence(Ordering::SeqCst);
     }
 }
 
diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index acaa284..822da63 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use core::sync::atomic::{compiler_fence, Ordering};
 
 use crate::encoding::{SiaDecodable, SiaDecode, SiaEncodable, SiaEncode};
 use crate::types::{Hash256, HexParseError};
@@ -107,8 +108,10 @@ impl Drop for PrivateKey {
     fn drop(&mut self) {
         // Zero out the private key
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            // a plain store to memory that is about to be freed may be removed
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
+        compiler_fence(Ordering::SeqCst);
     }
 }
 
-- 
2.43.0


From 43e3dad23606e458e91c1462c25a81c6bf94ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:10 +0000
Subject: [PATCH 17/21] fix: pay the Foundation subsidy for every block of the
 period

The subsidy is 30,000 SC per block, paid a year ahead at the hardfork and
monthly after that; a single block was paid for instead of a month of blocks.
---
 sia/src/consensus.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 10e58ef..0a490d6 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -493,12 +493,12 @@ impl ChainState {
             return None;
         }
 
-        let subsidy_per_block = Currency::siacoins(30000);
+        let subsidy_per_month = Currency::siacoins(30000) * Currency::new(blocks_per_month as u128);
         Some(SiacoinOutput {
             value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
+                subsidy_per_month * Currency::new(12)
             } else {
-                subsidy_per_block
+                subsidy_per_month
             },
             address: self.network.hardfork_foundation.primary_address.clone(),
         })
-- 
2.43.0


From 090ee16c708d651d8ad26baf94024b88699bcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 18/21] fix: pay the Foundation subsidy to the address in the
 current state

The primary address can be changed by a transaction; the state tracks the
current one, the network parameters only hold the initial one.
---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 0a490d6..7980d53 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -500,7 +500,7 @@ impl ChainState {
             } else {
                 subsidy_per_month
             },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 132209016d606f0ca94d38c8b0c15498394b978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:34 +0000
Subject: [PATCH 19/21] fix: do not leave a copy of the recovered entropy on
 the heap

---
 sia/src/seed.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index 9bd6aaf..9c0ae5a 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -25,8 +25,9 @@ impl Seed {
 
     pub fn from_mnemonic(s: &str) -> Result<Self, SeedError> {
         let m = Mnemonic::parse_in(Language::English, s)?;
-        let buf = m.to_entropy();
-        if buf.len() != 16 {
+        // not to_entropy, which leaves a copy of the secret on the heap
+        let (buf, len) = m.to_entropy_array();
+        if len != 16 {
             return Err(SeedError::InvalidLength);
         }
 
-- 
2.43.0


From fa00c3570d86a18151dc39cea5c8aee0d1be955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:52 +0000
Subject: [PATCH 20/21] fix: reject unlock key algorithms longer than a
 specifier

---
 sia/src/types/v1.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..8ed3d14 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -15,7 +15,7 @@ use crate::encoding::{
 };
 use crate::merkle::{Accumulator, LEAF_HASH_PREFIX};
 use crate::signing::PublicKey;
-use crate::types::{specifier, Specifier};
+use crate::types::{specifier, Specifier, SPECIFIER_SIZE};
 
 use super::currency::Currency;
 use super::{
@@ -67,6 +67,9 @@ impl UnlockKey {
     /// The string should be in the format "algorithm:public_key"
     pub fn parse_string(s: &str) -> Result<Self, HexParseError> {
         let (prefix, key_str) = s.split_once(':').ok_or(HexParseError::MissingPrefix)?;
+        if prefix.len() > SPECIFIER_SIZE {
+            return Err(HexParseError::InvalidPrefix);
+        }
         Ok(UnlockKey {
             algorithm: Specifier::from(prefix),
             key: hex::decode(key_str).map_err(HexParseError::HexError)?,
-- 
2.43.0


From 3362a2fa38d776843212f6b01c2b9894291c7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:52 +0000
Subject: [PATCH 21/21] fix: reject empty text for an amount of work

---
 sia/src/types/work.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/work.rs b/sia/src/types/work.rs
index 858c3f7..65015a6 100644
--- a/sia/src/types/work.rs
+++ b/sia/src/types/work.rs
@@ -52,6 +52,10 @@ impl<'de> Deserialize<'de> for Work {
     where
         D: serde::Deserializer<'de>,
     {
-        Work::from_dec_str(&String::deserialize(deserializer)?).map_err(serde::de::Error::custom)
+        let s = String::deserialize(deserializer)?;
+        if s.is_empty() {
+            return Err(serde::de::Error::custom("empty work"));
+        }
+        Work::from_dec_str(&s).map_err(serde::de::Error::custom)
     }
 }
-- 
2.43.0

