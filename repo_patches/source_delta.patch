From d0394c7edfd4d7ac3c438676ade12c5ea4cf1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:13 +0000
Subject: [PATCH 01/23] fix: sector root must hash every segment of the sector

---
 sia/src/rhp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/rhp.rs b/sia/src/rhp.rs
index bfaf2bd..e1152fb 100644
--- a/sia/src/rhp.rs
+++ b/sia/src/rhp.rs
@@ -22,8 +22,9 @@ pub fn sector_root(sector: &[u8]) -> Hash256 {
             let mut inputs = [[0u8; SEGMENT_SIZE + 1]; 4];
             for (j, input) in inputs.iter_mut().enumerate() {
                 input[0] = LEAF_HASH_PREFIX[0];
+                let leaf = i * 4 + j;
                 input[1..]
-                    .copy_from_slice(&sector[SEGMENT_SIZE * (i + j)..SEGMENT_SIZE * (i + j + 1)]);
+                    .copy_from_slice(&sector[SEGMENT_SIZE * leaf..SEGMENT_SIZE * (leaf + 1)]);
             }
 
             // hash them
-- 
2.43.0


From 49b6c0641fba1ecb042a6af6d2cde5bc3783604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:30 +0000
Subject: [PATCH 02/23] fix: fold the carried node, not the leaf, when merging
 accumulator trees

---
 sia/src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/merkle.rs b/sia/src/merkle.rs
index 1b1d4f5..3dc8d90 100644
--- a/sia/src/merkle.rs
+++ b/sia/src/merkle.rs
@@ -31,7 +31,7 @@ impl Accumulator {
         let mut i = 0;
         let mut node = *h;
         while self.has_tree_at_height(i) {
-            node = sum_node(&self.params, &self.trees[i], h);
+            node = sum_node(&self.params, &self.trees[i], &node);
             i += 1;
         }
         self.trees[i] = node;
-- 
2.43.0


From 8cc322f56e163bf2e62909d89fcb86ca3fb4aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:32 +0000
Subject: [PATCH 03/23] fix: use the full distinguisher for v2 contract output
 and renewal ids

---
 sia/src/types/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index de8e37f..8ae2558 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -97,8 +97,8 @@ impl_hash_id!(FileContractID);
 
 impl FileContractID {
     const PROOF_OUTPUT_ID_PREFIX: Specifier = specifier!("storage proof");
-    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "id/v2filecontractoutput";
-    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "id/v2filecontractrenewal";
+    const V2_PROOF_OUTPUT_ID_PREFIX: &'static str = "sia/id/v2filecontractoutput|";
+    const V2_FILE_CONTRACT_RENEWAL_PREFIX: &'static str = "sia/id/v2filecontractrenewal|";
 
     fn derive_proof_output_id<T: From<blake2b_simd::Hash>>(&self, valid: bool, i: usize) -> T {
         let mut state = Params::new().hash_length(32).to_state();
-- 
2.43.0


From 49e3ced111643deb7859b20fba2d2082d188ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:35 +0000
Subject: [PATCH 04/23] fix: pay the Foundation subsidy for every block of the
 month

---
 sia/src/consensus.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 537736b..eaf3365 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -494,12 +494,13 @@ impl ChainState {
             return None;
         }
 
-        let subsidy_per_block = Currency::siacoins(30000);
+        let subsidy_per_month =
+            Currency::siacoins(30000) * Currency::new(blocks_per_month as u128);
         Some(SiacoinOutput {
             value: if self.child_height() == self.network.hardfork_foundation.height {
-                subsidy_per_block * Currency::new(12)
+                subsidy_per_month * Currency::new(12)
             } else {
-                subsidy_per_block
+                subsidy_per_month
             },
             address: self.network.hardfork_foundation.primary_address.clone(),
         })
-- 
2.43.0


From eedfc8a8d234e9109b17a6f5c4fd5573e1fd1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:38 +0000
Subject: [PATCH 05/23] fix: pay the Foundation subsidy to the current primary
 address

---
 sia/src/consensus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index eaf3365..5e9f825 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -502,7 +502,7 @@ impl ChainState {
             } else {
                 subsidy_per_month
             },
-            address: self.network.hardfork_foundation.primary_address.clone(),
+            address: self.state.foundation_primary_address.clone(),
         })
     }
 
-- 
2.43.0


From 5549f4ab5f63cee51174a6b3bfcae8d73adcae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:42 +0000
Subject: [PATCH 06/23] fix: child height of the pre-genesis index is zero

---
 sia/src/types/common.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/common.rs b/sia/src/types/common.rs
index 8ae2558..58f73d5 100644
--- a/sia/src/types/common.rs
+++ b/sia/src/types/common.rs
@@ -154,7 +154,8 @@ pub struct ChainIndex {
 
 impl ChainIndex {
     pub fn child_height(&self) -> u64 {
-        self.height + 1
+        // the height of the genesis block's parent is u64::MAX
+        self.height.wrapping_add(1)
     }
 }
 
-- 
2.43.0


From 48e2163f05cf192dc5beb6eef078ba167a323b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:45 +0000
Subject: [PATCH 07/23] fix: reject out-of-range timestamps instead of
 panicking

---
 sia/src/encoding/v2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index db53b28..9fe3b94 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -67,7 +67,7 @@ impl SiaEncodable for OffsetDateTime {
 impl SiaDecodable for OffsetDateTime {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let timestamp = i64::decode(r)?;
-        Ok(OffsetDateTime::from_unix_timestamp(timestamp).unwrap())
+        OffsetDateTime::from_unix_timestamp(timestamp).map_err(|_| Error::InvalidTimestamp)
     }
 }
 
-- 
2.43.0


From 3dce7def09c60a08246a6463a3ceb795e3e48db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 08/23] fix: do not allocate memory for a vector's untrusted
 length prefix

---
 sia/src/encoding/v1.rs | 5 ++++-
 sia/src/encoding/v2.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index 59ece0d..f44c97c 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -1,3 +1,4 @@
+use crate::encoding::v2::MAX_PREALLOC_BYTES;
 use crate::encoding::{Error, Result};
 use std::io::{Read, Write};
 
@@ -116,7 +117,9 @@ where
 {
     fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode_v1(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // len is untrusted, only preallocate a bounded amount of memory
+        let max_prealloc = MAX_PREALLOC_BYTES / std::mem::size_of::<T>().max(1);
+        let mut vec = Vec::with_capacity(len.min(max_prealloc));
         for _ in 0..len {
             vec.push(T::decode_v1(r)?);
         }
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 9fe3b94..cccf21e 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -18,6 +18,9 @@ pub enum Error {
 
 pub type Result<T> = std::result::Result<T, Error>;
 
+/// The most memory that is allocated for a vector before its elements are read.
+pub(crate) const MAX_PREALLOC_BYTES: usize = 1 << 16;
+
 pub trait SiaEncodable {
     fn encode<W: Write>(&self, w: &mut W) -> Result<()>;
 }
@@ -162,7 +165,9 @@ where
 {
     fn decode<R: Read>(r: &mut R) -> Result<Self> {
         let len = usize::decode(r)?;
-        let mut vec = Vec::with_capacity(len);
+        // len is untrusted, only preallocate a bounded amount of memory
+        let max_prealloc = MAX_PREALLOC_BYTES / std::mem::size_of::<T>().max(1);
+        let mut vec = Vec::with_capacity(len.min(max_prealloc));
         for _ in 0..len {
             vec.push(T::decode(r)?);
         }
-- 
2.43.0


From 12260339ddabe9acd0db5eba343d58121cd32616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:11 +0000
Subject: [PATCH 09/23] fix: bound the size of a decoded spend policy

---
 sia/src/types/spendpolicy.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 3b36001..0a18f92 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -345,8 +345,14 @@ impl SiaEncodable for SpendPolicy {
 
 impl SiaDecodable for SpendPolicy {
     fn decode<R: std::io::Read>(r: &mut R) -> encoding::Result<Self> {
+        // limits the size of a policy, and with it the depth of the recursion
+        const MAX_POLICIES: usize = 1024;
+
         // helper to recursively decode policies
-        fn decode_policy<R: std::io::Read>(r: &mut R) -> encoding::Result<SpendPolicy> {
+        fn decode_policy<R: std::io::Read>(
+            r: &mut R,
+            total_policies: &mut usize,
+        ) -> encoding::Result<SpendPolicy> {
             let policy_type = u8::decode(r)?;
             match policy_type {
                 POLICY_ABOVE_PREFIX => Ok(SpendPolicy::Above(u64::decode(r)?)),
@@ -363,9 +369,15 @@ impl SiaDecodable for SpendPolicy {
                 POLICY_THRESHOLD_PREFIX => {
                     let of: u8 = u8::decode(r)?;
                     let n = u8::decode(r)?;
+                    *total_policies += n as usize;
+                    if *total_policies > MAX_POLICIES {
+                        return Err(encoding::Error::Custom(
+                            "policy is too complex".to_string(),
+                        ));
+                    }
                     let mut policies = Vec::with_capacity(n as usize);
                     while policies.len() < n as usize {
-                        policies.push(decode_policy(r)?);
+                        policies.push(decode_policy(r, total_policies)?);
                     }
                     Ok(SpendPolicy::Threshold(of, policies))
                 }
@@ -383,7 +395,7 @@ impl SiaDecodable for SpendPolicy {
                 "invalid policy version".to_string(),
             ));
         }
-        decode_policy(r)
+        decode_policy(r, &mut 1)
     }
 }
 
-- 
2.43.0


From f1b3dfd75ff56b482a467f02b347ff904e1637b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:14 +0000
Subject: [PATCH 10/23] fix: reject integers that do not fit the decoded type

---
 sia/src/encoding/v1.rs | 7 ++++++-
 sia/src/encoding/v2.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/sia/src/encoding/v1.rs b/sia/src/encoding/v1.rs
index f44c97c..cd52017 100644
--- a/sia/src/encoding/v1.rs
+++ b/sia/src/encoding/v1.rs
@@ -89,7 +89,12 @@ macro_rules! impl_sia_numeric {
                 fn decode_v1<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let n = u64::from_le_bytes(buf);
+                    let v = n as Self;
+                    if v as u64 != n {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(v)
                 }
             }
         )*
diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index cccf21e..6979279 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -137,7 +137,12 @@ macro_rules! impl_sia_numeric {
                 fn decode<R: Read>(r: &mut R) -> Result<Self> {
                     let mut buf = [0u8; 8];
                     r.read_exact(&mut buf)?;
-                    Ok(u64::from_le_bytes(buf) as Self)
+                    let n = u64::from_le_bytes(buf);
+                    let v = n as Self;
+                    if v as u64 != n {
+                        return Err(Error::InvalidValue);
+                    }
+                    Ok(v)
                 }
             }
         )*
-- 
2.43.0


From a972201303f6d2894f64026d426b78a11918bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:51 +0000
Subject: [PATCH 11/23] fix: reject currency strings that are too large or too
 precise

---
 sia/src/types/currency.rs | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index d9be540..850b313 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -191,20 +191,37 @@ impl Currency {
         let integer_part = parts[0]
             .parse::<u128>()
             .map_err(|_| CurrencyParseError::InvalidFormat("invalid integer part".to_string()))?;
-        let fraction_part = if parts.len() == 2 {
-            parts[1].parse::<u128>().map_err(|_| {
-                CurrencyParseError::InvalidFormat("invalid integer part".to_string())
-            })?
-        } else {
-            0
+        // trailing zeros do not change the value
+        let fraction_digits = match parts.get(1) {
+            Some(&"") => {
+                return Err(CurrencyParseError::InvalidFormat(
+                    "invalid fractional part".to_string(),
+                ))
+            }
+            Some(digits) => digits.trim_end_matches('0'),
+            None => "",
         };
 
-        let frac_digits = parts.get(1).map_or(0, |frac| frac.len() as i32);
-        let integer = integer_part * 10u128.pow((SIACOIN_PRECISION_I32 + scaling_factor) as u32);
-        let fraction = fraction_part
-            * 10u128.pow((SIACOIN_PRECISION_I32 - frac_digits + scaling_factor) as u32);
+        let precision = (SIACOIN_PRECISION_I32 + scaling_factor) as usize;
+        if fraction_digits.len() > precision {
+            return Err(CurrencyParseError::InvalidFormat(
+                "too many decimal places".to_string(),
+            ));
+        }
+        let fraction = if fraction_digits.is_empty() {
+            0
+        } else {
+            // has at most 36 digits, neither the parsing nor the scaling overflows
+            fraction_digits.parse::<u128>().map_err(|_| {
+                CurrencyParseError::InvalidFormat("invalid fractional part".to_string())
+            })? * 10u128.pow((precision - fraction_digits.len()) as u32)
+        };
 
-        Ok(Currency::new(integer + fraction))
+        integer_part
+            .checked_mul(10u128.pow(precision as u32))
+            .and_then(|integer| integer.checked_add(fraction))
+            .map(Currency::new)
+            .ok_or_else(|| CurrencyParseError::InvalidFormat("value is too large".to_string()))
     }
 
     /// Converts a given amount of Siacoins into the `Currency` type.
-- 
2.43.0


From 191baca48dddcae769609dfc92777e79cfd46118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 12/23] fix: currency arithmetic must not wrap in release
 builds

---
 sia/src/types/currency.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sia/src/types/currency.rs b/sia/src/types/currency.rs
index 850b313..21a144c 100644
--- a/sia/src/types/currency.rs
+++ b/sia/src/types/currency.rs
@@ -238,7 +238,10 @@ impl Currency {
     ///
     /// Returns a `Currency` instance representing the specified amount of Siacoins.
     pub const fn siacoins(n: u64) -> Self {
-        Currency::new((n as u128) * 10u128.pow(SIACOIN_PRECISION_U32))
+        match (n as u128).checked_mul(10u128.pow(SIACOIN_PRECISION_U32)) {
+            Some(hastings) => Currency::new(hastings),
+            None => panic!("currency overflow"),
+        }
     }
 
     pub fn checked_add(self, other: Currency) -> Option<Self> {
@@ -266,7 +269,7 @@ impl Add for Currency {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        Self(self.0 + other.0)
+        Self(self.0.checked_add(other.0).expect("currency overflow"))
     }
 }
 
@@ -274,7 +277,7 @@ impl Sub for Currency {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        Self(self.0 - other.0)
+        Self(self.0.checked_sub(other.0).expect("currency underflow"))
     }
 }
 
@@ -282,7 +285,7 @@ impl Mul for Currency {
     type Output = Self;
 
     fn mul(self, other: Self) -> Self {
-        Self(self.0 * other.0)
+        Self(self.0.checked_mul(other.0).expect("currency overflow"))
     }
 }
 
-- 
2.43.0


From bb85361f736c4cdafb0d1773fe9e2293c53f33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 13/23] fix: block reward must not overflow at large heights

---
 sia/src/consensus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index 5e9f825..fd05b91 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -450,10 +450,9 @@ impl ChainState {
 
     /// block_reward returns the reward for mining a child block
     pub fn block_reward(&self) -> Currency {
-        let reward = self
-            .network
-            .initial_coinbase
-            .checked_sub(Currency::siacoins(self.child_height()));
+        let reward = Currency::siacoins(1)
+            .checked_mul(Currency::new(self.child_height() as u128))
+            .and_then(|reduction| self.network.initial_coinbase.checked_sub(reduction));
 
         match reward {
             Some(reward) if reward >= self.network.minimum_coinbase => reward,
-- 
2.43.0


From f39a9d3427d6db86950757d0371d645d35653c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 14/23] fix: return write errors of the state's timestamps
 instead of panicking

---
 sia/src/consensus.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sia/src/consensus.rs b/sia/src/consensus.rs
index fd05b91..cd81e30 100644
--- a/sia/src/consensus.rs
+++ b/sia/src/consensus.rs
@@ -380,10 +380,9 @@ impl SiaEncodable for State {
         } else {
             11
         };
-        self.prev_timestamps
-            .iter()
-            .take(timestamps_count)
-            .for_each(|ts| ts.encode(w).unwrap());
+        for timestamp in self.prev_timestamps.iter().take(timestamps_count) {
+            timestamp.encode(w)?;
+        }
         self.depth.encode(w)?;
         self.child_target.encode(w)?;
         self.siafund_pool.encode(w)?;
-- 
2.43.0


From 06a597766a98a759f6631885e301df23c0ce8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:03 +0000
Subject: [PATCH 15/23] fix: verifying with an invalid public key must not
 panic

---
 sia/src/signing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 5a41db7..95f4eda 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -48,7 +48,10 @@ impl PublicKey {
     }
 
     pub fn verify(&self, sig_hash: &Hash256, signature: &Signature) -> bool {
-        let pk = VerifyingKey::from_bytes(&self.0).unwrap();
+        let pk = match VerifyingKey::from_bytes(&self.0) {
+            Ok(pk) => pk,
+            Err(_) => return false, // not a valid curve point
+        };
         pk.verify(
             sig_hash.as_ref(),
             &ED25519Signature::from_bytes(signature.as_ref()),
-- 
2.43.0


From 8dd09e02c811d7ce43637e19e0a1c230bfe6d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:07 +0000
Subject: [PATCH 16/23] fix: displaying a specifier that is not UTF-8 must not
 fail

---
 sia/src/types/specifier.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sia/src/types/specifier.rs b/sia/src/types/specifier.rs
index e80f69b..b79d990 100644
--- a/sia/src/types/specifier.rs
+++ b/sia/src/types/specifier.rs
@@ -2,7 +2,7 @@ use crate::encoding::{
     SiaDecodable, SiaDecode, SiaEncodable, SiaEncode, V1SiaDecodable, V1SiaDecode, V1SiaEncodable,
     V1SiaEncode,
 };
-use core::{fmt, str};
+use core::fmt;
 use serde::{Deserialize, Serialize};
 
 pub const SPECIFIER_SIZE: usize = 16;
@@ -51,8 +51,7 @@ impl fmt::Display for Specifier {
             .rev()
             .position(|&x| x != 0)
             .map_or(0, |pos| SPECIFIER_SIZE - pos);
-        let str = str::from_utf8(&self.0[..index]).map_err(|_| fmt::Error)?;
-        write!(f, "{}", str)
+        write!(f, "{}", String::from_utf8_lossy(&self.0[..index]))
     }
 }
 
-- 
2.43.0


From 7190e4444397913f8675c3994cb965a2815e4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:11 +0000
Subject: [PATCH 17/23] fix: reject unlock keys with an algorithm that is too
 long

---
 sia/src/types/v1.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index fb82e24..8ed3d14 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -15,7 +15,7 @@ use crate::encoding::{
 };
 use crate::merkle::{Accumulator, LEAF_HASH_PREFIX};
 use crate::signing::PublicKey;
-use crate::types::{specifier, Specifier};
+use crate::types::{specifier, Specifier, SPECIFIER_SIZE};
 
 use super::currency::Currency;
 use super::{
@@ -67,6 +67,9 @@ impl UnlockKey {
     /// The string should be in the format "algorithm:public_key"
     pub fn parse_string(s: &str) -> Result<Self, HexParseError> {
         let (prefix, key_str) = s.split_once(':').ok_or(HexParseError::MissingPrefix)?;
+        if prefix.len() > SPECIFIER_SIZE {
+            return Err(HexParseError::InvalidPrefix);
+        }
         Ok(UnlockKey {
             algorithm: Specifier::from(prefix),
             key: hex::decode(key_str).map_err(HexParseError::HexError)?,
-- 
2.43.0


From 67bf74ef827b3f9c8b8676421defef7bf0f1c945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:32 +0000
Subject: [PATCH 18/23] fix: reject durations that cannot be represented
 instead of altering them

---
 sia/src/encoding/v2.rs | 5 ++++-
 sia/src/types/utils.rs | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sia/src/encoding/v2.rs b/sia/src/encoding/v2.rs
index 6979279..511a07e 100644
--- a/sia/src/encoding/v2.rs
+++ b/sia/src/encoding/v2.rs
@@ -76,7 +76,10 @@ impl SiaDecodable for OffsetDateTime {
 
 impl SiaEncodable for Duration {
     fn encode<W: Write>(&self, w: &mut W) -> Result<()> {
-        (self.whole_nanoseconds() as u64).encode(w)
+        match i64::try_from(self.whole_nanoseconds()) {
+            Ok(ns) if ns >= 0 => ns.encode(w),
+            _ => Err(Error::InvalidValue), // decode would reject it
+        }
     }
 }
 
diff --git a/sia/src/types/utils.rs b/sia/src/types/utils.rs
index 39e1c83..c517978 100644
--- a/sia/src/types/utils.rs
+++ b/sia/src/types/utils.rs
@@ -108,11 +108,16 @@ pub(crate) mod nano_second_duration {
     use time::Duration;
 
     pub fn serialize<S: Serializer>(v: &Duration, s: S) -> Result<S::Ok, S::Error> {
-        s.serialize_u64(v.whole_nanoseconds() as u64)
+        match i64::try_from(v.whole_nanoseconds()) {
+            Ok(nanos) if nanos >= 0 => s.serialize_u64(nanos as u64),
+            _ => Err(serde::ser::Error::custom("duration out of range")),
+        }
     }
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Duration, D::Error> {
         let nanos = u64::deserialize(d)?;
-        Ok(Duration::nanoseconds(nanos as i64))
+        i64::try_from(nanos)
+            .map(Duration::nanoseconds)
+            .map_err(|_| serde::de::Error::custom("duration out of range"))
     }
 }
-- 
2.43.0


From d8ee8ade7d477c9802e37f5c023dc68f9149c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 19/23] fix: reject threshold policies with more sub-policies
 than can be encoded

---
 sia/src/types/spendpolicy.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index 0a18f92..d0814e9 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -237,6 +237,9 @@ impl<'de> Deserialize<'de> for SpendPolicy {
                         }
                         let thresh: ThreshPolicy =
                             serde_json::from_value(policy_value).map_err(de::Error::custom)?;
+                        if thresh.of.len() > u8::MAX as usize {
+                            return Err(de::Error::custom("too many sub-policies"));
+                        }
                         Ok(SpendPolicy::Threshold(thresh.n, thresh.of))
                     }
                     POLICY_OPAQUE_STR => {
@@ -327,7 +330,9 @@ impl SiaEncodable for SpendPolicy {
                 SpendPolicy::Hash(hash) => hash.encode(w),
                 SpendPolicy::Threshold(of, policies) => {
                     of.encode(w)?;
-                    (policies.len() as u8).encode(w)?;
+                    u8::try_from(policies.len())
+                        .map_err(|_| encoding::Error::InvalidLength)?
+                        .encode(w)?;
                     for policy in policies {
                         encode_policy(policy, w)?;
                     }
-- 
2.43.0


From 46eb1d7babd52c6ba4d63898df932fc94d313f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 20/23] fix: ids and unlock keys must round-trip through
 compact serde formats

---
 sia/src/macros.rs   | 3 +++
 sia/src/types/v1.rs | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sia/src/macros.rs b/sia/src/macros.rs
index 0f86d3e..0cec621 100644
--- a/sia/src/macros.rs
+++ b/sia/src/macros.rs
@@ -29,6 +29,9 @@ macro_rules! impl_hash_id {
             where
                 D: serde::Deserializer<'de>,
             {
+                if !deserializer.is_human_readable() {
+                    return <[u8; 32]>::deserialize(deserializer).map($name);
+                }
                 let s = String::deserialize(deserializer)?;
                 $name::parse_string(&s).map_err(|e| serde::de::Error::custom(format!("{:?}", e)))
             }
diff --git a/sia/src/types/v1.rs b/sia/src/types/v1.rs
index 8ed3d14..71b6149 100644
--- a/sia/src/types/v1.rs
+++ b/sia/src/types/v1.rs
@@ -37,7 +37,11 @@ pub struct UnlockKey {
 
 impl Serialize for UnlockKey {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        String::serialize(&self.to_string(), serializer)
+        if serializer.is_human_readable() {
+            String::serialize(&self.to_string(), serializer)
+        } else {
+            (&self.algorithm, &self.key).serialize(serializer)
+        }
     }
 }
 
-- 
2.43.0


From bd743a57db1408b5e1fd6a9b4af067903d44f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:59 +0000
Subject: [PATCH 21/23] fix: wiping secrets on drop must survive optimization

---
 sia/src/seed.rs    | 5 +++--
 sia/src/signing.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sia/src/seed.rs b/sia/src/seed.rs
index e61e948..75bef0e 100644
--- a/sia/src/seed.rs
+++ b/sia/src/seed.rs
@@ -64,9 +64,10 @@ impl Seed {
 
 impl Drop for Seed {
     fn drop(&mut self) {
-        // Zero out the private key
+        // Zero out the private key. The writes are volatile, plain stores to
+        // memory that is about to be freed would be optimized out.
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
     }
 }
diff --git a/sia/src/signing.rs b/sia/src/signing.rs
index 95f4eda..00b292b 100644
--- a/sia/src/signing.rs
+++ b/sia/src/signing.rs
@@ -106,9 +106,10 @@ impl From<Hash256> for PrivateKey {
 
 impl Drop for PrivateKey {
     fn drop(&mut self) {
-        // Zero out the private key
+        // Zero out the private key. The writes are volatile, plain stores to
+        // memory that is about to be freed would be optimized out.
         for byte in self.0.iter_mut() {
-            *byte = 0;
+            unsafe { core::ptr::write_volatile(byte, 0) };
         }
     }
 }
-- 
2.43.0


From 6f257102dda868f5b46c0a2a2e2ad03eda98fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 22/23] fix: hash and unlock condition policies must round-trip
 through compact serde formats

---
 sia/src/types/spendpolicy.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sia/src/types/spendpolicy.rs b/sia/src/types/spendpolicy.rs
index d0814e9..9eb5b39 100644
--- a/sia/src/types/spendpolicy.rs
+++ b/sia/src/types/spendpolicy.rs
@@ -278,6 +278,7 @@ impl<'de> Deserialize<'de> for SpendPolicy {
 
 impl Serialize for SpendPolicy {
     fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        let human_readable = serializer.is_human_readable();
         let mut state = serializer.serialize_struct("SpendPolicy", 2)?;
         state.serialize_field("type", self.type_str())?;
         match self {
@@ -292,7 +293,8 @@ impl Serialize for SpendPolicy {
                 state.serialize_field("policy", &pk)?;
             }
             SpendPolicy::Hash(hash) => {
-                state.serialize_field("policy", &hash)?;
+                // always the string form, since that is what is parsed
+                state.serialize_field("policy", &hash.to_string())?;
             }
             SpendPolicy::Threshold(n, policies) => {
                 state.serialize_field(
@@ -307,9 +309,15 @@ impl Serialize for SpendPolicy {
                 state.serialize_field("policy", addr)?;
             }
             #[allow(deprecated)]
-            SpendPolicy::UnlockConditions(uc) => {
+            SpendPolicy::UnlockConditions(uc) if human_readable => {
                 state.serialize_field("policy", uc)?;
             }
+            #[allow(deprecated)]
+            SpendPolicy::UnlockConditions(uc) => {
+                // the policy is parsed from its human-readable form
+                let uc = serde_json::to_value(uc).map_err(serde::ser::Error::custom)?;
+                state.serialize_field("policy", &uc)?;
+            }
         }
         state.end()
     }
-- 
2.43.0


From 2e39a1ab026bb35ecf8b49489daae16229af186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:02 +0000
Subject: [PATCH 23/23] fix: empty work text must be rejected, not read as zero

---
 sia/src/types/work.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sia/src/types/work.rs b/sia/src/types/work.rs
index 8bb36ba..80c0ee8 100644
--- a/sia/src/types/work.rs
+++ b/sia/src/types/work.rs
@@ -54,6 +54,11 @@ impl<'de> Deserialize<'de> for Work {
     where
         D: serde::Deserializer<'de>,
     {
-        Work::from_dec_str(&String::deserialize(deserializer)?).map_err(serde::de::Error::custom)
+        let s = String::deserialize(deserializer)?;
+        // the empty string is not a number, but from_dec_str reads it as zero
+        if s.is_empty() {
+            return Err(serde::de::Error::custom("empty work"));
+        }
+        Work::from_dec_str(&s).map_err(serde::de::Error::custom)
     }
 }
-- 
2.43.0

