From 5724d9f51ffdd76d5a8728931ab9dcab46021429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 1/3] fix: hash the key block in the SIMD hash4_exact and
 hash8_exact

With a keyed Params the SSE4.1 and AVX2 versions only put the key length into
the parameter block and never hashed the key bytes, so every key of the same
length gave the same (wrong) digests, unlike the portable versions.
---
 src/avx2.rs  | 23 +++++++++++++++++++++--
 src/sse41.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/avx2.rs b/src/avx2.rs
index 80cd393..260b804 100644
--- a/src/avx2.rs
+++ b/src/avx2.rs
@@ -12,6 +12,7 @@ use crate::Params;
 use crate::StateWords;
 use crate::BLOCKBYTES;
 use crate::IV;
+use crate::KEYBYTES;
 use crate::SIGMA;
 
 #[inline(always)]
@@ -724,6 +725,23 @@ pub unsafe fn hash8_exact(
         load_256_from_u32(param_words[6]),
         load_256_from_u32(param_words[7]),
     ];
+    // A key is hashed as an extra zero-padded block in front of each input.
+    let mut key_count = 0;
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        let k = &key_block;
+        let zero = load_256_from_u32(0);
+        key_count = BLOCKBYTES as u64;
+        compress8_transposed_inline(
+            &mut h_vecs,
+            &load_msg_vecs_interleave(k, k, k, k, k, k, k, k),
+            load_256_from_u32(key_count as u32),
+            zero,
+            zero,
+            zero,
+        );
+    }
     let len = input0.len();
     let mut count = 0;
 
@@ -740,8 +758,9 @@ pub unsafe fn hash8_exact(
         let msg6 = &*(input6.as_ptr().add(count) as *const Block);
         let msg7 = &*(input7.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = load_256_from_u32(count as u32);
-        let count_high = load_256_from_u32((count as u64 >> 32) as u32);
+        let total_count = key_count + count as u64;
+        let count_low = load_256_from_u32(total_count as u32);
+        let count_high = load_256_from_u32((total_count >> 32) as u32);
         let lastblock = load_256_from_u32(if count == len { !0 } else { 0 });
         let lastnode = load_256_from_u32(if params.last_node && count == len {
             !0
diff --git a/src/sse41.rs b/src/sse41.rs
index d5975f5..1b48951 100644
--- a/src/sse41.rs
+++ b/src/sse41.rs
@@ -3,7 +3,7 @@ use core::arch::x86::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 
-use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, OUTBYTES, SIGMA};
+use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, KEYBYTES, OUTBYTES, SIGMA};
 
 #[inline(always)]
 unsafe fn loadu(p: *const u32) -> __m128i {
@@ -728,6 +728,26 @@ pub unsafe fn hash4_exact(
         set1(param_words[6]),
         set1(param_words[7]),
     ];
+    // A key is hashed as an extra zero-padded block in front of each input.
+    let mut key_count = 0;
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        let k = &key_block;
+        let zero = set1(0);
+        key_count = BLOCKBYTES as u64;
+        compress4_transposed_inline(
+            &mut h_vecs,
+            k,
+            k,
+            k,
+            k,
+            set1(key_count as u32),
+            zero,
+            zero,
+            zero,
+        );
+    }
     let len = input0.len();
     let mut count = 0;
 
@@ -740,8 +760,9 @@ pub unsafe fn hash4_exact(
         let msg2 = &*(input2.as_ptr().add(count) as *const Block);
         let msg3 = &*(input3.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = set1(count as u32);
-        let count_high = set1(((count as u64) >> 32) as u32);
+        let total_count = key_count + count as u64;
+        let count_low = set1(total_count as u32);
+        let count_high = set1((total_count >> 32) as u32);
         let lastblock = set1(if count == len { !0 } else { 0 });
         let lastnode = set1(if params.last_node && count == len {
             !0
-- 
2.43.0


From e771140b1f1e851ae605934ff2b7c2ab7514c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 2/3] fix: do not count the key block in State::count

count() is documented to return the number of bytes input so far, but for a
keyed State it also included the 64-byte key block, and for a keyed blake2sp
State the key blocks of all eight leaves.
---
 src/blake2sp.rs |  1 +
 src/lib.rs      | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..e970ab5 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -140,6 +140,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..b5fe6ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -416,7 +418,12 @@ impl State {
 
     /// Return the total number of bytes input so far.
     pub fn count(&self) -> u64 {
-        self.count
+        // The internal count includes the key block, which isn't input.
+        if self.is_keyed {
+            self.count - BLOCKBYTES as u64
+        } else {
+            self.count
+        }
     }
 }
 
@@ -454,7 +461,9 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(),
+            self.hash_length,
+            self.last_node,
         )
     }
 }
@@ -1002,6 +1011,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0


From a2bb2cd8a30b60468553a8326b299f3b68fc129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 3/3] fix: compress the key blocks before direct input in keyed
 BLAKE2sp

With a key, every leaf starts with the key block buffered, but the eight-way
compression in update() went straight to the state words and left the key block
behind. Keyed BLAKE2sp digests were wrong for any input long enough to be
compressed during update() (961 bytes or more), and debug builds panicked.
---
 src/blake2sp.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index e970ab5..6c7e278 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -176,6 +176,17 @@ impl State {
         leaf7: &mut Blake2sState,
         compress8_fn: Compress8Fn,
     ) {
+        // With a key, the leaves start with the key block in their buffers. There's more input for
+        // each of them now, so the key blocks need to be compressed first. After that this is a
+        // no-op.
+        leaf0.compress_buffer_if_possible(&mut &input[..]);
+        leaf1.compress_buffer_if_possible(&mut &input[..]);
+        leaf2.compress_buffer_if_possible(&mut &input[..]);
+        leaf3.compress_buffer_if_possible(&mut &input[..]);
+        leaf4.compress_buffer_if_possible(&mut &input[..]);
+        leaf5.compress_buffer_if_possible(&mut &input[..]);
+        leaf6.compress_buffer_if_possible(&mut &input[..]);
+        leaf7.compress_buffer_if_possible(&mut &input[..]);
         // Note that this is reaching into the underlying state objects, so it assumes they don't
         // get input through their normal update() interface. Also we can only call this when we're
         // sure there's more input coming.
-- 
2.43.0

