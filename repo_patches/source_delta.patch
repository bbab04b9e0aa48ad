From f3617424d349cbfc934c961e5d761c8c28ef6949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 1/3] fix: never restore a checkpoint with a full pending
 buffer

from_checkpoint accepted a pending count of 32 (or more, clamped to 32), a
state no append can produce. Finalizing it overflowed a shift in debug builds,
backends disagreed on the result, and an empty append changed it.
---
 src/portable.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..f844d56 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -119,7 +119,10 @@ impl PortableHash {
 
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
+
+        // A full buffer is absorbed as soon as it is filled, so at most PACKET_SIZE - 1 bytes can
+        // be pending between calls, whatever the checkpoint says.
+        buffer.fill(&buffered[..(len as usize).min(PACKET_SIZE - 1)]);
 
         PortableHash {
             v0,
-- 
2.43.0


From 8ccb187047755be05697d4aec64654b9eed8306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 2/3] fix: leave absorbed input out of checkpoints

checkpoint() copied the whole 32 byte buffer, so that bytes past the pending
count exposed input that had already been absorbed and made the checkpoint
depend on how the stream was chunked.
---
 src/portable.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index f844d56..1370598 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -55,7 +55,10 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes: the rest of the buffer holds input that is already absorbed
+        for (dest, src) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *dest = *src;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0


From 268dbf476ce0fcfc0ea156a2ef959dc2776cc872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 3/3] fix: build Default hashers from the zero key

The derived Default of PortableHash, SseHash, AvxHash, NeonHash and WasmHash
zeroed the internal state, which is not the state of any key: hashes from
PortableHash::default() differed from PortableHash::new(Key::default()) and
from HighwayHasher::default().
---
 src/aarch64.rs  | 9 ++++++++-
 src/portable.rs | 9 ++++++++-
 src/wasm.rs     | 9 ++++++++-
 src/x86/avx.rs  | 9 ++++++++-
 src/x86/sse.rs  | 9 ++++++++-
 5 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..04f70b1 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -20,6 +20,13 @@ pub struct NeonHash {
     mul1H: V2x64U,
 }
 
+impl Default for NeonHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { NeonHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for NeonHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/portable.rs b/src/portable.rs
index 1370598..9125845 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -19,6 +19,13 @@ pub struct PortableHash {
     pub(crate) buffer: HashPacket,
 }
 
+impl Default for PortableHash {
+    #[inline]
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for PortableHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..fbf2fee 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -20,6 +20,13 @@ pub struct WasmHash {
     buffer: HashPacket,
 }
 
+impl Default for WasmHash {
+    #[inline]
+    fn default() -> Self {
+        WasmHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for WasmHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..f0f1b7e 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -18,6 +18,13 @@ pub struct AvxHash {
     buffer: HashPacket,
 }
 
+impl Default for AvxHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { AvxHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for AvxHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..09b695e 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -22,6 +22,13 @@ pub struct SseHash {
     buffer: HashPacket,
 }
 
+impl Default for SseHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { SseHash::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for SseHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
-- 
2.43.0

