From 295d152a948ff703816c37f23478a0e978b4f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 1/3] fix: Default of the backend hashers goes through the key
 schedule

The derived Default produced an all-zero state, so Default::default()
did not hash like new(Key::default()) and disagreed with HighwayHasher.
---
 src/aarch64.rs  | 8 +++++++-
 src/portable.rs | 8 +++++++-
 src/wasm.rs     | 8 +++++++-
 src/x86/avx.rs  | 8 +++++++-
 src/x86/sse.rs  | 8 +++++++-
 5 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..2632e2b 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -20,6 +20,12 @@ pub struct NeonHash {
     mul1H: V2x64U,
 }
 
+impl Default for NeonHash {
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for NeonHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..60ff844 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -19,6 +19,12 @@ pub struct PortableHash {
     pub(crate) buffer: HashPacket,
 }
 
+impl Default for PortableHash {
+    fn default() -> Self {
+        PortableHash::new(Key::default())
+    }
+}
+
 impl HighwayHash for PortableHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..5c662f6 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -20,6 +20,12 @@ pub struct WasmHash {
     buffer: HashPacket,
 }
 
+impl Default for WasmHash {
+    fn default() -> Self {
+        Self::new(Key::default())
+    }
+}
+
 impl HighwayHash for WasmHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..12f5f47 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -18,6 +18,12 @@ pub struct AvxHash {
     buffer: HashPacket,
 }
 
+impl Default for AvxHash {
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for AvxHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..4b0899d 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -22,6 +22,12 @@ pub struct SseHash {
     buffer: HashPacket,
 }
 
+impl Default for SseHash {
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for SseHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
-- 
2.43.0


From 8d714413935d0225b0552e2638f2e8ae8f900134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 2/3] fix: restoring a checkpoint never yields a full pending
 packet

A pending count of 32 or more left a full buffer behind, which finalize
paths do not expect: a shift overflow in debug builds, and results that
differed between backends.
---
 src/portable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index 60ff844..cbafc01 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -125,7 +125,8 @@ impl PortableHash {
 
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
+        // A packet never stays pending once it is full
+        buffer.fill(&buffered[..(len as usize).min(PACKET_SIZE - 1)]);
 
         PortableHash {
             v0,
-- 
2.43.0


From 942387fd9bc3f1d6d51421771dbf7887a93c4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:51 +0000
Subject: [PATCH 3/3] fix: checkpoint only writes the pending bytes of the
 buffer

Bytes past the pending count still held input that had already been
absorbed, so equal streams could produce different checkpoints.
---
 src/portable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index cbafc01..1825829 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -61,7 +61,9 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        for (dst, src) in buffered.iter_mut().zip(self.buffer.as_slice()) {
+            *dst = *src;
+        }
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0

