From 5bb6839289ee30702e89d57853dbc4d14483dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 1/3] fix: default hashers start from the zero key, not from an
 all-zero state

---
 src/aarch64.rs  | 9 ++++++++-
 src/portable.rs | 9 ++++++++-
 src/wasm.rs     | 9 ++++++++-
 src/x86/avx.rs  | 9 ++++++++-
 src/x86/sse.rs  | 9 ++++++++-
 5 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/aarch64.rs b/src/aarch64.rs
index 888ceeb..6bbb18e 100644
--- a/src/aarch64.rs
+++ b/src/aarch64.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Neon instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct NeonHash {
     buffer: HashPacket,
     v0L: V2x64U,
@@ -20,6 +20,13 @@ pub struct NeonHash {
     mul1H: V2x64U,
 }
 
+impl Default for NeonHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for NeonHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/portable.rs b/src/portable.rs
index 9043d08..dc5f911 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -10,7 +10,7 @@ use crate::traits::HighwayHash;
 ///
 /// The main reason for directly using `PortableHash` would be if avoiding
 /// `unsafe` code blocks is a top priority.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct PortableHash {
     pub(crate) v0: [u64; 4],
     pub(crate) v1: [u64; 4],
@@ -19,6 +19,13 @@ pub struct PortableHash {
     pub(crate) buffer: HashPacket,
 }
 
+impl Default for PortableHash {
+    #[inline]
+    fn default() -> Self {
+        Self::new(Key::default())
+    }
+}
+
 impl HighwayHash for PortableHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/wasm.rs b/src/wasm.rs
index ee9c10f..d539f82 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -7,7 +7,7 @@ use core::ops::{
 };
 
 /// HighwayHash powered by Wasm SIMD instructions
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct WasmHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -20,6 +20,13 @@ pub struct WasmHash {
     buffer: HashPacket,
 }
 
+impl Default for WasmHash {
+    #[inline]
+    fn default() -> Self {
+        Self::new(Key::default())
+    }
+}
+
 impl HighwayHash for WasmHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/avx.rs b/src/x86/avx.rs
index 4e2f180..016cf35 100644
--- a/src/x86/avx.rs
+++ b/src/x86/avx.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// AVX empowered implementation that will only work on `x86_64` with avx2 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct AvxHash {
     v0: V4x64U,
     v1: V4x64U,
@@ -18,6 +18,13 @@ pub struct AvxHash {
     buffer: HashPacket,
 }
 
+impl Default for AvxHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for AvxHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
diff --git a/src/x86/sse.rs b/src/x86/sse.rs
index de1c770..a3b99d2 100644
--- a/src/x86/sse.rs
+++ b/src/x86/sse.rs
@@ -9,7 +9,7 @@ use core::arch::x86_64::*;
 
 /// SSE empowered implementation that will only work on `x86_64` with sse 4.1 enabled at the CPU
 /// level.
-#[derive(Debug, Default, Clone)]
+#[derive(Debug, Clone)]
 pub struct SseHash {
     v0L: V2x64U,
     v0H: V2x64U,
@@ -22,6 +22,13 @@ pub struct SseHash {
     buffer: HashPacket,
 }
 
+impl Default for SseHash {
+    #[inline]
+    fn default() -> Self {
+        unsafe { Self::force_new(Key::default()) }
+    }
+}
+
 impl HighwayHash for SseHash {
     #[inline]
     fn append(&mut self, data: &[u8]) {
-- 
2.43.0


From c56e8032f31b85893a62a72578b8dff5bc39c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 2/3] fix: restoring a checkpoint with a count of 32 or more
 leaves a full buffer

---
 src/portable.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/portable.rs b/src/portable.rs
index dc5f911..394a343 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -122,19 +122,22 @@ impl PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at(PACKET_SIZE);
-        let mut buffer = HashPacket::default();
 
         let (len, _) = rest.split_at(core::mem::size_of::<u32>());
         let len = u32::from_le_bytes([len[0], len[1], len[2], len[3]]);
-        buffer.fill(&buffered[..(len as usize).min(buffered.len())]);
 
-        PortableHash {
+        let mut hasher = PortableHash {
             v0,
             v1,
             mul0,
             mul1,
-            buffer,
-        }
+            buffer: HashPacket::default(),
+        };
+
+        // Appending (instead of filling the buffer) absorbs a full packet, as a
+        // hasher never holds more than `PACKET_SIZE - 1` pending bytes.
+        hasher.append(&buffered[..(len as usize).min(buffered.len())]);
+        hasher
     }
 
     pub(crate) fn finalize64(&mut self) -> u64 {
-- 
2.43.0


From dc7df6f44d5f2a2b318438b98eefe194915b8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 3/3] fix: checkpoints contain stale bytes of already absorbed
 packets

---
 src/portable.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/portable.rs b/src/portable.rs
index 394a343..fb99289 100644
--- a/src/portable.rs
+++ b/src/portable.rs
@@ -62,7 +62,9 @@ impl HighwayHash for PortableHash {
         }
 
         let (buffered, rest) = cursor.split_at_mut(PACKET_SIZE);
-        buffered.copy_from_slice(&self.buffer.buf);
+        // Only the pending bytes: what follows them in the buffer was already absorbed.
+        let pending = self.buffer.as_slice();
+        buffered[..pending.len()].copy_from_slice(pending);
         rest.copy_from_slice(&(self.buffer.len() as u32).to_le_bytes());
         result
     }
-- 
2.43.0

