From 4cfe77c1490c43d312e5b02632c52bef2b301764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 01/24] fix: read EAC R11/RG11 texel indices big-endian

The 64-bit EAC block is stored big-endian (as decode_etc2_a8_block already
reads it); reading it little-endian scrambled the texel indices.
---
 src/etc/eac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b647084..b10a5f7 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,7 +8,7 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
@@ -32,7 +32,7 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_le_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
         let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
-- 
2.43.0


From e12e99609bbfa681ba8b249652e4a44f8363c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 02/24] fix: ATC method 1 second colour is c0 - c1/4, clamped
 at zero

The subtraction wrapped as u16 and divided the difference instead of c1.
---
 src/atc.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/atc.rs b/src/atc.rs
index 4d3daaf..0d5953d 100644
--- a/src/atc.rs
+++ b/src/atc.rs
@@ -58,18 +58,9 @@ pub fn decode_atc_rgb4_block(data: &[u8], outbuf: &mut [u32]) {
         colors[13] = expand_quantized(((c1 >> 5) & 0x3f) as u8, 6);
         colors[14] = expand_quantized(((c1 >> 11) & 0x1f) as u8, 5);
 
-        colors[4] = max(
-            0,
-            ((colors[8] as u16).overflowing_sub(colors[12] as u16).0 / 4) as u8,
-        );
-        colors[5] = max(
-            0,
-            ((colors[9] as u16).overflowing_sub(colors[13] as u16).0 / 4) as u8,
-        );
-        colors[6] = max(
-            0,
-            ((colors[10] as u16).overflowing_sub(colors[14] as u16).0 / 4) as u8,
-        );
+        colors[4] = max(0, colors[8] as i16 - colors[12] as i16 / 4) as u8;
+        colors[5] = max(0, colors[9] as i16 - colors[13] as i16 / 4) as u8;
+        colors[6] = max(0, colors[10] as i16 - colors[14] as i16 / 4) as u8;
     }
 
     let mut next = 8 * 4;
-- 
2.43.0


From 90a2a52a36c628bd4aedc1d795cf6aa937db6377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 03/24] fix: BC3-style alpha writes only the 16 texels of its
 block

With a longer output slice the entries behind the block were overwritten.
---
 src/bcn/bc3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index 70a0407..bf09db3 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -24,7 +24,7 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
-    outbuf.iter_mut().for_each(|p| {
+    outbuf[0..16].iter_mut().for_each(|p| {
         *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
         d >>= 3;
     });
-- 
2.43.0


From a5d41b1d47511c64e69ebfb534c1b927ca535e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 04/24] fix: BC2/BC3 color blocks always use the four-color
 palette

Unlike BC1, the order of the two colors does not select a palette in BC2 and
BC3; blocks with color0 <= color1 decoded with the BC1 three-color palette.
---
 src/bcn/bc1.rs | 14 ++++++++++----
 src/bcn/bc2.rs |  4 ++--
 src/bcn/bc3.rs |  4 ++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc1.rs b/src/bcn/bc1.rs
index 55450ec..5d8c28c 100644
--- a/src/bcn/bc1.rs
+++ b/src/bcn/bc1.rs
@@ -1,7 +1,7 @@
 use crate::color::{color, rgb565_le};
 
 #[inline]
-fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
+fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool, four_color: bool) {
     let q0 = u16::from_le_bytes([data[0], data[1]]);
     let q1 = u16::from_le_bytes([data[2], data[3]]);
     let (r0, g0, b0) = rgb565_le(q0);
@@ -17,7 +17,7 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
     let g1 = g1 as u16;
     let b1 = b1 as u16;
 
-    if q0 > q1 {
+    if four_color || q0 > q1 {
         c[2] = color(
             ((r0 * 2 + r1) / 3) as u8,
             ((g0 * 2 + g1) / 3) as u8,
@@ -48,10 +48,16 @@ fn _decode_bc1_block(data: &[u8], outbuf: &mut [u32], use_alpha: bool) {
 
 #[inline]
 pub fn decode_bc1_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, false)
+    _decode_bc1_block(data, outbuf, false, false)
 }
 
 #[inline]
 pub fn decode_bc1a_block(data: &[u8], outbuf: &mut [u32]) {
-    _decode_bc1_block(data, outbuf, true);
+    _decode_bc1_block(data, outbuf, true, false);
+}
+
+// BC2 and BC3 color blocks are always in 4-color mode, no matter the order of the endpoints
+#[inline]
+pub(crate) fn decode_bc1_block_four_color(data: &[u8], outbuf: &mut [u32]) {
+    _decode_bc1_block(data, outbuf, false, true)
 }
diff --git a/src/bcn/bc2.rs b/src/bcn/bc2.rs
index 5126cb4..d6736cb 100644
--- a/src/bcn/bc2.rs
+++ b/src/bcn/bc2.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_block_four_color;
 
 #[inline]
 pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -18,6 +18,6 @@ pub fn decode_bc2_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc2_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_block_four_color(&data[8..], outbuf);
     decode_bc2_alpha(data, outbuf, 3);
 }
diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index bf09db3..cb4e381 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -1,4 +1,4 @@
-use crate::bcn::bc1::decode_bc1_block;
+use crate::bcn::bc1::decode_bc1_block_four_color;
 
 #[inline]
 pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
@@ -32,6 +32,6 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
 
 #[inline]
 pub fn decode_bc3_block(data: &[u8], outbuf: &mut [u32]) {
-    decode_bc1_block(&data[8..], outbuf);
+    decode_bc1_block_four_color(&data[8..], outbuf);
     decode_bc3_alpha(data, outbuf, 3);
 }
-- 
2.43.0


From 0249641e7f6954c4e9e0389165842586d054e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 05/24] fix: BC6H endpoint unquantization, signed interpolation
 and 16-bit mode

The largest unsigned endpoint value maps to 0xffff; signed values are two's
complement until the final conversion to half float; the mask of the mode
with 16-bit endpoints overflowed.
---
 src/bcn/bc6.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/bcn/bc6.rs b/src/bcn/bc6.rs
index e01beb4..1fd813f 100644
--- a/src/bcn/bc6.rs
+++ b/src/bcn/bc6.rs
@@ -273,15 +273,16 @@ static S_BC6H_MODE_INFO: [Bc6hModeInfo; 32] = [
 ];
 
 fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
-    let max_value: u16 = 1 << (_endpoint_bits - 1);
-
     if _signed {
         if _endpoint_bits >= 16 {
             return _value;
         }
 
+        let max_value: u16 = 1 << (_endpoint_bits - 1);
+
+        // _value is in two's complement
         let sign: bool = _value & 0x8000 != 0;
-        let _value = _value & 0x7fff;
+        let _value = (_value as i16).unsigned_abs();
 
         let unq: u16;
 
@@ -293,7 +294,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
             unq = ((((_value as u32) << 15) + 0x4000) >> (_endpoint_bits - 1)) as u16;
         }
 
-        return if sign { u16::MAX - unq + 1 } else { unq };
+        return if sign { unq.wrapping_neg() } else { unq };
     }
 
     if _endpoint_bits >= 15 {
@@ -304,7 +305,7 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
         return 0;
     }
 
-    if _value == max_value {
+    if _value == (1 << _endpoint_bits) - 1 {
         return u16::MAX;
     }
 
@@ -313,13 +314,24 @@ fn unquantize(_value: u16, _signed: bool, _endpoint_bits: usize) -> u16 {
 
 fn finish_unquantize(_value: u16, _signed: bool) -> u16 {
     if _signed {
+        // two's complement to the sign and magnitude of a half float
         let sign: u16 = _value & 0x8000;
-        (((_value & 0x7fff) as u32 * 31) >> 5) as u16 | sign
+        (((_value as i16).unsigned_abs() as u32 * 31) >> 5) as u16 | sign
     } else {
         ((_value as u32 * 31) >> 6) as u16
     }
 }
 
+// interpolate between two unquantized endpoints
+#[inline]
+fn interpolate(a: u16, b: u16, fca: i32, fcb: i32, signed: bool) -> u16 {
+    if signed {
+        ((a as i16 as i32 * fca + b as i16 as i32 * fcb + 32) >> 6) as u16
+    } else {
+        ((a as i32 * fca + b as i32 * fcb + 32) >> 6) as u16
+    }
+}
+
 fn sign_extend(_value: u16, _num_bits: usize) -> u16 {
     let mask: u16 = 1 << (_num_bits - 1);
     (_value ^ mask).overflowing_sub(mask).0
@@ -675,7 +687,7 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
         }
 
         if mi.transformed {
-            let mask = (1 << mi.endpoint_bits) - 1;
+            let mask = u16::MAX >> (16 - mi.endpoint_bits);
 
             ep_r[ii] = ep_r[ii].overflowing_add(ep_r[0]).0 & mask;
             ep_g[ii] = ep_g[ii].overflowing_add(ep_g[0]).0 & mask;
@@ -723,24 +735,21 @@ pub fn decode_bc6_block(data: &[u8], outbuf: &mut [u32], signed: bool) {
             let num = index_bits - anchor as usize;
             let index = bit.read(num) as usize;
 
-            let fc = factors[index] as u32;
+            let fc = factors[index] as i32;
             let fca = 64 - fc;
             let fcb = fc;
 
             subset_index *= 2;
             let rr = finish_unquantize(
-                ((ep_r[subset_index] as u32 * fca + ep_r[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_r[subset_index], ep_r[subset_index + 1], fca, fcb, signed),
                 signed,
             );
             let gg = finish_unquantize(
-                ((ep_g[subset_index] as u32 * fca + ep_g[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_g[subset_index], ep_g[subset_index + 1], fca, fcb, signed),
                 signed,
             );
             let bb = finish_unquantize(
-                ((ep_b[subset_index] as u32 * fca + ep_b[subset_index + 1] as u32 * fcb + 32) >> 6)
-                    as u16,
+                interpolate(ep_b[subset_index], ep_b[subset_index + 1], fca, fcb, signed),
                 signed,
             );
 
-- 
2.43.0


From 469029cdcfc35e7288153211c924f2c219dcd2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 06/24] fix: PVRTC blocks are 8 bytes in both block sizes

The 4bpp size check asked for 4 bytes per block, so short data panicked
instead of returning an error.
---
 src/pvrtc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 03bc2d1..fb0cee2 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -385,7 +385,7 @@ pub fn decode_pvrtc(
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
@@ -468,7 +468,7 @@ pub fn decode_pvrtc(
         num_blocks_y
     };
 
-    if data.len() < num_blocks * block_width {
+    if data.len() < num_blocks * 8 {
         return Err("The data buffer is too small!");
     }
     if image.len() < width * height {
-- 
2.43.0


From f21ec040f37e75499bea5886c20b09fe8e01b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 07/24] fix: PVRTC with an empty image is a no-op like in the
 other decoders

A width or height of zero underflowed in the power-of-two test.
---
 src/pvrtc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index fb0cee2..ff5ee41 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -391,7 +391,9 @@ pub fn decode_pvrtc(
     if image.len() < width * height {
         return Err("The image buffer is too small!");
     }
-    if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
+    if (num_blocks_x & num_blocks_x.wrapping_sub(1)) != 0
+        || (num_blocks_y & num_blocks_y.wrapping_sub(1)) != 0
+    {
         return Err("The number of blocks of each side must be a power of 2!");
     }
 
@@ -474,7 +476,9 @@ pub fn decode_pvrtc(
     if image.len() < width * height {
         return Err("The image buffer is too small!");
     }
-    if ((num_blocks_x & (num_blocks_x - 1)) != 0) || ((num_blocks_y & (num_blocks_y - 1)) != 0) {
+    if (num_blocks_x & num_blocks_x.wrapping_sub(1)) != 0
+        || (num_blocks_y & num_blocks_y.wrapping_sub(1)) != 0
+    {
         return Err("The number of blocks of each side must be a power of 2!");
     }
 
-- 
2.43.0


From 0b7adbedb09862e33f0a2c057663344c3c1a84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 08/24] fix: the no-alloc configuration builds

---
 src/lib.rs   |  4 ++++
 src/pvrtc.rs | 13 +++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b59550..258dbc8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -88,6 +88,7 @@ mod macros;
 mod astc;
 mod atc;
 mod bcn;
+#[cfg(feature = "alloc")]
 mod crnlib;
 #[cfg(feature = "alloc")]
 mod crunch;
@@ -100,8 +101,11 @@ mod unitycrunch;
 pub use astc::*;
 pub use atc::*;
 pub use bcn::*;
+#[cfg(feature = "alloc")]
 pub use crnlib::CrnTextureInfo;
+#[cfg(feature = "alloc")]
 pub use crunch::decode_crunch;
 pub use etc::*;
 pub use pvrtc::*;
+#[cfg(feature = "alloc")]
 pub use unitycrunch::decode_unity_crunch;
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index ff5ee41..8ae4422 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -455,14 +455,14 @@ pub fn decode_pvrtc(
 #[cfg(not(feature = "alloc"))]
 pub fn decode_pvrtc(
     data: &[u8],
-    w: usize,
-    h: usize,
+    width: usize,
+    height: usize,
     image: &mut [u32],
     is2bpp: bool,
 ) -> Result<(), &'static str> {
-    let bw: usize = if is2bpp { 8 } else { 4 };
-    let num_blocks_x: usize = if is2bpp { (w + 7) / 8 } else { (w + 3) / 4 };
-    let num_blocks_y: usize = (h + 3) / 4;
+    let block_width: usize = if is2bpp { 8 } else { 4 };
+    let num_blocks_x: usize = width.div_ceil(block_width);
+    let num_blocks_y: usize = height.div_ceil(4);
     let num_blocks: usize = num_blocks_x * num_blocks_y;
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
@@ -524,9 +524,10 @@ pub fn decode_pvrtc(
                 &mut local_info,
                 &mut buffer,
             );
-            copy_block_buffer(bx, by, w, h, bw, 4, &buffer, image);
+            copy_block_buffer(bx, by, width, height, block_width, 4, &buffer, image);
         }
     }
+    Ok(())
 }
 
 pub fn decode_pvrtc_2bpp(
-- 
2.43.0


From 3e84d59df36e82c02abae53fd116973a833b8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 09/24] fix: sign-extend the ASTC HDR endpoint deltas

---
 src/astc.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3a15e8c..9148df2 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -844,31 +844,31 @@ fn decode_endpoints_hdr11(endpoints: &mut [i32], v: &[i32], alpha1: i32, alpha2:
         0 | 2 => {
             vd0 = v[4] & 0x7f;
             if vd0 & 0x40 != 0 {
-                vd0 |= 0xff80;
+                vd0 |= !0x7f;
             }
             vd1 = v[5] & 0x7f;
             if vd1 & 0x40 != 0 {
-                vd1 |= 0xff80;
+                vd1 |= !0x7f;
             }
         }
         1 | 3 | 5 | 7 => {
             vd0 = v[4] & 0x3f;
             if vd0 & 0x20 != 0 {
-                vd0 |= 0xffc0;
+                vd0 |= !0x3f;
             }
             vd1 = v[5] & 0x3f;
             if vd1 & 0x20 != 0 {
-                vd1 |= 0xffc0;
+                vd1 |= !0x3f;
             }
         }
         _ => {
             vd0 = v[4] & 0x1f;
             if vd0 & 0x10 != 0 {
-                vd0 |= 0xffe0;
+                vd0 |= !0x1f;
             }
             vd1 = v[5] & 0x1f;
             if vd1 & 0x10 != 0 {
-                vd1 |= 0xffe0;
+                vd1 |= !0x1f;
             }
         }
     }
-- 
2.43.0


From 67113db0b3d76a520b714c4d4447bdf8d69bbb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 10/24] fix: illegal ASTC encodings decode to the error color

---
 src/astc.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 9148df2..3282dc9 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -533,7 +533,8 @@ fn decode_intseq(
     }
 }
 
-fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
+/// Returns false if the block is one of the illegal encodings.
+fn decode_block_params(buf: &[u8], block_data: &mut BlockData) -> bool {
     block_data.dual_plane = (buf[1] & 4) != 0;
     block_data.weight_range = ((buf[0] >> 4 & 1) | (buf[1] << 2 & 8)) as usize;
 
@@ -610,6 +611,15 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         _ => block_data.weight_num as i32 * WEIGHT_PREC_TABLE_B[block_data.weight_range],
     };
 
+    if block_data.width > block_data.bw
+        || block_data.height > block_data.bh
+        || block_data.weight_num > 64
+        || !(24..=96).contains(&weight_bits)
+        || (block_data.dual_plane && block_data.part_num == 4)
+    {
+        return false;
+    }
+
     if block_data.part_num == 1 {
         block_data.cem[0] = (u8ptr_to_u16(&buf[1..]) >> 5 & 0xf) as usize;
         config_bits = 17;
@@ -659,6 +669,9 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
         ) as usize;
     }
 
+    if config_bits + weight_bits as usize > 128 {
+        return false;
+    }
     let remain_bits = 128 - config_bits - weight_bits as usize;
 
     block_data.endpoint_value_num = 0;
@@ -666,6 +679,13 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
     (0..block_data.part_num)
         .for_each(|i| block_data.endpoint_value_num += (block_data.cem[i] >> 1 & 6) + 2);
 
+    // the endpoint values need a range of at least 0..5
+    if block_data.endpoint_value_num > 18
+        || remain_bits < (block_data.endpoint_value_num * 13).div_ceil(5)
+    {
+        return false;
+    }
+
     let mut endpoint_bits: usize;
     for i in 0..CEM_TABLE_A.len() {
         match CEM_TABLE_A[i] {
@@ -686,6 +706,7 @@ fn decode_block_params(buf: &[u8], block_data: &mut BlockData) {
             break;
         }
     }
+    true
 }
 
 fn decode_endpoints_hdr7(endpoints: &mut [i32], v: &[i32]) {
@@ -1761,7 +1782,10 @@ pub fn decode_astc_block(buf: &[u8], block_width: usize, block_height: usize, ou
         let mut block_data = BlockData::default();
         block_data.bw = block_width;
         block_data.bh = block_height;
-        decode_block_params(buf, &mut block_data);
+        if !decode_block_params(buf, &mut block_data) {
+            outbuf[0..(block_width * block_height)].fill(color(255, 0, 255, 255));
+            return;
+        }
         decode_endpoints(buf, &mut block_data);
         decode_weights(buf, &mut block_data);
         if block_data.part_num > 1 {
-- 
2.43.0


From ebd1378f50ba2f49549530df067d329ffca51623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 11/24] fix: decode_astc rejects block sizes it cannot decode
 instead of panicking

---
 src/astc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3282dc9..3ce7d35 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1803,6 +1803,10 @@ pub fn decode_astc(
     block_height: usize,
     image: &mut [u32],
 ) -> Result<(), &'static str> {
+    if block_width < 2 || block_height < 2 {
+        return Err("Block size is too small!");
+    }
+
     let num_blocks_x = width.div_ceil(block_width);
     let num_blocks_y = height.div_ceil(block_height);
     let mut buffer: [u32; 144] = [0; 144];
@@ -1817,7 +1821,7 @@ pub fn decode_astc(
         return Err("Image buffer is too small!");
     }
 
-    if block_width * block_height > 144 {
+    if block_width.saturating_mul(block_height) > 144 {
         return Err("Block size is too big!");
     }
 
-- 
2.43.0


From fb5163bd8a469a0002617d7b29e88e72121fafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 12/24] fix: image sizes beyond the address space are rejected
 instead of overflowing

---
 src/astc.rs   |  4 ++--
 src/macros.rs |  4 ++--
 src/pvrtc.rs  | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/astc.rs b/src/astc.rs
index 3ce7d35..207c89f 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -1812,11 +1812,11 @@ pub fn decode_astc(
     let mut buffer: [u32; 144] = [0; 144];
     let mut data_offset = 0;
 
-    if data.len() < num_blocks_x * num_blocks_y * 16 {
+    if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul(16) {
         return Err("Not enough data to decode image!");
     }
 
-    let expected_image_size = width * height;
+    let expected_image_size = width.saturating_mul(height);
     if image.len() < expected_image_size {
         return Err("Image buffer is too small!");
     }
diff --git a/src/macros.rs b/src/macros.rs
index ab6ab4b..d93c0c8 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -11,11 +11,11 @@ macro_rules! block_decoder{
                 let num_blocks_y: usize = height.div_ceil(BLOCK_HEIGHT);
                 let mut buffer: [u32; BLOCK_SIZE] = [crate::color::color(0,0,0,255); BLOCK_SIZE];
 
-                if data.len() < num_blocks_x * num_blocks_y * $raw_block_size {
+                if data.len() < num_blocks_x.saturating_mul(num_blocks_y).saturating_mul($raw_block_size) {
                     return Err("Not enough data to decode image!");
                 }
 
-                if image.len() < width * height {
+                if image.len() < width.saturating_mul(height) {
                     return Err("Image buffer is too small!");
                 }
 
diff --git a/src/pvrtc.rs b/src/pvrtc.rs
index 8ae4422..0fbd2d7 100644
--- a/src/pvrtc.rs
+++ b/src/pvrtc.rs
@@ -382,13 +382,13 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = num_blocks_x.min(num_blocks_y);
 
-    if data.len() < num_blocks * 8 {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
     if (num_blocks_x & num_blocks_x.wrapping_sub(1)) != 0
@@ -463,17 +463,17 @@ pub fn decode_pvrtc(
     let block_width: usize = if is2bpp { 8 } else { 4 };
     let num_blocks_x: usize = width.div_ceil(block_width);
     let num_blocks_y: usize = height.div_ceil(4);
-    let num_blocks: usize = num_blocks_x * num_blocks_y;
+    let num_blocks: usize = num_blocks_x.saturating_mul(num_blocks_y);
     let min_num_blocks: usize = if num_blocks_x <= num_blocks_y {
         num_blocks_x
     } else {
         num_blocks_y
     };
 
-    if data.len() < num_blocks * 8 {
+    if data.len() < num_blocks.saturating_mul(8) {
         return Err("The data buffer is too small!");
     }
-    if image.len() < width * height {
+    if image.len() < width.saturating_mul(height) {
         return Err("The image buffer is too small!");
     }
     if (num_blocks_x & num_blocks_x.wrapping_sub(1)) != 0
-- 
2.43.0


From 5c0e622c441ddea939e4985a044b16f6cac63f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 13/24] fix: the Python decode_astc returns the image and
 raises on errors

---
 bindings/python/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index e09336c..ef0c6cb 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -131,15 +131,21 @@ pub fn decode_astc<'a>(
 ) -> PyResult<&'a PyBytes> {
     PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
         let image_u32 = unsafe { std::mem::transmute(image) };
-        texture2ddecoder::decode_astc(
+        match texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
             height,
             block_width,
             block_height,
             image_u32,
-        )
-        .unwrap_err();
+        ) {
+            Ok(_) => {}
+            Err(e) => {
+                return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(
+                    e.to_string(),
+                ))
+            }
+        }
         Ok(())
     })
 }
-- 
2.43.0


From 7d5530c1dca23795da65aeb04a5516891ce137af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 14/24] fix: the Python bindings hand the decoders a pixel
 slice of the right length

---
 bindings/python/src/lib.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index ef0c6cb..c83474d 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -56,13 +56,30 @@ fn texture2ddecoder_rs(_py: Python<'_>, m: &PyModule) -> PyResult<()> {
     Ok(())
 }
 
+// the size of the decoded image in bytes
+fn image_size(width: usize, height: usize) -> PyResult<usize> {
+    width
+        .checked_mul(height)
+        .and_then(|pixels| pixels.checked_mul(4))
+        .filter(|size| *size <= isize::MAX as usize)
+        .ok_or_else(|| {
+            PyErr::new::<pyo3::exceptions::PyValueError, _>("The image is too large!")
+        })
+}
+
+// view the (pointer aligned) payload of a bytes object as pixels
+fn as_pixels(image: &mut [u8]) -> &mut [u32] {
+    assert_eq!(image.as_ptr() as usize % std::mem::align_of::<u32>(), 0);
+    unsafe { std::slice::from_raw_parts_mut(image.as_mut_ptr() as *mut u32, image.len() / 4) }
+}
+
 macro_rules! pybind {
     ($name:expr) => {
         paste::item! {
             #[pyfunction]
             pub fn $name<'a>(py: Python<'a>, data: &'a PyBytes, width: usize, height: usize) -> PyResult<&'a PyBytes> {
-                PyBytes::new_with(py, width * height * 4, |image: & mut[u8]|{
-                    let image_u32 = unsafe { std::mem::transmute(image) };
+                PyBytes::new_with(py, image_size(width, height)?, |image: & mut[u8]|{
+                    let image_u32 = as_pixels(image);
                     match texture2ddecoder::$name(data.as_bytes(), width, height, image_u32){
                         Ok(_) => {}
                         Err(e) => return Err(PyErr::new::<pyo3::exceptions::PyValueError, _>(e.to_string()))
@@ -129,8 +146,8 @@ pub fn decode_astc<'a>(
     block_width: usize,
     block_height: usize,
 ) -> PyResult<&'a PyBytes> {
-    PyBytes::new_with(py, width * height * 4, |image: &mut [u8]| {
-        let image_u32 = unsafe { std::mem::transmute(image) };
+    PyBytes::new_with(py, image_size(width, height)?, |image: &mut [u8]| {
+        let image_u32 = as_pixels(image);
         match texture2ddecoder::decode_astc(
             data.as_bytes(),
             width,
-- 
2.43.0


From d91e652894c925c2e726cf6df25ce3992878e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 15/24] fix: crunch streams are read only inside their segment

---
 src/crunch/crn_symbol_codec.rs | 53 +++++++++++-----------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index 66edf4d..f14edcb 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -6,7 +6,6 @@ use super::crn_utils::*;
 pub struct symbol_codec<'slice> {
     pub p_decode_buf: &'slice [u8],
     pub p_decode_buf_next: &'slice [u8],
-    pub p_decode_buf_end: *const u8,
     pub decode_buf_size: u32,
     pub bit_buf: u32,
     pub bit_count: i32,
@@ -17,7 +16,6 @@ impl Default for symbol_codec<'_> {
         symbol_codec {
             p_decode_buf: &[0; 0],
             p_decode_buf_next: &[0; 0],
-            p_decode_buf_end: core::ptr::null(),
             decode_buf_size: 0,
             bit_buf: 0,
             bit_count: 0,
@@ -27,13 +25,13 @@ impl Default for symbol_codec<'_> {
 
 impl<'slice> symbol_codec<'slice> {
     pub fn start_decoding(&mut self, p_buf: &'slice [u8], buf_size: u32) -> bool {
-        if buf_size == 0 {
+        if buf_size == 0 || p_buf.len() < buf_size as usize {
             return false;
         }
+        let p_buf = &p_buf[..buf_size as usize];
         self.p_decode_buf = p_buf;
         self.p_decode_buf_next = p_buf;
         self.decode_buf_size = buf_size;
-        self.p_decode_buf_end = (&p_buf[(buf_size - 1) as usize]) as *const u8;
         self.get_bits_init();
         true
     }
@@ -175,35 +173,13 @@ impl<'slice> symbol_codec<'slice> {
         let p_tables = &model.p_decode_tables;
         if self.bit_count < 24 {
             if self.bit_count < 16 {
-                let mut c0: u32 = 0;
-                let mut c1: u32 = 0;
-                let mut p = self.p_decode_buf_next;
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c0 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                if (&(p[0]) as *const u8) <= self.p_decode_buf_end {
-                    c1 = p[0] as u32;
-                    if (&(p[0]) as *const u8) < self.p_decode_buf_end {
-                        p = &p[1..]
-                    }
-                };
-                self.p_decode_buf_next = p;
+                let c0: u32 = self.next_byte();
+                let c1: u32 = self.next_byte();
                 self.bit_count += 16;
                 let c: u32 = (c0 << 8) | c1;
                 self.bit_buf |= c << (32 - self.bit_count);
             } else {
-                let c: u32;
-                if (&(self.p_decode_buf_next[0]) as *const u8) <= self.p_decode_buf_end {
-                    c = self.p_decode_buf_next[0] as u32;
-                    if (&(self.p_decode_buf_next[0]) as *const u8) < self.p_decode_buf_end {
-                        self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                    }
-                } else {
-                    c = 0
-                };
+                let c: u32 = self.next_byte();
                 self.bit_count += 8;
                 self.bit_buf |= c << (32 - self.bit_count);
             }
@@ -243,6 +219,17 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn stop_decoding(&mut self) {}
 
+    // The next byte of the segment, or 0 once it is exhausted.
+    fn next_byte(&mut self) -> u32 {
+        match self.p_decode_buf_next.split_first() {
+            Some((&c, rest)) => {
+                self.p_decode_buf_next = rest;
+                c as u32
+            }
+            None => 0,
+        }
+    }
+
     fn get_bits_init(&mut self) {
         self.bit_buf = 0;
         self.bit_count = 0;
@@ -253,13 +240,7 @@ impl<'slice> symbol_codec<'slice> {
             return Err(false);
         }
         while self.bit_count < num_bits as i32 {
-            let mut c: u32 = 0;
-            if self.p_decode_buf_next[0] as *const u8 <= self.p_decode_buf_end {
-                c = self.p_decode_buf_next[0] as u32;
-                if (self.p_decode_buf_next[0] as *const u8) < self.p_decode_buf_end {
-                    self.p_decode_buf_next = &self.p_decode_buf_next[1..];
-                }
-            }
+            let c: u32 = self.next_byte();
             self.bit_count += 8;
             if self.bit_count > BIT_BUF_SIZE as i32 {
                 return Err(false);
-- 
2.43.0


From f13317cb2e95d7a5ad49684fc1089b56ffdd7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 16/24] fix: empty crunch Huffman models are accepted but never
 decoded from

---
 src/crunch/crn_symbol_codec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crunch/crn_symbol_codec.rs b/src/crunch/crn_symbol_codec.rs
index f14edcb..07ab423 100644
--- a/src/crunch/crn_symbol_codec.rs
+++ b/src/crunch/crn_symbol_codec.rs
@@ -44,6 +44,7 @@ impl<'slice> symbol_codec<'slice> {
 
         if total_used_syms == 0 {
             model.clear();
+            return true;
         }
 
         model.code_sizes.resize(total_used_syms as usize, 0);
@@ -171,6 +172,9 @@ impl<'slice> symbol_codec<'slice> {
 
     pub fn decode(&mut self, model: &StaticHuffmanDataModel) -> Result<u32, bool> {
         let p_tables = &model.p_decode_tables;
+        if p_tables.total_used_syms == 0 {
+            return Err(false);
+        }
         if self.bit_count < 24 {
             if self.bit_count < 16 {
                 let c0: u32 = self.next_byte();
-- 
2.43.0


From 79377ec3dac04f9ec2586f55e9d6efd86ed1ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 17/24] fix: crunch headers are checked against the data before
 use

---
 src/crunch.rs                   |  4 +++-
 src/crunch/crn_decomp.rs        |  7 +++++--
 src/crunch/crn_unpacker.rs      | 31 ++++++++++++++++++++---------
 src/unitycrunch.rs              |  4 +++-
 src/unitycrunch/crn_unpacker.rs | 35 ++++++++++++++++++++++-----------
 5 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/crunch.rs b/src/crunch.rs
index 6f41e1f..5d458c8 100644
--- a/src/crunch.rs
+++ b/src/crunch.rs
@@ -31,7 +31,9 @@ pub fn crunch_unpack_level(
     let blocks_x: u32 = max(1, (width + 3) >> 2);
     let blocks_y: u32 = max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("The texture is too large.")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/crunch/crn_decomp.rs b/src/crunch/crn_decomp.rs
index ed5649a..c7f0299 100644
--- a/src/crunch/crn_decomp.rs
+++ b/src/crunch/crn_decomp.rs
@@ -47,7 +47,7 @@ impl<const N: usize> CrnPackedUint<N> {
         self.buf.copy_from_slice(&other[0..N])
     }
 
-    pub fn cast_to_uint(&mut self) -> u32 {
+    pub fn cast_to_uint(&self) -> u32 {
         match N {
             1 => self.buf[0] as u32,
             2 => u16::from_be_bytes([self.buf[0], self.buf[1]]) as u32,
@@ -120,7 +120,7 @@ impl CrnHeader {
     pub const MIN_SIZE: u32 = 74;
 
     pub fn crnd_get_header(&mut self, p_data: &[u8], data_size: u32) -> bool {
-        if data_size < CrnHeader::MIN_SIZE {
+        if data_size < CrnHeader::MIN_SIZE || p_data.len() < data_size as usize {
             return false;
         }
         *self = CrnHeader::default();
@@ -145,6 +145,9 @@ impl CrnHeader {
         self.tables_size.assign_from_buffer(&p_data[65..]);
         self.tables_ofs.assign_from_buffer(&p_data[67..]);
         self.level_ofs = alloc::vec![];
+        if p_data.len() < 70 + self.levels.cast_to_uint() as usize * 4 {
+            return false;
+        }
         for i in 0..self.levels.cast_to_uint() as usize {
             self.level_ofs.push(CrnPackedUint { buf: [0, 0, 0, 0] });
             self.level_ofs[i].assign_from_buffer(&p_data[70 + (i * 4)..]);
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 3a2124a..ec7dc17 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -61,10 +61,14 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         true
     }
+    // The data from `ofs` on, empty when `ofs` is out of bounds.
+    fn segment(&self, ofs: u32) -> &'slice [u8] {
+        self.p_data.get(ofs as usize..).unwrap_or_default()
+    }
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -139,7 +143,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
 
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -191,7 +195,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_selectors = self.p_header.color_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            self.segment(self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -273,7 +277,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -310,7 +314,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_selectors = self.p_header.alpha_selectors.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -390,7 +394,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get(level_index as usize) {
+            Some(level_ofs) => level_ofs.cast_to_uint(),
+            None => return Err("Level index is out of bounds."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -399,7 +406,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            self.segment(cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
@@ -431,10 +438,16 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
-        if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
+        if (dst_size_in_bytes as u64) < (row_pitch_in_bytes as u64) * (blocks_y as u64) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
+        let num_faces: u32 = self.p_header.faces.cast_to_uint();
+        // Every block takes at least one bit, so a level cannot hold more blocks than bits.
+        if (blocks_x as u64) * (blocks_y as u64) * (num_faces as u64) > (src_size_in_bytes as u64) * 8
+        {
+            return Err("Level is too small for the size of the texture.");
+        }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces as usize];
         let chunks_x: u32 = (blocks_x + 1) >> 1;
         let chunks_y: u32 = (blocks_y + 1) >> 1;
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
diff --git a/src/unitycrunch.rs b/src/unitycrunch.rs
index ae4940e..0ef39ae 100644
--- a/src/unitycrunch.rs
+++ b/src/unitycrunch.rs
@@ -22,7 +22,9 @@ pub fn unity_crunch_unpack_level(
     let blocks_x: u32 = core::cmp::max(1, (width + 3) >> 2);
     let blocks_y: u32 = core::cmp::max(1, (height + 3) >> 2);
     let row_pitch: u32 = blocks_x * crn_decomp::crnd_get_bytes_per_dxt_block(&mut tex_info.format)?;
-    let total_face_size: u32 = row_pitch * blocks_y;
+    let total_face_size: u32 = row_pitch
+        .checked_mul(blocks_y)
+        .ok_or("The texture is too large.")?;
     match p_context.crnd_unpack_level(total_face_size, row_pitch, level_index) {
         Ok(res) => Ok(CrunchDecodeHandler {
             format: tex_info.format,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 8df792b..aa053a3 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -68,10 +68,14 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         true
     }
+    // The data from `ofs` on, empty when `ofs` is out of bounds.
+    fn segment(&self, ofs: u32) -> &'slice [u8] {
+        self.p_data.get(ofs as usize..).unwrap_or_default()
+    }
     pub fn init_tables(&mut self) -> bool {
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.tables_ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.tables_ofs.cast_to_uint()),
             self.p_header.tables_size.cast_to_uint(),
         );
         if !res {
@@ -164,7 +168,7 @@ impl<'slice> CrnUnpacker<'slice> {
         self.color_endpoints.resize(num_color_endpoints as usize, 0);
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.color_endpoints.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.color_endpoints.ofs.cast_to_uint()),
             self.p_header.color_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -239,7 +243,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut res: bool;
         // Return value here is ignored in the original code.
         res = self.codec.start_decoding(
-            &self.p_data[(self.p_header.color_selectors.ofs.cast_to_uint() as usize)..],
+            self.segment(self.p_header.color_selectors.ofs.cast_to_uint()),
             self.p_header.color_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -299,7 +303,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints = self.p_header.alpha_endpoints.num.cast_to_uint();
         let mut res: bool;
         res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_endpoints.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.alpha_endpoints.ofs.cast_to_uint()),
             self.p_header.alpha_endpoints.size.cast_to_uint(),
         );
         if !res {
@@ -332,7 +336,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -383,7 +387,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etc(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -457,7 +461,7 @@ impl<'slice> CrnUnpacker<'slice> {
     }
     pub fn decode_alpha_selectors_etcs(&mut self) -> bool {
         let mut res = self.codec.start_decoding(
-            &self.p_data[self.p_header.alpha_selectors.ofs.cast_to_uint() as usize..],
+            self.segment(self.p_header.alpha_selectors.ofs.cast_to_uint()),
             self.p_header.alpha_selectors.size.cast_to_uint(),
         );
         if !res {
@@ -527,7 +531,10 @@ impl<'slice> CrnUnpacker<'slice> {
         row_pitch_in_bytes: u32,
         level_index: u32,
     ) -> Result<alloc::vec::Vec<u8>, &'static str> {
-        let cur_level_ofs = self.p_header.level_ofs[level_index as usize].cast_to_uint();
+        let cur_level_ofs = match self.p_header.level_ofs.get(level_index as usize) {
+            Some(level_ofs) => level_ofs.cast_to_uint(),
+            None => return Err("Level index is out of bounds."),
+        };
         let mut next_level_ofs = self.data_size;
         if (level_index + 1) < (self.p_header.levels.cast_to_uint()) {
             next_level_ofs = self.p_header.level_ofs[(level_index + 1) as usize].cast_to_uint();
@@ -536,7 +543,7 @@ impl<'slice> CrnUnpacker<'slice> {
             return Err("Level offset mismatch.");
         }
         self.unpack_level_2(
-            &self.p_data[cur_level_ofs as usize..],
+            self.segment(cur_level_ofs),
             next_level_ofs - cur_level_ofs,
             dst_size_in_bytes,
             row_pitch_in_bytes,
@@ -571,10 +578,16 @@ impl<'slice> CrnUnpacker<'slice> {
         } else if row_pitch_in_bytes < minimal_row_pitch || (row_pitch_in_bytes & 3) != 0 {
             return Err("Crunch Row size is below the minimum allowed.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * self.p_header.faces.cast_to_uint() as usize];
-        if dst_size_in_bytes < (row_pitch_in_bytes * blocks_y) {
+        if (dst_size_in_bytes as u64) < (row_pitch_in_bytes as u64) * (blocks_y as u64) {
             return Err("Destination buffer size is smaller than what expected to decompress.");
         }
+        let num_faces: u32 = self.p_header.faces.cast_to_uint();
+        // Every block takes at least one bit, so a level cannot hold more blocks than bits.
+        if (blocks_x as u64) * (blocks_y as u64) * (num_faces as u64) > (src_size_in_bytes as u64) * 8
+        {
+            return Err("Level is too small for the size of the texture.");
+        }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces as usize];
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
-- 
2.43.0


From 89ffdd0fc4bfe780ea45821745e90d8a2bf6b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:51 +0000
Subject: [PATCH 18/24] fix: crunch symbols that lie outside their palette are
 rejected

---
 src/crunch/crn_static_huffman_data_model.rs |  5 +++++
 src/crunch/crn_unpacker.rs                  | 18 +++++++++++++-----
 src/unitycrunch/crn_unpacker.rs             | 20 +++++++++++++++++---
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/crunch/crn_static_huffman_data_model.rs b/src/crunch/crn_static_huffman_data_model.rs
index eb7f05d..131a0c0 100644
--- a/src/crunch/crn_static_huffman_data_model.rs
+++ b/src/crunch/crn_static_huffman_data_model.rs
@@ -242,6 +242,11 @@ impl StaticHuffmanDataModel {
     //     return true;
     // }
 
+    // Whether every symbol the model can decode to is below `n`.
+    pub fn fits(&self, n: u32) -> bool {
+        self.code_sizes.iter().skip(n as usize).all(|&c| c == 0)
+    }
+
     pub fn compute_decoder_table_bits(&mut self) -> u32 {
         let mut decoder_table_bits: u32 = 0;
         if self.total_syms > 16 {
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index ec7dc17..4e9485e 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -59,7 +59,15 @@ impl<'slice> CrnUnpacker<'slice> {
         if !self.decode_palettes() {
             return false;
         }
-        true
+        self.check_palette_models()
+    }
+    // Indices decoded with these models must stay inside the palettes.
+    fn check_palette_models(&self) -> bool {
+        let header = &self.p_header;
+        self.endpoint_delta_dm[0].fits(header.color_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[0].fits(header.color_selectors.num.cast_to_uint())
+            && self.endpoint_delta_dm[1].fits(header.alpha_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[1].fits(header.alpha_selectors.num.cast_to_uint())
     }
     // The data from `ofs` on, empty when `ofs` is out of bounds.
     fn segment(&self, ofs: u32) -> &'slice [u8] {
@@ -203,8 +211,8 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let mut dm: StaticHuffmanDataModel = StaticHuffmanDataModel::default();
         res = self.codec.decode_receive_static_data_model(&mut dm);
-        if !res {
-            return res;
+        if !res || !dm.fits((MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS) as u32) {
+            return false;
         }
         let mut delta0 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut delta1 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
@@ -322,8 +330,8 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let mut dm = StaticHuffmanDataModel::default();
         res = self.codec.decode_receive_static_data_model(&mut dm);
-        if !res {
-            return res;
+        if !res || !dm.fits((MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS) as u32) {
+            return false;
         }
         let mut delta0 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
         let mut delta1 = [0; (MAX_UNIQUE_SELECTOR_DELTAS * MAX_UNIQUE_SELECTOR_DELTAS)];
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index aa053a3..837522a 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -66,7 +66,15 @@ impl<'slice> CrnUnpacker<'slice> {
         if !self.decode_palettes() {
             return false;
         }
-        true
+        self.check_palette_models()
+    }
+    // Indices decoded with these models must stay inside the palettes.
+    fn check_palette_models(&self) -> bool {
+        let header = &self.p_header;
+        self.endpoint_delta_dm[0].fits(header.color_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[0].fits(header.color_selectors.num.cast_to_uint())
+            && self.endpoint_delta_dm[1].fits(header.alpha_endpoints.num.cast_to_uint())
+            && self.selector_delta_dm[1].fits(header.alpha_selectors.num.cast_to_uint())
     }
     // The data from `ofs` on, empty when `ofs` is out of bounds.
     fn segment(&self, ofs: u32) -> &'slice [u8] {
@@ -193,10 +201,10 @@ impl<'slice> CrnUnpacker<'slice> {
         for _ in 0..num_color_endpoints {
             if has_etc_color_blocks {
                 for b in [0, 8, 16, 24] {
-                    a += match self.codec.decode(&dm[0]) {
+                    a = a.wrapping_add(match self.codec.decode(&dm[0]) {
                         Ok(s) => s,
                         Err(_) => return false,
-                    } << b;
+                    } << b);
                 }
                 a &= 0x1F1F1F1F;
                 if has_subblocks {
@@ -1025,6 +1033,9 @@ impl<'slice> CrnUnpacker<'slice> {
         output_height: u32,
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Failed to decode ETC1 Texture.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
@@ -1141,6 +1152,9 @@ impl<'slice> CrnUnpacker<'slice> {
     ) -> Result<bool, &'static str> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
+        if num_color_endpoints == 0 {
+            return Err("Failed to decode ETC2 Texture.");
+        }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
         let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
-- 
2.43.0


From 0e0f116880582e181e3e129a825c31272f740eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 19/24] fix: crunch faces and rows start at their own offset

---
 src/crunch/crn_unpacker.rs      | 16 +++++------
 src/unitycrunch/crn_unpacker.rs | 48 ++++++++++++++++-----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 4e9485e..11cbfcb 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -540,8 +540,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let row_pitch_in_dwords = row_pitch_in_bytes >> 2;
         let c_bytes_per_block: i32 = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -709,8 +709,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -867,8 +867,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha0_selector_index: u32 = 0;
         let num_faces = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block = 8;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
@@ -987,8 +987,8 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut prev_alpha1_selector_index: u32 = 0;
         let num_faces: u32 = self.p_header.faces.cast_to_uint();
         let c_bytes_per_block: i32 = 16;
-        let mut row_dst = 0;
-        for _f in 0..num_faces as usize {
+        for f in 0..num_faces as usize {
+            let mut row_dst = f * row_pitch_in_bytes as usize * blocks_y as usize;
             for y in 0..chunks_y {
                 let mut block_dst = row_dst;
                 let iter: alloc::boxed::Box<dyn Iterator<Item = i32>>;
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 837522a..03c195b 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -660,16 +660,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_color_endpoints: u32 = self.color_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut color_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos =
+                    (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -722,7 +723,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -738,7 +738,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -746,9 +746,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos =
+                    (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -830,7 +831,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -845,16 +845,17 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
         }
         let mut alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos =
+                    (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -910,7 +911,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -925,7 +925,7 @@ impl<'slice> CrnUnpacker<'slice> {
         let num_alpha_endpoints: u32 = self.alpha_endpoints.len() as u32;
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < width as usize {
             self.block_buffer
                 .resize(width as usize, BlockBufferElement::default());
@@ -933,9 +933,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut alpha0_endpoint_index: usize = 0;
         let mut alpha1_endpoint_index: usize = 0;
         let mut reference_group: u8 = 0;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos =
+                    (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1020,7 +1021,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1038,7 +1038,7 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 1)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1046,9 +1046,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut color_endpoint_index: usize = 0;
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos =
+                    (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1138,7 +1139,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 2;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
@@ -1157,7 +1157,7 @@ impl<'slice> CrnUnpacker<'slice> {
         }
         let width: u32 = (output_width + 1) & !1;
         let height: u32 = (output_height + 1) & !1;
-        let delta_pitch_in_dwords: i32 = ((output_pitch_in_bytes >> 2) - (width << 2)) as i32;
+        let pitch_in_dwords = (output_pitch_in_bytes >> 2) as usize;
         if self.block_buffer.len() < (width << 1) as usize {
             self.block_buffer
                 .resize((width << 1) as usize, BlockBufferElement::default());
@@ -1167,9 +1167,10 @@ impl<'slice> CrnUnpacker<'slice> {
         let mut diagonal_color_endpoint_index: usize = 0;
         let mut diagonal_alpha0_endpoint_index: usize = 0;
         let mut reference_group: u8;
-        let mut data_pos: usize = 0;
-        for _f in 0..self.p_header.faces.cast_to_uint() as usize {
+        for f in 0..self.p_header.faces.cast_to_uint() as usize {
             for y in 0..height {
+                let mut data_pos =
+                    (f * output_height as usize + y as usize) * pitch_in_dwords;
                 let mut visible = y < output_height;
                 for x in 0..width as usize {
                     visible = visible && x < output_width as usize;
@@ -1297,7 +1298,6 @@ impl<'slice> CrnUnpacker<'slice> {
                     }
                     data_pos += 4;
                 }
-                data_pos += delta_pitch_in_dwords as usize;
             }
         }
         Ok(true)
-- 
2.43.0


From 5ebc887c87545dd6348fb16c18f66e59153d876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 20/24] fix: ASTC HDR void extent of negative infinity is black

---
 src/astc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/astc.rs b/src/astc.rs
index 207c89f..3ace963 100644
--- a/src/astc.rs
+++ b/src/astc.rs
@@ -8,7 +8,8 @@ use core::result::Result;
 fn floor(x: f32) -> f32 {
     let mut i = x as i32;
     if x < 0.0 && x != i as f32 {
-        i -= 1;
+        // saturates: -inf is as small as it gets
+        i = i.saturating_sub(1);
     }
     i as f32
 }
-- 
2.43.0


From 8f078d42fb9a8fbdeaba29ef3f63827a2cf7d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:09 +0000
Subject: [PATCH 21/24] fix: ETC2 alpha goes to the wrong byte on big-endian
 targets

---
 src/color.rs | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index e107ac0..f2dca98 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -1,26 +1,8 @@
 #![allow(clippy::too_many_arguments)]
 
-pub static TRANSPARENT_MASK: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        0x00ffffff
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0xffffff00
-    }
-};
+pub static TRANSPARENT_MASK: u32 = 0x00ffffff;
 
-pub static TRANSPARENT_SHIFT: u32 = {
-    #[cfg(target_endian = "little")]
-    {
-        24
-    }
-    #[cfg(target_endian = "big")]
-    {
-        0
-    }
-};
+pub static TRANSPARENT_SHIFT: u32 = 24;
 
 #[inline]
 pub const fn color(r: u8, g: u8, b: u8, a: u8) -> u32 {
-- 
2.43.0


From a358988b3940057f2de6b4198228ec9ab5f1d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:26 +0000
Subject: [PATCH 22/24] fix: Crunch decoding does not compile on big-endian
 targets

---
 src/crunch/crn_consts.rs   |  10 --
 src/crunch/crn_unpacker.rs | 260 +++++++++++--------------------------
 src/macros.rs              |   3 -
 3 files changed, 77 insertions(+), 196 deletions(-)

diff --git a/src/crunch/crn_consts.rs b/src/crunch/crn_consts.rs
index f16fc2f..1830953 100644
--- a/src/crunch/crn_consts.rs
+++ b/src/crunch/crn_consts.rs
@@ -68,16 +68,6 @@ pub const MOST_PROBABLE_CODELENGTH_CODES: [u8; 21] = [
 
 // pub const cNumMostProbableCodelengthCodes: usize = 21;
 
-#[cfg(target_endian = "little")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = true;
-// #[cfg(target_endian = "little")]
-// pub const c_crnd_big_endian_platform: bool = false;
-
-#[cfg(target_endian = "big")]
-pub const CRND_LITTLE_ENDIAN_PLATFORM: bool = false;
-// #[cfg(target_endian = "big")]
-// pub const c_crnd_big_endian_platform: bool = true;
-
 // pub const cDXTBlockShift: usize = 2;
 // pub const cDXTBlockSize: usize = 1 << cDXTBlockShift;
 // pub const cDXT1BytesPerBlock: usize = 8;
diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index 11cbfcb..f68ad1c 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -186,13 +186,8 @@ impl<'slice> CrnUnpacker<'slice> {
             e = (e + de) & 63;
             CRND_HUFF_DECODE!(self.codec, &dm[0], df);
             f = (f + df) & 31;
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = f | (e << 5) | (d << 11) | (c << 16) | (b << 21) | (a << 27);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = c | (b << 5) | (a << 11) | (f << 16) | (e << 21) | (d << 27);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -240,43 +235,23 @@ impl<'slice> CrnUnpacker<'slice> {
                 cur[j * 2] = ((delta0[sym as usize] + cur[j * 2] as i32) & 3) as u32;
                 cur[j * 2 + 1] = ((delta1[sym as usize] + cur[j * 2 + 1] as i32) & 3) as u32;
             }
-            if CRND_LITTLE_ENDIAN_PLATFORM {
-                p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[8] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            } else {
-                p_dst[0] = (p_from_linear[cur[8] as usize] as u32)
-                    | ((p_from_linear[cur[9] as usize] as u32) << 2)
-                    | ((p_from_linear[cur[10] as usize] as u32) << 4)
-                    | ((p_from_linear[cur[11] as usize] as u32) << 6)
-                    | ((p_from_linear[cur[12] as usize] as u32) << 8)
-                    | ((p_from_linear[cur[13] as usize] as u32) << 10)
-                    | ((p_from_linear[cur[14] as usize] as u32) << 12)
-                    | ((p_from_linear[cur[15] as usize] as u32) << 14)
-                    | ((p_from_linear[cur[0] as usize] as u32) << 16)
-                    | ((p_from_linear[cur[1] as usize] as u32) << 18)
-                    | ((p_from_linear[cur[2] as usize] as u32) << 20)
-                    | ((p_from_linear[cur[3] as usize] as u32) << 22)
-                    | ((p_from_linear[cur[4] as usize] as u32) << 24)
-                    | ((p_from_linear[cur[5] as usize] as u32) << 26)
-                    | ((p_from_linear[cur[6] as usize] as u32) << 28)
-                    | ((p_from_linear[cur[7] as usize] as u32) << 30);
-                p_dst = &mut p_dst[1..];
-            }
+            p_dst[0] = (p_from_linear[cur[0] as usize] as u32)
+                | ((p_from_linear[cur[1] as usize] as u32) << 2)
+                | ((p_from_linear[cur[2] as usize] as u32) << 4)
+                | ((p_from_linear[cur[3] as usize] as u32) << 6)
+                | ((p_from_linear[cur[4] as usize] as u32) << 8)
+                | ((p_from_linear[cur[5] as usize] as u32) << 10)
+                | ((p_from_linear[cur[6] as usize] as u32) << 12)
+                | ((p_from_linear[cur[7] as usize] as u32) << 14)
+                | ((p_from_linear[cur[8] as usize] as u32) << 16)
+                | ((p_from_linear[cur[9] as usize] as u32) << 18)
+                | ((p_from_linear[cur[10] as usize] as u32) << 20)
+                | ((p_from_linear[cur[11] as usize] as u32) << 22)
+                | ((p_from_linear[cur[12] as usize] as u32) << 24)
+                | ((p_from_linear[cur[13] as usize] as u32) << 26)
+                | ((p_from_linear[cur[14] as usize] as u32) << 28)
+                | ((p_from_linear[cur[15] as usize] as u32) << 30);
+            p_dst = &mut p_dst[1..];
         }
         self.codec.stop_decoding();
         true
@@ -783,58 +758,28 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha_selectors = &self.alpha_selectors
                                     [(prev_alpha_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha_endpoints[tile_index as usize] << 16)
-                                            | pAlpha_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha_selectors[1] as u32) << 16)
-                                            | (pAlpha_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (self.m_color_selectors
-                                            [prev_color_selector_index as usize])
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha_endpoints[tile_index as usize]
-                                            | ((p_alpha_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha_selectors[1] as u32)
-                                            | ((p_alpha_selectors[2] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 2,
-                                        (color_endpoints[tile_index as usize])
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 3,
-                                        (self.color_selectors[prev_color_selector_index as usize])
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha_endpoints[tile_index as usize]
+                                        | ((p_alpha_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha_selectors[1] as u32)
+                                        | ((p_alpha_selectors[2] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 2,
+                                    (color_endpoints[tile_index as usize])
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 3,
+                                    (self.color_selectors[prev_color_selector_index as usize])
+                                );
                             }
                             pd_dst += 4;
                         }
@@ -922,37 +867,18 @@ impl<'slice> CrnUnpacker<'slice> {
                                 let tile_index: u32 = p_tile_indices[bx + by * 2] as u32;
                                 let p_alpha0_selectors = &self.alpha_selectors
                                     [(prev_alpha0_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha0_endpoints[tile_index as usize]
-                                            | ((p_alpha0_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha0_selectors[1] as u32)
-                                            | ((p_alpha0_selectors[2] as u32) << 16))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha0_endpoints[tile_index as usize]
+                                        | ((p_alpha0_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha0_selectors[1] as u32)
+                                        | ((p_alpha0_selectors[2] as u32) << 16))
+                                );
                             }
                             pd_dst += 2;
                         }
@@ -1062,62 +988,30 @@ impl<'slice> CrnUnpacker<'slice> {
                                     [(prev_alpha0_selector_index * 3) as usize..];
                                 let p_alpha1_selectors = &self.alpha_selectors
                                     [(prev_alpha1_selector_index * 3) as usize..];
-                                #[cfg(target_endian = "big")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 0,
-                                        ((alpha0_endpoints[tile_index as usize] << 16)
-                                            | pAlpha0_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 1,
-                                        (((pAlpha0_selectors[1] as u32) << 16)
-                                            | (pAlpha0_selectors[2] as u32))
-                                            as u32
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 2,
-                                        ((alpha1_endpoints[tile_index as usize] << 16)
-                                            | pAlpha1_selectors[0] as u32)
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        pDst,
-                                        pd_dst + 3,
-                                        (((pAlpha1_selectors[1] as u32) << 16)
-                                            | (pAlpha1_selectors[2] as u32))
-                                            as u32
-                                    );
-                                }
-                                #[cfg(target_endian = "little")]
-                                {
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst,
-                                        (alpha0_endpoints[tile_index as usize]
-                                            | ((p_alpha0_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 1,
-                                        ((p_alpha0_selectors[1] as u32)
-                                            | ((p_alpha0_selectors[2] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 2,
-                                        (alpha1_endpoints[tile_index as usize]
-                                            | ((p_alpha1_selectors[0] as u32) << 16))
-                                    );
-                                    WRITE_TO_INT_BUFFER!(
-                                        p_dst,
-                                        pd_dst + 3,
-                                        ((p_alpha1_selectors[1] as u32)
-                                            | ((p_alpha1_selectors[2] as u32) << 16))
-                                    );
-                                }
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst,
+                                    (alpha0_endpoints[tile_index as usize]
+                                        | ((p_alpha0_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 1,
+                                    ((p_alpha0_selectors[1] as u32)
+                                        | ((p_alpha0_selectors[2] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 2,
+                                    (alpha1_endpoints[tile_index as usize]
+                                        | ((p_alpha1_selectors[0] as u32) << 16))
+                                );
+                                WRITE_TO_INT_BUFFER!(
+                                    p_dst,
+                                    pd_dst + 3,
+                                    ((p_alpha1_selectors[1] as u32)
+                                        | ((p_alpha1_selectors[2] as u32) << 16))
+                                );
                             }
                             pd_dst += 4;
                         }
diff --git a/src/macros.rs b/src/macros.rs
index d93c0c8..d240363 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -55,10 +55,7 @@ macro_rules! CRND_HUFF_DECODE {
 macro_rules! WRITE_TO_INT_BUFFER {
     ($buf: expr, $index: expr, $val: expr) => {
         let t_index = ($index * 4) as usize;
-        #[cfg(target_endian = "little")]
         let tiles = $val.to_le_bytes();
-        #[cfg(target_endian = "big")]
-        let tiles = $val.to_be_bytes();
         $buf[t_index] = tiles[0];
         $buf[t_index + 1] = tiles[1];
         $buf[t_index + 2] = tiles[2];
-- 
2.43.0


From b767c41847670a33c53fa4479220171b075527f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:17 +0000
Subject: [PATCH 23/24] fix: BC3 alpha and ETC2/EAC texel codes are cut off on
 32-bit targets

The 48 bits of texel codes were kept in a usize, so on a target whose usize is
32 bits wide the upper texels all read code 0. Keep them in a u64.
---
 src/bcn/bc3.rs  | 4 ++--
 src/etc/eac.rs  | 8 ++++----
 src/etc/etc2.rs | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bcn/bc3.rs b/src/bcn/bc3.rs
index cb4e381..8ca67d0 100644
--- a/src/bcn/bc3.rs
+++ b/src/bcn/bc3.rs
@@ -20,12 +20,12 @@ pub fn decode_bc3_alpha(data: &[u8], outbuf: &mut [u32], channel: usize) {
         a[7] = 255;
     }
 
-    let mut d: usize = (u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16) as usize;
+    let mut d: u64 = u64::from_le_bytes(data[..8].try_into().unwrap()) >> 16;
 
     let channel_shift = channel * 8;
     let channel_mask = 0xFFFFFFFF ^ (0xFF << channel_shift);
     outbuf[0..16].iter_mut().for_each(|p| {
-        *p = (*p & channel_mask) | (a[d & 7] as u32) << channel_shift;
+        *p = (*p & channel_mask) | (a[(d & 7) as usize] as u32) << channel_shift;
         d >>= 3;
     });
 }
diff --git a/src/etc/eac.rs b/src/etc/eac.rs
index b10a5f7..f6a9d35 100644
--- a/src/etc/eac.rs
+++ b/src/etc/eac.rs
@@ -8,10 +8,10 @@ pub fn decode_eac_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = data[0] as i32 * 8 + multiplier * table[l & 7] as i32 + 4;
+        let val: i32 = data[0] as i32 * 8 + multiplier * table[(l & 7) as usize] as i32 + 4;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
@@ -32,10 +32,10 @@ pub fn decode_eac_signed_block(data: &[u8], color: usize, outbuf: &mut [u32]) {
         multiplier = 1;
     }
     let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-    let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+    let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
     let mut block: [u8; 4] = [0, 0, 0, 0];
     for i in 0..16 {
-        let val: i32 = base * 8 + multiplier * table[l & 7] as i32 + 1023;
+        let val: i32 = base * 8 + multiplier * table[(l & 7) as usize] as i32 + 1023;
         block[color] = if val < 0 {
             0
         } else if val >= 2048 {
diff --git a/src/etc/etc2.rs b/src/etc/etc2.rs
index f8c15ec..ae278cf 100644
--- a/src/etc/etc2.rs
+++ b/src/etc/etc2.rs
@@ -314,9 +314,9 @@ pub fn decode_etc2_a8_block(data: &[u8], outbuf: &mut [u32]) {
         // multiplier != 0
         let multiplier: i32 = (data[1] >> 4) as i32;
         let table = ETC2_ALPHA_MOD_TABLE[(data[1] & 0xf) as usize];
-        let mut l: usize = u64::from_be_bytes(data[0..8].try_into().unwrap()) as usize;
+        let mut l: u64 = u64::from_be_bytes(data[0..8].try_into().unwrap());
         for i in 0..16 {
-            let alpha = (clamp((data[0] as i32) + multiplier * (table[l & 7] as i32)) as u32)
+            let alpha = (clamp((data[0] as i32) + multiplier * (table[(l & 7) as usize] as i32)) as u32)
                 << TRANSPARENT_SHIFT;
             let x: &mut u32 = &mut outbuf[WRITE_ORDER_TABLE_REV[i]];
             *x = (*x & TRANSPARENT_MASK) | alpha;
-- 
2.43.0


From 3e6848b10c4291ad67a23b61deaab71e574d8a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 24/24] fix: a Crunch level's claimed size is checked before
 its image is allocated

---
 src/crunch/crn_unpacker.rs      | 2 +-
 src/unitycrunch/crn_unpacker.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crunch/crn_unpacker.rs b/src/crunch/crn_unpacker.rs
index f68ad1c..855da54 100644
--- a/src/crunch/crn_unpacker.rs
+++ b/src/crunch/crn_unpacker.rs
@@ -430,13 +430,13 @@ impl<'slice> CrnUnpacker<'slice> {
         {
             return Err("Level is too small for the size of the texture.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces as usize];
         let chunks_x: u32 = (blocks_x + 1) >> 1;
         let chunks_y: u32 = (blocks_y + 1) >> 1;
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
         }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces as usize];
         let format = match self.p_header.format.cast_to_uint() {
             0 => CrnFormat::Dxt1,
             1 => CrnFormat::Dxt3,
diff --git a/src/unitycrunch/crn_unpacker.rs b/src/unitycrunch/crn_unpacker.rs
index 03c195b..80c59f5 100644
--- a/src/unitycrunch/crn_unpacker.rs
+++ b/src/unitycrunch/crn_unpacker.rs
@@ -595,11 +595,11 @@ impl<'slice> CrnUnpacker<'slice> {
         {
             return Err("Level is too small for the size of the texture.");
         }
-        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces as usize];
         let res: bool = self.codec.start_decoding(p_src, src_size_in_bytes);
         if !res {
             return Err("Failed to initialize the decoding process.");
         }
+        let mut ret = alloc::vec![0_u8; dst_size_in_bytes as usize * num_faces as usize];
         let format = match self.p_header.format.cast_to_uint() {
             0 => CrnFormat::Dxt1,
             1 => CrnFormat::Dxt3,
-- 
2.43.0

