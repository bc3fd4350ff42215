From 75a5e787b5d5f2e88947408407f094f04eb27d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 01/47] fix: GenericImageView::pixels yields nothing for a
 zero-width image instead of panicking

---
 src/image.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/image.rs b/src/image.rs
index a38fee9..a0cd197 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -851,6 +851,9 @@ impl<I: GenericImageView> Iterator for Pixels<'_, I> {
 
     fn next(&mut self) -> Option<(u32, u32, I::Pixel)> {
         if self.x >= self.width {
+            if self.width == 0 {
+                return None;
+            }
             self.x = 0;
             self.y += 1;
         }
-- 
2.43.0


From c25def8abd66359e34af45c800d1e759da837ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 02/47] fix: get_pixel_checked and get_pixel_mut_checked return
 None below the image when the container is longer

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 8ad6930..3346afa 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -780,7 +780,7 @@ where
     /// Gets a reference to the pixel at location `(x, y)` or returns `None` if
     /// the index is out of the bounds `(width, height)`.
     pub fn get_pixel_checked(&self, x: u32, y: u32) -> Option<&P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
@@ -958,7 +958,7 @@ where
     /// Gets a reference to the mutable pixel at location `(x, y)` or returns
     /// `None` if the index is out of the bounds `(width, height)`.
     pub fn get_pixel_mut_checked(&mut self, x: u32, y: u32) -> Option<&mut P> {
-        if x >= self.width {
+        if x >= self.width || y >= self.height {
             return None;
         }
         let num_channels = <P as Pixel>::CHANNEL_COUNT as usize;
-- 
2.43.0


From d2d5171b9e756e9f1a87a1fdb18293d2b8da0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 03/47] fix: copy_from returns an error instead of overflowing
 for large offsets

---
 src/image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index a0cd197..65c423d 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1032,7 +1032,9 @@ pub trait GenericImage: GenericImageView {
     {
         // Do bounds checking here so we can use the non-bounds-checking
         // functions to copy pixels.
-        if self.width() < other.width() + x || self.height() < other.height() + y {
+        if u64::from(self.width()) < u64::from(other.width()) + u64::from(x)
+            || u64::from(self.height()) < u64::from(other.height()) + u64::from(y)
+        {
             return Err(ImageError::Parameter(ParameterError::from_kind(
                 ParameterErrorKind::DimensionMismatch,
             )));
-- 
2.43.0


From 74426a7038b13b5c3c9b73ebffcc78beaf424bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 04/47] fix: ImageBuffer::copy_within with an empty source
 rectangle does not underflow

---
 src/buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 3346afa..9734448 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1230,6 +1230,9 @@ where
         if self.width() - dx.max(sx) < width || self.height() - dy.max(sy) < height {
             return false;
         }
+        if width == 0 {
+            return true;
+        }
 
         if sy < dy {
             for y in (0..height).rev() {
-- 
2.43.0


From cef48a56378c47db24b7f618bdaec7e290a806ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 05/47] hook: cfg(image_verif) module exposing private helpers
 to the checks

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b691d10..11934c8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -316,6 +316,22 @@ pub mod io {
 mod traits;
 mod utils;
 
+/// Access to internals for the verification harnesses.
+#[cfg(image_verif)]
+#[doc(hidden)]
+pub mod verif {
+    /// The size computation behind `DynamicImage::resize` and friends.
+    #[must_use]
+    pub fn resize_dimensions(w: u32, h: u32, nw: u32, nh: u32, fill: bool) -> (u32, u32) {
+        crate::math::resize_dimensions(w, h, nw, nh, fill)
+    }
+    /// The EXIF parser used by the decoders.
+    #[must_use]
+    pub fn orientation_from_exif_chunk(chunk: &[u8]) -> Option<crate::metadata::Orientation> {
+        crate::metadata::Orientation::from_exif_chunk(chunk)
+    }
+}
+
 // Can't use the macro-call itself within the `doc` attribute. So force it to eval it as part of
 // the macro invocation.
 //
-- 
2.43.0


From 1b67fe9bfc02f6e4f1dd60e9b805dc964d87584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 06/47] fix: Delay::from_saturating_duration saturates instead
 of overflowing when rounding up at the maximum

---
 src/animation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/animation.rs b/src/animation.rs
index f6dac64..6565afc 100644
--- a/src/animation.rs
+++ b/src/animation.rs
@@ -181,7 +181,8 @@ impl Delay {
         let millis = millis as u32;
 
         let (a, b) = Self::closest_bounded_fraction(max_b, submillis, 1_000_000);
-        Self::from_numer_denom_ms(a + b * millis, b)
+        // Rounding the largest representable delay up must saturate.
+        Self::from_numer_denom_ms((b * millis).saturating_add(a), b)
     }
 
     /// The numerator and denominator of the delay in milliseconds.
-- 
2.43.0


From 698bc113611ea83b94d1547152f77851d3eb3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 07/47] fix: has_aliased_samples reports dimensions without a
 stride as aliased

---
 src/flat.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/flat.rs b/src/flat.rs
index 24dcd5e..f62c830 100644
--- a/src/flat.rs
+++ b/src/flat.rs
@@ -312,6 +312,12 @@ impl SampleLayout {
         let grouped = self.increasing_stride_dims();
         let (min_dim, mid_dim, max_dim) = (grouped[0], grouped[1], grouped[2]);
 
+        // Without a stride, all elements of a dimension are the same sample.
+        let is_empty = grouped.iter().any(|dim| dim.extent() == 0);
+        if !is_empty && grouped.iter().any(|dim| dim.stride() == 0 && dim.extent() > 1) {
+            return true;
+        }
+
         let min_size = match min_dim.checked_len() {
             None => return true,
             Some(size) => size,
@@ -462,6 +468,11 @@ impl Dim {
         self.0
     }
 
+    /// The number of elements in this dimension.
+    fn extent(self) -> usize {
+        self.1
+    }
+
     /// Length of this dimension in memory.
     fn checked_len(self) -> Option<usize> {
         self.0.checked_mul(self.1)
-- 
2.43.0


From d94ba764fdef64a6f1934277d0389b11207605c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 08/47] fix: brighten does not overflow for values near the
 limits of i32

---
 src/imageops/colorops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 7289c09..26b98a8 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -168,7 +168,7 @@ where
         let e = pixel.map_with_alpha(
             |b| {
                 let c: i32 = NumCast::from(b).unwrap();
-                let d = clamp(c + value, 0, max);
+                let d = clamp(c.saturating_add(value), 0, max);
 
                 NumCast::from(d).unwrap()
             },
@@ -200,7 +200,7 @@ where
             let e = image.get_pixel(x, y).map_with_alpha(
                 |b| {
                     let c: i32 = NumCast::from(b).unwrap();
-                    let d = clamp(c + value, 0, max);
+                    let d = clamp(c.saturating_add(value), 0, max);
 
                     NumCast::from(d).unwrap()
                 },
-- 
2.43.0


From 08d28108bed2d55afde5b7b47d8c981128e52bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 09/47] fix: huerotate keeps alpha and uses the sample type's
 own maximum

---
 src/imageops/colorops.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index 26b98a8..f95c880 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -227,6 +227,7 @@ where
     let (width, height) = image.dimensions();
     let mut out = ImageBuffer::new(width, height);
 
+    let max: f64 = NumCast::from(S::DEFAULT_MAX_VALUE).unwrap();
     let angle: f64 = NumCast::from(value).unwrap();
 
     let cosv = angle.to_radians().cos();
@@ -250,11 +251,10 @@ where
 
         #[allow(deprecated)]
         let (k1, k2, k3, k4) = p.channels4();
-        let vec: (f64, f64, f64, f64) = (
+        let vec: (f64, f64, f64) = (
             NumCast::from(k1).unwrap(),
             NumCast::from(k2).unwrap(),
             NumCast::from(k3).unwrap(),
-            NumCast::from(k4).unwrap(),
         );
 
         let r = vec.0;
@@ -264,14 +264,13 @@ where
         let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
         let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
         let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-        let max = 255f64;
 
         #[allow(deprecated)]
         let outpixel = Pixel::from_channels(
             NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
             NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
             NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
-            NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+            k4,
         );
         *pixel = outpixel;
     }
@@ -291,6 +290,7 @@ where
 {
     let (width, height) = image.dimensions();
 
+    let max: f64 = NumCast::from(<I::Pixel as Pixel>::Subpixel::DEFAULT_MAX_VALUE).unwrap();
     let angle: f64 = NumCast::from(value).unwrap();
 
     let cosv = angle.to_radians().cos();
@@ -318,11 +318,10 @@ where
             #[allow(deprecated)]
             let (k1, k2, k3, k4) = pixel.channels4();
 
-            let vec: (f64, f64, f64, f64) = (
+            let vec: (f64, f64, f64) = (
                 NumCast::from(k1).unwrap(),
                 NumCast::from(k2).unwrap(),
                 NumCast::from(k3).unwrap(),
-                NumCast::from(k4).unwrap(),
             );
 
             let r = vec.0;
@@ -332,14 +331,13 @@ where
             let new_r = matrix[0] * r + matrix[1] * g + matrix[2] * b;
             let new_g = matrix[3] * r + matrix[4] * g + matrix[5] * b;
             let new_b = matrix[6] * r + matrix[7] * g + matrix[8] * b;
-            let max = 255f64;
 
             #[allow(deprecated)]
             let outpixel = Pixel::from_channels(
                 NumCast::from(clamp(new_r, 0.0, max)).unwrap(),
                 NumCast::from(clamp(new_g, 0.0, max)).unwrap(),
                 NumCast::from(clamp(new_b, 0.0, max)).unwrap(),
-                NumCast::from(clamp(vec.3, 0.0, max)).unwrap(),
+                k4,
             );
 
             image.put_pixel(x, y, outpixel);
-- 
2.43.0


From d20d8d42e48e7438bf53b5a9bd4cbb70dc8b08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 10/47] fix: dither handles images that are empty or a single
 pixel wide or high

---
 src/imageops/colorops.rs | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/imageops/colorops.rs b/src/imageops/colorops.rs
index f95c880..8354bd8 100644
--- a/src/imageops/colorops.rs
+++ b/src/imageops/colorops.rs
@@ -494,34 +494,23 @@ where
 {
     let (width, height) = image.dimensions();
     let mut err: [i16; 3] = [0; 3];
-    for y in 0..height - 1 {
-        let x = 0;
-        do_dithering!(color_map, image, err, x, y);
-        diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
-        diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
-        diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
-        for x in 1..width - 1 {
+    for y in 0..height {
+        for x in 0..width {
             do_dithering!(color_map, image, err, x, y);
-            diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
-            diffuse_err(image.get_pixel_mut(x - 1, y + 1), err, 3);
-            diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
-            diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
+            if x + 1 < width {
+                diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
+            }
+            if y + 1 < height {
+                if x > 0 {
+                    diffuse_err(image.get_pixel_mut(x - 1, y + 1), err, 3);
+                }
+                diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
+                if x + 1 < width {
+                    diffuse_err(image.get_pixel_mut(x + 1, y + 1), err, 1);
+                }
+            }
         }
-        let x = width - 1;
-        do_dithering!(color_map, image, err, x, y);
-        diffuse_err(image.get_pixel_mut(x - 1, y + 1), err, 3);
-        diffuse_err(image.get_pixel_mut(x, y + 1), err, 5);
-    }
-    let y = height - 1;
-    let x = 0;
-    do_dithering!(color_map, image, err, x, y);
-    diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
-    for x in 1..width - 1 {
-        do_dithering!(color_map, image, err, x, y);
-        diffuse_err(image.get_pixel_mut(x + 1, y), err, 7);
     }
-    let x = width - 1;
-    do_dithering!(color_map, image, err, x, y);
 }
 
 /// Reduces the colors using the supplied `color_map` and returns an image of the indices
-- 
2.43.0


From cb3c999a650be72d4eff50ab84f5d3b9b970171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 11/47] fix: blending an opaque or transparent LumaA pixel is
 exact

---
 src/color.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/color.rs b/src/color.rs
index a83ca8c..6cde10c 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -752,6 +752,14 @@ pub(crate) trait Blend {
 
 impl<T: Primitive> Blend for LumaA<T> {
     fn blend(&mut self, other: &LumaA<T>) {
+        if other.0[1].is_zero() {
+            return;
+        }
+        if other.0[1] == T::DEFAULT_MAX_VALUE {
+            *self = *other;
+            return;
+        }
+
         let max_t = T::DEFAULT_MAX_VALUE;
         let max_t = max_t.to_f32().unwrap();
         let (bg_luma, bg_a) = (self.0[0], self.0[1]);
-- 
2.43.0


From 3f115c66623f3ee471b5eec477bc7b9eddbf3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 12/47] fix: a TGA run-length packet cut off inside its pixel
 is an error

---
 src/codecs/tga/decoder.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 3ad28e7..9966c79 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -239,10 +239,8 @@ impl<R: Read> TgaDecoder<R> {
             if (run_packet & 0x80) != 0 {
                 // high bit set, so we will repeat the data
                 let repeat_count = ((run_packet & !0x80) + 1) as usize;
-                self.r
-                    .by_ref()
-                    .take(self.bytes_per_pixel as u64)
-                    .read_to_end(&mut repeat_buf)?;
+                repeat_buf.resize(self.bytes_per_pixel, 0);
+                self.r.read_exact(&mut repeat_buf)?;
 
                 // get the repeating pixels from the bytes of the pixel stored in `repeat_buf`
                 let data = repeat_buf
@@ -250,7 +248,6 @@ impl<R: Read> TgaDecoder<R> {
                     .cycle()
                     .take(repeat_count * self.bytes_per_pixel);
                 pixel_data.extend(data);
-                repeat_buf.clear();
             } else {
                 // not set, so `run_packet+1` is the number of non-encoded pixels
                 let num_raw_bytes = (run_packet + 1) as usize * self.bytes_per_pixel;
-- 
2.43.0


From 59bc26ecf64c0090d33805469129c8fc9fcdb57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 13/47] fix: the TGA color map origin is the index of its first
 entry, not a byte offset

---
 src/codecs/tga/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 9966c79..285ae5c 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -10,8 +10,9 @@ use byteorder_lite::ReadBytesExt;
 use std::io::{self, Read};
 
 struct ColorMap {
-    /// sizes in bytes
+    /// index of the first entry
     start_offset: usize,
+    /// size in bytes
     entry_size: usize,
     bytes: Vec<u8>,
 }
@@ -37,7 +38,7 @@ impl ColorMap {
 
     /// Get one entry from the color map
     pub(crate) fn get(&self, index: usize) -> Option<&[u8]> {
-        let entry = self.start_offset + self.entry_size * index;
+        let entry = self.entry_size * index.checked_sub(self.start_offset)?;
         self.bytes.get(entry..entry + self.entry_size)
     }
 }
-- 
2.43.0


From 1f0f7048b333f11039f75bbf85585e116584adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 14/47] fix: multi-byte TGA color map indices are little-endian

---
 src/codecs/tga/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 285ae5c..6db2c21 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -196,7 +196,8 @@ impl<R: Read> TgaDecoder<R> {
         #[inline]
         fn bytes_to_index(bytes: &[u8]) -> usize {
             let mut result = 0usize;
-            for byte in bytes {
+            // stored in little-endian order
+            for byte in bytes.iter().rev() {
                 result = (result << 8) | *byte as usize;
             }
             result
-- 
2.43.0


From 239d2a625c750e3e360be24a12937a222e855eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 15/47] fix: a TGA color map does not change the pixel format
 of images that do not use it

---
 src/codecs/tga/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/tga/decoder.rs b/src/codecs/tga/decoder.rs
index 6db2c21..7ae2214 100644
--- a/src/codecs/tga/decoder.rs
+++ b/src/codecs/tga/decoder.rs
@@ -122,7 +122,7 @@ impl<R: Read> TgaDecoder<R> {
 
         let num_alpha_bits = self.header.image_desc & ALPHA_BIT_MASK;
 
-        let other_channel_bits = if self.header.map_type != 0 {
+        let other_channel_bits = if self.image_type.is_color_mapped() {
             self.header.map_entry_size
         } else {
             if num_alpha_bits > self.header.pixel_depth {
-- 
2.43.0


From 997492e1b4e8b6f2c4299322cd0db5ac43f8e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 16/47] fix: the PNM encoder refuses samples above the chosen
 maximum instead of those below

---
 src/codecs/pnm/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 4b6cc18..421717c 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -448,7 +448,8 @@ impl<'a> CheckedDimensions<'a> {
 impl<'a> CheckedHeaderColor<'a> {
     fn check_sample_values(self, image: FlatSamples<'a>) -> ImageResult<CheckedHeader<'a>> {
         let header_maxval = match self.dimensions.unchecked.header.decoded {
-            HeaderRecord::Bitmap(_) => 1,
+            // Zero is black and every other value is white.
+            HeaderRecord::Bitmap(_) => u32::MAX,
             HeaderRecord::Graymap(GraymapHeader { maxwhite, .. }) => maxwhite,
             HeaderRecord::Pixmap(PixmapHeader { maxval, .. }) => maxval,
             HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => maxval,
@@ -577,8 +578,8 @@ impl<'a> FlatSamples<'a> {
 
     fn all_smaller(&self, max_val: u32) -> bool {
         match *self {
-            FlatSamples::U8(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
-            FlatSamples::U16(arr) => arr.iter().any(|&val| u32::from(val) > max_val),
+            FlatSamples::U8(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
+            FlatSamples::U16(arr) => arr.iter().all(|&val| u32::from(val) <= max_val),
         }
     }
 
-- 
2.43.0


From 781801283f0bbed825f6252474c604c28a69feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 17/47] fix: ASCII PBM files are written with black as 1 and
 white as 0

---
 src/codecs/pnm/encoder.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 421717c..cf03064 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -70,6 +70,9 @@ enum TupleEncoding<'a> {
         samples: FlatSamples<'a>,
         width: u32,
     },
+    PbmAscii {
+        samples: FlatSamples<'a>,
+    },
     Ascii {
         samples: FlatSamples<'a>,
     },
@@ -597,7 +600,7 @@ impl<'a> FlatSamples<'a> {
             HeaderRecord::Bitmap(BitmapHeader {
                 encoding: SampleEncoding::Ascii,
                 ..
-            }) => TupleEncoding::Ascii { samples: *self },
+            }) => TupleEncoding::PbmAscii { samples: *self },
 
             HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
 
@@ -650,6 +653,18 @@ impl TupleEncoding<'_> {
                 .write_pbm_bits(samples, width)
                 .map_err(ImageError::IoError),
 
+            // Black pixels are encoded as 1s
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U8(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+            TupleEncoding::PbmAscii {
+                samples: FlatSamples::U16(samples),
+            } => SampleWriter(writer)
+                .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
+                .map_err(ImageError::IoError),
+
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
             } => writer.write_all(samples).map_err(ImageError::IoError),
-- 
2.43.0


From adcffc4b3463a2b110b7c76f2e9df80c081eb095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 18/47] fix: encoding a zero-width image as binary PBM does not
 underflow

---
 src/codecs/pnm/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index cf03064..0e97d0b 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -544,6 +544,10 @@ impl SampleWriter<'_> {
     where
         V: Default + Eq + Copy,
     {
+        if width == 0 {
+            return self.0.flush();
+        }
+
         // The length of an encoded scanline
         let line_width = (width - 1) / 8 + 1;
 
-- 
2.43.0


From c7ca36a01f96bbf11645fdbc7a021cfd6113f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 19/47] fix: a truncated ASCII PNM raster is an error instead
 of zero samples

---
 src/codecs/pnm/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 07f042e..a7c3070 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -690,6 +690,7 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
     let is_separator = |v: &u8| matches!(*v, b'\t' | b'\n' | b'\x0b' | b'\x0c' | b'\r' | b' ');
 
     let mut v: u16 = 0;
+    let mut any_digit = false;
     #[allow(clippy::unbuffered_bytes)]
     for rc in reader
         .bytes()
@@ -703,6 +704,10 @@ fn read_separated_ascii<T: TryFrom<u16>>(reader: &mut dyn Read) -> ImageResult<T
         };
         v = v.checked_mul(10).ok_or(DecoderError::Overflow)?;
         v = v.checked_add(digit).ok_or(DecoderError::Overflow)?;
+        any_digit = true;
+    }
+    if !any_digit {
+        return Err(DecoderError::InputTooShort.into());
     }
     Ok(T::try_from(v).or(Err(DecoderError::Overflow))?)
 }
-- 
2.43.0


From 2d580b9c7d3e2e0c86ba0a1bdf09f5d941b2c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 20/47] fix: PAM files without a tuple type use 16-bit samples
 when their maximum needs it

---
 src/codecs/pnm/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index a7c3070..3f58b4c 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -841,14 +841,17 @@ impl DecodableImageHeader for ArbitraryHeader {
     fn tuple_type(&self) -> ImageResult<TupleType> {
         match self.tupltype {
             _ if self.maxval == 0 => Err(DecoderError::MaxvalZero.into()),
-            None if self.depth == 1 => Ok(TupleType::GrayU8),
+            _ if self.maxval > 0xFFFF => Err(DecoderError::MaxvalTooBig(self.maxval).into()),
+            None if self.depth == 1 && self.maxval <= 0xFF => Ok(TupleType::GrayU8),
+            None if self.depth == 1 => Ok(TupleType::GrayU16),
             None if self.depth == 2 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Pnm.into(),
                     UnsupportedErrorKind::Color(ExtendedColorType::La8),
                 ),
             )),
-            None if self.depth == 3 => Ok(TupleType::RGBU8),
+            None if self.depth == 3 && self.maxval <= 0xFF => Ok(TupleType::RGBU8),
+            None if self.depth == 3 => Ok(TupleType::RGBU16),
             None if self.depth == 4 => Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Pnm.into(),
@@ -869,7 +872,7 @@ impl DecodableImageHeader for ArbitraryHeader {
             Some(ArbitraryTuplType::Grayscale) if self.depth == 1 && self.maxval <= 0xFF => {
                 Ok(TupleType::GrayU8)
             }
-            Some(ArbitraryTuplType::Grayscale) if self.depth <= 1 && self.maxval <= 0xFFFF => {
+            Some(ArbitraryTuplType::Grayscale) if self.depth == 1 && self.maxval <= 0xFFFF => {
                 Ok(TupleType::GrayU16)
             }
             Some(ArbitraryTuplType::Grayscale) => Err(DecoderError::InvalidDepthOrMaxval {
-- 
2.43.0


From 432c7a783ba0a43dc4357c7559c0ff65fcca729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:36 +0000
Subject: [PATCH 21/47] fix: the raster size of PNM images of 4 GiB and more
 does not overflow

---
 src/codecs/pnm/decoder.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/decoder.rs b/src/codecs/pnm/decoder.rs
index 3f58b4c..4efa9ad 100644
--- a/src/codecs/pnm/decoder.rs
+++ b/src/codecs/pnm/decoder.rs
@@ -235,7 +235,11 @@ trait Sample {
         size_of::<Self::Representation>() as u32
     }
     fn bytelen(width: u32, height: u32, samples: u32) -> ImageResult<usize> {
-        Ok((width * height * samples * Self::sample_size()) as usize)
+        (width as usize)
+            .checked_mul(height as usize)
+            .and_then(|v| v.checked_mul(samples as usize))
+            .and_then(|v| v.checked_mul(Self::sample_size() as usize))
+            .ok_or_else(|| DecoderError::Overflow.into())
     }
     fn from_bytes(bytes: &[u8], row_size: usize, output_buf: &mut [u8]) -> ImageResult<()>;
     fn from_ascii(reader: &mut dyn Read, output_buf: &mut [u8]) -> ImageResult<()>;
@@ -758,7 +762,9 @@ impl Sample for PbmBit {
     fn bytelen(width: u32, height: u32, samples: u32) -> ImageResult<usize> {
         let count = width * samples;
         let linelen = (count / 8) + u32::from((count % 8) != 0);
-        Ok((linelen * height) as usize)
+        (linelen as usize)
+            .checked_mul(height as usize)
+            .ok_or_else(|| DecoderError::Overflow.into())
     }
 
     fn from_bytes(bytes: &[u8], row_size: usize, output_buf: &mut [u8]) -> ImageResult<()> {
-- 
2.43.0


From 1d885b52974e58f956543bd92aa1241f52f2e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 22/47] fix: HDR scanlines of 32768 pixels are written
 uncompressed, their width does not fit the run-length marker

---
 src/codecs/hdr/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 9358cda..5edcb7b 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -70,7 +70,7 @@ impl<W: Write> HdrEncoder<W> {
         w.write_all(b"FORMAT=32-bit_rle_rgbe\n\n")?;
         w.write_all(format!("-Y {height} +X {width}\n").as_bytes())?;
 
-        if !(8..=32_768).contains(&width) {
+        if !(8..=32_767).contains(&width) {
             for pixel in flattened_rgbe_pixels {
                 write_rgbe8(w, pixel)?;
             }
-- 
2.43.0


From f0ce70e6f4cf17f2c3f7c2d20d4b43325d977e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:48 +0000
Subject: [PATCH 23/47] fix: HDR encoding saturates values outside the RGBE
 exponent range instead of wrapping or overflowing

---
 src/codecs/hdr/encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 5edcb7b..2e1138f 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -282,7 +282,11 @@ pub(crate) fn to_rgbe8(pix: Rgb<f32>) -> Rgbe8Pixel {
         Rgbe8Pixel { c: [0, 0, 0], e: 0 }
     } else {
         // let (frac, exp) = mx.frexp(); // unstable yet
-        let exp = mx.log2().floor() as i32 + 1;
+        // the stored exponent is a non-zero byte: larger values saturate, smaller ones are black
+        let exp = (mx.log2().floor().min(126.0)) as i32 + 1;
+        if exp < -127 {
+            return Rgbe8Pixel { c: [0, 0, 0], e: 0 };
+        }
         let mul = f32::powi(2.0, exp);
         let mut conv = [0u8; 3];
         for (cv, &sv) in conv.iter_mut().zip(pix.iter()) {
-- 
2.43.0


From 0b1d7d4b623903c32182a6c579acc8d0dfbb699c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 24/47] fix: consecutive HDR run-length markers do not overflow
 the run length

---
 src/codecs/hdr/decoder.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 08f8483..7d6d956 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -426,15 +426,17 @@ fn decode_old_rle<R: Read>(r: &mut R, fb: Rgbe8Pixel, buf: &mut [Rgbe8Pixel]) ->
         x_off += {
             if let Some(rl) = rl_marker(pix) {
                 // rl_mult takes care of consecutive RL markers
-                let rl = rl * rl_mult;
-                rl_mult *= 256;
-                if x_off + rl <= width {
+                let rl = rl.saturating_mul(rl_mult);
+                rl_mult = rl_mult.saturating_mul(256);
+                if rl <= width - x_off {
                     // do run
                     for b in &mut buf[x_off..x_off + rl] {
                         *b = prev_pixel;
                     }
                 } else {
-                    return Err(DecoderError::WrongScanlineLength(x_off + rl, width).into());
+                    return Err(
+                        DecoderError::WrongScanlineLength(x_off.saturating_add(rl), width).into(),
+                    );
                 };
                 rl // value to increase x_off by
             } else {
-- 
2.43.0


From 37e0ec637c2c3da478a41a3eee668b9b15e1b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 25/47] fix: HDR scanlines shorter than 8 pixels are never
 per-component run-length coded

---
 src/codecs/hdr/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 7d6d956..2092f0c 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -326,7 +326,8 @@ fn read_scanline<R: Read>(r: &mut R, buf: &mut [Rgbe8Pixel]) -> ImageResult<()>
     let width = buf.len();
     // first 4 bytes in scanline allow to determine compression method
     let fb = read_rgbe(r)?;
-    if fb.c[0] == 2 && fb.c[1] == 2 && fb.c[2] < 128 {
+    // narrower and wider scanlines are never stored that way, there it is an ordinary pixel
+    if (8..=32_767).contains(&width) && fb.c[0] == 2 && fb.c[1] == 2 && fb.c[2] < 128 {
         // denormalized pixel value (2,2,<128,_) indicates new per component RLE method
         // decode_component guarantees that offset is within 0 .. width
         // therefore we can skip bounds checking here, but we will not
-- 
2.43.0


From 66899f19d73719ce25473577b171ba788c0148a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:01 +0000
Subject: [PATCH 26/47] fix: the HDR decoder refuses dimensions whose decoded
 size overflows

---
 src/codecs/hdr/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codecs/hdr/decoder.rs b/src/codecs/hdr/decoder.rs
index 2092f0c..01ec151 100644
--- a/src/codecs/hdr/decoder.rs
+++ b/src/codecs/hdr/decoder.rs
@@ -231,9 +231,12 @@ impl<R: Read> HdrDecoder<R> {
             }
         };
 
-        // color type is always rgb8
-        if crate::utils::check_dimension_overflow(width, height, ColorType::Rgb8.bytes_per_pixel())
-        {
+        // color type is always rgb32f
+        if crate::utils::check_dimension_overflow(
+            width,
+            height,
+            ColorType::Rgb32F.bytes_per_pixel(),
+        ) {
             return Err(ImageError::Unsupported(
                 UnsupportedError::from_format_and_kind(
                     ImageFormat::Hdr.into(),
-- 
2.43.0


From 90adfd43e5b1dbaaa04409eac47d06530cd4756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:15 +0000
Subject: [PATCH 27/47] fix: thumbnail counts every source pixel once even when
 f32 box edges round apart

---
 src/imageops/sample.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index dc79552..0b8c405 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -614,14 +614,14 @@ where
 
     for outy in 0..new_height {
         let bottomf = outy as f32 * y_ratio;
-        let topf = bottomf + y_ratio;
+        let topf = (outy + 1) as f32 * y_ratio;
 
         let bottom = clamp(bottomf.ceil() as u32, 0, height - 1);
         let top = clamp(topf.ceil() as u32, bottom, height);
 
         for outx in 0..new_width {
             let leftf = outx as f32 * x_ratio;
-            let rightf = leftf + x_ratio;
+            let rightf = (outx + 1) as f32 * x_ratio;
 
             let left = clamp(leftf.ceil() as u32, 0, width - 1);
             let right = clamp(rightf.ceil() as u32, left, width);
-- 
2.43.0


From 9e3eb877cea12050dc26e01d0e5533ad4ec7bc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:15 +0000
Subject: [PATCH 28/47] fix: enlarging thumbnails interpolates at the right
 fraction when the right box edge is an integer

---
 src/imageops/sample.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 0b8c405..1b7b54f 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -637,7 +637,7 @@ where
                     "First output column must have corresponding pixels"
                 );
 
-                let fraction_horizontal = (leftf.fract() + rightf.fract()) / 2.;
+                let fraction_horizontal = ((leftf + rightf) / 2.).fract();
                 thumbnail_sample_fraction_horizontal(
                     image,
                     right - 1,
@@ -654,12 +654,12 @@ where
                     "First output row must have corresponding pixels"
                 );
 
-                let fraction_vertical = (topf.fract() + bottomf.fract()) / 2.;
+                let fraction_vertical = ((topf + bottomf) / 2.).fract();
                 thumbnail_sample_fraction_vertical(image, left, right, top - 1, fraction_vertical)
             } else {
                 // bottom == top && left == right
-                let fraction_horizontal = (topf.fract() + bottomf.fract()) / 2.;
-                let fraction_vertical = (leftf.fract() + rightf.fract()) / 2.;
+                let fraction_horizontal = ((topf + bottomf) / 2.).fract();
+                let fraction_vertical = ((leftf + rightf) / 2.).fract();
 
                 thumbnail_sample_fraction_both(
                     image,
-- 
2.43.0


From 3948c8117544265c4300740ea8be0a6c140e256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:15 +0000
Subject: [PATCH 29/47] fix: thumbnail sums of 8 and 16 bit samples do not
 overflow

---
 src/imageops/sample.rs | 3 ++-
 src/traits.rs          | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 1b7b54f..74c2107 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -701,7 +701,8 @@ where
         }
     }
 
-    let n = <S::Larger as NumCast>::from((right - left) * (top - bottom)).unwrap();
+    let n = (right - left) as u64 * (top - bottom) as u64;
+    let n = <S::Larger as NumCast>::from(n).unwrap();
     let round = <S::Larger as NumCast>::from(n / NumCast::from(2).unwrap()).unwrap();
     (
         S::clamp_from((sum.0 + round) / n),
diff --git a/src/traits.rs b/src/traits.rs
index 325926d..2903b44 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -89,10 +89,10 @@ pub trait Enlargeable: Sized + Bounded + NumCast {
 }
 
 impl Enlargeable for u8 {
-    type Larger = u32;
+    type Larger = u64;
 }
 impl Enlargeable for u16 {
-    type Larger = u32;
+    type Larger = u64;
 }
 impl Enlargeable for u32 {
     type Larger = u64;
@@ -105,10 +105,10 @@ impl Enlargeable for usize {
     type Larger = u128;
 }
 impl Enlargeable for i8 {
-    type Larger = i32;
+    type Larger = i64;
 }
 impl Enlargeable for i16 {
-    type Larger = i32;
+    type Larger = i64;
 }
 impl Enlargeable for i32 {
     type Larger = i64;
-- 
2.43.0


From 414c3aa8ba0e7dc39e7e47ddf8ddf8979ee3661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:15 +0000
Subject: [PATCH 30/47] fix: thumbnails of float images are not brightened by
 the integer rounding term

---
 src/imageops/sample.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 74c2107..d401fd0 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -5,7 +5,7 @@
 
 use std::f32;
 
-use num_traits::{NumCast, ToPrimitive, Zero};
+use num_traits::{NumCast, One, ToPrimitive, Zero};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
@@ -703,7 +703,13 @@ where
 
     let n = (right - left) as u64 * (top - bottom) as u64;
     let n = <S::Larger as NumCast>::from(n).unwrap();
-    let round = <S::Larger as NumCast>::from(n / NumCast::from(2).unwrap()).unwrap();
+    let two = <S::Larger as NumCast>::from(2).unwrap();
+    // Only integer division needs the offset to round to nearest.
+    let round = if (<S::Larger as One>::one() / two).is_zero() {
+        n / two
+    } else {
+        <S::Larger as Zero>::zero()
+    };
     (
         S::clamp_from((sum.0 + round) / n),
         S::clamp_from((sum.1 + round) / n),
-- 
2.43.0


From 6a2e3a4e4af5b0bdcde40304a0bd15bc54a1a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 31/47] fix: enlarging thumbnails rounds to nearest so constant
 images stay constant

---
 src/imageops/sample.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index d401fd0..433c492 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -718,6 +718,14 @@ where
     )
 }
 
+/// Convert a weighted mean of samples, rounding to nearest where samples are integers.
+fn thumbnail_sample_from_mix<S: Primitive>(mix: f32) -> S {
+    // hack to see if primitive is an integer or a float
+    let is_float = S::DEFAULT_MAX_VALUE.to_f32().unwrap() == 1.0;
+    <S as NumCast>::from(if is_float { mix } else { mix.round() })
+        .expect("Average sample value should fit into sample type")
+}
+
 /// Get a thumbnail pixel where the input window encloses at least a vertical pixel.
 fn thumbnail_sample_fraction_horizontal<I, P, S>(
     image: &I,
@@ -748,10 +756,9 @@ where
     let fact_left = (1. - fract) / ((top - bottom) as f32);
 
     let mix_left_and_right = |leftv: S::Larger, rightv: S::Larger| {
-        <S as NumCast>::from(
+        thumbnail_sample_from_mix::<S>(
             fact_left * leftv.to_f32().unwrap() + fact_right * rightv.to_f32().unwrap(),
         )
-        .expect("Average sample value should fit into sample type")
     };
 
     (
@@ -792,8 +799,9 @@ where
     let fact_bot = (1. - fract) / ((right - left) as f32);
 
     let mix_bot_and_top = |botv: S::Larger, topv: S::Larger| {
-        <S as NumCast>::from(fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap())
-            .expect("Average sample value should fit into sample type")
+        thumbnail_sample_from_mix::<S>(
+            fact_bot * botv.to_f32().unwrap() + fact_top * topv.to_f32().unwrap(),
+        )
     };
 
     (
@@ -835,13 +843,12 @@ where
     let fact_bl = (1. - frac_v) * (1. - frac_h);
 
     let mix = |br: S, tr: S, bl: S, tl: S| {
-        <S as NumCast>::from(
+        thumbnail_sample_from_mix::<S>(
             fact_br * br.to_f32().unwrap()
                 + fact_tr * tr.to_f32().unwrap()
                 + fact_bl * bl.to_f32().unwrap()
                 + fact_tl * tl.to_f32().unwrap(),
         )
-        .expect("Average sample value should fit into sample type")
     };
 
     (
-- 
2.43.0


From 9b5f119302286c8592414047cdaa2fab7119b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 32/47] fix: blur accepts tiny, huge and NaN sigma without
 panicking

---
 src/imageops/sample.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 433c492..e577218 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -1012,7 +1012,9 @@ pub fn blur<I: GenericImageView>(
 where
     I::Pixel: 'static,
 {
-    let sigma = if sigma <= 0.0 { 1.0 } else { sigma };
+    let sigma = if sigma > 0.0 { sigma } else { 1.0 };
+    // Beyond these, the weights no longer change but cease to be finite.
+    let sigma = clamp(sigma, 1e-2, 1e18);
 
     let mut method = Filter {
         kernel: Box::new(|x| gaussian(x, sigma)),
-- 
2.43.0


From 672ebbea5a42bf74f54e6b3a2ec7f8e6bc8c3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 33/47] fix: filter3x3 accepts images without pixels

---
 src/imageops/sample.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index e577218..2b34bc6 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -894,8 +894,8 @@ where
     };
     let sum = (sum, sum, sum, sum);
 
-    for y in 1..height - 1 {
-        for x in 1..width - 1 {
+    for y in 1..height.saturating_sub(1) {
+        for x in 1..width.saturating_sub(1) {
             let mut t = (0.0, 0.0, 0.0, 0.0);
 
             // TODO: There is no need to recalculate the kernel for each pixel.
-- 
2.43.0


From dd09515d557be021dd08af1af93d307d7c61a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 34/47] fix: interpolate_* and sample_* stay inside images
 wider than 2^24 pixels

---
 src/imageops/sample.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/imageops/sample.rs b/src/imageops/sample.rs
index 2b34bc6..f07b054 100644
--- a/src/imageops/sample.rs
+++ b/src/imageops/sample.rs
@@ -381,7 +381,10 @@ pub fn interpolate_nearest<P: Pixel>(
         return None;
     }
 
-    Some(img.get_pixel(x.round() as u32, y.round() as u32))
+    // Rounding `w - 1` to `f32` may exceed the bounds of large images.
+    let x = (x.round() as u32).min(w - 1);
+    let y = (y.round() as u32).min(h - 1);
+    Some(img.get_pixel(x, y))
 }
 
 /// Linearly sample from an image using coordinates in [0, w-1] and [0, h-1].
@@ -405,10 +408,11 @@ pub fn interpolate_bilinear<P: Pixel>(
     }
 
     // keep these as integers, for fewer FLOPs
-    let uf = x.floor() as u32;
-    let vf = y.floor() as u32;
-    let uc = (uf + 1).min(w - 1);
-    let vc = (vf + 1).min(h - 1);
+    // (rounding `w - 1` to `f32` may exceed the bounds of large images)
+    let uf = (x.floor() as u32).min(w - 1);
+    let vf = (y.floor() as u32).min(h - 1);
+    let uc = uf.saturating_add(1).min(w - 1);
+    let vc = vf.saturating_add(1).min(h - 1);
 
     // clamp coords to the range of the image
     let mut sxx = [[0.; 4]; 4];
@@ -435,10 +439,10 @@ pub fn interpolate_bilinear<P: Pixel>(
     compute(uc, vc, 3);
 
     // weights, the later two are independent from the first 2 for better vectorization.
-    let ufw = x - uf as f32;
-    let vfw = y - vf as f32;
-    let ucw = (uf + 1) as f32 - x;
-    let vcw = (vf + 1) as f32 - y;
+    let ufw = x - x.floor();
+    let vfw = y - y.floor();
+    let ucw = 1.0 - ufw;
+    let vcw = 1.0 - vfw;
 
     // https://en.wikipedia.org/wiki/Bilinear_interpolation#Weighted_mean
     // the distance between pixels is 1 so there is no denominator
-- 
2.43.0


From 6c8b72d5207506afb76192d7a63540691983a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 35/47] fix: BMP without file header reads BITMAPINFOHEADER bit
 masks before the pixels

---
 src/codecs/bmp/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 109470c..89dd13a 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -828,6 +828,12 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
 
             match self.image_type {
                 ImageType::Palette | ImageType::RLE4 | ImageType::RLE8 => self.read_palette()?,
+                // The masks follow a BITMAPINFOHEADER but are part of any later header.
+                ImageType::Bitfields16 | ImageType::Bitfields32
+                    if self.bmp_header_type == BMPHeaderType::Info =>
+                {
+                    self.reader.seek(SeekFrom::Current(12))?;
+                }
                 _ => {}
             };
 
-- 
2.43.0


From 2c507c0bf63cd499576d2263f964b6a08f3d7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 36/47] fix: BMP set_indexed_color keeps indices for palettes
 of every bit depth and leaves RLE and RGB images alone

---
 src/codecs/bmp/decoder.rs | 40 ++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 89dd13a..6b6467e 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -292,6 +292,15 @@ where
     Ok(())
 }
 
+/// Set a pixel to a color of the palette, or to the index itself for single channel output.
+fn set_palette_pixel(pixel: &mut [u8], palette: &[[u8; 3]], index: u8) {
+    if let [value] = pixel {
+        *value = index;
+    } else {
+        pixel[..3].copy_from_slice(&palette[usize::from(index)]);
+    }
+}
+
 fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
     pixel_iter: &mut ChunksMut<u8>,
     palette: &[[u8; 3]],
@@ -300,10 +309,7 @@ fn set_8bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
 ) -> bool {
     for idx in indices.take(n_pixels) {
         if let Some(pixel) = pixel_iter.next() {
-            let rgb = palette[*idx as usize];
-            pixel[0] = rgb[0];
-            pixel[1] = rgb[1];
-            pixel[2] = rgb[2];
+            set_palette_pixel(pixel, palette, *idx);
         } else {
             return false;
         }
@@ -324,10 +330,7 @@ fn set_4bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_palette_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -354,10 +357,7 @@ fn set_2bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
                     break;
                 }
                 if let Some(pixel) = pixel_iter.next() {
-                    let rgb = palette[$i as usize];
-                    pixel[0] = rgb[0];
-                    pixel[1] = rgb[1];
-                    pixel[2] = rgb[2];
+                    set_palette_pixel(pixel, palette, $i);
                 } else {
                     return false;
                 }
@@ -381,10 +381,7 @@ fn set_1bit_pixel_run<'a, T: Iterator<Item = &'a u8>>(
         let mut bit = 0x80;
         loop {
             if let Some(pixel) = pixel_iter.next() {
-                let rgb = palette[usize::from((idx & bit) != 0)];
-                pixel[0] = rgb[0];
-                pixel[1] = rgb[1];
-                pixel[2] = rgb[2];
+                set_palette_pixel(pixel, palette, u8::from((idx & bit) != 0));
             } else {
                 return;
             }
@@ -929,8 +926,13 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         self.palette.as_ref().map(|vec| &vec[..])
     }
 
+    /// Images without a palette have no indices to output.
+    fn has_indexed_output(&self) -> bool {
+        self.indexed_color && self.palette.is_some()
+    }
+
     fn num_channels(&self) -> usize {
-        if self.indexed_color {
+        if self.has_indexed_output() {
             1
         } else if self.add_alpha_channel {
             4
@@ -960,7 +962,7 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         let bit_count = self.bit_count;
         let reader = &mut self.reader;
         let width = self.width as usize;
-        let skip_palette = self.indexed_color;
+        let skip_palette = self.indexed_color && bit_count == 8;
 
         reader.seek(SeekFrom::Start(self.data_offset))?;
 
@@ -1336,7 +1338,7 @@ impl<R: BufRead + Seek> ImageDecoder for BmpDecoder<R> {
     }
 
     fn color_type(&self) -> ColorType {
-        if self.indexed_color {
+        if self.has_indexed_output() {
             ColorType::L8
         } else if self.add_alpha_channel {
             ColorType::Rgba8
-- 
2.43.0


From f7765e6016610403b4570be59e5204672ea18e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 37/47] fix: APNG dispose to previous restores the canvas as it
 was after background disposal

---
 src/codecs/png.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codecs/png.rs b/src/codecs/png.rs
index de6cfbd..e043f22 100644
--- a/src/codecs/png.rs
+++ b/src/codecs/png.rs
@@ -320,7 +320,6 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                 previous.clone_from(current);
             }
             DisposeOp::Background => {
-                previous.clone_from(current);
                 if let Some((px, py, width, height)) = self.dispose_region {
                     let mut region_current = current.sub_image(px, py, width, height);
 
@@ -336,6 +335,8 @@ impl<R: BufRead + Seek> ApngDecoder<R> {
                         *pixel = Rgba::from([0, 0, 0, 0]);
                     });
                 }
+                // What a later `Previous` restores is the canvas after this disposal.
+                previous.clone_from(current);
             }
             DisposeOp::Previous => {
                 let (px, py, width, height) = self
-- 
2.43.0


From e422d7494697f45e241c2ade25f23c961a3b22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:13 +0000
Subject: [PATCH 38/47] fix: run-length coded bitmaps in icons get an opaque
 alpha channel

---
 src/codecs/bmp/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codecs/bmp/decoder.rs b/src/codecs/bmp/decoder.rs
index 6b6467e..748d9d8 100644
--- a/src/codecs/bmp/decoder.rs
+++ b/src/codecs/bmp/decoder.rs
@@ -1146,6 +1146,11 @@ impl<R: BufRead + Seek> BmpDecoder<R> {
         let num_channels = self.num_channels();
         let p = self.palette.as_ref().unwrap();
 
+        // Runs only write colors.
+        if num_channels == 4 {
+            buf.chunks_exact_mut(4).for_each(|c| c[3] = 0xFF);
+        }
+
         // Handling deltas in the RLE scheme means that we need to manually
         // iterate through rows and pixels.  Even if we didn't have to handle
         // deltas, we have to ensure that a single runlength doesn't straddle
-- 
2.43.0


From 8a5d7129e382f45a268215198a74a3544e739b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:13 +0000
Subject: [PATCH 39/47] fix: SMPTE 240M luma weights of red and blue were
 exchanged

---
 src/codecs/avif/yuv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/yuv.rs b/src/codecs/avif/yuv.rs
index 62190c9..a21a7fe 100644
--- a/src/codecs/avif/yuv.rs
+++ b/src/codecs/avif/yuv.rs
@@ -225,8 +225,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From df979550125db8886c166ffeadcbcca286afdd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:28 +0000
Subject: [PATCH 40/47] fix: BT.470 System M has the luma weights 0.30 and 0.11

---
 src/codecs/avif/yuv.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codecs/avif/yuv.rs b/src/codecs/avif/yuv.rs
index a21a7fe..268ec61 100644
--- a/src/codecs/avif/yuv.rs
+++ b/src/codecs/avif/yuv.rs
@@ -229,8 +229,8 @@ impl YuvStandardMatrix {
                 kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
-                kr: 0.2220f32,
-                kb: 0.0713f32,
+                kr: 0.30f32,
+                kb: 0.11f32,
             },
             YuvStandardMatrix::Identity => unreachable!(),
         }
-- 
2.43.0


From 51f16aca5dcdbd15484fd667b11f92ed3094e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:28 +0000
Subject: [PATCH 41/47] fix: JPEG encoder refuses images without pixels

---
 src/codecs/jpeg/encoder.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index d61951a..1e4986a 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -492,6 +492,19 @@ impl<W: Write> JpegEncoder<W> {
         let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
+        // TODO: not idiomatic yet. Should be an EncodingError and mention jpg.
+        let (width, height) = match (
+            u16::try_from(image.width()),
+            u16::try_from(image.height()),
+        ) {
+            (Ok(width @ 1..), Ok(height @ 1..)) => (width, height),
+            _ => {
+                return Err(ImageError::Parameter(ParameterError::from_kind(
+                    ParameterErrorKind::DimensionMismatch,
+                )))
+            }
+        };
+
         self.writer.write_marker(SOI)?;
 
         let mut buf = Vec::new();
@@ -505,18 +518,8 @@ impl<W: Write> JpegEncoder<W> {
         build_frame_header(
             &mut buf,
             8,
-            // TODO: not idiomatic yet. Should be an EncodingError and mention jpg. Further it
-            // should check dimensions prior to writing.
-            u16::try_from(image.width()).map_err(|_| {
-                ImageError::Parameter(ParameterError::from_kind(
-                    ParameterErrorKind::DimensionMismatch,
-                ))
-            })?,
-            u16::try_from(image.height()).map_err(|_| {
-                ImageError::Parameter(ParameterError::from_kind(
-                    ParameterErrorKind::DimensionMismatch,
-                ))
-            })?,
+            width,
+            height,
             &self.components[..num_components],
         );
         self.writer.write_segment(SOF0, &buf)?;
-- 
2.43.0


From fdee53c54689bc0e33d24527acefa329c3549197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:28 +0000
Subject: [PATCH 42/47] fix: JPEG encoder refuses samples of more than eight
 bits

---
 src/codecs/jpeg/encoder.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index 1e4986a..c3b0068 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -492,11 +492,23 @@ impl<W: Write> JpegEncoder<W> {
         let color_type = I::Pixel::COLOR_TYPE;
         let num_components = if n == 1 || n == 2 { 1 } else { 3 };
 
-        // TODO: not idiomatic yet. Should be an EncodingError and mention jpg.
-        let (width, height) = match (
-            u16::try_from(image.width()),
-            u16::try_from(image.height()),
+        if !matches!(
+            color_type,
+            ExtendedColorType::L8
+                | ExtendedColorType::La8
+                | ExtendedColorType::Rgb8
+                | ExtendedColorType::Rgba8
         ) {
+            return Err(ImageError::Unsupported(
+                UnsupportedError::from_format_and_kind(
+                    ImageFormat::Jpeg.into(),
+                    UnsupportedErrorKind::Color(color_type),
+                ),
+            ));
+        }
+
+        // TODO: not idiomatic yet. Should be an EncodingError and mention jpg.
+        let (width, height) = match (u16::try_from(image.width()), u16::try_from(image.height())) {
             (Ok(width @ 1..), Ok(height @ 1..)) => (width, height),
             _ => {
                 return Err(ImageError::Parameter(ParameterError::from_kind(
-- 
2.43.0


From 1f8dff9d0b5dc991f3f0e3227a0599e31e43db93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:55 +0000
Subject: [PATCH 43/47] hook: access to the transform, colour conversion and
 block coding of the JPEG encoder under cfg(image_verif)

---
 src/codecs/jpeg/encoder.rs | 37 +++++++++++++++++++++++++++++++++++++
 src/codecs/jpeg/mod.rs     |  4 ++++
 2 files changed, 41 insertions(+)

diff --git a/src/codecs/jpeg/encoder.rs b/src/codecs/jpeg/encoder.rs
index c3b0068..5bcb5ad 100644
--- a/src/codecs/jpeg/encoder.rs
+++ b/src/codecs/jpeg/encoder.rs
@@ -912,6 +912,43 @@ fn copy_blocks_gray<I: GenericImageView>(source: &I, x0: u32, y0: u32, gb: &mut
     }
 }
 
+/// Access to internals for the verification harnesses.
+#[cfg(image_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    /// The conversion of one pixel before the transform.
+    #[must_use]
+    pub fn rgb_to_ycbcr(pixel: [u8; 3]) -> (u8, u8, u8) {
+        super::rgb_to_ycbcr(Rgb(pixel))
+    }
+    /// The transform of one block.
+    #[must_use]
+    pub fn fdct(samples: &[u8; 64]) -> [i32; 64] {
+        let mut coeffs = [0; 64];
+        transform::fdct(samples, &mut coeffs);
+        coeffs
+    }
+    /// The entropy coded data of blocks in a row, with the luma or the chroma tables, padded.
+    #[must_use]
+    pub fn write_blocks(blocks: &[[i32; 64]], luma: bool) -> Vec<u8> {
+        let mut out = Vec::new();
+        let mut w = BitWriter::new(&mut out);
+        let mut dc = 0;
+        for b in blocks {
+            dc = if luma {
+                w.write_block(b, dc, &STD_LUMA_DC_HUFF_LUT, &STD_LUMA_AC_HUFF_LUT)
+            } else {
+                w.write_block(b, dc, &STD_CHROMA_DC_HUFF_LUT, &STD_CHROMA_AC_HUFF_LUT)
+            }
+            .unwrap();
+        }
+        w.pad_byte().unwrap();
+        out
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use std::io::Cursor;
diff --git a/src/codecs/jpeg/mod.rs b/src/codecs/jpeg/mod.rs
index 65ebecd..ddb8539 100644
--- a/src/codecs/jpeg/mod.rs
+++ b/src/codecs/jpeg/mod.rs
@@ -9,6 +9,10 @@
 pub use self::decoder::JpegDecoder;
 pub use self::encoder::{JpegEncoder, PixelDensity, PixelDensityUnit};
 
+#[cfg(image_verif)]
+#[doc(hidden)]
+pub use self::encoder::verif;
+
 mod decoder;
 mod encoder;
 mod entropy;
-- 
2.43.0


From b20a0304b4e7b48f0801359ace6f6b68aee20ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 44/47] fix: HdrEncoder::write_image refuses buffers longer
 than the image

---
 src/codecs/hdr/encoder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/codecs/hdr/encoder.rs b/src/codecs/hdr/encoder.rs
index 2e1138f..f8cc76f 100644
--- a/src/codecs/hdr/encoder.rs
+++ b/src/codecs/hdr/encoder.rs
@@ -11,6 +11,7 @@ pub struct HdrEncoder<W: Write> {
 }
 
 impl<W: Write> ImageEncoder for HdrEncoder<W> {
+    #[track_caller]
     fn write_image(
         self,
         unaligned_bytes: &[u8],
@@ -20,12 +21,19 @@ impl<W: Write> ImageEncoder for HdrEncoder<W> {
     ) -> ImageResult<()> {
         match color_type {
             ExtendedColorType::Rgb32F => {
+                let expected_buffer_len = color_type.buffer_size(width, height);
+                assert_eq!(
+                    expected_buffer_len,
+                    unaligned_bytes.len() as u64,
+                    "Invalid buffer length: expected {expected_buffer_len} got {} for {width}x{height} image",
+                    unaligned_bytes.len(),
+                );
+
                 let bytes_per_pixel = color_type.bits_per_pixel() as usize / 8;
                 let rgbe_pixels = unaligned_bytes
                     .chunks_exact(bytes_per_pixel)
                     .map(|bytes| to_rgbe8(Rgb::<f32>(bytemuck::pod_read_unaligned(bytes))));
 
-                // the length will be checked inside encode_pixels
                 self.encode_pixels(rgbe_pixels, width as usize, height as usize)
             }
 
@@ -71,7 +79,7 @@ impl<W: Write> HdrEncoder<W> {
         w.write_all(format!("-Y {height} +X {width}\n").as_bytes())?;
 
         if !(8..=32_767).contains(&width) {
-            for pixel in flattened_rgbe_pixels {
+            for pixel in flattened_rgbe_pixels.take(width * height) {
                 write_rgbe8(w, pixel)?;
             }
         } else {
-- 
2.43.0


From 6307c4791f05c808cfbbb2a611a03839c38cce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 45/47] fix: PNM encoder writes samples with the number of
 bytes the maximal value of the header asks for

---
 src/codecs/pnm/encoder.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/codecs/pnm/encoder.rs b/src/codecs/pnm/encoder.rs
index 0e97d0b..0447abb 100644
--- a/src/codecs/pnm/encoder.rs
+++ b/src/codecs/pnm/encoder.rs
@@ -78,6 +78,7 @@ enum TupleEncoding<'a> {
     },
     Bytes {
         samples: FlatSamples<'a>,
+        wide: bool,
     },
 }
 
@@ -482,6 +483,10 @@ impl<'a> CheckedHeaderColor<'a> {
                 ));
             }
         };
+        let max_sample = match image {
+            FlatSamples::U8(_) => max_sample,
+            FlatSamples::U16(_) => 0xffff,
+        };
 
         // Avoid the performance heavy check if possible, e.g. if the header has been chosen by us.
         if header_maxval < max_sample && !image.all_smaller(header_maxval) {
@@ -606,7 +611,10 @@ impl<'a> FlatSamples<'a> {
                 ..
             }) => TupleEncoding::PbmAscii { samples: *self },
 
-            HeaderRecord::Arbitrary(_) => TupleEncoding::Bytes { samples: *self },
+            HeaderRecord::Arbitrary(ArbitraryHeader { maxval, .. }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Ascii,
@@ -619,12 +627,17 @@ impl<'a> FlatSamples<'a> {
 
             HeaderRecord::Graymap(GraymapHeader {
                 encoding: SampleEncoding::Binary,
+                maxwhite: maxval,
                 ..
             })
             | HeaderRecord::Pixmap(PixmapHeader {
                 encoding: SampleEncoding::Binary,
+                maxval,
                 ..
-            }) => TupleEncoding::Bytes { samples: *self },
+            }) => TupleEncoding::Bytes {
+                samples: *self,
+                wide: maxval > 0xff,
+            },
         }
     }
 }
@@ -669,16 +682,34 @@ impl TupleEncoding<'_> {
                 .write_samples_ascii(samples.iter().map(|&v| u8::from(v == 0)))
                 .map_err(ImageError::IoError),
 
+            // The maximal value decides on the number of bytes of every sample.
             TupleEncoding::Bytes {
                 samples: FlatSamples::U8(samples),
+                wide: false,
             } => writer.write_all(samples).map_err(ImageError::IoError),
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U8(samples),
+                wide: true,
+            } => samples.iter().try_for_each(|&sample| {
+                writer
+                    .write_u16::<BigEndian>(u16::from(sample))
+                    .map_err(ImageError::IoError)
+            }),
             TupleEncoding::Bytes {
                 samples: FlatSamples::U16(samples),
+                wide: true,
             } => samples.iter().try_for_each(|&sample| {
                 writer
                     .write_u16::<BigEndian>(sample)
                     .map_err(ImageError::IoError)
             }),
+            // The samples have been checked against the maximal value.
+            TupleEncoding::Bytes {
+                samples: FlatSamples::U16(samples),
+                wide: false,
+            } => samples
+                .iter()
+                .try_for_each(|&sample| writer.write_u8(sample as u8).map_err(ImageError::IoError)),
 
             TupleEncoding::Ascii {
                 samples: FlatSamples::U8(samples),
-- 
2.43.0


From 673a578eeb7e1e084a3ed2beeb3fcc84c187b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 46/47] fix: BMP encoder refuses sizes its header cannot hold
 instead of overflowing

---
 src/codecs/bmp/encoder.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 457e5d9..1edf36e 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -74,16 +74,23 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
 
         let (dib_header_size, written_pixel_size, palette_color_count) =
             get_pixel_info(c, palette)?;
-        let row_pad_size = (4 - (width * written_pixel_size) % 4) % 4; // each row must be padded to a multiple of 4 bytes
-        let image_size = width
-            .checked_mul(height)
-            .and_then(|v| v.checked_mul(written_pixel_size))
-            .and_then(|v| v.checked_add(height * row_pad_size))
-            .ok_or_else(|| {
-                ImageError::Parameter(ParameterError::from_kind(
-                    ParameterErrorKind::DimensionMismatch,
-                ))
-            })?;
+        let dimension_mismatch = || {
+            ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::DimensionMismatch,
+            ))
+        };
+        // the header stores the dimensions as signed numbers
+        if i32::try_from(width).is_err() || i32::try_from(height).is_err() {
+            return Err(dimension_mismatch());
+        }
+        let row_size = width
+            .checked_mul(written_pixel_size)
+            .ok_or_else(dimension_mismatch)?;
+        let row_pad_size = (4 - row_size % 4) % 4; // each row must be padded to a multiple of 4 bytes
+        let image_size = row_size
+            .checked_add(row_pad_size)
+            .and_then(|v| v.checked_mul(height))
+            .ok_or_else(dimension_mismatch)?;
         let palette_size = palette_color_count * 4; // all palette colors are BGRA
         let file_size = bmp_header_size
             .checked_add(dib_header_size)
@@ -238,7 +245,9 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
         }
 
         // write image data
-        let x_stride = bytes_per_pixel;
+        let width = width as usize;
+        let height = height as usize;
+        let x_stride = bytes_per_pixel as usize;
         let y_stride = width * x_stride;
         for row in (0..height).rev() {
             // from the bottom up
@@ -247,11 +256,10 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             // color value is equal to the palette index
             if x_stride == 1 {
                 // improve performance by writing the whole row at once
-                self.writer
-                    .write_all(&image[row_start as usize..][..y_stride as usize])?;
+                self.writer.write_all(&image[row_start..][..y_stride])?;
             } else {
                 for col in 0..width {
-                    let pixel_start = (row_start + (col * x_stride)) as usize;
+                    let pixel_start = row_start + (col * x_stride);
                     self.writer.write_u8(image[pixel_start])?;
                     // alpha is never written as it's not widely supported
                 }
-- 
2.43.0


From b0ed00a5dfd27f667407b2f05754fbf8e4333d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 47/47] fix: BMP encoder refuses palettes without colors or
 with more than 256

---
 src/codecs/bmp/encoder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/codecs/bmp/encoder.rs b/src/codecs/bmp/encoder.rs
index 1edf36e..691dbb1 100644
--- a/src/codecs/bmp/encoder.rs
+++ b/src/codecs/bmp/encoder.rs
@@ -62,6 +62,13 @@ impl<'a, W: Write + 'a> BmpEncoder<'a, W> {
             )));
         }
 
+        // a count of zero in the header stands for 256 colors
+        if palette.is_some_and(|p| !(1..=256).contains(&p.len())) {
+            return Err(ImageError::Parameter(ParameterError::from_kind(
+                ParameterErrorKind::Generic("the palette must have 1..=256 colors".to_owned()),
+            )));
+        }
+
         let expected_buffer_len = c.buffer_size(width, height);
         assert_eq!(
             expected_buffer_len,
-- 
2.43.0

