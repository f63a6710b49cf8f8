From 802ac84ac8112d5617ea22efff9583907f5189b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 01/15] fix: voronoi: coordinate differences underflow u32 when
 the centroid lies left of or above the pixel

---
 src/codec/clusterc.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 23aa5fd..7a2194c 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -180,7 +180,11 @@ impl Codec for VoronoiCluster {
         for (x, y, px) in img.enumerate_pixels_mut() {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
-                                        .min_by_key(|c| (c.x - x).pow(2) + (c.y - y).pow(2))
+                                        .min_by_key(|c| {
+                                            let dx = c.x.abs_diff(x) as u64;
+                                            let dy = c.y.abs_diff(y) as u64;
+                                            dx * dx + dy * dy
+                                        })
                                         .unwrap();
             *px = closest_centroid.color.clone();
         }
@@ -205,8 +209,8 @@ struct ColorPos {
 
 impl Distance for ColorPos {
     fn dist(&self, other: &Self) -> f64 {
-        let mut d = (self.x - other.x).pow(2) as f64;
-        d += (self.y - other.y).pow(2) as f64;
+        let mut d = (self.x.abs_diff(other.x) as f64).powi(2);
+        d += (self.y.abs_diff(other.y) as f64).powi(2);
         d += self.color.dist(&other.color).powi(2);
         (d as f64).sqrt()
     }
-- 
2.43.0


From dd72dac67aad10909e9d5daf7a0db9987e38e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 02/15] fix: fun_call slices the input at byte offsets but
 counted characters: non-ASCII codec strings panicked

---
 src/prs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/prs.rs b/src/prs.rs
index 4b17a53..41d51b6 100644
--- a/src/prs.rs
+++ b/src/prs.rs
@@ -24,11 +24,10 @@ pub fn matches_fully<'a>(input: &'a str, regex: &str) -> Option<&'a str> {
 pub fn fun_call(input: &str) -> Option<(&str, Vec<&str>)> {
     let mut fun_name = None;
     let mut params = Vec::new();
-    let mut paren_stack: u16 = 0;
+    let mut paren_stack: usize = 0;
     let mut last_pos: usize = 0;
 
-    for (new_pos, c) in input.chars()
-                                .enumerate()
+    for (new_pos, c) in input.char_indices()
                                 .filter(|(_, c)|
                                     *c == '(' || *c == ')' || *c == ',')
     {
-- 
2.43.0


From 21a2a016b543e4d1c08069a449849bc873c9128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 03/15] fix: hilbert(rle()) is a malformed codec string, not a
 panic

---
 src/codec/hilbertc.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index 4c59b78..e552e7a 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -368,10 +368,9 @@ impl FromStr for CompressionMethod {
 
                     let _ = prs::matches_fully(rle, "rle")
                                 .ok_or_else(|| ParseError::WrongName { expected: String::from("rle"), found: String::from(rle) })?;
-                    if rle_args.len() > 1 {
+                    if rle_args.len() != 1 {
                         return Err(ParseError::WrongNumberOfArguments { expected: 1, found: rle_args.len() });
                     }
-                    assert_ne!(rle_args.len(), 0);
 
                     f64::from_str(rle_args.first().unwrap())
                         .map_err(|e| format!("{:?}", e))?
-- 
2.43.0


From 1aa162b5942d2fb0ee562cf1262687cbcbbb6cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:35 +0000
Subject: [PATCH 04/15] fix: zip(back): symbols longer than what the 15-bit
 length can hold made the encoder panic

---
 src/zip/back.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index 3b3150c..dfc0184 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -33,6 +33,9 @@ struct LookBack {
 type Len = u16;
 type Back = u16;
 
+/// The longest length that a [Symbol] can represent (the top bit is used as the enum code)
+const MAX_LEN: usize = (Len::MAX >> 1) as usize;
+
 impl Symbol {
     const ENUM_CODE_EXPLICIT: u8 = 0;
     const ENUM_CODE_LOOKBACK: u8 = 1;
@@ -42,7 +45,7 @@ impl Symbol {
     }
 
     fn compress_len(len: usize, enum_decider: u8) -> Len {
-        assert!(len <= (Len::MAX >> 1) as usize);
+        assert!(len <= MAX_LEN);
 
         let mask: Len = Self::mask(enum_decider);
         (len as Len) | mask
@@ -149,8 +152,8 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
         let mut curr_explicit: Vec<u8> = Vec::new();
 
         fn push_explicit(curr_explicit: Vec<u8>, channel: &mut Vec<Symbol>) {
-            if !curr_explicit.is_empty() {
-                channel.push(Symbol::Explicit(curr_explicit));
+            for chunk in curr_explicit.chunks(MAX_LEN) {
+                channel.push(Symbol::Explicit(chunk.to_vec()));
             }
         }
 
@@ -265,6 +268,7 @@ impl<I: Iterator<Item = u8>> Encoder<I> {
             let input_iter = self.rep_buf.iter().cloned();
             let rep_len =
                 input_iter.zip(subseq)
+                    .take(MAX_LEN)
                     .take_while(|(a, b)| a == b)
                     .count();
 
-- 
2.43.0


From e292ea2989e43d6a495552927db4fa9d80e80e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 05/15] fix: hufman: an I/O error while writing the payload is
 returned instead of panicking

---
 src/huf.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index e02d083..8000062 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -36,7 +36,7 @@ pub fn encode_all<I, T, W, F>(new_iter: F, writer: &mut W) -> io::Result<()>
     // 3. Write the payload
     let mut bit_writer = IoBitWriter::new(writer, BIT_ORDER);
     for symbol in new_iter() {
-        enc.encode(&symbol, &mut bit_writer).unwrap();
+        enc.encode(&symbol, &mut bit_writer)?;
     }
     bit_writer.pad_and_flush()?;
     Ok(())
@@ -135,15 +135,14 @@ impl<T: Hash + Eq + Clone> From<&Dec<T>> for Enc<T> {
 }
 
 impl<T: Hash + Eq> Enc<T> {
-    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> Option<()> {
-        let code = self.codes.get(symbol)?;
+    fn encode<W: bit::WriteBit>(&self, symbol: &T, writer: &mut W) -> io::Result<()> {
+        let code = self.codes.get(symbol)
+                        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "symbol without a code"))?;
         if code.len() == 0 {
-            return Some(());
+            return Ok(());
         }
 
         writer.write_arr(code)
-            .map_err(|e| eprintln!("{:?}", e))
-            .ok()
     }
 }
 
-- 
2.43.0


From 033ee0428461f55aa174c43ade8268b507d246da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 06/15] fix: zip(dict): a truncated or malformed stream ends
 the decoded bytes instead of panicking

---
 src/zip/dict.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 5a184a6..2a64ab6 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -190,10 +190,10 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
             None => {
                 // Figure out the next sequence (if any)
                 let symbol1 = self.next_symbol()?;
-                let symbol2 = self.next_symbol().unwrap();
+                let symbol2 = self.next_symbol()?;
 
-                let seq1 = self.decode(symbol1);
-                let seq2 = self.decode(symbol2);
+                let seq1 = self.decode(symbol1)?;
+                let seq2 = self.decode(symbol2)?;
 
                 let mut total_seq = seq1.clone();
                 total_seq.extend_from_slice(seq2);
@@ -235,10 +235,9 @@ impl<I: Iterator<Item=u8>> DictDecoder<I> {
         return decoder;
     }
 
-    fn decode(&self, symbol: Symbol) -> &Vec<u8> {
+    fn decode(&self, symbol: Symbol) -> Option<&Vec<u8>> {
         self.mapping
             .get(&symbol)
-            .unwrap()
     }
 
     fn next_symbol(&mut self) -> Option<Symbol> {
-- 
2.43.0


From 3a16824a7519bc525982939ffc352f424601188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 07/15] fix: zip(back): a truncated or malformed stream ends
 the decoded bytes instead of panicking

---
 src/zip/back.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/zip/back.rs b/src/zip/back.rs
index dfc0184..7545564 100644
--- a/src/zip/back.rs
+++ b/src/zip/back.rs
@@ -97,7 +97,9 @@ impl Deserialize for Symbol {
         match enum_decider {
             Self::ENUM_CODE_EXPLICIT => {
                 let data: Vec<u8> = stream.take(len).collect();
-                assert!(data.len() == len);
+                if data.len() != len {
+                    return None; // truncated stream
+                }
                 Some(Symbol::Explicit(data))
             }
             Self::ENUM_CODE_LOOKBACK => {
@@ -686,12 +688,12 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 self.history.write_all(&explicit_data);
                 self.decoded.extend(&explicit_data);
             }
-            Some(Symbol::LookBack(lb)) => {
+            Some(Symbol::LookBack(lb)) if lb.back <= self.history.len() => {
                 let lookback_slice = self.duplicate(&lb);
                 self.decoded.extend(lookback_slice);
             }
-            None => {
-                // input stream is empty, nothing left to do
+            Some(Symbol::LookBack(_)) | None => {
+                // malformed symbol, or input stream is empty: nothing left to do
             }
         }
     }
-- 
2.43.0


From 1c1583d12295ea7cf09ca7f44999495ceb8420bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 08/15] fix: hilbert, delta: a truncated or malformed stream is
 not decoded, instead of panicking or yielding a partial image

---
 src/codec/hilbertc.rs | 50 ++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/codec/hilbertc.rs b/src/codec/hilbertc.rs
index e552e7a..f863141 100644
--- a/src/codec/hilbertc.rs
+++ b/src/codec/hilbertc.rs
@@ -1,6 +1,6 @@
 use std::ops::{Sub, Add};
 use std::str::FromStr;
-use image::{GenericImageView, ImageBuffer, Pixel, Rgb};
+use image::{GenericImageView, ImageBuffer, Pixel, Rgb, RgbImage};
 use crate::geom::Distance;
 use crate::hilbert;
 use crate::huf;
@@ -54,14 +54,8 @@ impl Codec for Hilbert {
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<super::Img> {
         fn decode_any<I: Iterator<Item = Rgb<u8>>>(dimensions: (u32, u32), iter: I) -> Option<super::Img> {
-            let mut img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
-
-            hilbert::iter(dimensions.0 as usize, dimensions.1 as usize)
-                .zip(iter)
-                .for_each(|((x, y), color)|
-                    *img_buffer.get_pixel_mut(x as u32, y as u32) = color);
-
-            Some(img_buffer.into())
+            let img_buffer = ImageBuffer::new(dimensions.0, dimensions.1);
+            fill_along_curve(img_buffer, iter)
         }
 
         let dimensions = <(u32, u32)>::deserialize(reader)?;
@@ -94,6 +88,16 @@ impl Codec for Hilbert {
     }
 }
 
+/// Fill an image with the given colors, following the Hilbert traversal.
+/// Returns None if there are fewer colors than pixels.
+fn fill_along_curve<I: Iterator<Item = Rgb<u8>>>(mut img_buffer: RgbImage, mut colors: I) -> Option<Img> {
+    let (w, h) = img_buffer.dimensions();
+    for (x, y) in hilbert::iter(w as usize, h as usize) {
+        *img_buffer.get_pixel_mut(x as u32, y as u32) = colors.next()?;
+    }
+    Some(img_buffer.into())
+}
+
 /* AbstractRle */
 
 struct AbstractRle<I, S, T> {
@@ -322,9 +326,12 @@ impl<I: Iterator<Item = u8>> Iterator for RleDecoder<I> {
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.count == 0 {
-            self.count = RepCount::deserialize(&mut self.bytes)?;
-            assert!(self.count > 0);
-            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes).unwrap();
+            let count = RepCount::deserialize(&mut self.bytes)?;
+            self.curr_color = <Rgb<u8>>::deserialize(&mut self.bytes)?;
+            if count == 0 {
+                return None; // malformed stream
+            }
+            self.count = count;
         }
 
         self.count -= 1;
@@ -414,19 +421,13 @@ impl Codec for Delta {
     }
 
     fn decode<I: Iterator<Item = u8>>(&self, reader: &mut I) -> Option<Img> {
-        let (dimensions, mut img_buffer) = super::create_image_buffer_standard(reader)?;
-
-        let hilbert = hilbert::iter(dimensions.0 as usize, dimensions.1 as usize);
+        let (_, img_buffer) = super::create_image_buffer_standard(reader)?;
 
-        let diff_stream = huf::decode_all(reader).unwrap();
+        let diff_stream = huf::decode_all(reader)?;
         let color_stream = FromDiff::new(diff_stream);
 
         // Follow the Hilbert traversal to reconstruct the image
-        for ((x, y), color) in hilbert.zip(color_stream) {
-            *img_buffer.get_pixel_mut(x as u32, y as u32) = color;
-        }
-
-        Some(img_buffer.into())
+        fill_along_curve(img_buffer, color_stream)
     }
 
     fn name(&self) -> String {
@@ -498,11 +499,12 @@ impl<I: Iterator<Item = SignedColor>> Iterator for FromDiff<I> {
     fn next(&mut self) -> Option<Self::Item> {
         self.diff_stream
             .next()
-            .map(|new_diff| {
+            .and_then(|new_diff| {
                 let new_signed = self.last_color + new_diff;
                 self.last_color = new_signed;
+                // Fails if the stream is malformed
                 new_signed.try_into()
-                    .unwrap()
+                    .ok()
             })
     }
 }
@@ -551,7 +553,7 @@ impl Add for SignedColor {
 
     fn add(mut self, rhs: Self) -> Self::Output {
         for i in 0..3 {
-            self.0[i] += rhs.0[i];
+            self.0[i] = self.0[i].wrapping_add(rhs.0[i]);
         }
         self
     }
-- 
2.43.0


From 14a02254178726e1937433cf497c026d05aae1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 09/15] fix: linearize_small: used a square of half the size
 when the smallest dimension is a power of two

---
 src/hilbert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hilbert.rs b/src/hilbert.rs
index fd15f21..58ef21b 100644
--- a/src/hilbert.rs
+++ b/src/hilbert.rs
@@ -15,7 +15,8 @@ pub fn linearize_rect<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::P
 pub fn linearize_small<T: GenericImageView>(img: &T) -> impl Iterator<Item = T::Pixel> + '_ {
     let (xdim, ydim) = img.dimensions();
 
-    let square_order = min(xdim.next_power_of_two() >> 1, ydim.next_power_of_two() >> 1) as usize;
+    // Round the smallest dimension down to a power of two
+    let square_order = min(xdim, ydim).checked_ilog2().map_or(0, |n| 1 << n);
 
     iter(square_order, square_order)
         .map(|(x, y)| img.get(x, y))
-- 
2.43.0


From 71c3145eb7df1bdf303e80bcfcbb5492892709c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 10/15] fix: cluster-colors, voronoi: zero clusters, or more
 clusters than points, panicked

---
 src/codec/clusterc.rs | 19 +++++++++++++++----
 src/kmeans.rs         |  2 ++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index 7a2194c..aebb3f0 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -136,6 +136,10 @@ impl FromStr for ClusterColors {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Expected at least one color".into());
+        }
+
         Ok(ClusterColors(ncolors))
     }
 }
@@ -158,8 +162,12 @@ impl Codec for VoronoiCluster {
         h.serialize(writer)?;
 
         // Write the centroids
-        self.0.serialize(writer)?;
-        for (centroid, _points) in clusters.into_iter() {
+        let centroids: Vec<ColorPos> = clusters.into_iter()
+                                        .map(|(centroid, _points)| centroid)
+                                        .collect();
+        // Note: there may be fewer than what was requested
+        centroids.len().serialize(writer)?;
+        for centroid in centroids {
             centroid.serialize(writer)?;
         }
         Ok(())
@@ -184,8 +192,7 @@ impl Codec for VoronoiCluster {
                                             let dx = c.x.abs_diff(x) as u64;
                                             let dy = c.y.abs_diff(y) as u64;
                                             dx * dx + dy * dy
-                                        })
-                                        .unwrap();
+                                        })?;
             *px = closest_centroid.color.clone();
         }
 
@@ -296,6 +303,10 @@ impl FromStr for VoronoiCluster {
         let ncolors = usize::from_str(digits_str.as_str())
                             .map_err(|e| format!("{:?}", e))?;
 
+        if ncolors == 0 {
+            return Err("Expected at least one cluster".into());
+        }
+
         Ok(VoronoiCluster(ncolors))
     }
 }
diff --git a/src/kmeans.rs b/src/kmeans.rs
index 10769ba..b8f6f9b 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -19,6 +19,8 @@ pub struct Clusters<T> {
 /*********************/
 
 pub fn cluster<T: Point>(points: Vec<T>, nclusters: usize) -> Clusters<T> {
+    // There can't be more clusters than points
+    let nclusters = min(nclusters, points.len());
     let mut clusters = init(points, nclusters);
     let mut changed_assignment = true;
 
-- 
2.43.0


From 852b1df3be4c139960f1f8407977e55609e91cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:46 +0000
Subject: [PATCH 11/15] fix: voronoi: squared distances to far away centres
 overflowed u64

---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index aebb3f0..b47d592 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -189,8 +189,8 @@ impl Codec for VoronoiCluster {
             // Find the closest centroid
             let closest_centroid = centroids.iter()
                                         .min_by_key(|c| {
-                                            let dx = c.x.abs_diff(x) as u64;
-                                            let dy = c.y.abs_diff(y) as u64;
+                                            let dx = c.x.abs_diff(x) as u128;
+                                            let dy = c.y.abs_diff(y) as u128;
                                             dx * dx + dy * dy
                                         })?;
             *px = closest_centroid.color.clone();
-- 
2.43.0


From e95616b2f5b949c90bf4cd1d321ae78d16f3cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:24 +0000
Subject: [PATCH 12/15] fix: cluster-colors, voronoi: text before or after the
 codec string was ignored

---
 src/codec/clusterc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codec/clusterc.rs b/src/codec/clusterc.rs
index b47d592..9c06774 100644
--- a/src/codec/clusterc.rs
+++ b/src/codec/clusterc.rs
@@ -122,7 +122,7 @@ impl FromStr for ClusterColors {
          *   cluster-colors(x)
          * and all the in-between
          */
-        let regexp = Regex::new(r"c(?:luster)?-?col(?:ors)?\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^c(?:luster)?-?col(?:ors)?\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
@@ -289,7 +289,7 @@ impl FromStr for VoronoiCluster {
         /* Allow:
          *   voronoi(x)
          */
-        let regexp = Regex::new(r"voronoi\((\d+)\)").unwrap();
+        let regexp = Regex::new(r"^voronoi\((\d+)\)$").unwrap();
         let matches = regexp.captures(s)
                             .ok_or(String::from("Regex doesn't match"))?;
 
-- 
2.43.0


From 51a265b8439ee22ecf44c63232b11c415d35ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:37 +0000
Subject: [PATCH 13/15] fix: zip(dict): repeated end-of-stream symbols
 overflowed the stack while decoding

---
 src/zip/dict.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zip/dict.rs b/src/zip/dict.rs
index 2a64ab6..5491c62 100644
--- a/src/zip/dict.rs
+++ b/src/zip/dict.rs
@@ -198,6 +198,12 @@ impl<I: Iterator<Item=u8>> Iterator for DictDecoder<I> {
                 let mut total_seq = seq1.clone();
                 total_seq.extend_from_slice(seq2);
 
+                if total_seq.is_empty() {
+                    // Malformed: the end-of-stream symbol never comes first
+                    // (recursing for each such pair could overflow the stack)
+                    return None;
+                }
+
                 match self.next_code() {
                     Some(new_code) => {
                         self.new_mapping(new_code, total_seq.clone());
-- 
2.43.0


From 2e5101aa692751ea40cba50b9b101605540167bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:00 +0000
Subject: [PATCH 14/15] fix: hufman, delta, cluster-colors: a malformed
 dictionary nested very deeply overflowed the stack

---
 src/huf.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/huf.rs b/src/huf.rs
index 8000062..10ce2ca 100644
--- a/src/huf.rs
+++ b/src/huf.rs
@@ -328,15 +328,25 @@ impl<T: Deserialize> Deserialize for Dec<T> {
 
 impl<T: Deserialize> Deserialize for BinTrie<T> {
     fn deserialize<I: Iterator<Item = u8>>(stream: &mut I) -> Option<Self> {
+        Self::deserialize_within(MAX_DEPTH, stream)
+    }
+}
+
+// A code of n bits takes at least Fibonacci(n) symbols, which our counts can't reach for n > 92
+const MAX_DEPTH: u32 = 128;
+
+impl<T: Deserialize> BinTrie<T> {
+    // Limiting the depth keeps malformed data from overflowing the stack
+    fn deserialize_within<I: Iterator<Item = u8>>(depth: u32, stream: &mut I) -> Option<Self> {
         let decider: u8 = Deserialize::deserialize(stream)?;
         match decider {
             SER_ENUM_LEAF => {
                 let value = Deserialize::deserialize(stream)?;
                 Some(BinTrie::Leaf(value))
             }
-            SER_ENUM_BRANCH => {
-                let left = Deserialize::deserialize(stream)?;
-                let right = Deserialize::deserialize(stream)?;
+            SER_ENUM_BRANCH if depth > 0 => {
+                let left = Self::deserialize_within(depth - 1, stream)?;
+                let right = Self::deserialize_within(depth - 1, stream)?;
                 Some(BinTrie::Branch(Box::new(left), Box::new(right)))
             }
             _ => {
-- 
2.43.0


From 0620dfc9f42b18c5cedb135b81ec3bd652a6e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:04 +0000
Subject: [PATCH 15/15] fix: bench: the raw size counted 24 bytes per pixel
 instead of 3, so the compression ratio was 8 times too small

---
 src/bench.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bench.rs b/src/bench.rs
index d8d398d..8762d8c 100644
--- a/src/bench.rs
+++ b/src/bench.rs
@@ -38,8 +38,8 @@ pub fn measure_all<I, P, T>(codec: &T, paths: I) -> io::Result<()>
             println!("bench: Compressed size = {}", ByteSize::b(compressed_size as u64));
 
             let (h, w) = img.dimensions();
-            let raw_size = h * w * 24; // we're counting on 3 bytes RGB pixels
-            println!("bench: Raw size = {}", ByteSize::b(raw_size as u64));
+            let raw_size = (h as u64) * (w as u64) * 3; // we're counting on 3 bytes RGB pixels
+            println!("bench: Raw size = {}", ByteSize::b(raw_size));
             let compression_ratio = (compressed_size as f64) / (raw_size as f64);
 
             let decoded = codec.decode(&mut data.into_iter())
-- 
2.43.0

