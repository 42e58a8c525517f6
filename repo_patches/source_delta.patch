From 8aa0e09904d27dfb3e46259cab19610297c697a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 01/11] fix: modulo-10 check digit overflowed u8 on long data

TF::interleaved accepts up to 255 digits, but the weighted sum was kept in a u8: it panicked
with overflow checks on and appended a wrong check digit with them off (e.g. fifteen 9s).
---
 src/sym/helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..a678e8a 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,13 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    let mut odds: u32 = 0;
+    let mut evens: u32 = 0;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -43,6 +43,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From 7fbe43e7105061123e88f2bbed01fc934156f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 02/11] fix: Code128 reordered data when FNC1 split a digit
 pair

In character-set C "1\u{0179}2" was encoded as FNC1 followed by 12. A pending digit is already an
error before a character-set switch and at the end of the data; it now is before FNC1 too.
---
 src/sym/code128.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..6d88abf 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,8 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                // A function character may not split a character-set C digit pair.
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 7575d5d470c7fd56ba52da173dbc00ab94c3e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 03/11] fix: Code128 accepted a lone character-set selector

The minimum length was compared with the number of UTF-8 bytes, and every selector takes two, so
"\u{00C0}" alone was accepted and encoded as a barcode without data.
---
 src/sym/code128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 6d88abf..c600766 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -289,7 +289,7 @@ impl Code128 {
     /// Returns Result<Code128, Error> indicating parse success.
     pub fn new<T: AsRef<str>>(data: T) -> Result<Code128> {
         let data = data.as_ref();
-        if data.len() < 2 {
+        if data.chars().count() < 2 {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From 05799906ce313bffa3dabdf9f6c5dbe60716a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 04/11] fix: Code128 checksum overflowed i32 on long data

The length of Code128 data is not limited. From about 6400 characters on the weighted sum could
exceed i32: a panic with overflow checks on, a wrong check character or an out-of-bounds index
with them off.
---
 src/sym/code128.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index c600766..c332f57 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -347,13 +347,11 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
-            .0
-            .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+        let sum = self.0.iter().enumerate().fold(0, |t, (i, u)| {
+            (t + u.index() as u64 * (cmp::max(1, i) as u64 % 103)) % 103
+        });
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From 4dada2eea40e2af4d855b991ca3bbdba56e0e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 05/11] fix: Code128 character-set B rejected DEL

Character-set B is documented as ASCII 32 to 127, but 127 could only be written as \u{00F7}.
---
 src/sym/code128.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index c332f57..d4f6164 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -276,6 +276,11 @@ impl CharacterSet {
 
     fn lookup(self, s: &str) -> Result<Unit> {
         let p = self.index()?;
+        // CHARS spells the (invisible) DEL character of character-set B as '÷'.
+        let s = match (self, s) {
+            (CharacterSet::B, "\u{007F}") => "\u{00F7}",
+            _ => s,
+        };
 
         match CHARS.iter().position(|&c| c.0[p] == s) {
             Some(i) => self.unit(i),
-- 
2.43.0


From 059d12c11ad6d875f9b67ab653959805a292c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 06/11] fix: SVG geometry overflowed u32 for large X dimensions

The total width and the bar offsets panicked with overflow checks on, and wrapped around (bars on
top of each other, a viewBox too narrow) with them off.
---
 src/generators/svg.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 344f2e0..2809f75 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -144,7 +144,7 @@ impl SVG {
         self
     }
 
-    fn rect(&self, style: u8, offset: u32, width: u32) -> String {
+    fn rect(&self, style: u8, offset: u64, width: u64) -> String {
         let fill = match style {
             1 => self.foreground,
             _ => self.background,
@@ -169,12 +169,14 @@ impl SVG {
     /// error message.
     pub fn generate<T: AsRef<[u8]>>(&self, barcode: T) -> Result<String> {
         let barcode = barcode.as_ref();
-        let width = (barcode.len() as u32) * self.xdim;
+        // u64: the total width may exceed u32 although the X dimension fits.
+        let xdim = u64::from(self.xdim);
+        let width = barcode.len() as u64 * xdim;
         let rects: String = barcode
             .iter()
             .enumerate()
             .filter(|&(_, &n)| n == 1)
-            .map(|(i, &n)| self.rect(n, i as u32 * self.xdim, self.xdim))
+            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
             .collect();
 
         let xmlns = match &self.xmlns {
-- 
2.43.0


From 0ced36e2d9e0187049438ef1e27384bc19ce493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 07/11] fix: SVG xmlns was not escaped

A namespace containing '&', '<' or '"' ('&' is common in URIs) produced a malformed document.
---
 src/generators/svg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 2809f75..4fb144e 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -50,6 +50,14 @@ trait ToHex {
     }
 }
 
+/// Escapes the characters which may not appear literally in an attribute value.
+fn escape_attr(value: &str) -> String {
+    value
+        .replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('"', "&quot;")
+}
+
 /// Represents a RGBA color for the barcode foreground and background.
 #[derive(Copy, Clone, Debug)]
 pub struct Color {
@@ -180,7 +188,7 @@ impl SVG {
             .collect();
 
         let xmlns = match &self.xmlns {
-            Some(xmlns) => format!("xmlns=\"{xmlns}\" "),
+            Some(xmlns) => format!("xmlns=\"{}\" ", escape_attr(xmlns)),
             None => "".to_string() 
         };
 
-- 
2.43.0


From bbc4faa58f456513be52289e2531411a463cbb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 08/11] fix: image generators panicked when the pixel
 dimensions overflow

The width was multiplied in u32 unchecked. Dimensions that cannot be represented are now reported
as Error::Generate, which is what the formats already do for sizes they do not support.
---
 src/generators/image.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index b4e95d5..9ee5326 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -163,7 +163,7 @@ impl Image {
         };
 
         let mut bytes: Vec<u8> = vec![];
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
@@ -177,19 +177,30 @@ impl Image {
         self,
         barcode: T,
     ) -> Result<ImageBuffer<Rgba<u8>, Vec<u8>>> {
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         Ok(img.to_rgba8())
     }
 
-    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> DynamicImage {
+    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> Result<DynamicImage> {
         let barcode = barcode.as_ref();
         let (xdim, height, rotation, bg, fg) = expand_image_variants!(
             *self,
             {height: h, xdim: x, rotation: r, background: b, foreground: f} => (x, h, r, b.to_rgba(), f.to_rgba()),
             GIF, PNG, WEBP, ImageBuffer
         );
-        let width = (barcode.len() as u32) * xdim;
+        let width = u32::try_from(barcode.len())
+            .ok()
+            .and_then(|n| n.checked_mul(xdim))
+            .ok_or(Error::Generate)?;
+
+        // The pixels (4 bytes each) must be addressable.
+        (width as usize)
+            .checked_mul(height as usize)
+            .and_then(|n| n.checked_mul(4))
+            .filter(|&n| n <= isize::MAX as usize)
+            .ok_or(Error::Generate)?;
+
         let mut buffer = ImageBuffer::new(width, height);
 
         for y in 0..height {
@@ -204,12 +215,12 @@ impl Image {
 
         let img = ImageRgba8(buffer);
 
-        match rotation {
+        Ok(match rotation {
             Rotation::Ninety => img.rotate90(),
             Rotation::OneEighty => img.rotate180(),
             Rotation::TwoSeventy => img.rotate270(),
             _ => img,
-        }
+        })
     }
 }
 
-- 
2.43.0


From facb5967b2ad0248e2e4e28cd86407cf85b5b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 09/11] fix: data of 4 GiB or more passed the length check

The length was truncated to u32 before it was compared with the valid range.
---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From 9ebd7a9645490d38dae7b94c6ea7a5942841d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:57 +0000
Subject: [PATCH 10/11] fix: image generators aborted when the picture cannot
 be allocated

A height or X dimension that asks for terabytes (for GIF and WebP far
beyond what the format can hold) ended the process in handle_alloc_error
instead of returning Error::Generate.
---
 src/generators/image.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index 9ee5326..3364e97 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -194,14 +194,16 @@ impl Image {
             .and_then(|n| n.checked_mul(xdim))
             .ok_or(Error::Generate)?;
 
-        // The pixels (4 bytes each) must be addressable.
-        (width as usize)
+        // A picture too large to be addressed or allocated is an error, too.
+        let size = (width as usize)
             .checked_mul(height as usize)
             .and_then(|n| n.checked_mul(4))
-            .filter(|&n| n <= isize::MAX as usize)
             .ok_or(Error::Generate)?;
+        let mut pixels: Vec<u8> = vec![];
+        pixels.try_reserve_exact(size).map_err(|_| Error::Generate)?;
+        pixels.resize(size, 0);
 
-        let mut buffer = ImageBuffer::new(width, height);
+        let mut buffer = ImageBuffer::from_raw(width, height, pixels).ok_or(Error::Generate)?;
 
         for y in 0..height {
             for (i, &b) in barcode.iter().enumerate() {
-- 
2.43.0


From 96b161c1198431f42919d4e21f6dec8b760883e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 11/11] fix: build no row for an ASCII picture without rows

The row is as wide as the X dimension asks for: with height 0, whose
result is the empty string, it could exhaust memory.
---
 src/generators/ascii.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generators/ascii.rs b/src/generators/ascii.rs
index 9c9b61a..ea06620 100644
--- a/src/generators/ascii.rs
+++ b/src/generators/ascii.rs
@@ -48,7 +48,11 @@ impl ASCII {
     /// Generates the given barcode. Returns a `Result<String, Error>` indicating success.
     pub fn generate<T: AsRef<[u8]>>(&self, barcode: T) -> Result<String> {
         let mut output = String::new();
-        let row = self.generate_row(barcode.as_ref());
+        let row = match self.height {
+            // The row may be of any width, but none is shown.
+            0 => String::new(),
+            _ => self.generate_row(barcode.as_ref()),
+        };
 
         for (i, _l) in (0..self.height).enumerate() {
             output.push_str(&row[..]);
-- 
2.43.0

