From 40d9349fce05955f51d8dadeb1273df726785367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 01/13] fix: report the right line and column for an error at
 the start of a line

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8fab0df..a2f7c55 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -412,7 +412,7 @@ impl<'a> Parser<'a> {
                      .expect("Must have a character");
 
         let (lineno, col) = self.source[..at]
-                                .lines()
+                                .split('\n')
                                 .enumerate()
                                 .last()
                                 .unwrap_or((0, ""));
-- 
2.43.0


From 4a0e8ac11f917ab347f3f62b6347a8dda862a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 02/13] fix: do not overflow or prematurely saturate the
 decimal exponent while parsing

---
 src/parser.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a2f7c55..c6f77cf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -325,7 +325,7 @@ macro_rules! expect_fraction {
 
         loop {
             if $parser.is_eof() {
-                result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                result = unsafe { Number::from_parts_unchecked(true, $num, clamp_exponent($e)) };
                 break;
             }
             let ch = $parser.read_byte();
@@ -354,7 +354,7 @@ macro_rules! expect_fraction {
                     break;
                 }
                 _ => {
-                    result = unsafe { Number::from_parts_unchecked(true, $num, $e) };
+                    result = unsafe { Number::from_parts_unchecked(true, $num, clamp_exponent($e)) };
                     break;
                 }
             }
@@ -554,10 +554,10 @@ impl<'a> Parser<'a> {
     // the exponent. Note that no digits are actually read here, as we already
     // exceeded the precision range of f64 anyway.
     fn read_big_number(&mut self, mut num: u64) -> Result<Number> {
-        let mut e = 0i16;
+        let mut e = 0i64;
         loop {
             if self.is_eof() {
-                return Ok(unsafe { Number::from_parts_unchecked(true, num, e) });
+                return Ok(unsafe { Number::from_parts_unchecked(true, num, clamp_exponent(e)) });
             }
             let ch = self.read_byte();
             match ch {
@@ -567,7 +567,8 @@ impl<'a> Parser<'a> {
                         num.checked_add((ch - b'0') as u64)
                     }) {
                         Some(result) => num = result,
-                        None         => e = e.checked_add(1).ok_or_else(|| Error::ExceededDepthLimit)?,
+                        None if e < i16::max_value() as i64 => e += 1,
+                        None         => return Err(Error::ExceededDepthLimit),
                     }
                 },
                 b'.' => {
@@ -582,12 +583,12 @@ impl<'a> Parser<'a> {
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, e) })
+        Ok(unsafe { Number::from_parts_unchecked(true, num, clamp_exponent(e)) })
     }
 
     // Called in the rare case that a number with `e` notation has been
     // encountered. This is pretty straight forward, I guess.
-    fn expect_exponent(&mut self, num: u64, big_e: i16) -> Result<Number> {
+    fn expect_exponent(&mut self, num: u64, big_e: i64) -> Result<Number> {
         let mut ch = expect_byte!(self);
         let sign = match ch {
             b'-' => {
@@ -602,7 +603,7 @@ impl<'a> Parser<'a> {
         };
 
         let mut e = match ch {
-            b'0' ..= b'9' => (ch - b'0') as i16,
+            b'0' ..= b'9' => (ch - b'0') as i64,
             _ => return self.unexpected_character(),
         };
 
@@ -614,13 +615,13 @@ impl<'a> Parser<'a> {
             match ch {
                 b'0' ..= b'9' => {
                     self.bump();
-                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i16);
+                    e = e.saturating_mul(10).saturating_add((ch - b'0') as i64);
                 },
                 _  => break
             }
         }
 
-        Ok(unsafe { Number::from_parts_unchecked(true, num, big_e.saturating_add(e * sign)) })
+        Ok(unsafe { Number::from_parts_unchecked(true, num, clamp_exponent(big_e.saturating_add(e * sign))) })
     }
 
     // Parse away!
@@ -754,6 +755,18 @@ impl<'a> Parser<'a> {
     }
 }
 
+// Decimal exponents are tracked as `i64` while reading, only the exponent of the
+// finished number is brought into the range of `i16`.
+fn clamp_exponent(e: i64) -> i16 {
+    if e > i16::max_value() as i64 {
+        i16::max_value()
+    } else if e < i16::min_value() as i64 {
+        i16::min_value()
+    } else {
+        e as i16
+    }
+}
+
 struct StackBlock(JsonValue, usize);
 
 // All that hard work, and in the end it's just a single function in the API.
-- 
2.43.0


From afbf265f5640fea3d6a6ac9ca0998db24e4b7a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/13] fix: fixed point readings with a scale or exponent out
 of range of u64 powers of ten

---
 src/number.rs | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 808190a..ce755c0 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -147,15 +147,7 @@ impl Number {
             return None;
         }
 
-        let e_diff = point as i16 + self.exponent;
-
-        Some(if e_diff == 0 {
-            self.mantissa
-        } else if e_diff < 0 {
-            self.mantissa.wrapping_div(decimal_power(-e_diff as u16))
-        } else {
-            self.mantissa.wrapping_mul(decimal_power(e_diff as u16))
-        })
+        Some(self.scaled_mantissa(point))
     }
 
     /// Analog to `as_fixed_point_u64`, except returning a signed
@@ -174,21 +166,24 @@ impl Number {
             return None;
         }
 
-        let num = if self.is_sign_positive() {
-            self.mantissa as i64
-        } else {
-            -(self.mantissa as i64)
-        };
+        let num = self.scaled_mantissa(point) as i64;
 
-        let e_diff = point as i16 + self.exponent;
+        Some(if self.is_sign_positive() { num } else { num.wrapping_neg() })
+    }
 
-        Some(if e_diff == 0 {
-            num
-        } else if e_diff < 0 {
-            num.wrapping_div(decimal_power(-e_diff as u16) as i64)
+    // Mantissa scaled by `10 ^ (point + exponent)`, truncating what is behind the
+    // decimal point and wrapping around if the result doesn't fit in `u64`.
+    fn scaled_mantissa(&self, point: u16) -> u64 {
+        let e_diff = point as i32 + self.exponent as i32;
+
+        if e_diff <= 0 {
+            10u64.checked_pow(-e_diff as u32).map_or(0, |power| self.mantissa / power)
         } else {
-            num.wrapping_mul(decimal_power(e_diff as u16) as i64)
-        })
+            // 10 ^ 64 is divisible by 2 ^ 64
+            let power = 10u64.wrapping_pow(e_diff as u32);
+
+            self.mantissa.wrapping_mul(power)
+        }
     }
 }
 
-- 
2.43.0


From 4eb541d65973d4dc6ce626a6636838482b83bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 04/13] fix: compare numbers by their exact decimal value

---
 src/number.rs | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index ce755c0..5ee396c 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -199,18 +199,18 @@ impl PartialEq for Number {
             return false;
         }
 
-        let e_diff = self.exponent - other.exponent;
+        let e_diff = self.exponent as i32 - other.exponent as i32;
 
         if e_diff == 0 {
             return self.mantissa == other.mantissa;
         } else if e_diff > 0 {
-            let power = decimal_power(e_diff as u16);
+            let power = decimal_power(e_diff as u32);
 
-            self.mantissa.wrapping_mul(power) == other.mantissa
+            power.and_then(|power| self.mantissa.checked_mul(power)) == Some(other.mantissa)
         } else {
-            let power = decimal_power(-e_diff as u16);
+            let power = decimal_power(-e_diff as u32);
 
-            self.mantissa == other.mantissa.wrapping_mul(power)
+            Some(self.mantissa) == power.and_then(|power| other.mantissa.checked_mul(power))
         }
 
     }
@@ -536,8 +536,9 @@ impl ops::Neg for Number {
 //     }
 // }
 
+// Returns `None` if the power doesn't fit in `u64`.
 #[inline]
-fn decimal_power(mut e: u16) -> u64 {
+fn decimal_power(e: u32) -> Option<u64> {
     static CACHED: [u64; 20] = [
         1,
         10,
@@ -561,15 +562,5 @@ fn decimal_power(mut e: u16) -> u64 {
         10000000000000000000,
     ];
 
-    if e < 20 {
-        CACHED[e as usize]
-    } else {
-        let mut pow = 1u64;
-        while e >= 20 {
-            pow = pow.saturating_mul(CACHED[(e % 20) as usize]);
-            e /= 20;
-        }
-
-        pow
-    }
+    CACHED.get(e as usize).copied()
 }
-- 
2.43.0


From 9a87c7293da137cd6aa7a9a44e159a9c8c2f9963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:03 +0000
Subject: [PATCH 05/13] fix: convert the smallest value of each signed integer
 type

---
 src/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/number.rs b/src/number.rs
index 5ee396c..5631cee 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -435,7 +435,7 @@ macro_rules! impl_signed {
                     Number {
                         category: NEGATIVE,
                         exponent: 0,
-                        mantissa: -num as u64,
+                        mantissa: (num as i64).wrapping_neg() as u64,
                     }
                 } else {
                     Number {
-- 
2.43.0


From 07c0a4ea44e053bf3b90655cdcb892f1e54338b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 06/13] fix: refuse to read a number out of range, or NaN, as a
 signed integer

---
 src/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5631cee..8fc56d2 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -453,14 +453,14 @@ macro_rules! impl_signed {
             fn try_from(num: Number) -> Result<Self, Self::Error> {
                 let (positive, mantissa, exponent) = num.as_parts();
 
-                if exponent != 0 {
+                if exponent != 0 || num.is_nan() {
                     return Err(NumberOutOfScope);
                 }
 
                 let mantissa = if positive {
-                    mantissa as i64
+                    mantissa as i128
                 } else {
-                    -(mantissa as i64)
+                    -(mantissa as i128)
                 };
 
                 TryFrom::try_from(mantissa).map_err(Into::into)
-- 
2.43.0


From 49453f40cab75203d686212221ea8269e6374988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 07/13] fix: read zeros with a large exponent, and small
 numbers as f32, correctly as floats

---
 src/number.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 8fc56d2..a670ba4 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -295,7 +295,8 @@ impl From<Number> for f64 {
             e = -308;
         }
 
-        let f = exponentiate_f64(n, e);
+        // Powers too large for a float are infinite, and `0 * inf` is NaN
+        let f = if n == 0.0 { n } else { exponentiate_f64(n, e) };
         if num.is_sign_positive() { f } else { -f }
     }
 }
@@ -307,12 +308,13 @@ impl From<Number> for f32 {
         let mut n = num.mantissa as f32;
         let mut e = num.exponent;
 
-        if e < -127 {
-            n = exponentiate_f32(n, e + 127);
-            e = -127;
+        // 10 ^ 38 is the largest power that is finite as `f32`
+        if e < -38 {
+            n = exponentiate_f32(n, e + 38);
+            e = -38;
         }
 
-        let f = exponentiate_f32(n, e);
+        let f = if n == 0.0 { n } else { exponentiate_f32(n, e) };
         if num.is_sign_positive() { f } else { -f }
     }
 }
-- 
2.43.0


From 3e1277762a1f601968b86fa71bb36d19037605b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 08/13] fix: do not overflow the indentation width of pretty
 output

---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 4bb9ef1..fb3e4e7 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -276,7 +276,7 @@ impl Generator for PrettyGenerator {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.code.push(b'\n');
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.code.push(b' ');
         }
         Ok(())
@@ -350,7 +350,7 @@ impl<'a, W> Generator for PrettyWriterGenerator<'a, W> where W: Write {
 
     fn new_line(&mut self) -> io::Result<()> {
         self.write_char(b'\n')?;
-        for _ in 0..(self.dent * self.spaces_per_indent) {
+        for _ in 0..(self.dent as usize * self.spaces_per_indent as usize) {
             self.write_char(b' ')?;
         }
         Ok(())
-- 
2.43.0


From 6487be50f5326b2f8ea9d68f8a2d9f0bbb005b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 09/13] fix: clear short strings like any other string

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d9fb0c8..46036d4 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -562,6 +562,7 @@ impl JsonValue {
             JsonValue::String(ref mut string) => string.clear(),
             JsonValue::Object(ref mut object) => object.clear(),
             JsonValue::Array(ref mut vec)     => vec.clear(),
+            JsonValue::Short(_)               => *self = "".into(),
             _                                 => *self = JsonValue::Null,
         }
     }
-- 
2.43.0


From f242bff827bdda4ff54cbc87019bd4a2dc84b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:12 +0000
Subject: [PATCH 10/13] fix: compare short strings with String like any other
 string

---
 src/value/implements.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/value/implements.rs b/src/value/implements.rs
index 7833f7e..a867ceb 100644
--- a/src/value/implements.rs
+++ b/src/value/implements.rs
@@ -143,7 +143,30 @@ impl<'a> PartialEq<JsonValue> for str {
     }
 }
 
-implement!(String, String);
+impl From<String> for JsonValue {
+    fn from(val: String) -> JsonValue {
+        JsonValue::String(val)
+    }
+}
+
+impl PartialEq<String> for JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        *self == **other
+    }
+}
+
+impl<'a> PartialEq<String> for &'a JsonValue {
+    fn eq(&self, other: &String) -> bool {
+        **self == **other
+    }
+}
+
+impl PartialEq<JsonValue> for String {
+    fn eq(&self, other: &JsonValue) -> bool {
+        **self == *other
+    }
+}
+
 implement!(Number, isize as num);
 implement!(Number, usize as num);
 implement!(Number, i8 as num);
-- 
2.43.0


From 771712a6c324f96244db7c2ee4f39c4cab57387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:37 +0000
Subject: [PATCH 11/13] fix: evaluate the items of array! and the keys of
 object! only once

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec925ef..dd36044 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -310,7 +310,7 @@ macro_rules! array {
 
     // Construct the actual array
     (@END $( $i:expr, )*) => ({
-        let size = 0 $( + {let _ = &$i; 1} )*;
+        let size = <[&str]>::len(&[$( stringify!($i) ),*]);
         let mut array = Vec::with_capacity(size);
 
         $(
@@ -404,7 +404,7 @@ macro_rules! object {
 
     // Construct the actual object
     (@END $( $k:expr => $v:expr, )*) => ({
-        let size = 0 $( + {let _ = &$k; 1} )*;
+        let size = <[&str]>::len(&[$( stringify!($k) ),*]);
         let mut object = $crate::object::Object::with_capacity(size);
 
         $(
-- 
2.43.0


From 0a3759c0ede62b52e8f6b295bb897b24e405fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:23 +0000
Subject: [PATCH 12/13] fix: object iterators report their exact size in
 size_hint

ExactSizeIterator requires size_hint to be exact; with the default (0, None)
adapters such as zip panicked on len().
---
 src/object.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 7ff2165..3b2c7c5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -593,6 +593,11 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &node.value))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
@@ -628,6 +633,11 @@ impl<'a> Iterator for IterMut<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|node| (node.key.as_str(), &mut node.value))
     }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for IterMut<'a> {
-- 
2.43.0


From 1ec229e717e0bb40e97c0818cd52462cce91924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:54 +0000
Subject: [PATCH 13/13] fix: do not overflow the nesting depth of pretty output

---
 src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index fb3e4e7..ea005d0 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -230,7 +230,7 @@ impl Generator for DumpGenerator {
 /// Pretty In-Memory Generator, this uses a Vec to store the JSON result and add indent.
 pub struct PrettyGenerator {
     code: Vec<u8>,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
@@ -321,7 +321,7 @@ impl<'a, W> Generator for WriterGenerator<'a, W> where W: Write {
 /// Pretty Writer Generator, this uses a custom writer to store the JSON result and add indent.
 pub struct PrettyWriterGenerator<'a, W: 'a + Write> {
     writer: &'a mut W,
-    dent: u16,
+    dent: usize,
     spaces_per_indent: u16,
 }
 
-- 
2.43.0

