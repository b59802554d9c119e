From 5aff3060c7ae7ca6f0bb4f514b59e9eccf70b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 01/10] fix: mask shift amounts in release shift operators

Without overflow checks, shifting by 256 or more passed the raw amount to the
native intrinsics, which only mask it to 7 bits after a 128-bit word select:
1 << 256 gave 2^128 instead of 1, unlike primitive integers, wrapping_shl and
the LLVM intrinsics.
---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From 7dccf55c27832d841314fe8fd2f7c09ad900c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 02/10] fix: rotating by more than 256 bits panicked in debug
 builds

'256 - b' underflows for b > 256; the amount is taken modulo 256.
---
 src/intrinsics/native/rot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intrinsics/native/rot.rs b/src/intrinsics/native/rot.rs
index 8a584bc..7405cd4 100644
--- a/src/intrinsics/native/rot.rs
+++ b/src/intrinsics/native/rot.rs
@@ -6,10 +6,10 @@ use core::mem::MaybeUninit;
 
 #[inline]
 pub fn rol3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a << (b & 0xff)) | (a >> ((256 - b) & 0xff)));
+    r.write((a << (b & 0xff)) | (a >> (b.wrapping_neg() & 0xff)));
 }
 
 #[inline]
 pub fn ror3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a >> (b & 0xff)) | (a << ((256 - b) & 0xff)));
+    r.write((a >> (b & 0xff)) | (a << (b.wrapping_neg() & 0xff)));
 }
-- 
2.43.0


From 05018b8474b933a8e62626572a597252c52d39f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:01 +0000
Subject: [PATCH 03/10] fix: widen the value range of generated ctlz/cttz
 intrinsics

The u128 template's 'range(i32 0, 129)' return attributes were kept when the IR
is widened to 256 bits, so counts above 128 were poison (undefined behaviour).
---
 intrinsics/build/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intrinsics/build/main.rs b/intrinsics/build/main.rs
index 3df9168..c979657 100644
--- a/intrinsics/build/main.rs
+++ b/intrinsics/build/main.rs
@@ -40,6 +40,8 @@ fn main() -> Result<(), Box<dyn Error>> {
         let source = template
             .replace("i128", "i256")
             .replace(" 127", " 255")
+            .replace("(i32 0, 129)", "(i32 0, 257)")
+            .replace("(i256 0, 129)", "(i256 0, 257)")
             .replace("dereferenceable(16)", "dereferenceable(32)");
 
         let path = out_dir.join("intrinsics.ll");
-- 
2.43.0


From ae72a8273e5471b2fa546a6b2ad9df48ad2414ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 04/10] fix: round 256-bit integer to float conversions
 correctly

U256::as_f64 added two separately rounded halves and I256::as_f32 went
through f64, so both could round twice and be off by one ulp (or, for
values close to f32::MAX, overflow to the wrong result).
---
 src/int.rs  | 15 ++++++++++++---
 src/uint.rs | 19 ++++++++++++++-----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..79f7f5b 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -263,14 +263,23 @@ impl I256 {
     /// Cast to a primitive `f32`.
     #[inline]
     pub fn as_f32(self) -> f32 {
-        self.as_f64() as _
+        let abs = self.unsigned_abs().as_f32();
+        if self.is_negative() {
+            -abs
+        } else {
+            abs
+        }
     }
 
     /// Cast to a primitive `f64`.
     #[inline]
     pub fn as_f64(self) -> f64 {
-        let sign = self.signum128() as f64;
-        self.unsigned_abs().as_f64() * sign
+        let abs = self.unsigned_abs().as_f64();
+        if self.is_negative() {
+            -abs
+        } else {
+            abs
+        }
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is equivelent to `(self / rhs, self % rhs)`, but more effecient.
diff --git a/src/uint.rs b/src/uint.rs
index 3a1e89f..6b9f0f1 100644
--- a/src/uint.rs
+++ b/src/uint.rs
@@ -269,11 +269,20 @@ impl U256 {
     /// Cast to a primitive `f64`.
     #[inline]
     pub fn as_f64(self) -> f64 {
-        // NOTE: Binary representation of 2**128. This is used because `powi` is
-        // neither `const` nor `no_std`.
-        const HI: u64 = 0x47f0000000000000;
-        let (hi, lo) = self.into_words();
-        (hi as f64) * f64::from_bits(HI) + (lo as f64)
+        match self.into_words() {
+            (0, lo) => lo as _,
+            (hi, _) => {
+                // Keep the 128 most significant bits and record in the lowest
+                // one whether any of the dropped bits are set, so that the
+                // conversion below rounds exactly once and to nearest. Scaling
+                // back by a power of two only changes the exponent.
+                let shift = u128::BITS - hi.leading_zeros();
+                let top = *(self >> shift).low();
+                let sticky = (self << (Self::BITS - shift) != 0) as u128;
+                let scaled = (top | sticky) as f64;
+                f64::from_bits(scaled.to_bits() + ((shift as u64) << (f64::MANTISSA_DIGITS - 1)))
+            }
+        }
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is faster than computing the quotient and remainder separately.
-- 
2.43.0


From b7a7cd0e72b7058d536957a0c6a8134c153adec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 05/10] fix: panic on overflow in signed division operators

MIN / -1 and MIN % -1 (and the Euclidean forms built on them) silently
wrapped instead of panicking as documented.
---
 src/macros/ops.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index 2c8b718..2debd78 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -30,10 +30,12 @@ macro_rules! impl_ops {
             for $int | $prim
 
             impl Div {
-                / div => $div3; "divide by zero"
+                / div => $div3; "divide by zero", "divide with overflow"
             }
             impl Rem {
-                % rem => $rem3; "calculate the remainder with a divisor of zero"
+                % rem => $rem3;
+                "calculate the remainder with a divisor of zero",
+                "calculate the remainder with overflow"
             }
         }
 
@@ -224,7 +226,7 @@ macro_rules! __impl_ops_divmod {
         for $int:ident | $prim:ident
         $(
             impl $op:ident {
-                $x:tt $method:ident => $op3:path; $msg:expr
+                $x:tt $method:ident => $op3:path; $msg:expr, $ovf:expr
             }
         )*
     ) => {$(
@@ -236,6 +238,11 @@ macro_rules! __impl_ops_divmod {
                 if *rhs == 0 {
                     panic!(concat!("attempt to ", $msg));
                 }
+                // `MIN / -1` is the only quotient that is not representable, it
+                // exists only for signed integers.
+                if $int::MIN != 0 && *self == $int::MIN && *rhs == !$int::ZERO {
+                    panic!(concat!("attempt to ", $ovf));
+                }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
                 $op3(&mut result, self, rhs);
-- 
2.43.0


From 0846263d1df2a79435a659720b15a77b34068f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 06/10] fix: wrapping_div_rem_euclid panicked in debug builds
 for a divisor of MIN

The magnitude of MIN is not representable, so computing
abs_divisor.as_i256() - remainder overflowed for negative dividends.
---
 src/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 79f7f5b..b694432 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -547,8 +547,8 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
-            // cannot overflow
+            remainder = abs_divisor.as_i256().wrapping_sub(remainder);
+            // wraps for a divisor of MIN, but the result is still exact
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
             debug_assert!(false);
-- 
2.43.0


From 5c665ef829096a338dd243de22237fb931c2a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 07/10] fix: panic on overflow in signed division assignment
 operators

---
 src/macros/ops.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index 2debd78..4d5a365 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -79,20 +79,25 @@ macro_rules! impl_ops {
             impl AddAssign {
                 += add_assign => $add2, +;
             }
-            impl DivAssign {
-                /= div_assign => $div2, /;
-            }
             impl MulAssign {
                 *= mul_assign => $mul2, *;
             }
-            impl RemAssign {
-                %= rem_assign => $rem2, %;
-            }
             impl SubAssign {
                 -= sub_assign => $sub2, -;
             }
         }
 
+        __impl_ops_divmod_assign! {
+            for $int | $prim
+
+            impl DivAssign {
+                /= div_assign => /;
+            }
+            impl RemAssign {
+                %= rem_assign => %;
+            }
+        }
+
         __impl_ops_shift_assign! {
             for $int
 
@@ -419,6 +424,27 @@ macro_rules! __impl_ops_binop_assign {
     )*};
 }
 
+macro_rules! __impl_ops_divmod_assign {
+    (
+        for $int:ident | $prim:ident
+        $(
+            impl $op:ident {
+                $x:tt $method:ident => $y:tt;
+            }
+        )*
+    ) => {$(
+        impl ::core::ops::$op<&'_ $int> for $int {
+            #[inline]
+            fn $method(&mut self, rhs: &'_ $int) {
+                *self = &*self $y rhs;
+            }
+        }
+
+        __impl_ops_binop_assign_extra_variants! {
+            impl $op for $int | $prim { $method = $x }
+        }
+    )*};
+}
 macro_rules! __impl_ops_binop_assign_extra_variants {
     (
         impl $op:ident for $int:ident | $prim:ident { $method:ident = $x:tt }
-- 
2.43.0


From f36650c5080690f184caea136f551175ed464f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 08/10] fix: const literal parser rejected valid numerals when
 a partial product carried

---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..3c25414 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,8 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From 95d63a3e7aeca297c1d710e10d600086cf0b9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:40 +0000
Subject: [PATCH 09/10] fix: permissive deserialization rejects negative
 numbers for U256

---
 src/serde.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..d9b8b4e 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -197,18 +197,28 @@ pub mod permissive {
 
     #[doc(hidden)]
     pub trait Permissive: Prefixed {
-        fn cast(value: I256) -> Self;
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error;
     }
 
     impl Permissive for I256 {
-        fn cast(value: I256) -> Self {
-            value
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            Ok(value)
         }
     }
 
     impl Permissive for U256 {
-        fn cast(value: I256) -> Self {
-            value.as_u256()
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            value
+                .try_into()
+                .map_err(|_| de::Error::custom("negative number for unsigned 256-bit integer"))
         }
     }
 
@@ -237,28 +247,28 @@ pub mod permissive {
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_f32<E>(self, v: f32) -> Result<Self::Value, E>
@@ -299,7 +309,7 @@ pub mod permissive {
                 ));
             }
 
-            Ok(T::cast(i.as_i256()))
+            T::cast(i.as_i256())
         }
 
         fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
-- 
2.43.0


From 63c1dc69cb5077db37e56e039b67bad1c3c587e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:53 +0000
Subject: [PATCH 10/10] fix: keep the sign when (de)serializing compressed
 bytes for I256

---
 src/serde.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index d9b8b4e..88e72c9 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -481,9 +481,12 @@ pub mod compressed_bytes {
 
     impl CompressedBytes for I256 {
         fn leading_bits(&self) -> u32 {
-            match self.is_negative() {
-                true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+            // NOTE: Keep a sign bit, so that the value can be sign-extended when
+            // deserializing (zero is encoded as an empty byte slice).
+            match self.signum128() {
+                -1 => self.leading_ones() - 1,
+                0 => Self::BITS,
+                _ => self.leading_zeros() - 1,
             }
         }
 
@@ -503,7 +506,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, $msb:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -548,7 +551,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -604,7 +607,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, last, |l| { ..32 - l }, |l| { ..l });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -612,7 +615,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, first, |l| { l.. }, |l| { 32 - l.. });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0

