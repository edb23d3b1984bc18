From 98b00cb8679498ee77c259688b863021e5d3bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 1/8] fix: is_one looked at the most instead of the least
 significant digit

---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From cd044ea36caa56fc735d4b0c63f564f93170d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 2/8] fix: is_all_set ignored the top digit of widths that are
 multiples of 64

---
 src/apint/bitwise.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..25fcc54 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -182,10 +182,9 @@ impl ApInt {
     /// Returns``true` if all bits in the `ApInt` are set.
     pub fn is_all_set(&self) -> bool {
         let (msb, rest) = self.split_most_significant_digit();
-        if let Some(excess_bits) = self.width().excess_bits() {
-            if msb.repr().count_ones() as usize != excess_bits {
-                return false
-            }
+        let msb_bits = self.width().excess_bits().unwrap_or(Digit::BITS);
+        if msb.repr().count_ones() as usize != msb_bits {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From ac99d985f6a20f35d5ff4adbef4f2bc947ec1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 3/8] fix: signed division of unmatching widths panicked
 instead of returning an error

---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..d061c71 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1668,6 +1668,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedDivRem,
@@ -1713,6 +1716,9 @@ impl ApInt {
         lhs: &mut ApInt,
         rhs: &mut ApInt,
     ) -> Result<()> {
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(
                 DivOp::SignedRemDiv,
@@ -1754,6 +1760,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_sdiv_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
@@ -1801,6 +1810,9 @@ impl ApInt {
     /// - If `lhs` and `rhs` have unmatching bit widths.
     /// - If division by zero is attempted
     pub fn wrapping_srem_assign(&mut self, rhs: &ApInt) -> Result<()> {
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
-- 
2.43.0


From 748a177480e213b2d75ce2dbe7850b74fef51196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 4/8] fix: compact deserialization of an empty sequence
 panicked

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From 545da02c82651f61f0dd436e205a75a65d694a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:57 +0000
Subject: [PATCH 5/8] fix: from_str_radix dropped all but the first digits for
 radices that are no power of two

---
 src/apint/serialization.rs | 43 ++++++++++++++------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 53e3cea..25d1176 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -270,12 +270,9 @@ impl ApInt {
         ApInt::from_iter(data).unwrap()
     }
 
-    // Read little-endian radix digits.
+    // Read big-endian radix digits.
     //
     // Forked from: https://github.com/rust-num/num/blob/master/bigint/src/biguint.rs#L177
-    //
-    // TODO: This does not work, yet. Some parts of the algorithm are
-    //       commented-out since the required functionality does not exist, yet.
     fn from_radix_digits(v: &[u8], radix: Radix) -> ApInt {
         use crate::digit::DigitRepr;
 
@@ -291,7 +288,7 @@ impl ApInt {
         let big_digits = (bits / Digit::BITS) + 1;
         let mut data = Vec::with_capacity(big_digits as usize);
 
-        let (_base, power) = radix.get_radix_base();
+        let (base, power) = radix.get_radix_base();
         let radix = DigitRepr::from(radix.to_u8());
 
         let r = v.len() % power;
@@ -301,35 +298,27 @@ impl ApInt {
         let first = head
             .iter()
             .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-        data.push(first);
+        data.push(Digit(first));
 
         debug_assert!(tail.len() % power == 0);
         for chunk in tail.chunks(power) {
-            if data.last() != Some(&0) {
-                data.push(0);
-            }
-
-            let carry = 0;
-            for _d in &mut data {
-                // *d = mac_with_carry(0, *d, base, &mut carry); // TODO! This
-                // was commented out.
-
-                // // fn carry_mul_add(a: Digit, b: Digit, c: Digit, carry:
-                // Digit) -> DigitAndCarry // Returns the result
-                // of `(a + (b * c)) + carry` and its implied carry value.
-
-                // let DigitAndCarry(d, carry) = carry_mul_add(digit::ZERO, *d,
-                // base, carry); // TODO! This was commented out.
-            }
-            debug_assert!(carry == 0);
-
-            let _n = chunk
+            let n = chunk
                 .iter()
                 .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-            // add2(&mut data, &[n]); // TODO: This was commented out.
+
+            // data = data * base + n
+            let mut carry = Digit(n);
+            for d in &mut data {
+                let (lo, hi) = d.carrying_mul_add(base, carry);
+                *d = lo;
+                carry = hi;
+            }
+            if !carry.is_zero() {
+                data.push(carry);
+            }
         }
 
-        ApInt::from_iter(data.into_iter().map(Digit)).unwrap()
+        ApInt::from_iter(data).unwrap()
     }
 }
 
-- 
2.43.0


From 896f3b47f37bc024918e23e029e5917f3ee527ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:23 +0000
Subject: [PATCH 6/8] fix: octal formatting and to_string_radix were
 unimplemented and panicked

---
 src/apint/serialization.rs | 45 ++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 25d1176..6cb4587 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -2,6 +2,7 @@ use crate::{
     mem::{string::String, vec::Vec},
     ApInt,
     Digit,
+    DoubleDigit,
     Error,
     Radix,
     Result,
@@ -52,8 +53,7 @@ impl fmt::Octal for ApInt {
         if self.is_zero() {
             return write!(f, "0")
         }
-        unimplemented!()
-        // Ok(())
+        f.write_str(&self.to_string_radix(8))
     }
 }
 
@@ -332,9 +332,46 @@ impl ApInt {
     where
         R: Into<Radix>,
     {
-        let _radix = radix.into();
+        use crate::digit::DigitRepr;
+
+        let radix = DigitRepr::from(radix.into().to_u8());
 
-        unimplemented!();
+        // The greatest power of the radix that fits into a `Digit`.
+        let (mut base, mut power) = (radix, 1);
+        while let Some(b) = base.checked_mul(radix) {
+            base = b;
+            power += 1;
+        }
+        let base = Digit(base);
+
+        let mut data: Vec<Digit> = self.as_digit_slice().to_vec();
+        // The digits of the result starting with the least significant one.
+        let mut res: Vec<char> = Vec::new();
+        while data.iter().any(|d| !d.is_zero()) {
+            // data, rem = data / base, data % base
+            let mut rem = Digit::ZERO;
+            for d in data.iter_mut().rev() {
+                let (quo, r) = DoubleDigit::from_lo_hi(*d, rem)
+                    .wrapping_divrem(base.dd());
+                *d = quo.lo();
+                rem = r.lo();
+            }
+            let mut rem = rem.repr();
+            for _ in 0..power {
+                let digit =
+                    core::char::from_digit((rem % radix) as u32, radix as u32)
+                        .expect("a remainder is a valid digit of its radix");
+                res.push(digit);
+                rem /= radix;
+            }
+        }
+        while let Some('0') = res.last() {
+            res.pop();
+        }
+        if res.is_empty() {
+            return String::from("0")
+        }
+        res.into_iter().rev().collect()
     }
 }
 
-- 
2.43.0


From 1c9f05133dd99bd3a7ab6564b187122a2b460c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:23 +0000
Subject: [PATCH 7/8] fix: the error for an invalid character did not carry its
 position and the character

---
 src/apint/serialization.rs | 17 +++++++----------
 src/errors.rs              |  2 +-
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 6cb4587..e07df50 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -167,20 +167,17 @@ impl ApInt {
 
         // First normalize all characters to plain digit values.
         let mut v = Vec::with_capacity(input.len());
-        for (i, b) in input.bytes().enumerate() {
-            let d = match b {
-                b'0'..=b'9' => b - b'0',
-                b'a'..=b'z' => b - b'a' + 10,
-                b'A'..=b'Z' => b - b'A' + 10,
-                b'_' => continue,
+        for (i, ch) in input.char_indices() {
+            let d = match ch {
+                '0'..='9' => ch as u8 - b'0',
+                'a'..='z' => ch as u8 - b'a' + 10,
+                'A'..='Z' => ch as u8 - b'A' + 10,
+                '_' => continue,
                 _ => ::core::u8::MAX,
             };
             if !radix.is_valid_byte(d) {
                 return Err(Error::invalid_char_in_string_repr(
-                    input,
-                    radix,
-                    i,
-                    char::from(b),
+                    input, radix, i, ch,
                 ))
             }
             v.push(d);
diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0


From 44906f62eb7e533336f9e0a3bbf1cabee6ddbd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:23 +0000
Subject: [PATCH 8/8] fix: Int::try_to_iN accepted values above the maximum and
 rejected negative ones

---
 src/int.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 2f6fb4b..0e2f9cf 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -2,10 +2,12 @@
 //! `std_ops.rs`
 
 use crate::{
+    apint::PrimitiveTy,
     utils::{forward_bin_mut_impl, forward_mut_impl, try_forward_bin_mut_impl},
     ApInt,
     BitPos,
     BitWidth,
+    Error,
     Result,
     ShiftAmount,
     UInt,
@@ -461,6 +463,29 @@ impl Int {
         self.value.try_to_bool()
     }
 
+    /// Returns `value`, the result of resizing this `Int` to the signed
+    /// primitive type `ty`, if it still represents the value of this `Int`.
+    ///
+    /// # Errors
+    ///
+    /// - If the value represented by this `Int` can not be represented by `ty`.
+    fn try_to_signed<T>(&self, value: T, ty: PrimitiveTy) -> Result<T>
+    where
+        T: Copy + Into<Int>,
+    {
+        // Everything fits into a type that is at least as wide.
+        if self.width() > ty.associated_width()
+            && value.into().into_resize(self.width()) != *self
+        {
+            return Error::encountered_unrepresentable_value(
+                self.value.clone(),
+                ty,
+            )
+            .into()
+        }
+        Ok(value)
+    }
+
     /// Tries to represent the value of this `Int` as a `i8`.
     ///
     /// # Note
@@ -473,7 +498,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `u8`.
     pub fn try_to_i8(&self) -> Result<i8> {
-        self.value.try_to_i8()
+        self.try_to_signed(self.resize_to_i8(), PrimitiveTy::I8)
     }
 
     /// Tries to represent the value of this `Int` as a `i16`.
@@ -488,7 +513,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i16`.
     pub fn try_to_i16(&self) -> Result<i16> {
-        self.value.try_to_i16()
+        self.try_to_signed(self.resize_to_i16(), PrimitiveTy::I16)
     }
 
     /// Tries to represent the value of this `Int` as a `i32`.
@@ -503,7 +528,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i32`.
     pub fn try_to_i32(&self) -> Result<i32> {
-        self.value.try_to_i32()
+        self.try_to_signed(self.resize_to_i32(), PrimitiveTy::I32)
     }
 
     /// Tries to represent the value of this `Int` as a `i64`.
@@ -518,7 +543,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i64`.
     pub fn try_to_i64(&self) -> Result<i64> {
-        self.value.try_to_i64()
+        self.try_to_signed(self.resize_to_i64(), PrimitiveTy::I64)
     }
 
     /// Tries to represent the value of this `Int` as a `i128`.
@@ -537,7 +562,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i128`.
     pub fn try_to_i128(&self) -> Result<i128> {
-        self.value.try_to_i128()
+        self.try_to_signed(self.resize_to_i128(), PrimitiveTy::I128)
     }
 }
 
-- 
2.43.0

