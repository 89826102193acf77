From b33eefb7b122e5ce38f177f91f7a582e252bba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 01/14] fix: parsing of over-long input overflowed the digit
 and exponent counters

The digit counter was an i8, so more than 127 digits panicked in debug builds
and wrapped (accepting malformed input or indexing out of bounds) in release
builds; the exponent accumulator was an unchecked i32.
---
 src/serde.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..ab0874a 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -20,8 +20,8 @@ impl FixedDecimal {
         if bs.is_empty() {
             return Err(Error::ConversionSyntax);
         }
-        let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut exp = 0i32; // exponent
+        let mut d = 0isize; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -108,7 +108,7 @@ impl FixedDecimal {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
-                exp = exp * 10 + *c as i32 - '0' as i32;
+                exp = exp.saturating_mul(10).saturating_add(*c as i32 - '0' as i32);
                 i += 1
             }
             // maximum exponent is 65, with sign at most 4 chars
@@ -131,10 +131,10 @@ impl FixedDecimal {
             last - dotchar
         };
         // apply exponent to frac
-        let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+        let (frac, digits, heading_zeroes) = {
+            let mut frac = frac_digits - exp as isize;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0isize;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -158,6 +158,8 @@ impl FixedDecimal {
         if digits as usize > MAX_DIGITS {
             return Err(Error::ConversionSyntax);
         }
+        // all of them are limited by MAX_DIGITS now
+        let (frac, digits, mut heading_zeroes) = (frac as i8, digits as i8, heading_zeroes as i8);
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
-- 
2.43.0


From 1f2c2f6e95ccbe0d6537051e2e7b156170d95828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 02/14] fix: parsing a negated zero produced a negative zero

"-0" compared less than "0" and printed as "-0".
---
 src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index ab0874a..d9cd14a 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -250,7 +250,7 @@ impl FixedDecimal {
         self.intg = digits - frac;
         self.frac = frac;
         if neg {
-            self.set_neg();
+            self.set_neg_and_check_zero();
         }
         Ok(())
     }
-- 
2.43.0


From 34adf7346a0bf2aed63f84cc68d10ddaae9f3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 03/14] fix: equal values stored in different numbers of units
 hashed differently

Hash must agree with Eq: 1 and 1.0, or 1 and the result of 1*1, are equal but
were distinct keys of a HashMap.
---
 src/decimal.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..8b6e9e8 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -167,20 +167,28 @@ impl FixedDecimal {
 
 /// Simple hash implementation on FixedDecimal.
 ///
-/// NOTE: Same numeric values with different number of
-/// internal units will have different hash code.
+/// Leading zero units of the integral part and trailing zero units
+/// of the fractional part are skipped, so same numeric values have
+/// same hash code no matter how many units they are stored in.
 impl Hash for FixedDecimal {
     fn hash<H: Hasher>(&self, state: &mut H) {
         // hash neg flag
         state.write_u8(if self.is_neg() { 1 } else { 0 });
+        let frac_units = self.frac_units();
+        let mut start = 0;
+        while start < frac_units && self.lsu[start] == 0 {
+            start += 1;
+        }
+        let mut end = self.intg_units() + frac_units;
+        while end > frac_units && self.lsu[end - 1] == 0 {
+            end -= 1;
+        }
         // hash nbr of intg units
-        let intg_units = self.intg_units();
-        state.write_u8(intg_units as u8);
+        state.write_u8((end - frac_units) as u8);
         // hash nbr of frac units
-        let frac_units = self.frac_units();
-        state.write_u8(frac_units as u8);
+        state.write_u8((frac_units - start) as u8);
         // hash all units
-        for v in &self.lsu[..intg_units + frac_units] {
+        for v in &self.lsu[start..end] {
             state.write_u32(*v as u32)
         }
     }
-- 
2.43.0


From 8addfd94c7971d147deb9c2e42d6c2012397a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 04/14] fix: addition and subtraction indexed out of bounds on
 wide sums

When the integral units of one operand plus the fractional units of the other
exceed MAX_UNITS, e.g. 65 integral digits plus 30 fractional digits, the result
is now truncated at the fractional end, as multiplication and division do.
---
 src/arith.rs | 75 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..91cfffb 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -7,6 +7,8 @@ use crate::error::{Error, Result};
 use crate::utils::{get_units, unit_leading_zeroes, units_greater_equal};
 
 const DIV_INCR_FRAC: usize = 4;
+// integral units of one operand, fractional units of the other, and a carry.
+const MAX_SUM_UNITS: usize = MAX_UNITS * 2 + 2;
 
 impl FixedDecimal {
     #[inline]
@@ -198,6 +200,7 @@ impl Rem for FixedDecimal {
 /// intg is added with 0 and carry.
 fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
+    let mut lsu = [0i32; MAX_SUM_UNITS];
     let liu = lhs.intg_units();
     let lfu = lhs.frac_units();
     let riu = rhs.intg_units();
@@ -208,13 +211,13 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     let mut res_idx: isize = 0;
     match frac_unit_diff.cmp(&0) {
         Ordering::Greater => {
-            res.lsu[..frac_unit_diff as usize].copy_from_slice(&lhs.lsu[..frac_unit_diff as usize]);
+            lsu[..frac_unit_diff as usize].copy_from_slice(&lhs.lsu[..frac_unit_diff as usize]);
             lhs_idx = frac_unit_diff;
             res_idx = frac_unit_diff;
         }
         Ordering::Less => {
             frac_unit_diff = -frac_unit_diff;
-            res.lsu[..frac_unit_diff as usize].copy_from_slice(&rhs.lsu[..frac_unit_diff as usize]);
+            lsu[..frac_unit_diff as usize].copy_from_slice(&rhs.lsu[..frac_unit_diff as usize]);
             rhs_idx = frac_unit_diff;
             res_idx = frac_unit_diff;
         }
@@ -224,7 +227,7 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     let mut carry: i32 = 0;
     while res_idx < stop {
         let (r0, c0) = add_with_carry(lhs.lsu[lhs_idx as usize], rhs.lsu[rhs_idx as usize], carry);
-        res.lsu[res_idx as usize] = r0;
+        lsu[res_idx as usize] = r0;
         carry = c0;
         lhs_idx += 1;
         rhs_idx += 1;
@@ -236,47 +239,42 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         stop = lhs_idx + intg_unit_diff;
         while lhs_idx < stop {
             let (r0, c0) = add_with_carry(lhs.lsu[lhs_idx as usize], 0, carry);
-            res.lsu[res_idx as usize] = r0;
+            lsu[res_idx as usize] = r0;
             carry = c0;
             res_idx += 1;
             lhs_idx += 1;
         }
         if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
+            lsu[res_idx as usize] = carry;
         }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
         while rhs_idx < stop {
             let (r0, c0) = add_with_carry(rhs.lsu[rhs_idx as usize], 0, carry);
-            res.lsu[res_idx as usize] = r0;
+            lsu[res_idx as usize] = r0;
             carry = c0;
             res_idx += 1;
             rhs_idx += 1;
         }
         if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
+            lsu[res_idx as usize] = carry;
         }
     } else if carry != 0 {
         // no more intg but carry is non-zero
-        res.lsu[res_idx as usize] = carry;
+        lsu[res_idx as usize] = carry;
     }
 
     let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
-        if res.lsu[(res_intg_non_zero + res_frac_units) as usize] > 0 {
+        if lsu[(res_intg_non_zero + res_frac_units) as usize] > 0 {
             break;
         }
         res_intg_non_zero -= 1;
     }
-    if res_intg_non_zero >= 0 {
-        res.intg = ((res_intg_non_zero + 1) * DIGITS_PER_UNIT as isize) as i8;
-    } else {
-        res.intg = 0;
-    }
-    Ok(())
+    store_sum(res, &lsu, (res_intg_non_zero + 1) as usize, res_frac_units as usize)
 }
 
 /// differs two decimals' absolute values, returns the negative flag.
@@ -291,6 +289,7 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// |      |  intg  |   common    |  frac  |
 fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {
     res.set_zero(); // always clear result first
+    let mut lsu = [0i32; MAX_SUM_UNITS];
     let liu = lhs.intg_units();
     let lfu = lhs.frac_units();
     let riu = rhs.intg_units();
@@ -303,14 +302,13 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     match frac_unit_diff.cmp(&0) {
         // lhs has more frac
         Ordering::Greater => {
-            res.lsu[..frac_unit_diff as usize].copy_from_slice(&lhs.lsu[..frac_unit_diff as usize]);
+            lsu[..frac_unit_diff as usize].copy_from_slice(&lhs.lsu[..frac_unit_diff as usize]);
             lhs_idx = frac_unit_diff;
             res_idx = frac_unit_diff;
         }
         Ordering::Less => {
             frac_unit_diff = -frac_unit_diff;
-            for (rst, rv) in res
-                .lsu
+            for (rst, rv) in lsu
                 .iter_mut()
                 .zip(rhs.lsu.iter())
                 .take(frac_unit_diff as usize)
@@ -328,7 +326,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     while res_idx < stop {
         let (r0, b0) =
             sub_with_borrow(lhs.lsu[lhs_idx as usize], rhs.lsu[rhs_idx as usize], borrow);
-        res.lsu[res_idx as usize] = r0;
+        lsu[res_idx as usize] = r0;
         borrow = b0;
         res_idx += 1;
         lhs_idx += 1;
@@ -340,7 +338,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             stop = lhs_idx + intg_unit_diff;
             while lhs_idx < stop {
                 let (r0, b0) = sub_with_borrow(lhs.lsu[lhs_idx as usize], 0, borrow);
-                res.lsu[res_idx as usize] = r0;
+                lsu[res_idx as usize] = r0;
                 borrow = b0;
                 res_idx += 1;
                 lhs_idx += 1;
@@ -350,7 +348,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             stop = rhs_idx - intg_unit_diff;
             while rhs_idx < stop {
                 let (r0, b0) = sub_with_borrow(0, rhs.lsu[rhs_idx as usize], borrow);
-                res.lsu[res_idx as usize] = r0;
+                lsu[res_idx as usize] = r0;
                 borrow = b0;
                 res_idx += 1;
                 rhs_idx += 1;
@@ -362,8 +360,8 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     if neg {
         borrow = 0;
         for i in 0..res_idx {
-            let (r0, b0) = sub_with_borrow(0, res.lsu[i as usize], borrow);
-            res.lsu[i as usize] = r0;
+            let (r0, b0) = sub_with_borrow(0, lsu[i as usize], borrow);
+            lsu[i as usize] = r0;
             borrow = b0;
         }
     }
@@ -371,19 +369,38 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
-        if res.lsu[(res_intg_non_zero + result_frac_units as isize) as usize] > 0 {
+        if lsu[(res_intg_non_zero + result_frac_units as isize) as usize] > 0 {
             break;
         }
         res_intg_non_zero -= 1;
     }
-    if res_intg_non_zero >= 0 {
-        res.intg = ((res_intg_non_zero + 1) * DIGITS_PER_UNIT as isize) as i8;
-    } else {
-        res.intg = 0;
-    }
+    store_sum(res, &lsu, (res_intg_non_zero + 1) as usize, result_frac_units)?;
     Ok(neg)
 }
 
+/// Stores the units of a sum or a difference. If there are more than MAX_UNITS,
+/// the least significant units of the fractional part are truncated.
+fn store_sum(
+    res: &mut FixedDecimal,
+    lsu: &[i32],
+    intg_units: usize,
+    mut frac_units: usize,
+) -> Result<()> {
+    if intg_units > MAX_UNITS {
+        // integral overflow
+        return Err(Error::Overflow);
+    }
+    let trunc_units = (intg_units + frac_units).saturating_sub(MAX_UNITS);
+    if trunc_units > 0 {
+        frac_units -= trunc_units;
+        res.frac = (frac_units * DIGITS_PER_UNIT) as i8;
+    }
+    let units = intg_units + frac_units;
+    res.lsu[..units].copy_from_slice(&lsu[trunc_units..trunc_units + units]);
+    res.intg = (intg_units * DIGITS_PER_UNIT) as i8;
+    Ok(())
+}
+
 /// multiplies two decimals' absolute values.
 /// The result frac precision is extended to sum of both precisions. until
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
-- 
2.43.0


From 9761702c05f772bb11962031e9ced14f1e8fd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 05/14] fix: multiplication failed on representable products

Leading zero units of an operand counted as integral digits, so a chain such as
1*1*1*... reported Overflow after some steps and kept fewer fractional digits
than possible; the digit sums were computed in i8 and overflowed (panic instead
of Error::Overflow for 65-digit operands); and an operand whose low units are
entirely truncated failed an assertion or indexed out of bounds.
---
 src/arith.rs   | 22 ++++++++++++++--------
 src/decimal.rs | 16 +++++++++++++++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 91cfffb..d8a0ebc 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -406,10 +406,13 @@ fn store_sum(
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let res_intg_digits = lhs.intg() + rhs.intg();
-    let res_intg_units = get_units(res_intg_digits);
-    let res_frac_digits = lhs.frac() + rhs.frac();
-    let mut res_frac_units = get_units(res_frac_digits);
+    // leading zeroes do not contribute to the result
+    let lhs_intg = lhs.intg_prec();
+    let rhs_intg = rhs.intg_prec();
+    let res_intg_digits = lhs_intg + rhs_intg;
+    let res_intg_units = (res_intg_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
+    let res_frac_digits = lhs.frac() as usize + rhs.frac() as usize;
+    let mut res_frac_units = (res_frac_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_intg_units > MAX_UNITS {
         // integral overflow
         return Err(Error::Overflow);
@@ -422,9 +425,9 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         // exceeds maximum fractional units
         res_frac_units = MAX_FRAC_UNITS;
     }
-    let liu = lhs.intg_units();
+    let liu = get_units(lhs_intg as i8);
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = get_units(rhs_intg as i8);
     let rfu = rhs.frac_units();
     // because result fractional part may be truncated, we need to calculate
     // how many units has to be shifted and can be ignored in calculation.
@@ -456,7 +459,10 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             carry = v / UNIT as i64;
             res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
         }
-        debug_assert!(res_idx >= 0);
+        if res_idx < -1 {
+            // all products of this unit are truncated
+            continue;
+        }
         if res_idx + 1 < MAX_UNITS as isize {
             res.lsu[(res_idx + 1) as usize] = carry as i32;
         } else if carry > 0 {
@@ -464,7 +470,7 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         }
         carry = 0
     }
-    res.frac = res_frac_digits.min((res_frac_units * DIGITS_PER_UNIT) as i8);
+    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;
     res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
diff --git a/src/decimal.rs b/src/decimal.rs
index 8b6e9e8..5271917 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -1,4 +1,4 @@
-use crate::utils::get_units;
+use crate::utils::{get_units, unit_leading_zeroes};
 use std::hash::{Hash, Hasher};
 use crate::error::{Result, Error};
 
@@ -111,6 +111,20 @@ impl FixedDecimal {
         get_units(self.intg())
     }
 
+    /// number of integral digits, not including leading zeroes.
+    pub(crate) fn intg_prec(&self) -> usize {
+        let frac_units = self.frac_units();
+        let mut units = self.intg_units();
+        while units > 0 {
+            let u = self.lsu[frac_units + units - 1];
+            if u > 0 {
+                return units * DIGITS_PER_UNIT - unit_leading_zeroes(u);
+            }
+            units -= 1;
+        }
+        0
+    }
+
     #[inline]
     pub fn frac(&self) -> i8 {
         self.frac
-- 
2.43.0


From 78b5d83c42d577bda26e5e1c0e8ced798907c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 06/14] fix: division miscounted digits of its result

The digit counts were cast to i8 and overflowed for large increments and for
operands with many fractional digits, and the number of integral digits of the
quotient could be one unit short (5000000000/20 claims 8 digits), which made a
later multiplication drop its most significant unit.
---
 src/arith.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index d8a0ebc..c69e2a7 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -2,7 +2,7 @@ use std::cmp::Ordering;
 use std::ops::{Add, Div, Mul, Rem, Sub};
 
 use crate::cmp::cmp_abs_lsu;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, MAX_FRAC_UNITS, MAX_UNITS, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, MAX_FRAC, MAX_FRAC_UNITS, MAX_UNITS, UNIT};
 use crate::error::{Error, Result};
 use crate::utils::{get_units, unit_leading_zeroes, units_greater_equal};
 
@@ -85,7 +85,7 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
-        div_abs(lhs, rhs, res, incr_frac as isize)?;
+        div_abs(lhs, rhs, res, incr_frac.min(MAX_FRAC) as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
         }
@@ -534,7 +534,7 @@ fn div_abs(
         incr_frac = 0;
     }
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
+    let mut res_frac_units = units_of(lhs_ext_frac + rhs_ext_frac + incr_frac);
     if res_frac_units > MAX_FRAC_UNITS {
         // exceeds maximum fractional digits
         res_frac_units = MAX_FRAC_UNITS;
@@ -555,7 +555,7 @@ fn div_abs(
     let res_intg_units: usize;
     let res_start_idx: isize;
     if res_intg > 0 {
-        res_intg_units = get_units(res_intg as i8);
+        res_intg_units = units_of(res_intg);
         if res_intg_units > MAX_UNITS {
             return Err(Error::Overflow);
         }
@@ -565,9 +565,8 @@ fn div_abs(
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-        let res_start_offset = get_units((1 - res_intg) as i8) as isize;
+        let res_start_offset = units_of(1 - res_intg) as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
-        res_intg = 0;
     }
     let res_units = res_intg_units + res_frac_units;
 
@@ -594,7 +593,7 @@ fn div_abs(
             i -= 1;
             j -= 1;
         }
-        res.intg = res_intg as i8;
+        res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
         res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
         return Ok(());
     }
@@ -701,11 +700,17 @@ fn div_abs(
         i -= 1;
         j -= 1;
     }
-    res.intg = res_intg as i8;
+    res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
 
+/// number of units to store given digits, which may exceed the range of a decimal.
+#[inline]
+fn units_of(digits: isize) -> usize {
+    (digits as usize + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT
+}
+
 /// Modulos two decimals' absolute values.
 fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-- 
2.43.0


From e1c2ac0e55078000087fb90fbff1944dab4a883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 07/14] fix: long division ran out of its dividend buffer

With 9 result units and 9 dividend units the top unit is at index 18 of an
18-unit buffer, and partial remainders below index 0 were dropped, so the last
digits of the quotient were wrong.
---
 src/arith.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index c69e2a7..1809e95 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -602,17 +602,20 @@ fn div_abs(
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    let mut buf1 = [0i32; MAX_UNITS * 3 + 1]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
+    // units appended to lhs: one for each unit of result, and enough to hold the
+    // partial remainders of the lowest one.
+    let ext_units = res_units + rhs_non_zero as usize;
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[ext_units..ext_units + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = ext_units + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[ext_units..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -638,7 +641,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = ext_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -670,14 +673,9 @@ fn div_abs(
             let mul_v = qhat * buf2[k as usize] as i64 + carry; // mul
             carry = mul_v / UNIT as i64; // update carry
             let mul_v0 = mul_v - carry * UNIT as i64; // in current unit
-            if ms_idx < 0 {
-                let (_, b0) = sub_with_borrow(0, mul_v0 as i32, borrow);
-                borrow = b0;
-            } else {
-                let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
-                buf1[ms_idx as usize] = sub_v;
-                borrow = b0;
-            }
+            let (sub_v, b0) = sub_with_borrow(buf1[ms_idx as usize], mul_v0 as i32, borrow);
+            buf1[ms_idx as usize] = sub_v;
+            borrow = b0;
             k += 1;
             ms_idx += 1;
         }
-- 
2.43.0


From 70527b6aa1f46883bb711f8c175732c1f567bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 08/14] fix: quotient estimation of long division and modulo

Step D6 of Knuth's algorithm D has to add the divisor back; it negated the
partial remainder instead. Step D3 did not limit the estimate to one unit, which
an assertion claimed to be impossible.
---
 src/arith.rs | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 1809e95..e2279ec 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -653,14 +653,12 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // qhat must fit one unit, and check if it can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
         }
@@ -682,18 +680,17 @@ fn div_abs(
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut carry: i32 = 0;
+            for k in 0..=rhs_non_zero {
+                let idx = (i - rhs_non_zero + k) as usize;
+                let (r0, c0) = add_with_carry(buf1[idx], buf2[k as usize], carry);
+                buf1[idx] = r0;
+                carry = c0;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // clear the top unit, it is covered by qhat now
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
@@ -882,13 +879,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // qhat must fit one unit, and check if it can satisfy next unit
             qhat -= 1;
             rhat += d0;
         }
@@ -910,13 +906,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut carry: i32 = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, carry);
+                *b1 = r0;
+                carry = c0;
             }
         }
         buf1[(i + 1) as usize] = 0;
-- 
2.43.0


From 8c9c8bc0763beb7b82285ab868409b0f63d611dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 09/14] fix: modulo indexed out of bounds

A dividend with leading zeroes that is less than the divisor was copied together
with its leading zero units, and the top unit of a normalized dividend of 18
units had no place in the buffer.
---
 src/arith.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index e2279ec..91c04e0 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -751,17 +751,18 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         &rhs.lsu[..],
     ) {
         Ordering::Less => {
+            // leading zeroes of lhs may not fit after its fractional part is extended
+            let lhs_units = lhs_non_zero as usize + 1;
+            res.intg = lhs.intg_prec() as i8;
             if rfu > lfu {
                 // rhs has higher fractional precision
-                res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+                res.lsu[rfu - lfu..lhs_units + rfu - lfu].copy_from_slice(&lhs.lsu[..lhs_units]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
                 return Ok(());
             }
             // lhs has higher or same fractional precision
-            res.lsu[..lfu + liu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+            res.lsu[..lhs_units].copy_from_slice(&lhs.lsu[..lhs_units]);
             res.frac = lhs_frac.max(rhs_frac);
-            res.intg = lhs_intg;
             return Ok(());
         }
         Ordering::Equal => return Ok(()), // lhs equals to rhs, result is zero
@@ -835,7 +836,7 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2];
+    let mut buf1 = [0i32; MAX_UNITS * 2 + 1]; // one more for the carry of normalization
     let mut buf2 = [0i32; MAX_UNITS * 2];
     if norm_factor == 1 {
         buf1[lhs_shift_units as usize..buf1_len as usize]
-- 
2.43.0


From 2b254bb4cd86bb57578968bf5979243db63963c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 10/14] fix: rounding to more fractional digits

In-place rounding left stale units behind (1.5 rounded to 10 digits became
1.5000000005), and a precision beyond the capacity panicked; it is limited to
the capacity now, the value is unchanged.
---
 src/round.rs | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..8f2e3f3 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,5 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_UNITS, UNIT};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -17,16 +17,18 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is greater than current decimal's precision
-            let round_frac_units = get_units(frac as i8);
+            let (round_frac, intg_units) = self.extended_frac(frac);
+            let round_frac_units = get_units(round_frac);
+            self.frac = round_frac;
             if round_frac_units == frac_units {
                 // same number of frac units
-                self.frac = frac as i8;
                 return;
             }
-            // copy with offset
-            self.lsu
-                .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
-            self.frac = frac as i8;
+            // copy with offset, and reset lower units to zero
+            let offset = round_frac_units - frac_units;
+            self.lsu.copy_within(..frac_units + intg_units, offset);
+            self.lsu[..offset].fill(0);
+            self.limit_intg_units(intg_units);
             return;
         }
         let trunc: isize;
@@ -90,11 +92,12 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is larger than or equal to current decimal's precision
-            let round_frac_units = get_units(frac as i8);
+            let (round_frac, intg_units) = self.extended_frac(frac);
+            let round_frac_units = get_units(round_frac);
             if round_frac_units == frac_units {
                 // same number of frac units
                 res.intg = self.intg;
-                res.frac = frac as i8;
+                res.frac = round_frac;
                 res.lsu = self.lsu;
                 return;
             }
@@ -102,7 +105,8 @@ impl FixedDecimal {
             res.lsu[round_frac_units - frac_units..round_frac_units + intg_units]
                 .copy_from_slice(&self.lsu[..frac_units + intg_units]);
             res.intg = self.intg;
-            res.frac = frac as i8;
+            res.frac = round_frac;
+            res.limit_intg_units(intg_units);
             return;
         }
         let trunc: isize;
@@ -154,6 +158,27 @@ impl FixedDecimal {
         }
         round_half_up(res, intg_units, frac_units, trunc, round_frac, carry);
     }
+
+    /// limits extended fractional digits to the space not occupied by integral part.
+    /// Leading zero units of integral part give way to fractional units.
+    /// Returns the fractional digits, and number of integral units to keep.
+    fn extended_frac(&self, frac: isize) -> (i8, usize) {
+        let intg_units = get_units(self.intg_prec() as i8);
+        let max_frac = (MAX_UNITS - intg_units) * DIGITS_PER_UNIT;
+        let frac = frac.min(max_frac as isize) as i8;
+        let max_intg_units = MAX_UNITS - get_units(frac);
+        (frac, self.intg_units().min(max_intg_units))
+    }
+
+    fn limit_intg_units(&mut self, intg_units: usize) {
+        if self.intg_units() > intg_units {
+            let neg = self.is_neg();
+            self.intg = (intg_units * DIGITS_PER_UNIT) as i8;
+            if neg {
+                self.set_neg();
+            }
+        }
+    }
 }
 
 fn round_half_up(
-- 
2.43.0


From 59692e018953e273e62070760e91417b1aeede79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 11/14] fix: rounding to the left of the decimal point

Rounding at the leading digit gave zero (99 rounded to -2 digits), and at a unit
boundary it always rounded down.
---
 src/round.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 8f2e3f3..72d0ef2 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -36,11 +36,17 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 self.set_zero();
                 return;
             }
+            if mod9(intg as i8) == 0 {
+                // at edge of one unit
+                if self.lsu[frac_units + div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                    carry = 1;
+                }
+            }
             self.lsu.copy_within(frac_units..frac_units + intg_units, 0);
             for v in &mut self.lsu[intg_units..frac_units + intg_units] {
                 *v = 0; // reset higher units to zero
@@ -114,11 +120,17 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 res.set_zero();
                 return;
             }
+            if mod9(intg as i8) == 0 {
+                // at edge of one unit
+                if self.lsu[frac_units + div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                    carry = 1;
+                }
+            }
             res.lsu[..intg_units].copy_from_slice(&self.lsu[frac_units..frac_units + intg_units]); // remove fractional units
             frac_units = 0;
             round_frac = 0;
-- 
2.43.0


From d00383a0c7e5ba2f5a366ca708ffeae7f00294d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 12/14] fix: rounding a negative value to zero produced a
 negative zero

---
 src/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/round.rs b/src/round.rs
index 72d0ef2..345c2f2 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -297,7 +297,7 @@ fn round_half_up(
     fd.intg = (intg_units * DIGITS_PER_UNIT) as i8;
     fd.frac = round_frac;
     if neg {
-        fd.set_neg();
+        fd.set_neg_and_check_zero();
     }
 }
 
-- 
2.43.0


From 62657e4df0660d873da8871c7d43ad7ac1b4e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 13/14] fix: rounding up indexed out of bounds if all units are
 occupied

---
 src/round.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 345c2f2..8218af7 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -198,7 +198,7 @@ fn round_half_up(
     mut intg_units: usize,
     frac_units: usize,
     trunc: isize,
-    round_frac: i8,
+    mut round_frac: i8,
     mut carry: i32,
 ) {
     let mut round_idx = div9(trunc as i8);
@@ -287,8 +287,15 @@ fn round_half_up(
             }
         }
         if carry > 0 {
-            fd.lsu[end_idx] = 1;
+            // all units are zero now
             intg_units += 1;
+            if end_idx < MAX_UNITS {
+                fd.lsu[end_idx] = 1;
+            } else {
+                // no more units, drop the least significant fractional unit
+                fd.lsu[end_idx - 1] = 1;
+                round_frac = ((frac_units - 1) * DIGITS_PER_UNIT) as i8;
+            }
         }
     }
     // clear all units below
-- 
2.43.0


From 1291387c24c013a348a274dade75c7029c279966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 14/14] fix: rounding up past the largest integral part
 corrupted the value

---
 src/round.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/round.rs b/src/round.rs
index 8218af7..0f9105c 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,6 @@
 use crate::arith::add_with_carry;
 use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_UNITS, UNIT};
+use crate::error::Error;
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -10,6 +11,8 @@ impl FixedDecimal {
     /// use round_to() method.
     /// NOTE: current round mode is always RoundHalfUp, which is
     /// the only behavior of MySQL.
+    /// Panics if the rounded value has more integral digits than
+    /// a decimal can hold, like the operators do on overflow.
     #[inline]
     pub fn round(&mut self, frac: isize) {
         let this_frac = self.frac();
@@ -291,6 +294,10 @@ fn round_half_up(
             intg_units += 1;
             if end_idx < MAX_UNITS {
                 fd.lsu[end_idx] = 1;
+            } else if frac_units == 0 {
+                // integral overflow
+                fd.set_zero();
+                panic!("rounding failed: {}", Error::Overflow);
             } else {
                 // no more units, drop the least significant fractional unit
                 fd.lsu[end_idx - 1] = 1;
-- 
2.43.0

