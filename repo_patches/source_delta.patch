From 363c014907f983476524ba379c8113fdcc112fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 01/20] fix: Num::is_equal compares with the bits of the
 vector, not with the allocations it was made from

---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..65e493b 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -106,12 +106,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = other
+            .bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0


From 38c24bf29760b355bf7799dadee878df9132ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 02/20] fix: nat_to_f refuses numbers outside the field instead
 of wrapping them

---
 src/util/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..394f38e 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -21,7 +21,8 @@ pub fn f_to_nat<Scalar: PrimeField>(f: &Scalar) -> BigInt {
 /// Convert a natural number to a field element.
 /// Returns `None` if the number is too big for the field.
 pub fn nat_to_f<Scalar: PrimeField>(n: &BigInt) -> Option<Scalar> {
-    Scalar::from_str_vartime(&format!("{}", n))
+    // from_str_vartime reduces modulo the field's order
+    Scalar::from_str_vartime(&format!("{}", n)).filter(|f| f_to_nat(f) == *n)
 }
 
 /// Convert a `usize` to a field element.
-- 
2.43.0


From 147ca2bb1d5d64d1aa0d7b29cc7ce7e31c52d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 03/20] fix: BigNat::concat has no limb values unless both
 operands have them

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..ff4e5ff 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -647,11 +647,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         };
         let mut limbs = other.limbs.clone();
         limbs.extend(self.limbs.iter().cloned());
-        let mut limb_values = other.limb_values.clone();
-        limb_values.as_mut().map(|x| {
+        let limb_values = other.limb_values.as_ref().and_then(|x| {
             self.limb_values
                 .as_ref()
-                .map(|y| x.extend(y.iter().cloned()))
+                .map(|y| x.iter().chain(y.iter()).cloned().collect())
         });
         let value = self.value.clone().and_then(|sv| {
             other
-- 
2.43.0


From 1e06ba80249954f49ab26cbe317c92fdf0a2b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 04/20] fix: Bitvector push, insert and append drop the values
 when an added bit has none

---
 src/util/bit.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/util/bit.rs b/src/util/bit.rs
index 2bea764..a91bb18 100644
--- a/src/util/bit.rs
+++ b/src/util/bit.rs
@@ -77,25 +77,37 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn push(&mut self, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.push(v)));
+        self.values = match (self.values.take(), b.value.take()) {
+            (Some(mut vs), Some(v)) => {
+                vs.push(v);
+                Some(vs)
+            }
+            _ => None,
+        };
         self.bits.push(b.bit);
     }
 
     pub fn insert(&mut self, i: usize, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.insert(i, v)));
+        self.values = match (self.values.take(), b.value.take()) {
+            (Some(mut vs), Some(v)) => {
+                vs.insert(i, v);
+                Some(vs)
+            }
+            _ => None,
+        };
         self.bits.insert(i, b.bit);
     }
 
     pub fn append(&mut self, mut other: Self) {
         let ovs = other.values.take();
         self.bits.extend(other.bits.into_iter());
-        self.values
-            .as_mut()
-            .map(|vs| ovs.map(|ovs| vs.extend(ovs.into_iter())));
+        self.values = match (self.values.take(), ovs) {
+            (Some(mut vs), Some(ovs)) => {
+                vs.extend(ovs.into_iter());
+                Some(vs)
+            }
+            _ => None,
+        };
     }
 
     pub fn into_bits(mut self) -> Vec<Bit<Scalar>> {
-- 
2.43.0


From ffd9883a1aab15b6ec3256ba9125c41cc0ff0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 05/20] fix: truncate_limbs and scale by zero do not keep a
 min_bits the result need not have

---
 src/mp/bignat.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index ff4e5ff..c51ab41 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -683,9 +683,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            // Nothing is known about the low-order limbs alone
+            new.params.min_bits = 0;
         }
         new
     }
@@ -864,6 +863,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             *v *= f_to_nat(&constant);
         }
         new.params.max_word *= f_to_nat(&constant);
+        if bool::from(constant.is_zero()) {
+            new.params.min_bits = 0;
+        }
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
     }
-- 
2.43.0


From 6dd9d289f49b2a9f84fb15cd671e4389e74764cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 06/20] fix: n_bits counts the overlap of limbs wider than
 limb_width

---
 src/mp/bignat.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index c51ab41..4321977 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1275,7 +1275,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
     pub fn n_bits(&self) -> usize {
         assert!(self.params.n_limbs > 0);
-        self.params.limb_width * (self.params.n_limbs - 1) + self.params.max_word.bits() as usize
+        // The largest number whose limbs are all at most max_word
+        let max_value: BigInt = &self.params.max_word
+            * (int_with_n_ones(self.params.limb_width * self.params.n_limbs)
+                / int_with_n_ones(self.params.limb_width));
+        max_value.bits() as usize
     }
 }
 
-- 
2.43.0


From 039a6a67f7ec7c1faf6ea0ee49057388614897da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 07/20] fix: carries of equal_when_carried get enough bits: the
 float estimate was too small

---
 src/mp/bignat.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 4321977..961d227 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::BigInt;
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -42,6 +41,13 @@ fn int_with_n_ones(n: usize) -> BigInt {
     m
 }
 
+/// The number of bits of the largest carry between limbs of width `limb_width`, when each step
+/// adds the carry to a number in `0..=2 * max_word`.
+fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+    let max_carry: BigInt = (max_word * 2 - 1) / int_with_n_ones(limb_width);
+    max_carry.bits() as usize
+}
+
 /// Compute the limbs encoding a natural number.
 /// The limbs are assumed to be based the `limb_width` power of 2.
 pub fn nat_to_limbs<'a, Scalar: PrimeField>(
@@ -719,9 +725,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -796,9 +800,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From b9b3784cce39183c12f483d5e484e5428b16d78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 08/20] fix: equal_when_carried carries into the limbs only one
 operand has

---
 src/mp/bignat.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 961d227..67de7ed 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -720,8 +720,11 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over the longer of the two: the carry out of the limbs both
+        // have need not be zero.
+        let n = max(self.limbs.len(), other.limbs.len());
+        let this = self.with_n_limbs::<CS>(n);
+        let other = other.with_n_limbs::<CS>(n);
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -731,7 +734,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         for i in 0..n {
             let carry = Num::alloc(cs.namespace(|| format!("carry value {}", i)), || {
                 Ok(nat_to_f(
-                    &((f_to_nat(&self.limb_values.grab()?[i])
+                    &((f_to_nat(&this.limb_values.grab()?[i])
                         + f_to_nat(&carry_in.value.unwrap())
                         + max_word
                         - f_to_nat(&other.limb_values.grab()?[i]))
@@ -746,7 +749,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 |lc| lc,
                 |lc| lc,
                 |lc| {
-                    lc + &carry_in.num + &self.limbs[i] - &other.limbs[i]
+                    lc + &carry_in.num + &this.limbs[i] - &other.limbs[i]
                         + (nat_to_f(&max_word).unwrap(), CS::one())
                         - (nat_to_f(&target_base).unwrap(), &carry.num)
                         - (
@@ -770,23 +773,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             }
             carry_in = Num::from(carry);
         }
-
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From 75fced1ecd498988cbace44c4583074e1d3ce858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 09/20] fix: BigNat::sub range-checks the difference

---
 src/mp/bignat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 67de7ed..491649b 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -873,6 +873,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        diff.assert_well_formed(cs.namespace(|| "rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From 61b50e236a47673eaa724d5aa42ba80c3557da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 10/20] fix: BigNat::mux keeps the limbs and the bounds of what
 it selects

---
 src/mp/bignat.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 491649b..e3dc067 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1322,20 +1322,17 @@ impl<Scalar: PrimeField> Gadget for BigNat<Scalar> {
             eprintln!("Wire mis-match in BigNat mux");
             return Err(SynthesisError::Unsatisfiable);
         }
-        let value: Option<&Self::Value> = s
+        let limb_values = s
             .value
-            .and_then(|b| if b { i1.value() } else { i0.value() });
-        let out: Self = Self::alloc(
+            .and_then(|b| if b { i1.wire_values() } else { i0.wire_values() });
+        let mut out = Self::alloc_from_limbs(
             cs.namespace(|| "out"),
-            value,
-            (),
-            &BigNatParams {
-                min_bits: min(i0.params.min_bits, i1.params.min_bits),
-                max_word: max(i0.params.max_word.clone(), i1.params.max_word.clone()),
-                limb_width: i0.params.limb_width,
-                n_limbs: i0.params.n_limbs,
-            },
+            || Ok(limb_values.grab()?.clone()),
+            Some(max(i0.params.max_word.clone(), i1.params.max_word.clone())),
+            i0.params.limb_width,
+            i0.params.n_limbs,
         )?;
+        out.params.min_bits = min(i0.params.min_bits, i1.params.min_bits);
         let out_wires = out.wires();
         for (i, ((i0w, i1w), out_w)) in i0_wires
             .into_iter()
-- 
2.43.0


From da1997f1a4b6416f71fcd66eb19dbb768147df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 11/20] fix: BigNat::min checks that what it returns is the
 lesser

---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index e3dc067..44bd64a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -967,7 +967,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From f7416556c22b85ea2751134e4d935b8b343288f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 12/20] fix: the quotient of mult_mod and red_mod gets the
 limbs it may need

---
 src/mp/bignat.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 44bd64a..04ef733 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1062,8 +1062,8 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(BigNat<Scalar>, BigNat<Scalar>), SynthesisError> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+        let quotient_bits = (self.n_bits() + other.n_bits())
+            .saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1133,7 +1133,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self
+            .n_bits()
+            .saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
-- 
2.43.0


From e729d4448d8ab2f2f37bfb606ca6625b01d06e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 13/20] fix: mult_mod and red_mod constrain the remainder to be
 below the modulus

---
 src/btc_validation/difficulty_update.rs | 2 +-
 src/mp/bignat.rs                        | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..33974f4 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -89,7 +89,7 @@ CS: ConstraintSystem<Scalar>,
     assert!(res_lower & res_upper);
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 04ef733..2936ad3 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1061,6 +1061,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         modulus: &Self,
     ) -> Result<(BigNat<Scalar>, BigNat<Scalar>), SynthesisError> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
+        self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
         let quotient_bits = (self.n_bits() + other.n_bits())
             .saturating_sub(modulus.params.min_bits.saturating_sub(1));
@@ -1093,6 +1094,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        modulus.sub(
+            cs.namespace(|| "remainder below modulus"),
+            &remainder.shift::<CS>(Scalar::ONE),
+        )?;
         let a_poly = Polynomial::from(self.clone());
         let b_poly = Polynomial::from(other.clone());
         let mod_poly = Polynomial::from(modulus.clone());
@@ -1151,6 +1156,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        modulus.sub(
+            cs.namespace(|| "remainder below modulus"),
+            &remainder.shift::<CS>(Scalar::ONE),
+        )?;
         let mod_poly = Polynomial::from(modulus.clone());
         let q_poly = Polynomial::from(BigNat::from(quotient.clone()));
         let r_poly = Polynomial::from(BigNat::from(remainder.clone()));
-- 
2.43.0


From 237e4efd69ff522c389ae764ddf6ba402eb0f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 14/20] fix: from_num admits only the canonical representation
 of the number

---
 src/mp/bignat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 2936ad3..5801de4 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -290,6 +290,14 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let bv = bignat.decompose(cs.namespace(|| "bv"))?;
         // (2) recompose bits and check if it equals n
         n.is_equal(cs.namespace(|| "n"), &bv)?;
+        // (3) when the bits can exceed the field's order, exclude the other numbers congruent to n
+        if limb_width * n_limbs > Scalar::CAPACITY as usize {
+            let limbs = nat_to_limbs::<Scalar>(&f_to_nat(&-Scalar::ONE), limb_width, n_limbs)?
+                .into_iter()
+                .map(|l| Num::new(Some(l), LinearCombination::zero() + (l, CS::one())))
+                .collect();
+            Self::from_limbs(limbs, limb_width).sub(cs.namespace(|| "canonical"), &bignat)?;
+        }
 
         Ok(bignat)
     }
-- 
2.43.0


From 7372f2d67e86235b0a481ca20d9a1f9b1f6ca6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 15/20] fix: less_than and leq constrain what they compare, and
 shift by the right power above 126 bits

---
 src/btc_validation/median.rs | 75 +++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..c232e0f 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -6,6 +6,7 @@ use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::num;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -100,6 +101,20 @@ CS: ConstraintSystem<Scalar>,
     leq(cs.namespace(|| "median leq"), &lhs, &fe_median_occ, 32usize)
 }
 
+/// 2^(n_bits + 1), what the difference of two numbers of n_bits bits is shifted by
+fn zero_shift<Scalar: PrimeField>(n_bits: usize) -> Scalar {
+    // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
+    if n_bits <= 126 {
+        Scalar::from_u128(2 << n_bits)
+    }
+    else {
+        let shift1 = Scalar::from_u128(1 << (n_bits - 126));
+        let mut shift2 = Scalar::from_u128(2 << 126);
+        shift2.mul_assign(&shift1);
+        shift2
+    }
+}
+
 /// Takes two allocated numbers (a, b) and returns
 /// allocated boolean variable with value `true`
 /// if the `a` and `b` are such that a is strictly less than b, 
@@ -114,21 +129,11 @@ where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
 {
+    let zero_shift: Scalar = zero_shift(n_bits);
     let zero_shifted_cmp = AllocatedNum::alloc(cs.namespace(|| "zero shift"), || {
         let mut cmp_val = a.get_value().unwrap();
         let b_value = b.get_value().unwrap();
 
-        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
-        let zero_shift = if n_bits <= 126 { 
-            Scalar::from_u128(2 << n_bits) 
-        } 
-        else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
-            let mut shift2 = Scalar::from_u128(2 << 126);
-            shift2.mul_assign(&shift1);
-            shift2
-        };
-
         cmp_val.add_assign(&zero_shift);
         cmp_val.sub_assign(&b_value);
 
@@ -155,6 +160,24 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain:
+    // zero_shifted_cmp = a + 2^(n_bits + 1) - b
+    cs.enforce(
+        || "zero_shifted_cmp = a + 2^(n_bits + 1) - b",
+        |lc| lc + a.get_variable() + (zero_shift, CS::one()) - b.get_variable(),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+    // Constrain n_bit_zero_cmp to be the low n_bits + 1 bits of zero_shifted_cmp,
+    // which has no bits above the next one
+    num::Num::from(n_bit_zero_cmp.clone()).fits_in_bits(cs.namespace(|| "n_bits zero cmp bits"), n_bits + 1)?;
+    cs.enforce(
+        || "zero_shifted_cmp - n_bit_zero_cmp is 0 or 2^(n_bits + 1)",
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable(),
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable() - (zero_shift, CS::one()),
+        |lc| lc,
+    );
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
     // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
@@ -179,22 +202,12 @@ where
     Scalar: PrimeField,
     CS: ConstraintSystem<Scalar>,
 {
+    let zero_shift: Scalar = zero_shift(n_bits);
     let zero_shifted_cmp = AllocatedNum::alloc(cs.namespace(|| "zero shift leq"), || {
         let mut cmp_val = a.get_value().unwrap();
         let mut b_value = b.get_value().unwrap();
         b_value.add_assign(Scalar::ONE);
 
-        // Accomodating n_bits > 128 (i.e a and b atleast 128 bits)
-        let zero_shift = if n_bits <= 126 { 
-            Scalar::from_u128(2 << n_bits) 
-        } 
-        else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
-            let mut shift2 = Scalar::from_u128(2 << 126);
-            shift2.mul_assign(&shift1);
-            shift2
-        };
-
         cmp_val.add_assign(&zero_shift);
         cmp_val.sub_assign(&b_value);
 
@@ -221,6 +234,24 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain:
+    // zero_shifted_cmp = a + 2^(n_bits + 1) - b - 1
+    cs.enforce(
+        || "zero_shifted_cmp = a + 2^(n_bits + 1) - b - 1",
+        |lc| lc + a.get_variable() + (zero_shift, CS::one()) - b.get_variable() - CS::one(),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+    // Constrain n_bit_zero_cmp to be the low n_bits + 1 bits of zero_shifted_cmp,
+    // which has no bits above the next one
+    num::Num::from(n_bit_zero_cmp.clone()).fits_in_bits(cs.namespace(|| "n_bits zero cmp bits leq"), n_bits + 1)?;
+    cs.enforce(
+        || "zero_shifted_cmp - n_bit_zero_cmp is 0 or 2^(n_bits + 1) leq",
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable(),
+        |lc| lc + zero_shifted_cmp.get_variable() - n_bit_zero_cmp.get_variable() - (zero_shift, CS::one()),
+        |lc| lc,
+    );
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
-- 
2.43.0


From 247df6ea935ef66c52d49a87422e1188b229729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 16/20] fix: verify_median_timestamp rejects candidates above
 the median, and constrains all it counts

---
 src/btc_validation/median.rs | 39 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index c232e0f..7875dab 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -14,6 +13,22 @@ pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
     return prev_timestamps[prev_timestamps.len()/2];
 }
 
+/// Allocates a variable and constrains it to be the constant
+pub(crate) fn alloc_constant<Scalar, CS>(mut cs: CS, value: u64) -> Result<AllocatedNum<Scalar>, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
+    let n = AllocatedNum::alloc(cs.namespace(|| "value"), || Ok(Scalar::from(value)))?;
+    cs.enforce(
+        || "is constant",
+        |lc| lc + n.get_variable(),
+        |lc| lc + CS::one(),
+        |lc| lc + (Scalar::from(value), CS::one()),
+    );
+    Ok(n)
+}
+
 pub fn verify_median_timestamp<Scalar, CS> (mut cs: CS, timestamp_array: &mut Vec<u32>, median: u32) -> Result<Boolean, SynthesisError>
 where
 Scalar: PrimeField,
@@ -29,7 +44,7 @@ CS: ConstraintSystem<Scalar>,
     }
 
     let mut n_median_occurrences = Num::zero();
-    let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
+    let mut sign_diff = alloc_constant(cs.namespace(|| "sign_diff"), 0u64)?;
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
@@ -55,14 +70,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::from(2u64)),
             |lc| lc + delta_sign.get_variable(),
         );
 
@@ -70,8 +83,8 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    let const_0 = alloc_constant(cs.namespace(|| "zero"), 0u64)?;
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -87,13 +100,19 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
-    let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    let const_1 = alloc_constant(cs.namespace(|| "increment by 1"), 1u64)?;
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    cs.enforce(
+        || "fe_median_occ == n_median_occurrences",
+        |lc| lc + &n_median_occurrences.lc(Scalar::ONE),
+        |lc| lc + CS::one(),
+        |lc| lc + fe_median_occ.get_variable(),
+    );
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
-- 
2.43.0


From 67371a74218b3636d0da4e076009cf04a1b8a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 17/20] fix: the difficulty update constrains its bounds, its
 constants and its time sum in the circuit

---
 src/btc_validation/difficulty_update.rs | 32 +++++++++++++------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 33974f4..1bced09 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,4 +1,5 @@
 use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -18,7 +19,8 @@ where
 Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
-    let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_num = num::Num::from(fe_t_sum.clone());
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -37,14 +39,13 @@ CS: ConstraintSystem<Scalar>,
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
-
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t_sum"), 2016 * 10 * 60 / 4).unwrap();
+    let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t_sum"), 2016 * 10 * 60 * 4).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -54,7 +55,7 @@ CS: ConstraintSystem<Scalar>,
     // let rhs = prev_target.mult(cs.namespace(|| "T_old * t_sum"), &t_sum).unwrap();
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    let t_ideal_sum = num::Num::from(median::alloc_constant(cs.namespace(|| "2016 * 10 * 60"), 2016 * 10 * 60).unwrap());
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
     let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
@@ -81,14 +82,15 @@ CS: ConstraintSystem<Scalar>,
 
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
-    let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
-    let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    let t_sum_lower = median::alloc_constant(cs.namespace(|| "Lower acceptable t sum"), 2016 * 10 * 60 / 4).unwrap();
+    let t_sum_upper = median::alloc_constant(cs.namespace(|| "Upper acceptable t sum"), 2016 * 10 * 60 * 4).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is above the lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum is below the upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
-    let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    let t_ideal_sum = num::Num::from(median::alloc_constant(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), 2016 * 10 * 60).unwrap());
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
-- 
2.43.0


From fe1d623c47dcf28fb927d83f690ab35000cc5693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 18/20] fix: fits_in_bits constrains a number to zero when it
 has no bits

---
 src/util/num.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/num.rs b/src/util/num.rs
index 65e493b..41666c5 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -44,6 +44,11 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         n_bits: usize,
     ) -> Result<(), SynthesisError> {
+        // No bits leave room for zero only.
+        if n_bits == 0 {
+            cs.enforce(|| "is zero", |lc| lc, |lc| lc, |lc| lc + &self.num);
+            return Ok(());
+        }
         let v = self.value.map(|v| v);
 
         // Allocate all but the first bit.
-- 
2.43.0


From 84f7e4d7c017e85276f09f46c57195263fce8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 19/20] fix: zero divides zero: computing the cofactor divided
 by zero

---
 src/mp/bignat.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 5801de4..2ced40a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -813,7 +813,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             || {
                 let s = self.value.grab()?;
                 let o = other.value.grab()?;
-                if o.is_multiple_of(&s) {
+                if *s == BigInt::from(0) && *o == BigInt::from(0) {
+                    // Any factor will do
+                    Ok(BigInt::from(0))
+                } else if o.is_multiple_of(&s) {
                     Ok(BigInt::from(o / s))
                 } else {
                     eprintln!("Not divisible");
-- 
2.43.0


From bb02c41ea0d180c1e191a08dde81f3bcdad7b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 20/20] fix: reading a lazy cell while an earlier read is held
 panicked

borrow() took the cell mutably on every read, so two reads held at the same time (from one clone or two) panicked
with BorrowMutError. A cell that is already forced is now left alone.
---
 src/util/lazy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..9b0817b 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,10 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        if let Forced(_) = *self.cell.borrow() {
+            // nothing to do; an earlier reader may still hold the value
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0

