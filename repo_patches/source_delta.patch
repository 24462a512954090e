From 0e4258629340efd4d4a7a72f1551f955a2dc475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 01/42] fix: trim leading zero words after Nat - u32

---
 src/bigint/nat_amd64.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat_amd64.rs b/src/bigint/nat_amd64.rs
index 76200b2..6eb0799 100644
--- a/src/bigint/nat_amd64.rs
+++ b/src/bigint/nat_amd64.rs
@@ -112,6 +112,7 @@ impl Nat {
             c = march::_subborrow_u32(c, *x, rhs, x);
             rhs = 0;
         });
+        self.trim_head_zero();
     }
     
     
-- 
2.43.0


From b344963174ad99df930ae41ca41906f8b67d9fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 02/42] fix: trim leading zero words after Nat * u32

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 4527ef1..65fc09c 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -635,6 +635,7 @@ impl Nat {
         } else {
             self.as_mut_vec().push(pre as u32);
         }
+        self.trim_head_zero();
     }
     
     pub(super) fn div_inner_basic(&mut self, rhs: &u32) {
-- 
2.43.0


From 01cf1583842ece9ce8937972cbc0473bc248a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 03/42] fix: Nat >> by 32 bits or more keeps the high words

---
 src/bigint/nat.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 65fc09c..6e3b0b8 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -482,20 +482,16 @@ impl Nat {
                 *a = (r & mask_h) | pre;
                 pre = r & mask_l;
             });
+        } else {
+            v.rotate_left(num);
         }
         v.truncate(v.len() - num);
-        if pre > 0 {
+        if nom > 0 {
             match v.last_mut() {
                 Some(x) => *x = pre,
                 _ => {},
             };
-        } else {
-            if nom > 0 && num == 0 {
-                v.pop();
-                if v.len() == 0 {
-                    v.push(0);
-                }
-            }
+            self.trim_head_zero();
         }
     }
     
-- 
2.43.0


From 08eec4a55f94773e6e379e34b28c12f49dbf2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 04/42] fix: Nat %= a clone sharing the same storage

---
 src/bigint/nat.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 6e3b0b8..e8ba996 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -553,6 +553,12 @@ impl Nat {
     pub(super) fn rem_inner(&mut self, rhs: &Self) {
         assert_ne!(rhs, &0u32, "The modulus must not be 0");
 
+        if self.nat.as_ptr() == rhs.nat.as_ptr() {
+            self.clear();
+            self.as_mut_vec().push(0);
+            return;
+        }
+
         if self.partial_cmp_inner(rhs) == Ordering::Less {
             return;
         }
-- 
2.43.0


From 07a2e1652257e4b46aea92df172c07e0f643c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:56 +0000
Subject: [PATCH 05/42] fix: Nat 0 << n stays the canonical zero

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index e8ba996..2164339 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -449,7 +449,7 @@ impl Nat {
             if pre > 0 {v.push(pre);}
         }
         
-        if num > 0 {
+        if num > 0 && v.iter().any(|&x| x != 0) {
             v.resize(v.len() + num, 0);
             v.rotate_right(num);
         }
-- 
2.43.0


From 1cb0b689d117f803bf2cd43d6602b2206ab0dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:08 +0000
Subject: [PATCH 06/42] fix: Nat::exp with a multi-word exponent whose top word
 is 1

---
 src/bigint/nat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 2164339..8308beb 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -1808,7 +1808,7 @@ impl Nat {
 
         let mut v = *b.as_vec().last().unwrap();
         let shift = v.leading_zeros() + 1;
-        v <<= shift;
+        v = v.checked_shl(shift).unwrap_or(0);
         let mask = 1u32 << (32 - 1);
         let w = 32 - shift;
         
-- 
2.43.0


From 0f32e4da427de2dd280d4262dd7f1694f4b98592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:20 +0000
Subject: [PATCH 07/42] fix: BigInt / and % never yield a negative zero

---
 src/bigint/bigint.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 2b19192..3ae1688 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -451,6 +451,9 @@ impl BigInt {
             },
         };
         self.nat /= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn mul_inner(&mut self, rhs: Self) {
@@ -465,6 +468,9 @@ impl BigInt {
     fn rem_inner(&mut self, rhs: Self) {
         assert_ne!(rhs.nat, 0u32, "the modulus can't be the 0");
         self.nat %= rhs.nat;
+        if self.is_nan() || self.nat == 0u32 {
+            self.sign = Natural;
+        }
     }
     
     fn bitand_inner(&mut self, rhs: Self) {
-- 
2.43.0


From 7d9b91f951b63ae031ec1d93d0a63cdcbb03ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:20 +0000
Subject: [PATCH 08/42] fix: BigInt | of operands with different signs

---
 src/bigint/bigint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 3ae1688..0e9b34e 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -524,8 +524,10 @@ impl BigInt {
             } else {
                 rhs.nat - 1u32
             };
-            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(^((y-1) &^ x) + 1)
-            self.nat.and_not_assign(rhs1);
+            // x | (-y) == x | ^(y-1) == ^((y-1) &^ x) == -(((y-1) &^ x) + 1)
+            let res = rhs1.and_not(self.nat.clone());
+            self.nat.clear();
+            self.nat.as_mut_vec().extend(res.iter());
             self.nat += 1u32;
             self.sign = if self.nat.is_nan() {Natural} else {Negative};
         }
-- 
2.43.0


From 2a5769bb88172982824cda23d9316be70aa851cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:20 +0000
Subject: [PATCH 09/42] fix: BigInt and_not of two negative operands

---
 src/bigint/bigint.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 0e9b34e..9813201 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -545,9 +545,11 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) &^ (-y) == ^(x-1) &^ ^(y-1) == ^(x-1) & (y-1) == (y-1) &^ (x-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
-                self.nat.and_not_assign(rhs1);
+                self.nat -= 1u32;
+                let res = rhs1.and_not(self.nat.clone());
+                self.nat.clear();
+                self.nat.as_mut_vec().extend(res.iter());
                 self.sign = Natural;
             } else {
                 // x &^ y == x &^ y
-- 
2.43.0


From ae2f03da179ead379519de7dcf7b068ef67c1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:20 +0000
Subject: [PATCH 10/42] fix: BigInt &=, |= and ^= of a negative value with a
 clone of itself

---
 src/bigint/bigint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 9813201..452d165 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -477,8 +477,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) & (-y) == ^(x-1) & ^(y-1) == ^((x-1) | (y-1)) == -(((x-1) | (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat |= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural } else {Negative};
@@ -505,8 +505,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) | (-y) == ^(x-1) | ^(y-1) == ^((x-1) & (y-1)) == -(((x-1) & (y-1)) + 1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat &= rhs1;
                 self.nat += 1u32;
                 self.sign = if self.is_nan() {Natural} else {Negative};
@@ -582,8 +582,8 @@ impl BigInt {
         if self.sign == rhs.sign {
             if self.sign == Negative {
                 // (-x) ^ (-y) == ^(x-1) ^ ^(y-1) == (x-1) ^ (y-1)
-                self.nat -= 1u32;
                 let rhs1 = rhs.nat - 1u32;
+                self.nat -= 1u32;
                 self.nat ^= rhs1;
                 self.sign = Natural;
             } else {
-- 
2.43.0


From b4089d3bf63b0659db6935d29b2b328457f93d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:20 +0000
Subject: [PATCH 11/42] fix: BigInt::is_set_bit of negative powers of two

---
 src/bigint/bigint.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 452d165..d7a6fe9 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -700,8 +700,11 @@ impl BigInt {
     /// `None` if `bit_idx >= self.bits_len()`.
     pub fn is_set_bit(&self, i: usize) -> Option<bool> {
         if self.sign == Negative {
+            if i >= self.bits_len() {
+                return None;
+            }
             let t = self.nat.clone() - 1u32;
-            t.is_set_bit(i).map(|b| {!b})
+            Some(!t.is_set_bit(i).unwrap_or(false))
         } else {
             self.nat.is_set_bit(i)
         }
-- 
2.43.0


From be234e62b0a141cb5d3585ebd4057db6cb51436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:57 +0000
Subject: [PATCH 12/42] fix: BigInt::exp of a negative base with a negative
 exponent

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index d7a6fe9..1f7f03a 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -674,7 +674,7 @@ impl BigInt {
         let ywords = b.nat.clone();
         let mwords = n.nat.clone();
         let mut e = xwords.exp(&ywords, &mwords);
-        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
+        let is_neg = if !(e.as_vec().len() == 1 && e.as_vec()[0] == 0) && self.is_negative() && !b.is_negative() && !(ywords.as_vec().len() == 1 && ywords.as_vec()[0] == 0)
             && (ywords.as_vec()[0] & 1 == 1) {
             true
         } else {
-- 
2.43.0


From f3fcb0da274a3e0acfbce6d3390060aacbc8cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 13/42] fix: BigInt::mul_range with the lower bound i64::MIN

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 1f7f03a..eb33859 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -621,7 +621,7 @@ impl BigInt {
             BigInt::from(0u32)
         } else {
             let (is_neg, a, b) = if a < 0 {
-                (((b - a) & 1) == 0, (-b as u64), (-a as u64))
+                (((b - a) & 1) == 0, (b.wrapping_neg() as u64), (a.wrapping_neg() as u64))
             } else {
                 (false, a as u64, b as u64)
             };
-- 
2.43.0


From 28d43d138344309275660fa04df0b52234c383ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 14/42] fix: BigInt::binomial(i64::MAX, 0) overflowed

---
 src/bigint/bigint.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index eb33859..21cb280 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -640,6 +640,10 @@ impl BigInt {
             k = n - k;
         }
         
+        if k == 0 {
+            return BigInt::from(1u32);
+        }
+        
         let mut a = Self::mul_range(n-k+1, n);
         let b = Self::mul_range(1, k);
         
-- 
2.43.0


From 270ed9ceda08fe273eaaebd575a729c87e9164dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:50 +0000
Subject: [PATCH 15/42] fix: BigInt {:b} printed the prefix of the alternate
 form

---
 src/bigint/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/bigint.rs b/src/bigint/bigint.rs
index 21cb280..6d9ec47 100644
--- a/src/bigint/bigint.rs
+++ b/src/bigint/bigint.rs
@@ -1075,7 +1075,7 @@ bigint_fmt_impl!(
     (LowerHex, "{:#x}", "{:x}"),
     (UpperHex, "{:#X}", "{:X}"),
     (Debug, "{:#?}", "{:?}"),
-    (Binary, "{:#b}", "{:#b}")
+    (Binary, "{:#b}", "{:b}")
 );
 
 impl AsRef<Nat> for BigInt {
-- 
2.43.0


From 330724cbe3fd2ceae809863fba5e735b3ff1a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 16/42] fix: Nat and_not with a NaN right operand is NaN

---
 src/bigint/nat.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 8308beb..677ca25 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -251,6 +251,11 @@ impl Nat {
     }
     
     pub fn and_not_assign(&mut self, rhs: Nat) {
+        if rhs.is_nan() {
+            self.clear();
+            return;
+        }
+        
         self.iter_mut().zip(rhs.iter()).for_each(|(x, &y) | {
             *x = (*x) & (!y);
         });
-- 
2.43.0


From a2438e35006deea69cb04b2f9063b9fc709a6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 17/42] fix: Nat::random trims leading zero words

---
 src/bigint/nat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index 677ca25..cc33540 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -851,6 +851,7 @@ impl Nat {
                 break;
             }
         }
+        n.trim_head_zero();
     }
 
     /// generate a random number that belong to the range of [0, self)
-- 
2.43.0


From a8da2a5d0dffbd79849ed7bbb23cb030f319ccad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:56 +0000
Subject: [PATCH 18/42] fix: the Miller-Rabin base is never 0

---
 src/bigint/nat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/nat.rs b/src/bigint/nat.rs
index cc33540..d8cd922 100644
--- a/src/bigint/nat.rs
+++ b/src/bigint/nat.rs
@@ -910,7 +910,9 @@ impl Nat {
         let mut buf = Nat::with_capacity(self.num());
         
         for _ in 0..s {
-            self.random_inner(&mut a, rng);
+            // 1 <= a <= self - 1, 0 is not a valid base
+            n_m1.random_inner(&mut a, rng);
+            a += 1u32;
             let mut tmp = a.exp(&u, self);
             if tmp.miller_rabin_witness(self, t, &n_m1, &mut buf) {
                 return false;
-- 
2.43.0


From f5e4fc1fb65e02cd796ad2d40943c504243acbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 19/42] fix: a zero rational is 0/1, with a positive
 denominator

---
 src/bigint/rat.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 4d1cd0a..f946ae1 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -323,7 +323,9 @@ impl Rat {
     fn norm(&mut self) {
         let mut t = true;
         if self.a.is_nan() || self.a.nat == 0u32 {
+            // zero is always 0/1
             self.a.sign = Natural;
+            self.b = BigInt::from(1u32);
             t = false;
         }
         
-- 
2.43.0


From ebb98d0dc74c192d96e7f106f35b5215fcfad578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 20/42] fix: Rat::from_frac of isize::MIN does not overflow

---
 src/bigint/rat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index f946ae1..bf0a855 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -47,8 +47,8 @@ impl Rat {
             Err(RatError::new(RatErrKind::DenominatorIsZero, ""))
         } else {
             let mut z = Rat {
-                a: if denominator < 0 {BigInt::from(-numerator)} else {BigInt::from(numerator)},
-                b: BigInt::from(denominator.abs()),
+                a: if denominator < 0 {-BigInt::from(numerator)} else {BigInt::from(numerator)},
+                b: BigInt::from(denominator).abs(),
             };
             z.norm();
             Ok(z)
-- 
2.43.0


From 9f7b040ac58c5fdd9914a220b1e2564c5d047009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 21/42] fix: Rat::from_f64 scales the numerator of large values

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index bf0a855..9331cf2 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -100,7 +100,7 @@ impl Rat {
             a.sign = BISign::from(f < 0f64);
             let mut b = BigInt::from(1u32);
             let s = if shift > 0 {shift as usize} else {(-shift) as usize};
-            b.nat.shl_inner(&s);
+            if shift > 0 {b.nat.shl_inner(&s);} else {a.nat.shl_inner(&s);}
             
             let mut z = Rat {a, b};
             z.norm();
-- 
2.43.0


From 95aea6ac6e73664829d43661ccae034c0e6128df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 22/42] fix: Rat::to_f32 of zero does not panic

---
 src/bigint/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 9331cf2..0414553 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -163,7 +163,7 @@ impl Rat {
         let (emin, _emax) = (1 - ebias, ebias);
         
         if a == 0u32 {
-            (0f32, true);
+            return (0f32, true);
         }
         
         let (alen, blen) = (a.bits_len() as isize, b.bits_len() as isize);
-- 
2.43.0


From 8acf788e09ab66a8688c1e8958f9f16e37cfab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 23/42] fix: a parsed fraction is reduced to lowest terms

---
 src/bigint/rat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 0414553..3512620 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -725,7 +725,9 @@ impl FromStr for Rat {
             } else {
                 a.sign = BISign::from(a.sign != b.sign);
                 b.sign = Natural;
-                Ok(Rat {a, b})
+                let mut z = Rat {a, b};
+                z.norm();
+                Ok(z)
             }
         }
     }
-- 
2.43.0


From e7a51363b36ca7fcc4b7debc0b591c1d4424da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:46 +0000
Subject: [PATCH 24/42] fix: decimal notation is parsed to the exact rational

---
 src/bigint/rat.rs | 66 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 3512620..47317a5 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -349,6 +349,59 @@ impl Rat {
         }
     }
     
+    /// parse the decimal notation `[+-]digits.digits[(e|E)[+-]digits]` exactly
+    fn parse_decimal(s: &str) -> Result<Rat, RatError> {
+        let err = |msg: &str| Err(RatError::new(RatErrKind::ParseStringWrong, format!("`{}`: {}", s, msg)));
+        let (mantissa, exp) = match s.find(|c| c == 'e' || c == 'E') {
+            Some(i) => (&s[..i], &s[(i+1)..]),
+            None => (s, "0"),
+        };
+        let (is_neg, mantissa) = match mantissa.as_bytes().first() {
+            Some(b'-') => (true, &mantissa[1..]),
+            Some(b'+') => (false, &mantissa[1..]),
+            _ => (false, mantissa),
+        };
+        let point = match mantissa.find('.') {
+            Some(i) => i,
+            None => return err("no decimal point in the mantissa"),
+        };
+        let (int, frac) = (&mantissa[..point], &mantissa[(point+1)..]);
+        if (int.is_empty() && frac.is_empty()) || !int.bytes().chain(frac.bytes()).all(|c| c.is_ascii_digit()) {
+            return err("illegal mantissa");
+        }
+        let is_exp_neg = exp.starts_with('-');
+        let exp = exp.strip_prefix(|c| c == '-' || c == '+').unwrap_or(exp);
+        if exp.is_empty() || !exp.bytes().all(|c| c.is_ascii_digit()) {
+            return err("illegal exponent");
+        }
+        
+        let digits = format!("{}{}", int, frac);
+        let digits = digits.trim_start_matches('0');
+        if digits.is_empty() {
+            return Ok(Rat::from(0u32));
+        }
+        // an exponent that does not fit is out of the accepted range anyway
+        let exp = i64::from_str(exp).unwrap_or(std::i64::MAX);
+        let exp = (if is_exp_neg {-exp} else {exp}).saturating_sub(frac.len() as i64);
+        if exp < -1_000_000 || exp > 1_000_000 {
+            return err("the exponent is too large");
+        }
+        
+        let mut a = match BigInt::from_str(digits) {
+            Ok(a) => a,
+            Err(e) => return Err(RatError::new(RatErrKind::ParseStringWrong, e)),
+        };
+        a.sign = BISign::from(is_neg);
+        let scale = BigInt::from(Nat::from(10u32).pow(Nat::from(exp.abs() as u64)));
+        let mut z = if exp < 0 {
+            Rat {a, b: scale}
+        } else {
+            Rat {a: a * scale, b: BigInt::from(1u32)}
+        };
+        z.norm();
+        Ok(z)
+    }
+    
     pub fn abs(&self) -> Rat {
         let mut z = self.deep_clone();
         z.a.sign = Natural;
@@ -686,18 +739,7 @@ impl FromStr for Rat {
         if s.is_empty() {
             Err(RatError::new(RatErrKind::ParseStringWrong, "empty string"))
         } else if s.find('.').is_some() {
-            match f64::from_str(s) {
-                Ok(f) => {
-                    if f.is_nan() {
-                        Err(RatError::new(RatErrKind::ParseStringWrong, format!("{} is not a number", s)))
-                    } else {
-                        Ok(Rat::from(f))
-                    }
-                },
-                Err(e) => {
-                    Err(RatError::new(RatErrKind::ParseStringWrong, e))
-                }
-            }
+            Self::parse_decimal(s)
         } else {
             let slash_idx = s.find('/');
             let (a, b) = match slash_idx {
-- 
2.43.0


From c95d940c4b741d8ab104a436edfbe7c06c19a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 25/42] fix: Rat::to_f32/to_f64 report an underflow to zero as
 inexact

---
 src/bigint/rat.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/rat.rs b/src/bigint/rat.rs
index 47317a5..355dffb 100644
--- a/src/bigint/rat.rs
+++ b/src/bigint/rat.rs
@@ -226,7 +226,8 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1) as f32;
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0.0 {
+            // overflow, or underflow of a non-zero value
             (f, false)
         } else {
             (f, exact)
@@ -313,7 +314,8 @@ impl Rat {
         mantissa >>= 1; // discard rounding bit.  Mantissa now scaled by 1<<Msize1.
 
         let f = util::ldexp(mantissa as f64, exp - msize1);
-        if f.is_infinite() {
+        if f.is_infinite() || f == 0.0 {
+            // overflow, or underflow of a non-zero value
             (f, false)
         } else {
             (f, exact)
-- 
2.43.0


From fa9827c528399ef1631384cb5bbf234bfd9e0310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 26/42] fix: the linear congruential step is computed without
 reducing a*x+c modulo the word size

---
 src/rand/linear_congruential_rand.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand/linear_congruential_rand.rs b/src/rand/linear_congruential_rand.rs
index b4c67e0..7629b0f 100644
--- a/src/rand/linear_congruential_rand.rs
+++ b/src/rand/linear_congruential_rand.rs
@@ -34,7 +34,7 @@ macro_rules! lcr_calc {
     ($Type0: ty) => {
         impl Source<$Type0> for LinearCongruentialRand<$Type0> {
             fn gen(&mut self) -> Result<$Type0> {
-                let tmp = (((self.a).overflowing_mul(self.x).0).overflowing_add(self.c)).0 % self.m;
+                let tmp = (((self.a as u128) * (self.x as u128) + (self.c as u128)) % (self.m as u128)) as $Type0;
                 self.x = tmp;
                 Ok(tmp)
             }
-- 
2.43.0


From fe8dd2e7b9c7773a7d3cb24a797905301983d50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 27/42] fix: lagged Fibonacci step does not overflow for a
 full-width word size

---
 src/rand/lagged_fibonacci_rand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rand/lagged_fibonacci_rand.rs b/src/rand/lagged_fibonacci_rand.rs
index 02e9a21..da00c6f 100644
--- a/src/rand/lagged_fibonacci_rand.rs
+++ b/src/rand/lagged_fibonacci_rand.rs
@@ -99,7 +99,8 @@ macro_rules! lfr_impl {
                 let ps = if self.idx < self.short_lag {(self.long_lag + self.idx) - self.short_lag} else {self.idx - self.short_lag} as usize;
                 let idx = self.idx as usize;
                 let carry = self.carry;
-                let xi = if self.state[ps] >= (self.state[idx] + self.carry) {
+                let (sub, overflow) = self.state[idx].overflowing_add(self.carry);
+                let xi = if !overflow && self.state[ps] >= sub {
                     self.carry = 0;
                     (self.state[ps].overflowing_sub(self.state[idx]).0).overflowing_sub(carry).0
                 } else {
-- 
2.43.0


From cfb80acd6440ca918d71dd46185d9dff67ebc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 28/42] fix: the Mersenne Twister tempering shifts by s and t
 are left shifts

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 1ffc1b4..3126059 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -156,8 +156,8 @@ macro_rules! mtr_impl {
                 }
                 let mut z = self.state[self.idx as usize];
                 z ^= (z >> self.tempering_u) & self.tempering_d;
-                z ^= (z >> self.tempering_s) & self.tempering_b;
-                z ^= (z >> self.tempering_t) & self.tempering_c;
+                z ^= (z << self.tempering_s) & self.tempering_b;
+                z ^= (z << self.tempering_t) & self.tempering_c;
                 z ^= z >> self.shift_l;
                 
                 self.idx += 1;
-- 
2.43.0


From 0d414181b213f3682d948eac59dc625bfb40b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:41 +0000
Subject: [PATCH 29/42] fix: each Mersenne Twister tempering parameter must be
 non-zero as documented

---
 src/rand/mersenne_twister_rand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rand/mersenne_twister_rand.rs b/src/rand/mersenne_twister_rand.rs
index 3126059..363f653 100644
--- a/src/rand/mersenne_twister_rand.rs
+++ b/src/rand/mersenne_twister_rand.rs
@@ -45,8 +45,8 @@ impl<T> MersenneTwisterRand<T>
     pub fn new<Sd: Seed<T>>(sd: &Sd, w: T, n: T, m: T, r: T, a: T,
                             u_d: (T, T), s_b: (T, T), t_c: (T, T), l: T, f: T) -> Result<Self> {
         if w == T::default() || m == T::default() || r == T::default() || a == T::default() || 
-            u_d == (T::default(), T::default()) || s_b == (T::default(), T::default()) ||
-            t_c == (T::default(), T::default()) || l == T::default() || f == T::default() {
+            u_d.0 == T::default() || u_d.1 == T::default() || s_b.0 == T::default() || s_b.1 == T::default() ||
+            t_c.0 == T::default() || t_c.1 == T::default() || l == T::default() || f == T::default() {
             Err(RandError::new(RandErrKind::InvalidRngPara, format!("all parameters cannot be the {:?}", T::default())))
         } else if  m > n {
             Err(RandError::new(RandErrKind::InvalidRngPara, "m must be satisfy the relation: m <= n"))
-- 
2.43.0


From 3678afc0d0db3ca56021ae675b6737dd44fab5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 30/42] fix: Float sums and differences keep the precision and
 rounding mode of the left operand

---
 src/bigint/float.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index ebbe717..3a50e41 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -997,6 +997,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
@@ -1079,6 +1081,8 @@ impl Float {
                     self.usub(y);
                 } else {
                     let mut tmp = y.deep_clone();
+                    tmp.prec = self.prec;
+                    tmp.mode = self.mode;
                     tmp.neg = !self.neg;
                     tmp.usub(&*self);
                     *self = tmp;
-- 
2.43.0


From 3cebdec33fdd85b80ef59835d2cd1396ea4c8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 31/42] fix: Float division extends the dividend at its least
 significant end

---
 src/bigint/float.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 3a50e41..49684f6 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -549,8 +549,10 @@ impl Float {
         // compute adjusted x.mant such that we get enough result precision
         let d = n - (self.mant.as_vec().len() as isize) + (y.mant.as_vec().len() as isize);
         let xadj = if d > 0 {
-            let tmp = self.mant.deep_clone();
-            tmp.as_mut_vec().resize(((self.mant.as_vec().len() as isize) + d) as usize, 0);
+            // the extra words are the least significant ones
+            let tmp = Nat::nan();
+            tmp.as_mut_vec().resize(d as usize, 0);
+            tmp.as_mut_vec().extend(self.mant.iter());
             tmp
         } else {
             self.mant.clone()
-- 
2.43.0


From 5874163ce5f87ee2f58363c961446cb1d8aec02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 32/42] fix: an infinity divided by a finite Float is an
 infinity

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 49684f6..5dd7a1d 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -593,7 +593,7 @@ impl Float {
             self.uquo(y)
         } else {
             self.acc = Accuracy::Exact;
-            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && self.form.is_infinite()) {
+            if (self.form.is_zero() && y.form.is_zero()) || (self.form.is_infinite() && y.form.is_infinite()) {
                 self.form = Form::Nan;
                 self.neg = Natural;
                 // panic!("division of zero by zero or infinity by infinity");
-- 
2.43.0


From 4c7c6a3bfb95190208c31a7f9890a8c6d4f59c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 33/42] fix: zero minus a Float and a Float minus an infinity
 have the negated sign

---
 src/bigint/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 5dd7a1d..f6bdbe4 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1113,7 +1113,9 @@ impl Float {
         } else {
             // ±0 - y
             // x - ±Inf
-            self.set_float(y);
+            let mut tmp = y.deep_clone();
+            tmp.neg = !tmp.neg;
+            self.set_float(&tmp);
         }
     }
     
-- 
2.43.0


From 4b1f94a2c1a3fc9885c27db0e5cc4e972c9f3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 34/42] fix: the sum of zeros of opposite signs is +0 and
 adding or subtracting zero is exact

---
 src/bigint/float.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index f6bdbe4..9ea3cea 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -1018,9 +1018,15 @@ impl Float {
             self.form = Form::Nan;
             self.neg = BISign::from(false);
             // panic!("addition of infinities with opposite signs");
+        } else if self.form.is_zero() && y.form.is_zero() {
+            // ±0 + ±0
+            self.acc = Accuracy::Exact;
+            // -0 + -0 == -0
+            self.neg = BISign::from(self.neg == Negative && y.neg == Negative);
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf + y
             // x + ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 + y
             // x + ±Inf
@@ -1110,6 +1116,7 @@ impl Float {
         } else if self.form.is_infinite() || y.form.is_zero() {
             // ±Inf - y
             // x - ±0
+            self.acc = Accuracy::Exact;
         } else {
             // ±0 - y
             // x - ±Inf
-- 
2.43.0


From f6ba4dd1123cebf51befca274819929a3c819ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 35/42] fix: Float::from(i64::MIN) does not overflow

---
 src/bigint/float.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 9ea3cea..cd5cbef 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -317,7 +317,7 @@ impl Float {
     }
     
     fn set_i64(&mut self, x: i64) {
-        self.set_bits(x < 0, x.abs() as u64)
+        self.set_bits(x < 0, x.wrapping_abs() as u64)
     }
     
     fn set_f64(&mut self, x: f64) {
-- 
2.43.0


From 4bcfc01b84c02191b03dee393be65bd0d82e237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 36/42] fix: a Float from a rational has the precision of the
 longer of numerator and denominator

---
 src/bigint/float.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index cd5cbef..9030ff6 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -529,6 +529,8 @@ impl Float {
                 if self.prec == 0 {
                     self.prec = std::cmp::max(a.prec, b.prec);
                 }
+                a.prec = self.prec;
+                a.mode = self.mode;
                 a /= b;
                 *self = a;
             },
-- 
2.43.0


From a3e670fc6225f2b76f2ea6771b1711a07e81b95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:25 +0000
Subject: [PATCH 37/42] fix: Float::to_f32/to_f64 round up to the smallest
 subnormal, with the sign

---
 src/bigint/float.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 9030ff6..9b23fb1 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -743,9 +743,9 @@ impl Float {
                 // We handle p == 0 explicitly because it's easy and because
                 // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (-f32::MIN_POSITIVE, Accuracy::Below);
+                        return (-f32::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f32::MIN_POSITIVE, Accuracy::Above);
+                        return (f32::from_bits(1), Accuracy::Above);
                     }
                 }
             }
@@ -854,9 +854,9 @@ impl Float {
                     // We handle p == 0 explicitly because it's easy and because
                     // Float.round doesn't support rounding to 0 bits of precision.
                     if self.neg == Negative {
-                        return (f64::MIN_POSITIVE, Accuracy::Below);
+                        return (-f64::from_bits(1), Accuracy::Below);
                     } else {
-                        return (f64::MIN_POSITIVE, Accuracy::Above);
+                        return (f64::from_bits(1), Accuracy::Above);
                     }
                 }
             }
-- 
2.43.0


From 7075abfa356d67083ad1320beb881e056a612d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:25 +0000
Subject: [PATCH 38/42] fix: only the trailing zeros of a decimal are trimmed

---
 src/bigint/decimal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bigint/decimal.rs b/src/bigint/decimal.rs
index df6cd12..982ce6b 100644
--- a/src/bigint/decimal.rs
+++ b/src/bigint/decimal.rs
@@ -53,6 +53,8 @@ impl Decimal {
             for c in s.chars().rev() {
                 if c == '0' {
                     n -= 1;
+                } else {
+                    break;
                 }
             }
             s.chars().take(n).for_each(|c| {z.mant.push(c);});
-- 
2.43.0


From f8110d30062da2df54b508c18d39f8d0a1e13c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:25 +0000
Subject: [PATCH 39/42] fix: fixed-point formatting of a Float does not drop
 digits beyond the precision of the exponent format

---
 src/bigint/float_fmt.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 8909785..49efd32 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -40,7 +40,6 @@ impl Float {
         }
         
         let mut decimal = Decimal::new(&self.mant, self.exp - (self.mant.bits_len() as isize));
-        decimal.round(1 + prec);
         match fmt_char {
             'e' | 'E' => {
                 decimal.round( 1 + prec);
-- 
2.43.0


From c649f4f457f311284532c4ec0a2f19458823ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:25 +0000
Subject: [PATCH 40/42] fix: fixed-point formatting of a Float below 0.1 does
 not index before the first digit

---
 src/bigint/float_fmt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 49efd32..49f052d 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -101,7 +101,10 @@ impl Float {
         
         if prec > 0 {
             buf.push('.');
-            (0..prec).for_each(|i| {buf.push(d[(d.exp as usize) + i]);});
+            (0..prec).for_each(|i| {
+                let i = d.exp + (i as isize);
+                buf.push(if i < 0 {d.zero} else {d[i as usize]});
+            });
         }
     }
 }
-- 
2.43.0


From 58586a4d3a9d4f2c80e7fdaea3c8e646a7eb1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:25 +0000
Subject: [PATCH 41/42] fix: Float::from_str accepts every decimal notation and
 only well-formed ones

---
 src/bigint/float_fmt.rs | 53 +++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/bigint/float_fmt.rs b/src/bigint/float_fmt.rs
index 49f052d..0a9d649 100644
--- a/src/bigint/float_fmt.rs
+++ b/src/bigint/float_fmt.rs
@@ -109,6 +109,26 @@ impl Float {
     }
 }
 
+impl Float {
+    fn split_sign(s: &str) -> (bool, &str) {
+        match s.as_bytes().first() {
+            Some(b'-') => (true, &s[1..]),
+            Some(b'+') => (false, &s[1..]),
+            _ => (false, s),
+        }
+    }
+    
+    /// the digits of `s` without leading zeros, `None` if `s` is not a sequence of decimal digits
+    fn decimal_digits(s: &str) -> Option<&str> {
+        if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
+            None
+        } else {
+            let digits = s.trim_start_matches('0');
+            Some(if digits.is_empty() {"0"} else {digits})
+        }
+    }
+}
+
 impl LowerExp for Float {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         let prec = if let Some(p) = f.precision() {p} else {7};
@@ -161,7 +181,13 @@ impl FromStr for Float {
             return Err(FloatError::new(FloatErrKind::ParseStringWrong, "empty string"));
         }
         
-        let (dot_idx, se_idx, ue_idx) = (s.find('.'), s.find('e'), s.find('E'));
+        // `e` is a digit of a hexadecimal integer
+        let (_, body) = Self::split_sign(s);
+        let (dot_idx, se_idx, ue_idx) = if body.starts_with("0x") || body.starts_with("0X") {
+            (None, None, None)
+        } else {
+            (s.find('.'), s.find('e'), s.find('E'))
+        };
         
         let e_idx = if se_idx.is_some() && ue_idx.is_some() {
             return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid string"));
@@ -187,7 +213,12 @@ impl FromStr for Float {
                 if es.is_empty() {
                     (s, 0)
                 } else {
-                    let e = match BigInt::from_str(es) {
+                    let (is_neg, digits) = Self::split_sign(es);
+                    let digits = match Self::decimal_digits(digits) {
+                        Some(x) => x,
+                        None => {return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid exponent"));},
+                    };
+                    let e = match BigInt::from_str(digits).map(|x| if is_neg {-x} else {x}) {
                         Ok(x) => x,
                         Err(e) => {return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));},
                     };
@@ -214,8 +245,9 @@ impl FromStr for Float {
             None => (s, 0),
         };
         
-        let (mut buf_nu, mut buf_de) = (String::with_capacity(s.len()), String::with_capacity(s.len()));
-        let exp = match dot_idx {
+        let (mut buf_nu, mut buf_de) = (String::with_capacity(s.len()), String::from("1"));
+        let (is_neg, s) = Self::split_sign(s);
+        let exp = match s.find('.') {
             Some(idx) => {
                 buf_nu.push_str(&s[..idx]);
                 buf_nu.push_str(&s[(idx+1)..]);
@@ -227,15 +259,22 @@ impl FromStr for Float {
             }
         };
         
+        if buf_nu.is_empty() {
+            return Err(FloatError::new(FloatErrKind::ParseStringWrong, "no digits"));
+        }
+        
         if exp < 0 {
-            buf_de.push('1');
             buf_de.push_str("0".repeat((-exp) as usize).as_str());
         } else {
             buf_nu.push_str("0".repeat(exp as usize).as_str());
         }
         
-        let numerator = match BigInt::from_str(buf_nu.as_str()) {
-            Ok(n) => n,
+        let digits = match Self::decimal_digits(buf_nu.as_str()) {
+            Some(x) => x,
+            None => {return Err(FloatError::new(FloatErrKind::ParseStringWrong, "invalid string"));},
+        };
+        let numerator = match BigInt::from_str(digits) {
+            Ok(n) => if is_neg {-n} else {n},
             Err(e) => {
                 return Err(FloatError::new(FloatErrKind::ParseStringWrong, e));
             }
-- 
2.43.0


From 5774d39ef97b5dcdbbb53199c5b79e34f15fca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:30 +0000
Subject: [PATCH 42/42] fix: keep the mantissa when set_mant_exp is given a
 clone of the Float itself

---
 src/bigint/float.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bigint/float.rs b/src/bigint/float.rs
index 9b23fb1..ba385da 100644
--- a/src/bigint/float.rs
+++ b/src/bigint/float.rs
@@ -245,8 +245,11 @@ impl Float {
         self.neg = mant.neg;
         self.prec = mant.prec;
         self.exp = mant.exp;
-        self.mant.clear();
-        self.mant.as_mut_vec().extend(mant.mant.iter());
+        // `mant` may be a clone of `self`, in which case they share the mantissa
+        if self.mant.as_vec().as_ptr() != mant.mant.as_vec().as_ptr() {
+            self.mant.clear();
+            self.mant.as_mut_vec().extend(mant.mant.iter());
+        }
         
         if self.form.is_finite() {
             self.set_exp_and_round(self.exp.saturating_add(exp), 0);
-- 
2.43.0

