From c6611569fbf88ae9effbd3a242c95bdfa761bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 01/25] fix: multiplying two zero Polynomials no longer
 underflows the result length

---
 src/polynomial/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..af36d6c 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,6 +58,9 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
+    if lhs.is_empty() || rhs.is_empty() {
+        return vec![];
+    }
     let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
-- 
2.43.0


From f597ab115234018e138f738f46ae5728f8058110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 02/25] fix: Polynomial % advances on the running remainder
 instead of looping forever

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index af36d6c..20d8cda 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -555,7 +555,7 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
+            match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
-- 
2.43.0


From be5911067493dc04b615ec42c9aa92835b6c872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:49 +0000
Subject: [PATCH 03/25] fix: Polynomial division terminates and keeps its
 quotient when coefficients do not divide exactly

---
 src/polynomial/polynomial.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 20d8cda..fd90ed8 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -121,6 +121,27 @@ where
     Term::ZeroTerm
 }
 
+/// Returns the leading term of `remainder`, after its term with degree `prev_degree` has been
+/// divided by a term with coefficient `rhs_first`. If that term did not cancel exactly, then
+/// what is left of it is either too small to be divided again (eg. 1 / 2 for integers), so no
+/// term is returned, or it is a rounding error, which is discarded.
+fn next_dividend<N>(remainder: &mut [N], prev_degree: usize, rhs_first: N) -> Term<N>
+where
+    N: Zero + Copy + Div<Output = N>,
+{
+    match first_term(remainder) {
+        Term::Term(coeff, degree) if degree == prev_degree => {
+            if (coeff / rhs_first).is_zero() {
+                return Term::ZeroTerm;
+            }
+            let index = remainder.len() - degree - 1;
+            remainder[index] = N::zero();
+            first_term(remainder)
+        }
+        term => term,
+    }
+}
+
 pub(crate) fn term_with_deg<N: Zero + Copy>(terms: &[N], degree: usize) -> Term<N> {
     if degree < terms.len() {
         Term::new(terms[terms.len() - degree - 1], degree)
@@ -505,7 +526,7 @@ where
             let scale = coeff / rhs_first;
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div[offset - self_degree] = scale;
-            match first_term(&remainder) {
+            match next_dividend(&mut remainder, self_degree, rhs_first) {
                 Term::ZeroTerm => break,
                 Term::Term(coeffx, degree) => {
                     coeff = coeffx;
@@ -555,7 +576,7 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&remainder) {
+            match next_dividend(&mut remainder, self_degree, rhs_first) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
@@ -591,7 +612,7 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
+            match next_dividend(&mut self.terms, self_degree, rhs_first) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
-- 
2.43.0


From 451b813e4dd19bbb43910a6472939496c943add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:49 +0000
Subject: [PATCH 04/25] fix: SparsePolynomial division subtracts the divisor at
 the degree being eliminated

---
 src/polynomial/sparsepolynomial.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..3e0481b 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,21 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
-    N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    rhs: &BTreeMap<usize, N>,
+    rhs_scale: N,
+    rhs_shift: usize,
+) where
+    N: Copy + Zero + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
-    for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+    for (&rdeg, &rcoeff) in rhs.iter() {
+        if rcoeff.is_zero() {
+            continue;
+        }
+        match lhs.get_mut(&(rdeg + rhs_shift)) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(rdeg + rhs_shift, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -541,12 +548,11 @@ where
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
+            map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
+            div.add_term(scale, self_degree - rhs_deg);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -599,7 +605,7 @@ where
         let mut remainder = self.terms;
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
+            map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -648,7 +654,7 @@ where
         };
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
+            map_sub_w_scale(&mut self.terms, &rhs.terms, scale, self_degree - rhs_deg);
             match first_term(&self.terms) {
                 Term::ZeroTerm => {
                     break;
-- 
2.43.0


From 1e555f651531bca6b2698fe12f809db691095a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:49 +0000
Subject: [PATCH 05/25] fix: SparsePolynomial division terminates when
 coefficients do not divide exactly

---
 src/polynomial/sparsepolynomial.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 3e0481b..42c54df 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -106,6 +106,26 @@ fn first_term<N: Zero + Copy>(terms: &BTreeMap<usize, N>) -> Term<N> {
     }
 }
 
+/// Returns the leading term of `remainder`, after its term with degree `prev_degree` has been
+/// divided by a term with coefficient `rhs_first`. If that term did not cancel exactly, then
+/// what is left of it is either too small to be divided again (eg. 1 / 2 for integers), so no
+/// term is returned, or it is a rounding error, which is discarded.
+fn next_dividend<N>(remainder: &mut BTreeMap<usize, N>, prev_degree: usize, rhs_first: N) -> Term<N>
+where
+    N: Zero + Copy + Div<Output = N>,
+{
+    match first_term(remainder) {
+        Term::Term(coeff, degree) if degree == prev_degree => {
+            if (coeff / rhs_first).is_zero() {
+                return Term::ZeroTerm;
+            }
+            remainder.remove(&degree);
+            first_term(remainder)
+        }
+        term => term,
+    }
+}
+
 impl<N: Zero + Copy> SizedPolynomial<N> for SparsePolynomial<N> {
     fn term_with_degree(&self, degree: usize) -> Term<N> {
         match self.terms.get(&degree) {
@@ -553,7 +573,7 @@ where
         while self_degree >= rhs_deg {
             map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
             div.add_term(scale, self_degree - rhs_deg);
-            match first_term(&remainder) {
+            match next_dividend(&mut remainder, self_degree, rhs_first) {
                 Term::ZeroTerm => {
                     break;
                 }
@@ -606,7 +626,7 @@ where
 
         while self_degree >= rhs_deg {
             map_sub_w_scale(&mut remainder, &rhs.terms, scale, self_degree - rhs_deg);
-            match first_term(&remainder) {
+            match next_dividend(&mut remainder, self_degree, rhs_first) {
                 Term::ZeroTerm => {
                     break;
                 }
@@ -655,7 +675,7 @@ where
 
         while self_degree >= rhs_deg {
             map_sub_w_scale(&mut self.terms, &rhs.terms, scale, self_degree - rhs_deg);
-            match first_term(&self.terms) {
+            match next_dividend(&mut self.terms, self_degree, rhs_first) {
                 Term::ZeroTerm => {
                     break;
                 }
-- 
2.43.0


From c11d3cd3a4d993fb54476b167c56025461fa2d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:17 +0000
Subject: [PATCH 06/25] fix: quadratic roots are not truncated early for
 integers, and are ordered when a is negative

---
 src/polynomial/find_roots.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..dd22348 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -47,16 +47,23 @@ where
 {
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
-    let b = -b / a;
 
-    if discriminant.is_zero() {
-        return Roots::TwoRealRoots(b, b);
+    if discriminant.is_positive() {
+        // Only divide once the numerator is known, so that integers are not truncated early.
+        let sqrt = discriminant.abs_sqrt();
+        let (root_a, root_b) = ((-b + sqrt) / a, (-b - sqrt) / a);
+        return if a.is_positive() {
+            Roots::TwoRealRoots(root_a, root_b)
+        } else {
+            Roots::TwoRealRoots(root_b, root_a)
+        };
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
-    if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+    let b = -b / a;
+    if discriminant.is_zero() {
+        Roots::TwoRealRoots(b, b)
     } else {
+        let sqrt = discriminant.abs_sqrt() / a;
         Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
     }
 }
-- 
2.43.0


From d0b109d5b5475295e7ccdba62a7bf012538c768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:17 +0000
Subject: [PATCH 07/25] fix: roots of a QuadraticTrinomial without a quadratic
 term are those of its lower terms

---
 src/polynomial/array_polynomial.rs | 2 +-
 src/polynomial/find_roots.rs       | 8 ++++++++
 src/polynomial/trinomial.rs        | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index cfbc541..106a8b1 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -175,7 +175,7 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            _ => panic!("Can't factor polynomial with degree less than 2."),
         }
     }
 
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index dd22348..bf30276 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -45,6 +45,14 @@ where
         + Neg<Output = N>
         + From<u8>,
 {
+    if a.is_zero() {
+        return match (b.is_zero(), c.is_zero()) {
+            (true, true) => Roots::InfiniteRoots,
+            (true, false) => Roots::NoRoots,
+            (false, _) => Roots::OneRealRoot(-c / b),
+        };
+    }
+
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
 
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..6cb2960 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -95,7 +95,7 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            _ => panic!("Can't factor polynomial with degree less than 2."),
         }
     }
 
-- 
2.43.0


From 2c52da104f3e6ba17d7274e38f2f1720d34f227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:17 +0000
Subject: [PATCH 08/25] fix: complex_factors negates complex roots, as it does
 real ones

---
 src/polynomial/array_polynomial.rs | 10 ++++++++--
 src/polynomial/trinomial.rs        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 106a8b1..fa0997d 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -161,8 +161,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 6cb2960..220f7e7 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
-- 
2.43.0


From bb40d6333371d39dde190f0e70df9e2753b645ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:17 +0000
Subject: [PATCH 09/25] fix: cubics with three distinct real roots use the
 complex cube root in Cardano's formula

---
 src/numerics.rs              | 22 ++++++++++++++++++++++
 src/polynomial/find_roots.rs | 14 +++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..b0a3b72 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -239,6 +239,28 @@ impl Cbrt for f64 {
     }
 }
 
+pub trait Trig {
+    fn cos(self) -> Self;
+    fn atan2(self, x: Self) -> Self;
+}
+
+macro_rules! trig {
+    ($T:ty) => {
+        impl Trig for $T {
+            fn cos(self) -> Self {
+                self.cos()
+            }
+
+            fn atan2(self, x: Self) -> Self {
+                self.atan2(x)
+            }
+        }
+    };
+}
+
+trig!(f32);
+trig!(f64);
+
 pub trait CanNegate {
     fn can_negate() -> bool;
 }
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index bf30276..77df521 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -4,7 +4,7 @@ use core::ops::{Add, AddAssign, Div, DivAssign, Mul, Neg, Sub, SubAssign};
 use num::{Complex, One, Zero};
 use roots::find_roots_sturm;
 
-use crate::numerics::{AbsSqrt, Cbrt, IsPositive};
+use crate::numerics::{AbsSqrt, Cbrt, IsPositive, Trig};
 use crate::polynomial::polynomial::{first_nonzero_index, first_term};
 use crate::{Degree, Evaluable, SizedPolynomial, Term};
 
@@ -86,6 +86,7 @@ where
         + Add<Output = N>
         + AbsSqrt
         + Cbrt
+        + Trig
         + IsPositive
         + Zero
         + One
@@ -97,8 +98,15 @@ where
     let p = -b / (N::from(3) * a);
     let q = cub(p) + (b * c - N::from(3) * a * d) / (N::from(6) * sqr(a));
     let r = c / (N::from(3) * a);
-    let k = (sqr(q) + cub(r - sqr(p))).abs_sqrt();
-    let x = (q + k).cbrt() + (q - k).cbrt() + p;
+    let k_sqr = sqr(q) + cub(r - sqr(p));
+    let k = k_sqr.abs_sqrt();
+    let x = if k_sqr.is_positive() || k_sqr.is_zero() {
+        (q + k).cbrt() + (q - k).cbrt() + p
+    } else {
+        // q + k and q - k are complex conjugates, so their cube roots sum to twice the real part.
+        let modulus = (r - sqr(p)).abs_sqrt();
+        N::from(2) * modulus * (k.atan2(q) / N::from(3)).cos() + p
+    };
 
     let b = b / a + x;
     let c = c / a + b * x;
-- 
2.43.0


From cfed350bc817489ba0cc62cb21eca715d5d074d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 10/25] fix: displaying the smallest signed integer as a
 trailing coefficient does not overflow

---
 src/strings.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/strings.rs b/src/strings.rs
index 0570e04..8cd7757 100644
--- a/src/strings.rs
+++ b/src/strings.rs
@@ -1,3 +1,4 @@
+use alloc::string::ToString;
 use core::fmt;
 
 use num::One;
@@ -91,18 +92,20 @@ where
 
 pub(crate) fn write_trailing_term<N>(f: &mut fmt::Formatter, coeff: N, degree: usize) -> fmt::Result
 where
-    N: fmt::Display + One + IsPositive + PartialEq + Copy + Abs,
+    N: fmt::Display + One + IsPositive + IsNegativeOne + PartialEq + Copy + Abs,
 {
     write!(f, " {} ", if coeff.is_positive() { "+" } else { "-" })?;
 
-    let coeff = coeff.abs();
+    // The absolute value might not be representable (eg. -128i8), so drop the sign from the text.
+    let coeff_str = coeff.to_string();
+    let abs_str = coeff_str.trim_start_matches('-');
 
     if degree == 0 {
-        return write!(f, "{}", coeff);
+        return write!(f, "{}", abs_str);
     }
 
-    if !coeff.is_one() {
-        write!(f, "{}", coeff)?;
+    if !coeff.is_one() && !coeff.is_negative_one() {
+        write!(f, "{}", abs_str)?;
     }
 
     if degree > 1 {
-- 
2.43.0


From 17004e22d6c2e74c58e238435b973904263a64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 11/25] fix: Polynomial >> does not slice out of order when
 leading zeros are stored

---
 src/polynomial/polynomial.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index fd90ed8..98386e1 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -946,11 +946,12 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
         } else {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
+            let end = self.terms.len().saturating_sub(rhs);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if index > end {
                     vec![]
                 } else {
-                    self.terms[index..self.terms.len() - rhs].to_vec()
+                    self.terms[index..end].to_vec()
                 },
             }
         }
-- 
2.43.0


From ad2c5ce6ad702b9bfc22b99d0d99c43748ede5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 12/25] fix: shifting by i32::MIN does not overflow when the
 shift is reversed

---
 src/polynomial/monomial.rs         | 10 ++++++----
 src/polynomial/polynomial.rs       | 10 ++++++----
 src/polynomial/sparsepolynomial.rs | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..7cced75 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -503,7 +503,7 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 
     fn shl(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            self >> -(rhs + 1) >> 1
         } else {
             Monomial::new(self.coefficient, self.deg + (rhs as usize))
         }
@@ -513,7 +513,8 @@ impl<N: Zero + Copy> Shl<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Monomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.deg += rhs as usize;
         }
@@ -525,7 +526,7 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 
     fn shr(self, rhs: i32) -> Monomial<N> {
         if rhs < 0 {
-            self << -rhs
+            self << -(rhs + 1) << 1
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
@@ -540,7 +541,8 @@ impl<N: Zero + Copy> Shr<i32> for Monomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Monomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.deg {
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 98386e1..aece4d0 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -917,7 +917,7 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 
     fn shl(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            self >> -(rhs + 1) >> 1
         } else {
             let index = first_nonzero_index(&self.terms);
             let mut terms = self.terms[index..].to_vec();
@@ -930,7 +930,8 @@ impl<N: Zero + Copy> Shl<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShlAssign<i32> for Polynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             self.terms.extend(vec![N::zero(); rhs as usize]);
         }
@@ -942,7 +943,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 
     fn shr(self, rhs: i32) -> Polynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            self << -(rhs + 1) << 1
         } else {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
@@ -961,7 +962,8 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
 impl<N: Zero + Copy> ShrAssign<i32> for Polynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let rhs = rhs as usize;
             if rhs > self.terms.len() {
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 42c54df..52d2dd0 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -929,7 +929,7 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 
     fn shl(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self >> -rhs
+            self >> -(rhs + 1) >> 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -944,7 +944,8 @@ impl<N: Copy> Shl<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShlAssign<i32> for SparsePolynomial<N> {
     fn shl_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self >>= -rhs;
+            *self >>= -(rhs + 1);
+            *self >>= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -961,7 +962,7 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 
     fn shr(self, rhs: i32) -> SparsePolynomial<N> {
         if rhs < 0 {
-            self << -rhs
+            self << -(rhs + 1) << 1
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
@@ -978,7 +979,8 @@ impl<N: Copy> Shr<i32> for SparsePolynomial<N> {
 impl<N: Copy> ShrAssign<i32> for SparsePolynomial<N> {
     fn shr_assign(&mut self, rhs: i32) {
         if rhs < 0 {
-            *self <<= -rhs;
+            *self <<= -(rhs + 1);
+            *self <<= 1;
         } else {
             let mut terms = BTreeMap::new();
             let rhs = rhs as usize;
-- 
2.43.0


From 6c2a1aeb3c11d82c244cc360f0046f905841716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 13/25] fix: evaluating SparsePolynomial and Monomial ignores
 terms with a zero coefficient

---
 src/polynomial/monomial.rs         | 5 ++++-
 src/polynomial/sparsepolynomial.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 7cced75..d5caeae 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -163,7 +163,7 @@ where
 
 impl<N> Evaluable<N> for Monomial<N>
 where
-    N: PowUsize + Mul<Output = N> + Copy,
+    N: Zero + PowUsize + Mul<Output = N> + Copy,
 {
     /// Returns the value of the `Monomial` at the given point.
     ///
@@ -176,6 +176,9 @@ where
     /// assert_eq!(1, Monomial::new(1, 0).eval(0));
     /// ```
     fn eval(&self, point: N) -> N {
+        if self.coefficient.is_zero() {
+            return N::zero();
+        }
         self.coefficient * point.upow(self.deg)
     }
 }
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 52d2dd0..cdf57bd 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -400,7 +400,7 @@ where
 {
     fn eval(&self, point: N) -> N {
         let mut sum = N::zero();
-        for (&degree, &val) in self.terms.iter() {
+        for (val, degree) in self.ordered_term_iter() {
             sum += val * point.upow(degree);
         }
         sum
-- 
2.43.0


From 1f6e59e1231e6323445f5d071ab40114234fcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 14/25] fix: raising to a power does not truncate exponents to
 32 bits

---
 src/numerics.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index b0a3b72..6d244ae 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -89,7 +89,7 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                num::pow::pow(self, exp)
             }
         }
     };
@@ -108,17 +108,22 @@ pow_u!(i64);
 pow_u!(i128);
 pow_u!(isize);
 
-impl PowUsize for f32 {
-    fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
-    }
+macro_rules! pow_f {
+    ($T:ty) => {
+        impl PowUsize for $T {
+            fn upow(self, exp: usize) -> Self {
+                if exp <= i32::MAX as usize {
+                    self.powi(exp as i32)
+                } else {
+                    num::pow::pow(self, exp)
+                }
+            }
+        }
+    };
 }
 
-impl PowUsize for f64 {
-    fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
-    }
-}
+pow_f!(f32);
+pow_f!(f64);
 
 pub trait IsPositive {
     fn is_positive(&self) -> bool;
-- 
2.43.0


From f09dd67c645c07ad40725832e2d7215509e9fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 15/25] fix: Polynomial derivative accepts a degree equal to
 the largest value of N

---
 src/polynomial/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index aece4d0..6e435e6 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -404,8 +404,6 @@ where
     /// Will panic if `N` can not losslessly encode the numbers from 0 to the degree of `self`.
     fn derivative(&self) -> Polynomial<N> {
         let index = first_nonzero_index(&self.terms);
-        let mut degree = N::try_from_usize_cont(self.terms.len() - index)
-            .expect("Degree has no lossless representation in N.");
         let mut terms = {
             if let Some((_, terms)) = self.terms.split_at(index).1.split_last() {
                 terms.to_vec()
@@ -413,9 +411,11 @@ where
                 return Polynomial::zero();
             }
         };
+        let mut degree = N::try_from_usize_cont(terms.len())
+            .expect("Degree has no lossless representation in N.");
         for term in terms.iter_mut() {
-            degree -= N::one();
             *term *= degree;
+            degree -= N::one();
         }
         Polynomial { terms }
     }
-- 
2.43.0


From 984aaae3b7025bcecfa1261f8fcd97f99bafd965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 16/25] fix: usize::MAX is not reported as exactly
 representable by floats

---
 src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 6d244ae..cc2ad69 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -463,7 +463,7 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -474,7 +474,7 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From 7338e96374fadd3f2f23db2f5fae4893bf58eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:53 +0000
Subject: [PATCH 17/25] fix: ArrayPolynomial terms are listed with their
 degrees for every size

---
 src/polynomial/array_polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index fa0997d..03b7845 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -207,7 +207,7 @@ impl<N: Zero + Copy, const SIZE: usize> ArrayPolynomial<N, SIZE> {
                 if coeff.is_zero() {
                     None
                 } else {
-                    Some((coeff, 1 - index))
+                    Some((coeff, SIZE - index - 1))
                 }
             })
     }
-- 
2.43.0


From 2379285ca458473fb05f83b40a26067abb19d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:18 +0000
Subject: [PATCH 18/25] fix: ArrayPolynomial derivative accepts a degree equal
 to the largest value of N

---
 src/polynomial/array_polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 03b7845..a7f5858 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -80,12 +80,12 @@ where
 {
     fn derivative(&self) -> Self {
         let mut result = [N::zero(); SIZE];
-        let mut degree =
-            N::try_from_usize_cont(SIZE).expect("Degree has no lossless representation in N.");
         if SIZE >= 1 {
+            let mut degree = N::try_from_usize_cont(SIZE - 1)
+                .expect("Degree has no lossless representation in N.");
             for (&coeff_l, coeff_r) in self.coefficients.iter().zip(result[1..].iter_mut()) {
-                degree -= N::one();
                 *coeff_r = degree * coeff_l;
+                degree -= N::one();
             }
         }
         ArrayPolynomial::new(result)
-- 
2.43.0


From edf0ddca8843b1e0cbd32ca074de10fd208a299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:18 +0000
Subject: [PATCH 19/25] fix: a term with digits between x and ^ is rejected
 instead of joining them to the degree

---
 src/terms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..84b2f8c 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -78,7 +78,7 @@ where
                     if seen_caret {
                         return Err(TermFromStringError::MultipleCarets);
                     }
-                    if !seen_x {
+                    if !seen_x || !num_vec.is_empty() {
                         return Err(TermFromStringError::CaretWithoutXInFront);
                     }
                     seen_caret = true;
-- 
2.43.0


From 0a57da755bd3b07f940c71ef3ce2b1e7af6c41ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:18 +0000
Subject: [PATCH 20/25] fix: a term whose degree can not be parsed is reported
 as such

---
 src/terms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index 84b2f8c..4e5530c 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -99,7 +99,7 @@ where
             if let Ok(degree) = usize::from_str(&str) {
                 Ok(Term::new(coeff, degree))
             } else {
-                Err(TermFromStringError::CoeffCouldNotBeParsed)
+                Err(TermFromStringError::DegreeCouldNotBeParsed)
             }
         } else {
             let str: String = num_vec.iter().collect();
-- 
2.43.0


From a5f16854221d68c3362c7b5c6b7c46f0e86e229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:18 +0000
Subject: [PATCH 21/25] fix: Polynomial reports a degree it has no room for
 instead of aborting when trying to add a term

---
 src/polynomial/polynomial.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 6e435e6..fcfa8a1 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -260,23 +260,38 @@ impl<N: Copy + Zero> SizedPolynomial<N> for Polynomial<N> {
     }
 }
 
+impl<N: Zero + Copy> Polynomial<N> {
+    /// Prepends zeros until `self` stores a term with the given degree, or returns an error
+    /// if that many terms can not be stored.
+    fn try_grow(&mut self, degree: usize) -> Result<(), TryAddError> {
+        if degree >= self.terms.len() {
+            let added_zeros = (degree - self.terms.len())
+                .checked_add(1)
+                .ok_or(TryAddError::DegreeOutOfBounds)?;
+            self.terms
+                .try_reserve(added_zeros)
+                .map_err(|_| TryAddError::DegreeOutOfBounds)?;
+            self.terms
+                .splice(0..0, core::iter::repeat(N::zero()).take(added_zeros));
+        }
+        Ok(())
+    }
+}
+
 impl<N> MutablePolynomial<N> for Polynomial<N>
 where
     N: Zero + Copy + AddAssign + SubAssign + CanNegate,
 {
     fn try_add_term(&mut self, coeff: N, degree: usize) -> Result<(), TryAddError> {
+        self.try_grow(degree)?;
         Ok(self.add_term(coeff, degree))
     }
 
     fn try_sub_term(&mut self, coeff: N, degree: usize) -> Result<(), TryAddError> {
-        if self.terms.len() < degree + 1 {
-            if !N::can_negate() {
-                return Err(TryAddError::CanNotNegate);
-            }
-            let added_zeros = degree + 1 - self.terms.len();
-            self.terms
-                .splice(0..0, core::iter::repeat(N::zero()).take(added_zeros));
+        if degree >= self.terms.len() && !N::can_negate() {
+            return Err(TryAddError::CanNotNegate);
         }
+        self.try_grow(degree)?;
         let index = self.terms.len() - degree - 1;
         self.terms[index] -= coeff;
 
-- 
2.43.0


From 78a390eb327b924de08172bdaee02158c95ac476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:47 +0000
Subject: [PATCH 22/25] fix: poly_mul! names items which exist, so that it can
 be used

---
 src/polynomial/poly_math.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 99d352f..2b3e235 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -61,30 +61,33 @@ where
 #[macro_export]
 macro_rules! poly_mul {
     ($lhs:expr, $rhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
+        use $crate::poly_math::mul_poly_vec;
+        use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
-        mul_poly_vec($lhs.ordered_term_iter(), &$rhs.ordered_term_iter().collect(), &mut sink);
+        let rhs_terms = $rhs.ordered_term_iter().collect::<Vec<_>>();
+        let _ = mul_poly_vec($lhs.ordered_term_iter(), &rhs_terms, &mut sink);
         sink
     }};
 
     ($sink:expr; $lhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::{mul_poly, mul_poly_vec};
-        let sink_terms = $sink.ordered_term_iter().collect();
+        use $crate::poly_math::mul_poly_vec;
+        use $crate::SizedPolynomial;
+        let sink_terms = $sink.ordered_term_iter().collect::<Vec<_>>();
         $sink.set_to_zero();
-        mul_poly_vec($lhs.ordered_term_iter(), sink_terms, &mut $sink)
+        mul_poly_vec($lhs.ordered_term_iter(), &sink_terms, &mut $sink)
     }};
 
     ($lhs:expr, $rhs:expr $(,$x:expr )+) => {{
         poly_mul!(poly_mul!($lhs, $rhs) $(,$x)*)
     }};
 
-    ($sink:expr; $lhs:expr, $(,$x:expr )*) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
-        poly_mul!($sink; $lhs);
-        poly_mul!($sink; $($x),*)
+    ($sink:expr; $lhs:expr $(,$x:expr )+) => {{
+        let res = poly_mul!($sink; $lhs);
+        if res.is_err() {
+            res
+        } else {
+            poly_mul!($sink; $($x),*)
+        }
     }};
 }
 
-- 
2.43.0


From fb12dca058bd8578b4fccbba337b94421e02e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:58 +0000
Subject: [PATCH 23/25] fix: subtracting an unsigned term from a stored zero
 reports CanNotNegate instead of underflowing

---
 src/polynomial/polynomial.rs       | 7 ++++++-
 src/polynomial/sparsepolynomial.rs | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index fcfa8a1..2f39f7e 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -288,7 +288,12 @@ where
     }
 
     fn try_sub_term(&mut self, coeff: N, degree: usize) -> Result<(), TryAddError> {
-        if degree >= self.terms.len() && !N::can_negate() {
+        if coeff.is_zero() {
+            return Ok(());
+        }
+
+        // There is nothing to subtract from, whether or not a zero is stored for the term.
+        if let (Term::ZeroTerm, false) = (self.term_with_degree(degree), N::can_negate()) {
             return Err(TryAddError::CanNotNegate);
         }
         self.try_grow(degree)?;
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index cdf57bd..edef2f6 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -208,6 +208,9 @@ where
                 self.terms.insert(degree, c);
             }
             Some(val) => {
+                if val.is_zero() && !N::can_negate() {
+                    return Err(TryAddError::CanNotNegate);
+                }
                 *val -= coeff;
             }
         }
-- 
2.43.0


From e3fc45aaca8c29ed1fb3c35ad800a2464ddd84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:11 +0000
Subject: [PATCH 24/25] hook: export ArrayPolynomial when the array_polynomials
 feature is on

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f836de..2e46649 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,8 @@ mod polynomial;
 pub mod terms;
 
 pub use crate::err::{PolynomialFromStringError, TryAddError};
+#[cfg(feature = "array_polynomials")]
+pub use crate::polynomial::array_polynomial::ArrayPolynomial;
 pub use crate::polynomial::binomial::LinearBinomial;
 pub use crate::polynomial::derivative::Derivable;
 pub use crate::polynomial::find_roots::Roots;
-- 
2.43.0


From aa7f520b3304e285d74296cbd9bc7c55ee438e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:41 +0000
Subject: [PATCH 25/25] fix: do not round a root of a polynomial to a different
 integer root

---
 src/polynomial/find_roots.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 77df521..dbb1273 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -277,7 +277,7 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
         for root in temp_roots {
             let root = {
                 let x = root.round();
-                if poly.eval(x).abs() < poly.eval(root).abs() {
+                if (x - root).abs() < 1e-3 && poly.eval(x).abs() < poly.eval(root).abs() {
                     x
                 } else {
                     root
-- 
2.43.0

