From a9793e8cd41a68d100c0ba3d3246a85940617434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 1/9] fix: return range basis vectors in a fixed order

---
 src/linalg/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..83ca52e 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -306,7 +306,8 @@ impl<'a, F: Field + StabilityCmp + EpsilonEquality> ReducedRowEchelonForm<'a, F>
 		let rref = &self.b;
 		let original = self.original;
 
-		let bound_variables : HashSet<usize> = 
+		// one column per pivot row, in order: the basis must not depend on hash order
+		let bound_variables : Vec<usize> = 
 			(0..rref.rows())
 				.filter_map(
 					|r| rref.index_of_first_nonzero_entry(r)
-- 
2.43.0


From 03fd052e55192983e96f61b664c3eb50e348569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 2/9] fix: keep every generator when reducing a basis is
 interrupted

---
 src/poly/comp.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..253e505 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -238,13 +238,19 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                     for t in generators[i].terms() {
                         // if a nonleading term of `g_i` is divisible by `LT(g_j)`
                         if Self::leading_term(&generators[j]).unwrap().divides(t) {
-                            // we will replace `g` with a reduced equivalent
-                            let g = generators.remove(i);
-
-                            // `g_rem` is remainder of `g mod (G \ {g})`
-                            let (g_rem, _) = Self::divide(&g, &generators);
-
-                            // replaces `g` with its remainder
+                            // we will replace `g_i` with a reduced equivalent
+                            let others: Vec<_> = generators[..i]
+                                .iter()
+                                .chain(&generators[i + 1..])
+                                .cloned()
+                                .collect();
+
+                            // `g_rem` is remainder of `g_i mod (G \ {g_i})`
+                            let (g_rem, _) = Self::divide(&generators[i], &others);
+
+                            // replaces `g_i` with its remainder, only now that it is known: if the
+                            // division panics, the caller's generators must still be complete
+                            generators.remove(i);
                             generators.push(g_rem);
 
                             continue 'outer;
-- 
2.43.0


From 04419329e3fefdac6697d4af026d712aea5679cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 3/9] fix: make the elements of a reduced Groebner basis monic

---
 src/poly/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index 253e505..233f4b9 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -266,6 +266,13 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
+
+        // elements of a reduced basis are monic
+        for g in generators.iter_mut() {
+            if let Some(lc) = Self::leading_coef(g) {
+                *g = &*g / lc;
+            }
+        }
     }
 }
 
-- 
2.43.0


From c7a4e769663ff537a3632d8a859cf47a7abfaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 4/9] fix: keep sums and differences of rationals in lowest
 terms

---
 src/core/num/rat.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..c04fd37 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -79,13 +79,10 @@ impl Add for Rational {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        let numer = self.numer * other.denom + other.numer * self.denom;
-
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(
+            self.numer * other.denom + other.numer * self.denom,
+            self.denom * other.denom,
+        )
     }
 }
 
@@ -99,13 +96,10 @@ impl Sub for Rational {
     type Output = Self;
 
     fn sub(self, other: Self) -> Self {
-        let numer = self.numer * other.denom - other.numer * self.denom;
-
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(
+            self.numer * other.denom - other.numer * self.denom,
+            self.denom * other.denom,
+        )
     }
 }
 
-- 
2.43.0


From ceba9ea70dc649cf09a0b7a22b1adf5a57a7be8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 5/9] fix: walk mutable columns of matrices that are not square

---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From 649d62abb2e29689d9c9acc9f4bd17fff1339ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 6/9] fix: digit sequences of numbers close to the largest

---
 src/linalg/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/util.rs b/src/linalg/util.rs
index 7c0e51f..647b62c 100644
--- a/src/linalg/util.rs
+++ b/src/linalg/util.rs
@@ -35,7 +35,7 @@ struct BaseSeqIterator {
 impl BaseSeqIterator {
 	pub fn new(n: usize, base: usize) -> BaseSeqIterator {
 		BaseSeqIterator {
-			n: n*base,
+			n,
 			base
 		}
 	}
@@ -45,12 +45,12 @@ impl Iterator for BaseSeqIterator {
 	type Item = usize;
 
 	fn next(&mut self) -> Option<Self::Item> {
-		self.n /= self.base;
-
 		if self.n == 0 {
 			None
 		} else {
-			Some(self.n % self.base)
+			let digit = self.n % self.base;
+			self.n /= self.base;
+			Some(digit)
 		}
 	}
 }
-- 
2.43.0


From 97a183081f247d651218f266e35b2e4e30be78b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 7/9] fix: enumerate matrices even when there are too many to
 count

---
 src/linalg/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/linalg/util.rs b/src/linalg/util.rs
index 647b62c..fbe1678 100644
--- a/src/linalg/util.rs
+++ b/src/linalg/util.rs
@@ -75,7 +75,10 @@ impl<'a, F: Field> Iterator for MatIterator<'a, F> {
     type Item = Mat<F>;
 
     fn next(&mut self) -> Option<Mat<F>> {
-        if self.num >= self.values.len().pow((self.n * self.m) as u32) {
+		// a number of matrices too large to count is never reached
+		let total = self.values.len().checked_pow((self.n * self.m) as u32);
+
+        if total.map_or(false, |total| self.num >= total) {
 			None
 		} else {
 			let mut entries: Vec<F> = num_to_seq(self.num, self.values.len())
-- 
2.43.0


From 3b483db4602a621969b12ad2e4829fac4eab2fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:55 +0000
Subject: [PATCH 8/9] fix: a panic out of a coefficient's Debug aborted the
 process when eval reported a wrong argument

---
 src/poly/elts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/poly/elts.rs b/src/poly/elts.rs
index 0f1f668..54e0147 100644
--- a/src/poly/elts.rs
+++ b/src/poly/elts.rs
@@ -101,10 +101,12 @@ impl<F: Field> Term<F> {
     /// should be changed to return some form of `Result<F, EvaluationError>`
     pub fn eval(&self, x: &[F]) -> F {
         if x.len() < self.mdeg.len() {
-            panic!(
+            // formatting coefficients may itself panic, which has to happen before this panic does
+            let message = format!(
                 "incorrectly sized argument {:?} passed to term {:?}",
                 x, self
             );
+            panic!("{}", message);
         }
 
         self.mdeg
-- 
2.43.0


From fe3fbac97d30384268081528d4e7cd3224f4211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:52 +0000
Subject: [PATCH 9/9] fix: trimming a multidegree that is all zeros leaves the
 zero multidegree

trim_zeros removed trailing zeros only after some nonzero entry, so [0, 0]
stayed as it was, unequal to MultiDegree::zero() and not is_zero().
---
 src/poly/mdeg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..07c0673 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -33,8 +33,9 @@ impl MultiDegree {
     /// Should be avoided if possible; prefer clean operations.
     #[inline]
     pub fn trim_zeros(&mut self) {
-        if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
-            self.0.truncate(idx + 1);
+        match self.degs().rposition(|deg| *deg != 0) {
+            Some(idx) => self.0.truncate(idx + 1),
+            None => self.0.clear(),
         }
     }
 
-- 
2.43.0

