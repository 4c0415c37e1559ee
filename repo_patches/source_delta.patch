From ab2db34b99e9ca99b6a40586cd29647ad6a24f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 01/11] fix: FourierC2c gradient multiplies negative
 frequencies by their wavenumber

---
 src/fourier/c2c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index f4d50e2..b36f57c 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -238,7 +238,7 @@ where
                 *y = *y * ki;
             }
             for (k, y) in outdata.iter_mut().rev().take(n / 2).enumerate() {
-                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
+                let ki: Complex<A> = Complex::<A>::new(A::zero(), -A::from_usize(k + 1).unwrap());
                 *y = *y * ki;
             }
         }
-- 
2.43.0


From 06993b9d963c8c74fb6dc5703e167c6f5a201872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 02/11] fix: Space3 gradient uses the third base along the
 third axis

---
 src/space/space3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/space/space3.rs b/src/space/space3.rs
index eb9fe97..e814b48 100644
--- a/src/space/space3.rs
+++ b/src/space/space3.rs
@@ -284,7 +284,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
@@ -314,7 +314,7 @@ macro_rules! impl_space3 {
             {
                 let buffer1 = self.base0.gradient_par(input, deriv[0], 0);
                 let buffer2 = self.base1.gradient_par(&buffer1, deriv[1], 1);
-                let mut output = self.base1.gradient_par(&buffer2, deriv[2], 2);
+                let mut output = self.base2.gradient_par(&buffer2, deriv[2], 2);
                 if let Some(s) = scale {
                     let sc: T = (s[0].powi(deriv[0] as i32)
                         * s[1].powi(deriv[1] as i32)
-- 
2.43.0


From c0245a74b712b548e5b0af40f03f58c1f3b84bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 03/11] fix: biharmonic stencil product uses the right entry of
 the lower diagonal in row n-3

---
 src/chebyshev/stencils/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 09cc6e0..0b9a540 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -398,7 +398,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             }
             *u.get_unchecked_mut(n - 4) = *v.get_unchecked(n - 6) * *self.low2.get_unchecked(n - 6)
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
-            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 6)
+            *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
             *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
                 + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-- 
2.43.0


From 6bb51d7fe0edce01d9bc8e4effd7cfb9cf6ffe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/11] fix: Fourier grid always has exactly n points

---
 src/fourier/c2c.rs | 6 +++---
 src/fourier/r2c.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fourier/c2c.rs b/src/fourier/c2c.rs
index b36f57c..d9d66c5 100644
--- a/src/fourier/c2c.rs
+++ b/src/fourier/c2c.rs
@@ -47,9 +47,9 @@ impl<A: FloatNum> FourierC2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector(0, 1, 2, -3, -2, -1)
diff --git a/src/fourier/r2c.rs b/src/fourier/r2c.rs
index 7687856..6141990 100644
--- a/src/fourier/r2c.rs
+++ b/src/fourier/r2c.rs
@@ -48,9 +48,9 @@ impl<A: FloatNum> FourierR2c<A> {
     #[allow(clippy::cast_precision_loss)]
     pub fn nodes(n: usize) -> Vec<A> {
         let n64 = n as f64;
-        ndarray::Array1::range(0., 2. * PI, 2. * PI / n64)
-            .mapv(|elem| A::from_f64(elem).unwrap())
-            .to_vec()
+        (0..n)
+            .map(|k| A::from_f64(2. * PI * k as f64 / n64).unwrap())
+            .collect()
     }
 
     /// Return complex wavenumber vector for r2c transform (0, 1, 2, 3)
-- 
2.43.0


From f2509f57d9e836d0e0948a70b72b9b3347ef10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 05/11] fix: Chebyshev differentiation matrices of order 3 and
 4 no longer overflow integers

---
 src/chebyshev/ortho.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index c6c3648..dd485a6 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -105,22 +105,24 @@ impl<A: FloatNum> Chebyshev<A> {
             }
         } else if deriv == 3 {
             for p in 0..n {
-                let p2 = p * p;
+                let p2 = (p * p) as i128;
                 for q in p + 3..n {
-                    let q2 = q * q;
+                    let q2 = (q * q) as i128;
                     if (p + q) % 2 != 0 {
                         dmat[[p, q]] =
-                            (q * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
+                            (q as i128 * (q2 * (q2 - 2) - 2 * q2 * p2 + p2 * p2 - 2 * p2 + 1)) as f64 / 4.;
                     }
                 }
             }
         } else if deriv == 4 {
             for p in 0..n {
-                let (p2, p4) = (p * p, p * p * p * p);
+                let p2 = (p * p) as i128;
+                let p4 = p2 * p2;
                 for q in p + 4..n {
-                    let (q2, q4) = (q * q, q * q * q * q);
+                    let q2 = (q * q) as i128;
+                    let q4 = q2 * q2;
                     if (p + q) % 2 == 0 {
-                        dmat[[p, q]] = (q
+                        dmat[[p, q]] = (q as i128
                             * (q2 * (q2 - 4) * (q2 - 4) + 3 * q2 * p4 - p2 * p4 + 8 * p4
                                 - 16 * p2
                                 - 3 * q4 * p2)) as f64
-- 
2.43.0


From c5356898d457a4f1e3436bb4daa91bfb7e73182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 06/11] fix: Chebyshev pseudo-inverse matrices of small size no
 longer underflow

---
 src/chebyshev/ortho.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index dd485a6..886b17e 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -168,7 +168,7 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 2..n {
                 pinv[[i, i - 1]] = 1. / (2. * i as f64); // diag - 1
             }
-            for i in 1..n - 2 {
+            for i in 1..n.saturating_sub(2) {
                 pinv[[i, i + 1]] = -1. / (2. * i as f64); // diag + 1
             }
         } else if deriv == 2 {
@@ -176,10 +176,10 @@ impl<A: FloatNum> Chebyshev<A> {
             for i in 3..n {
                 pinv[[i, i - 2]] = 1. / (4 * i * (i - 1)) as f64; // diag - 2
             }
-            for i in 2..n - 2 {
+            for i in 2..n.saturating_sub(2) {
                 pinv[[i, i]] = -1. / (2 * (i * i - 1)) as f64; // diag 0
             }
-            for i in 2..n - 4 {
+            for i in 2..n.saturating_sub(4) {
                 pinv[[i, i + 2]] = 1. / (4 * i * (i + 1)) as f64; // diag + 2
             }
         } else if deriv == 3 {
@@ -190,17 +190,17 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[3, 0]] *= 2.;
             // diag - 1
-            for i in 3..n - 2 {
+            for i in 3..n.saturating_sub(2) {
                 let d = 8 * (i + 1) * (i - 2) * i;
                 pinv[[i, i - 1]] = -3. / d as f64;
             }
             // diag + 1
-            for i in 3..n - 4 {
+            for i in 3..n.saturating_sub(4) {
                 let d = 8 * (i - 1) * (i + 2) * i;
                 pinv[[i, i + 1]] = 3. / d as f64;
             }
             // diag + 3
-            for i in 3..n - 6 {
+            for i in 3..n.saturating_sub(6) {
                 let d = 8 * i * (i + 1) * (i + 2);
                 pinv[[i, i + 3]] = -1. / d as f64;
             }
@@ -212,22 +212,22 @@ impl<A: FloatNum> Chebyshev<A> {
             }
             pinv[[4, 0]] *= 2.;
             // diag - 2
-            for i in 4..n - 2 {
+            for i in 4..n.saturating_sub(2) {
                 let d = 4 * (i - 3) * (i - 1) * i * (i + 1);
                 pinv[[i, i - 2]] = -1. / d as f64;
             }
             // diag + 0
-            for i in 4..n - 4 {
+            for i in 4..n.saturating_sub(4) {
                 let d = 8 * (i - 2) * (i - 1) * (i + 1) * (i + 2);
                 pinv[[i, i]] = 3. / d as f64;
             }
             // diag + 2
-            for i in 4..n - 6 {
+            for i in 4..n.saturating_sub(6) {
                 let d = 4 * (i - 1) * i * (i + 1) * (i + 3);
                 pinv[[i, i + 2]] = -1. / d as f64;
             }
             // diag + 4
-            for i in 4..n - 8 {
+            for i in 4..n.saturating_sub(8) {
                 let d = 16 * i * (i + 1) * (i + 2) * (i + 3);
                 pinv[[i, i + 4]] = 1. / d as f64;
             }
-- 
2.43.0


From 382b4a8689d097e013f3292ae2d3c91c7c04cc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 07/11] fix: Chebyshev gradient of size 2 no longer reads past
 the end of the slice

---
 src/chebyshev/ortho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chebyshev/ortho.rs b/src/chebyshev/ortho.rs
index 886b17e..d5b22f3 100644
--- a/src/chebyshev/ortho.rs
+++ b/src/chebyshev/ortho.rs
@@ -418,8 +418,10 @@ where
                     *outdata.get_unchecked_mut(i) =
                         *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                 }
-                *outdata.get_unchecked_mut(0) =
-                    *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                if self.m > 2 {
+                    *outdata.get_unchecked_mut(0) =
+                        *outdata.get_unchecked(0) + *outdata.get_unchecked(2) / two;
+                }
             }
         }
     }
-- 
2.43.0


From 2bba98af8bffecfde800c788b16acad8e3426267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 08/11] fix: stencil products check slice lengths before
 unchecked accesses

---
 src/chebyshev/stencils/helpers.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 0b9a540..88a4d13 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -135,6 +135,7 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -166,7 +167,8 @@ impl<A: FloatNum> HelperStencil2Diag<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::tdma;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -229,7 +231,7 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(u.len() == self.diag.len() + 2);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -264,7 +266,8 @@ impl<A: FloatNum> HelperStencil3Diag<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::pdma;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 2);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
@@ -383,6 +386,7 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         let n = u.len();
         unsafe {
             *u.get_unchecked_mut(0) = *v.get_unchecked(0) * *self.diag.get_unchecked(0);
@@ -425,7 +429,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
             + Copy,
     {
         use crate::chebyshev::linalg::pdma2;
-        // assert!(Self::get_m(u.len()) == u.len());
+        assert!(v.len() == self.diag.len());
+        assert!(u.len() == self.diag.len() + 4);
         // Multiply right hand side
         unsafe {
             for i in 0..v.len() {
-- 
2.43.0


From ae994101d91555063eb2f09b960d0c1360d20872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 09/11] fix: complex approximate equality requires both parts
 to agree

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index a31bd16..13c93bf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -30,7 +30,7 @@ where
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in vec_a.iter().zip(vec_b.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
@@ -76,7 +76,7 @@ pub fn approx_eq_complex_ndarray<A, S, D>(
     let tol = A::from_f64(1e-3).unwrap();
     for (a, b) in expected.iter().zip(result.iter()) {
         assert!(
-            ((a.re - b.re).abs() < tol || (a.im - b.im).abs() < tol),
+            ((a.re - b.re).abs() < tol && (a.im - b.im).abs() < tol),
             "Large difference of values, got {} expected {}.",
             b,
             a
-- 
2.43.0


From 7de7b2860396afc46a2828340d358f1bc8065def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 10/11] fix: allocating to_ortho of a space had a bound no type
 satisfies, so it could not be called

---
 src/space/traits.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/space/traits.rs b/src/space/traits.rs
index 73808bf..16d0467 100644
--- a/src/space/traits.rs
+++ b/src/space/traits.rs
@@ -143,7 +143,6 @@ where
     fn to_ortho<S>(&self, input: &ArrayBase<S, Dim<[usize; N]>>) -> Array<T, Dim<[usize; N]>>
     where
         S: Data<Elem = T>,
-        [usize; N]: Dimension,
     {
         let mut output = self.ndarray_from_shape::<T>(self.shape_spectral_ortho());
         self.to_ortho_inplace(input, &mut output);
-- 
2.43.0


From 44a958d3d49a32074b1cbf01b59d2d3cab7da1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 11/11] fix: biharmonic stencil product no longer reads past
 the end of its input in the last two rows

---
 src/chebyshev/stencils/helpers.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chebyshev/stencils/helpers.rs b/src/chebyshev/stencils/helpers.rs
index 88a4d13..da13273 100644
--- a/src/chebyshev/stencils/helpers.rs
+++ b/src/chebyshev/stencils/helpers.rs
@@ -404,10 +404,8 @@ impl<A: FloatNum> HelperStencil3Diag2<A> {
                 + *v.get_unchecked(n - 8) * *self.low4.get_unchecked(n - 8);
             *u.get_unchecked_mut(n - 3) = *v.get_unchecked(n - 5) * *self.low2.get_unchecked(n - 5)
                 + *v.get_unchecked(n - 7) * *self.low4.get_unchecked(n - 7);
-            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4)
-                + *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
-            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3)
-                + *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
+            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 6) * *self.low4.get_unchecked(n - 6);
+            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 5) * *self.low4.get_unchecked(n - 5);
         }
     }
 
-- 
2.43.0

