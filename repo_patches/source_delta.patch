From 3ad1687eaa9299e6f97c3e406dde00b2e0601b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 01/20] fix: Beta::median returned half the width instead of
 the midpoint when alpha equals beta

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..895451f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            0.5 * (self.a + self.b)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From 8befed29fed4420a4b19320ce6c3e45edbd43cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 02/20] fix: Lognormal::entropy overflowed to infinity for
 large mu

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..17b0a00 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -75,7 +75,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        self.mu + 0.5 + (self.sigma * (2.0 * PI).sqrt()).ln()
     }
 }
 
-- 
2.43.0


From 52a65d785ec067b6a3dac7c9926724f85e44d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 03/20] fix: Logistic::density was NaN far below the location

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..d15b2b1 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,7 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 165c335bbff3e16a2de6f56494018129cfcf85c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 04/20] fix: Triangular variance and skewness cancelled far
 from the origin

---
 src/distribution/triangular.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..657a8fe 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -156,8 +156,8 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        let npart = ((b - c) - (c - a)) * ((a - b) + (a - c)) * ((a - b) + (c - b));
+        let dpart = (b - a) * (b - a) + (c - a) * (c - a) - (b - a) * (c - a);
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +165,7 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        ((b - a) * (b - a) + (c - a) * (c - a) - (b - a) * (c - a)) / 18.0
     }
 }
 
-- 
2.43.0


From 9dc50e69a61f70d6074ffdbe7ba28296c975c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 05/20] fix: Gamma::density was NaN or zero for large shapes
 because its factors overflowed

---
 src/distribution/gamma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..f0ef35b 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_norm: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_norm: k.ln_gamma().0 + k * theta.ln(),
         }
     }
 
@@ -47,7 +47,7 @@ impl distribution::Continuous for Gamma {
         if x <= 0.0 {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From dc88af6ee59b091f746d587747c09be6799f5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 06/20] fix: Beta and Pert densities were NaN at an endpoint
 whose shape is one

---
 src/distribution/beta.rs | 14 ++++++++++++--
 src/distribution/pert.rs | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 895451f..b75f534 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,18 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A vanishing exponent contributes nothing, also where the logarithm is infinite.
+            let left = if self.alpha == 1.0 {
+                0.0
+            } else {
+                (self.alpha - 1.0) * x.ln()
+            };
+            let right = if self.beta == 1.0 {
+                0.0
+            } else {
+                (self.beta - 1.0) * (-x).ln_1p()
+            };
+            (left + right - self.ln_beta).exp() / scale
         }
     }
 }
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..a3a327c 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -75,8 +75,18 @@ impl distribution::Continuous for Pert {
         } else {
             let scale = self.c - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A vanishing exponent contributes nothing, also where the logarithm is infinite.
+            let left = if self.alpha == 1.0 {
+                0.0
+            } else {
+                (self.alpha - 1.0) * x.ln()
+            };
+            let right = if self.beta == 1.0 {
+                0.0
+            } else {
+                (self.beta - 1.0) * (-x).ln_1p()
+            };
+            (left + right - self.ln_beta).exp() / scale
         }
     }
 }
-- 
2.43.0


From 0fd9ea2292e459838f1a79e793f13537bf240701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:36 +0000
Subject: [PATCH 07/20] fix: Beta and Pert samples were NaN when both Gamma
 draws underflowed

---
 src/distribution/beta.rs  |  6 +++---
 src/distribution/gamma.rs | 10 ++++++++++
 src/distribution/pert.rs  |  6 +++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index b75f534..1c41439 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -175,9 +175,9 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        self.a + (self.b - self.a) * x / (x + y)
+        let x = gamma::ln_sample(self.alpha, source);
+        let y = gamma::ln_sample(self.beta, source);
+        self.a + (self.b - self.a) / (1.0 + (y - x).exp())
     }
 }
 
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index f0ef35b..fb27f92 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -127,6 +127,16 @@ impl distribution::Variance for Gamma {
     }
 }
 
+/// Draw the logarithm of a sample from the standard Gamma distribution, which
+/// stays finite where the sample itself underflows.
+pub(crate) fn ln_sample<S: Source>(k: f64, source: &mut S) -> f64 {
+    if k < 1.0 {
+        let x = sample(1.0 + k, source);
+        return x.ln() + source.read::<f64>().ln() / k;
+    }
+    sample(k, source).ln()
+}
+
 /// Draw a sample from the standard Gamma distribution.
 pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     use distribution::gaussian;
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index a3a327c..363e411 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -163,9 +163,9 @@ impl distribution::Sample for Pert {
         S: Source,
     {
         use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
-        self.a + (self.c - self.a) * x / (x + y)
+        let x = gamma::ln_sample(self.alpha, source);
+        let y = gamma::ln_sample(self.beta, source);
+        self.a + (self.c - self.a) / (1.0 + (y - x).exp())
     }
 }
 
-- 
2.43.0


From 3b91d90e23987c4bc447387aa04d6431b8d2dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 08/20] fix: Binomial::mass was NaN above the number of trials

---
 src/distribution/binomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..df13405 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -95,6 +95,10 @@ impl distribution::Discrete for Binomial {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
+        if x > self.n {
+            return 0.0;
+        }
+
         let n = self.n as f64;
         if x == 0 {
             (n * self.q.ln()).exp()
-- 
2.43.0


From cf66270b64bbfe2ea98d0333094a1ea656cf3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:47 +0000
Subject: [PATCH 09/20] fix: Binomial::distribution(0) truncated the number of
 trials to 32 bits

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index df13405..2bddb49 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -130,7 +130,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return (self.n as f64 * self.q.ln()).exp();
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From 024375398d01e39f49c596d2ab525cac8a78801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 10/20] fix: Binomial and Categorical entropies were NaN when a
 probability was zero

---
 src/distribution/binomial.rs    | 5 ++++-
 src/distribution/categorical.rs | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 2bddb49..218f792 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -149,7 +149,10 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1))
+                .map(|i| self.mass(i))
+                .filter(|&p| p > 0.0)
+                .fold(0.0, |sum, p| sum + p * p.ln())
         }
     }
 }
diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From ce189d456e003b9e859b9044bd1efee9fe6fcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 11/20] fix: Binomial::inverse ran past the support when the
 first probability underflowed

---
 src/distribution/binomial.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 218f792..a81bb17 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -179,8 +179,12 @@ impl distribution::Inverse for Binomial {
                 let mut k = 1;
                 let mut a = self.q.powi(self.n as i32);
                 let mut sum = a - p;
-                while sum < 0.0 {
-                    a *= $prod_term(k);
+                while sum < 0.0 && k <= self.n {
+                    a = if a < f64::MIN_POSITIVE {
+                        self.mass(k)
+                    } else {
+                        a * $prod_term(k)
+                    };
                     sum += a;
                     k += 1;
                 }
@@ -192,12 +196,16 @@ impl distribution::Inverse for Binomial {
                 let mut k = 1;
                 let mut a = self.p.powi(self.n as i32);
                 let mut sum = (1.0 - p) - a;
-                while sum >= 0.0 {
-                    a *= $prod_term(k);
+                while sum >= 0.0 && k <= self.n {
+                    a = if a < f64::MIN_POSITIVE {
+                        self.mass(self.n - k)
+                    } else {
+                        a * $prod_term(k)
+                    };
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
-- 
2.43.0


From 41dd0bfe0c7a0712962ddb21c3fd1c82e6546fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 12/20] fix: Binomial::inverse misplaced parentheses in the
 normal expansion

---
 src/distribution/binomial.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a81bb17..b6feebf 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -222,7 +222,15 @@ impl distribution::Inverse for Binomial {
             }
         } else if self.npq > 80.0 {
             // Use a normal approximation.
-            inverse_normal(self.p, self.np, self.npq, p).floor() as usize
+            let x = inverse_normal(self.p, self.np, self.npq, p);
+            let k = x.round();
+            if (x - k).abs() > 1e-2 {
+                x.floor() as usize
+            } else if self.distribution(k - 1.0) < p {
+                k as usize
+            } else {
+                (k - 1.0) as usize
+            }
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
@@ -339,9 +347,11 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     sd * w +
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
-    sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em1 * (
+        w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
+        w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0
+    ) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
-- 
2.43.0


From 563b4454887641730159da89e8f8a30f2609b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:52 +0000
Subject: [PATCH 13/20] fix: Binomial::median rounded or floored the mean
 without justification

---
 src/distribution/binomial.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index b6feebf..51ebaba 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -264,21 +264,16 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
-        use distribution::Inverse;
+        use distribution::Distribution;
 
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
+        } else if self.distribution(self.np.floor()) < 0.5 {
+            self.np.floor() + 1.0
         } else {
-            self.inverse(0.5) as f64
+            self.np.floor()
         }
     }
 }
-- 
2.43.0


From d3fbf87d56682974120150fafdd7cb3c75595592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 14/20] fix: Categorical could yield a trailing category of
 zero probability

---
 src/distribution/categorical.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..b2083c3 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -27,9 +27,13 @@ impl Categorical {
         let k = p.len();
         let mut cumsum = p.to_vec();
         for i in 1..(k - 1) {
-            cumsum[i] += cumsum[i - 1];
+            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);
+        }
+        // The categories past the last possible one should not be reachable.
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap_or(k - 1);
+        for sum in &mut cumsum[last..] {
+            *sum = 1.0;
         }
-        cumsum[k - 1] = 1.0;
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From 2defe381cb3d6a0016972689257d0acab1d9b95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:53 +0000
Subject: [PATCH 15/20] fix: Binomial::mass ignored a failure probability too
 small to show in p

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 51ebaba..b96d6aa 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -91,7 +91,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From 78635fa2ed3b91c0e715723ab3ac4a84b110e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 16/20] fix: redraw a vanishing boost in the logarithm of a
 gamma sample

---
 src/distribution/gamma.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index fb27f92..610519b 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -132,7 +132,13 @@ impl distribution::Variance for Gamma {
 pub(crate) fn ln_sample<S: Source>(k: f64, source: &mut S) -> f64 {
     if k < 1.0 {
         let x = sample(1.0 + k, source);
-        return x.ln() + source.read::<f64>().ln() / k;
+        loop {
+            let u = source.read::<f64>();
+            if u == 0.0 {
+                continue;
+            }
+            return x.ln() + u.ln() / k;
+        }
     }
     sample(k, source).ln()
 }
-- 
2.43.0


From af23407d06bd3183f93d8d50ce62703e7dfe954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 17/20] fix: Gamma::density was NaN at infinity

---
 src/distribution/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 610519b..75f7bdc 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -44,7 +44,7 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x <= 0.0 || x == f64::INFINITY {
             0.0
         } else {
             ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
-- 
2.43.0


From c2ab63450475049fa296f73aa9d386fe6e3928fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 18/20] fix: Lognormal::variance was NaN when one of its
 factors overflowed

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 17b0a00..30ee914 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -136,7 +136,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        -(-s2).exp_m1() * (2.0 * (self.mu + s2)).exp()
     }
 }
 
-- 
2.43.0


From 5eacb1e6406ac1423605373919ab9ebf639af460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 19/20] fix: Binomial::inverse did not return when its Newton
 iteration left the support

---
 src/distribution/binomial.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index b96d6aa..3042322 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -232,16 +232,30 @@ impl distribution::Inverse for Binomial {
                 (k - 1.0) as usize
             }
         } else {
-            // Use Newton’s method starting at the mode.
+            // Use Newton’s method starting at the mode; bisect when a step leaves the interval that
+            // is known to contain the quantile.
             const ALPHA: f64 = 0.999;
             let mut q = self.modes()[0] as f64;
             let mut alpha = 1.0;
+            let (mut lower, mut upper) = (-1.0, self.n as f64);
             loop {
-                let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
+                let excess = p - self.distribution(q);
+                let delta = alpha * excess / self.mass(q as usize);
                 if delta.abs() < 0.5 {
                     return q as usize;
                 }
+                if excess > 0.0 {
+                    lower = q.floor();
+                } else {
+                    upper = q.floor();
+                }
+                if upper - lower <= 1.0 {
+                    return upper as usize;
+                }
                 q += delta;
+                if !(q >= lower + 1.0 && q < upper) {
+                    q = ((lower + upper) / 2.0).floor();
+                }
                 alpha *= ALPHA;
             }
         }
-- 
2.43.0


From d91f9dc41f7cc024f2a01f3f8d244a4f3a109dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:15 +0000
Subject: [PATCH 20/20] fix: Pert shape parameters cancelled far from the
 origin

---
 src/distribution/pert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 363e411..0e11027 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -24,8 +24,8 @@ impl Pert {
     pub fn new(a: f64, b: f64, c: f64) -> Self {
         use special::Beta as SpecialBeta;
         should!(a < b && b < c);
-        let alpha = (4.0 * b + c - 5.0 * a) / (c - a);
-        let beta = (5.0 * c - a - 4.0 * b) / (c - a);
+        let alpha = 1.0 + 4.0 * (b - a) / (c - a);
+        let beta = 1.0 + 4.0 * (c - b) / (c - a);
         Pert {
             a,
             b,
-- 
2.43.0

