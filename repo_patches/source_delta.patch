From 80f6191a5881ab4fffb3706f19ee576f2c3f6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:29 +0000
Subject: [PATCH 01/98] fix: accept a zero interest rate in m-thly conversions
 and annuities-certain

---
 src/actuarialmath/interest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..9789c3a 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if self.i == 0 and t >= 0:  # no discounting if zero interest rate
+            return float(t)
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
@@ -115,13 +117,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From 287a53f725aca81665afdb7f595d92bdfbb5990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 02/98] fix: differentiate functions that only accept scalars

---
 src/actuarialmath/actuarial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..c5a7747 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,9 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        def f(xs):   # fun may accept only scalars: evaluate one point at a time
+            return np.reshape([fun(x) for x in np.ravel(xs)], np.shape(xs))
+        return float(scipy.differentiate.derivative(f, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
-- 
2.43.0


From 070345307ce1a46e506d72b6bcb3ba52c055aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:03 +0000
Subject: [PATCH 03/98] fix: lifetime density from number of lives is relative
 to lives at start

---
 src/actuarialmath/survival.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..1bb5270 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,7 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return -self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From ebd728f3364260cd8b3c201f59d9891c296d2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 04/98] fix: variance of curtate lifetime limited to one year
 is p(1-p)

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..eec6358 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment != self.VARIANCE:  # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From bf08d0eecb9250e5c7acdcdb7967a851707c03a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 05/98] fix: life table expectations accept a limit t, duration
 s and second moments

---
 src/actuarialmath/lifetable.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..9d35207 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
-        if moment == 1:
+        if moment == 1 and (curtate or self.udd_):
             # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
-            # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            n = self.max_term(x+s, t)
+            # complete by UDD between integer age recursion
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(n)])  # s_p_x = l_x+s/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From f42bb496ef0276454e1920d4e9243c2f624f2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 06/98] fix: fractional lives of laws that do not define a
 number-of-lives function

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..6781130 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -23,7 +23,7 @@ class MortalityLaws(Reserves):
           s : years after selection
           r : fractional year after selection
         """
-        return self.l(x, s+r)
+        return self.l_x(x, s=s+r)
 
     def p_r(self, x: int, s: int = 0, r: float = 0., t: float = 1.) -> float:
         """Fractional age survival probability given special mortality law
-- 
2.43.0


From aab1105cc6cf438fd1a8c3011a524c6f6da5e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 07/98] fix: fractional-age expectation of mortality laws
 called a missing method

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 6781130..3b64243 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From 58fa712723fe5695a48367fba223a0f0f6332ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 08/98] fix: lifetime density of Beta law is survival times
 force

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 3b64243..3e5056a 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -112,7 +112,7 @@ class Beta(MortalityLaws):
             return ((omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            return _S(x, s, t) * _mu(x, s+t)
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From c9a37d3c980cd7346fac7cbfdb085e480340557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 09/98] fix: limited complete expectation of Beta law

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 3e5056a..1db4709 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -127,7 +127,7 @@ class Beta(MortalityLaws):
           t : limited at t years
         """
         e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
+        if t >= 0 and self.max_term(x+s, t) >= t: # temporary expectation
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-- 
2.43.0


From 0f3fe668a6848fb2b4e5eb501498f0fea279060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 10/98] fix: variance and limited term of lifetime under Beta
 law

---
 src/actuarialmath/mortalitylaws.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 1db4709..d0384bc 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -131,27 +131,26 @@ class Beta(MortalityLaws):
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
+                return (self.alpha_ * (self.omega_ - (x + s))**2
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From ba3a32a7ead0cf50e42423965e0eb90c800f4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 11/98] fix: expectations of uniform law depend on duration
 since selection and limited term

---
 src/actuarialmath/mortalitylaws.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index d0384bc..9f26580 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -180,14 +180,14 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
-                return t_p_x * t  + (1 - t_p_x) * (t / 2)
+                t_q_x = t / (self.omega_ - (x+s))
+                return t_q_x * (t / 2) + (1 - t_q_x) * t
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
-- 
2.43.0


From 380ab15f2632ed0b2d5f3dc0bd98ed4b368f5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 12/98] fix: variance of whole life and term insurance uses
 first moment once

---
 src/actuarialmath/insurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..a0c88f8 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From 3660ddf96bf826542da2e85a383af524e39fded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 13/98] fix: decreasing insurance ignored years since selection

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index a0c88f8..79bc175 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From 5133606da2c7d6565e3133a957176ec872aa629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 14/98] fix: second moment of insurance with endowment squares
 the endowment

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 79bc175..e629dde 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 8d8a1874519f5f404f5c44302d505a98f746ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 15/98] fix: pure endowment variance, and amount when due
 immediately

---
 src/actuarialmath/constantforce.py | 5 ++++-
 src/actuarialmath/insurance.py     | 4 ++--
 src/actuarialmath/lifetable.py     | 4 ++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..628b1f8 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -64,9 +64,12 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:
+            return (self.E_x(x, s=s, t=t, endowment=endowment, moment=2)
+                    - self.E_x(x, s=s, t=t, endowment=endowment)**2)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index e629dde..473eabc 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => certain payment of endowment
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 9d35207..297d732 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -268,13 +268,13 @@ class LifeTable(Reserves):
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else 1.
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
+            return self.interest.v_t(t)**2 * p * (1 - p)
         if moment == 1:
             return self.interest.v_t(t) * p
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-- 
2.43.0


From fc2d56836d456b2df550aa68f7c7fcad741d7484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 16/98] fix: pure endowment of uniform law: duration since
 selection, amount and variance

---
 src/actuarialmath/mortalitylaws.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 9f26580..aa6a5fb 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -192,7 +192,7 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            moment: int = 1, endowment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -202,17 +202,15 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s) - t) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x) * endowment**2
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 2f8ee663dbff2a908be8ed7373804d81ba0f500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 17/98] fix: term insurance of uniform law: term of discrete
 benefits, second moment and variance

---
 src/actuarialmath/mortalitylaws.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index aa6a5fb..484dcd3 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -229,7 +229,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                  discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -247,16 +247,19 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
-            t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+                                            discrete=False)**2)
+            t = self.max_term(x+s, t)
+            if t <= 0:
+                return 0.
+            delta = moment * self.interest.delta   # multiply force of interest
+            a = (1 - math.exp(-delta * t)) / delta if delta else t
+            return b**moment * a / (self.omega_ - (x+s))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From 6c707481e98c1e3fa424e4bff0318e4b565d32f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 18/98] fix: pure endowment from a life table accepts an amount
 as for other models

---
 src/actuarialmath/lifetable.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 297d732..633bfd2 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -258,7 +258,8 @@ class LifeTable(Reserves):
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1,
+            endowment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
 
         Args:
@@ -266,19 +267,17 @@ class LifeTable(Reserves):
           s : years after selection
           t : survives t years
           moment : return first (1) or second (2) moment or variance (-2)
+          endowment : amount of pure endowment
         """
         if t == 0:
-            return 0. if moment == self.VARIANCE else 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**2 * p * (1 - p)
-        if moment == 1:
-            return self.interest.v_t(t) * p
-        # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-        return self.interest.v_t(t)**(moment-1) * self.E_x(x, s=s, t=t)
+            return self.interest.v_t(t)**2 * p * (1 - p) * endowment**2
+        return (endowment * self.interest.v_t(t))**moment * p
 
     def __getitem__(self, col: str) -> Dict[int, float]:
         """Returns a column of the life table
-- 
2.43.0


From 93147ce28ed8910d2b5cedeed183f5b7c362b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 19/98] fix: continuous whole life insurance under constant
 force ignored the benefit amount

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 628b1f8..0bd7b14 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -136,7 +136,7 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return b**moment * self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From 05e3aac185f11306de18c34b285914c3a642c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:12 +0000
Subject: [PATCH 20/98] fix: variance of limited lifetime under constant force
 ignored the limit

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 0bd7b14..c216e00 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From 113d87a662c4fd02d4d0122513d89229a70ca639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 21/98] fix: continuous annuity from survival function ignored
 years since selection

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..a08cde8 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t=t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From bbf378896886b551f847cd9dd5701e77ee81afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 22/98] fix: whole life annuity at zero interest ignored the
 benefit amount

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a08cde8..41bbbd0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From 3f654e0e5c8e14c080639714626b7d0f055a4108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:49 +0000
Subject: [PATCH 23/98] fix: certain part of certain and life annuity ignored
 the benefit amount

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 41bbbd0..271bc56 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -202,7 +202,7 @@ class Annuity(Insurance):
         if u < 0:
             return 0.
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 6ea250b0fc41072d64b03a89ab8706489c5686f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 24/98] fix: continuous increasing annuity pays at rate t, so
 that increasing and decreasing are complementary

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 271bc56..d5ecfb3 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -219,7 +219,7 @@ class Annuity(Insurance):
           >>> life.increasing_annuity(x=24, t=10)
         """
         t = self.max_term(x+s, t=t)
-        benefit = lambda x, s: b * (s + 1) # increasing benefit
+        benefit = lambda x, t: b * (t + int(discrete)) # increasing benefit
         return self.a_x(x, s=s, benefit=benefit, t=t, discrete=discrete)
 
     def decreasing_annuity(self, x: int, s: int = 0, t: int = 0, 
-- 
2.43.0


From 4f794361c44076b56eb14df3c5321cb2715715a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 25/98] fix: variance of annuities at zero interest is the
 variance of lifetime

---
 src/actuarialmath/annuity.py       |  8 ++++++++
 src/actuarialmath/constantforce.py | 18 ++++++------------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index d5ecfb3..531121f 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -123,6 +123,9 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and not interest: # when interest=0, is variance of lifetime
+            return b**2 * self.e_x(x, s=s, curtate=discrete, 
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -150,6 +153,11 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
+        interest = self.interest.d if discrete else self.interest.delta
+        if variance and not interest: # when interest=0, is variance of lifetime
+            t = self.max_term(x+s, t)   # limited to (t-1) years if annuity due
+            return b**2 * self.e_x(x, s=s, t=t-int(discrete), curtate=discrete,
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index c216e00..cb9979d 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -85,11 +85,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
-            A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:
+            return super().whole_life_annuity(x, s=s, b=b, variance=True,
+                                              discrete=discrete)
         if not discrete:
             den = self.mu_ + self.interest.delta
             return (1. / den) * b if den > 0 else math.inf
@@ -108,13 +106,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        interest = self.interest.d if discrete else self.interest.delta
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2,
-                                          discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
+                                             discrete=discrete)
         if not discrete:
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
-- 
2.43.0


From ea880e908f0289e3fb03851fd1f834133caa8ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 26/98] fix: lifetime density from a fractional age

---
 src/actuarialmath/fractional.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..4e8124f 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,22 +139,20 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1 
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: deaths are uniform in the year
+                return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+u+r, t=t)
+            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+t_floor, t=t)
 
     #
     # Define fractional age pure endowment function
-- 
2.43.0


From a74e1db7f9aa1c2b25cd86f6629e44c920449e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 27/98] fix: limited expectation under constant force when no
 deaths in the year

---
 src/actuarialmath/fractional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 4e8124f..5592307 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -205,7 +205,7 @@ class Fractional(Lifetime):
                     return self.q_r(x=x, s=s, t=t)*(t/2) + self.p_r(x, s=s, t=t)*t
             else:         # Constant Force case
                 mu = -math.log(max(0.00001, self.p_x(x=x, s=s)))  # constant mu
-                return (1. - math.exp(-mu*t)) / mu                # shortcut
+                return (1. - math.exp(-mu*t)) / mu if mu else t   # shortcut
 
         # t > 1: apply one-year recursion formula            
         else:
-- 
2.43.0


From f9a5c0278cb93df8da5aac92d600840df7862843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 28/98] fix: deaths and deferred mortality through the last age
 of a life table

---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 633bfd2..4baee0b 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -205,7 +205,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)  # in the long term, we are all dead
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -231,8 +231,8 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
-            return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
+        if denom:
+            return self.d_x(x, s=s+u, t=t) / denom
         else:
             return 1     # the only certainty in life
 
-- 
2.43.0


From ab0d251eac72dadae12126aabccd035a5f055e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 29/98] fix: limited expectation of a select life is not the
 whole life expectation

---
 src/actuarialmath/selectlife.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..ca45d6e 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -351,10 +351,11 @@ class SelectLife(LifeTable):
           t : limit of expected future lifetime
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if t < 0 and self._isin_sel(x, s, 'e'):   # table is for whole life
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
-        return e
+        n = self._MAXAGE + self.periods_ + 1 - (x + s)  # through end of table
+        n = n if t < 0 else min(n, t)
+        return sum([self.p_x(x, s=s, t=k+1) for k in range(n)])
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
         """Returns select and ultimate table values as a DataFrame
-- 
2.43.0


From cd9ff7ba360c39486d53b57d98f1ef46d7eba50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 30/98] fix: numbers of select lives derived from survival
 probabilities depend on duration since selection

---
 src/actuarialmath/survival.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 1bb5270..d1abd72 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -120,7 +120,8 @@ class Survival(Life):
         assert s >= 0, "s must be non-negative"
         if self.l is not None:
             return self.l(x, s)
-        return self._RADIX * self.p_x(x=self._MINAGE, s=0, t=s+x-self._MINAGE)
+        return (self._RADIX * self.p_x(x=self._MINAGE, s=0, t=x-self._MINAGE)
+                * self.p_x(x=x, s=0, t=s))   # survivors of those selected at x
 
     def d_x(self, x: int, s: int = 0) -> float:
         """Number of deaths at integer age [x]+s: d_[x]+s
-- 
2.43.0


From 6acd249b367dc3a7b28c01d826ab398a8d8bdc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 31/98] fix: deferred, certain and decreasing annuities whose
 term extends beyond the last age

---
 src/actuarialmath/annuity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 531121f..f5ea477 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -187,6 +187,8 @@ class Annuity(Insurance):
         Examples:
           >>> life.deferred_annuity(x=24, u=5, t=10, discrete=False)
         """
+        if self.max_term(x+s, u) < u:
+            return 0.
         a = self.temporary_annuity(x, s=s+u, t=t, b=b, discrete=discrete)
         return self.E_x(x, s=s, t=u) * a
 
@@ -206,9 +208,8 @@ class Annuity(Insurance):
         Examples:
           >>> life.certain_life_annuity(x=24, u=5, t=10)
         """
-        u = self.max_term(x+s, u)
-        if u < 0:
-            return 0.
+        if u < 0:    # for whole life
+            u = max(0, self.max_term(x+s, u))
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
         return b * self.interest.annuity(u, m=int(discrete)) + a
 
@@ -245,7 +246,6 @@ class Annuity(Insurance):
           >>> life.decreasing_annuity(x=24, t=10)
         """
         assert t >= 0   # decreasing must be till term
-        t = self.max_term(x+s, t=t)
         a = self.temporary_annuity(x, s=s, t=t, discrete=discrete)
         n = t + int(discrete)
         return b * (a*n - self.increasing_annuity(x, s=s, t=t, discrete=discrete))
-- 
2.43.0


From 8bc00c8258433cc2f46290155af7f4c6f7335b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 32/98] fix: select table columns of whole life values are not
 the value of other insurance or annuity benefits

---
 src/actuarialmath/selectlife.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index ca45d6e..977c35e 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -292,11 +292,25 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if not kwargs and self._isin_sel(x, s, 'A'):  # whole life of 1
             return self._get_sel(x, s, 'A')
         else:
             return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
 
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Returns whole life insurance value computed from select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : amount of benefit
+        """
+        if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
+            return b * self._get_sel(x, s, 'A')
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
+
     def a_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
         """Returns annuity value computed from select table
@@ -306,10 +320,10 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        if not kwargs and self._isin_sel(x, s, 'a'):  # whole life of 1
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From 4d02221cab284db3c50cc762788c778a61702ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 33/98] fix: whole life annuity of a select life uses the
 annuity column of the table

---
 src/actuarialmath/selectlife.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 977c35e..1c93241 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -325,6 +325,21 @@ class SelectLife(LifeTable):
         else:
             return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
+    def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
+                           variance: bool = False,
+                           discrete: bool = True) -> float:
+        """Returns whole life annuity value computed from select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : annuity benefit amount
+        """
+        if not variance and discrete and self._isin_sel(x, s, 'a'):
+            return b * self._get_sel(x, s, 'a')
+        return super().whole_life_annuity(x, s=s, b=b, variance=variance,
+                                          discrete=discrete)
+
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
 
-- 
2.43.0


From 201e983c8ec3a93c66485a6b1c3451701b385917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 34/98] fix: variance of endowment insurance scales by the
 benefit amount once

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 473eabc..b105025 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 434f6072d5c0009699ac186276debcf96f07330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 35/98] fix: integrals over a life table are inaccurate unless
 taken year by year

---
 src/actuarialmath/lifetable.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 4baee0b..12fc137 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -6,7 +6,7 @@ import math
 import numpy as np
 import matplotlib.pyplot as plt
 import pandas as pd
-from typing import Dict
+from typing import Callable, Dict
 from actuarialmath import Reserves
 
 class LifeTable(Reserves):
@@ -50,6 +50,19 @@ class LifeTable(Reserves):
         self.set_survival(mu=_mu, S=_S, f=_f, l=_l, minage=-1, maxage=-1)
 
 
+    @staticmethod
+    def integral(fun: Callable[[float], float],
+                 lower: float, upper: float) -> float:
+        """Compute integral year by year, since not smooth at integer ages
+
+        Args:
+          fun : function to integrate
+          upper : upper limit
+          lower : lower limit
+        """
+        return sum([Reserves.integral(fun, lower + k, min(lower + k + 1, upper))
+                    for k in range(math.ceil(upper - lower))])
+
     def set_table(self,
                   radix: int = Reserves._RADIX,
                   minage: int = -1,
-- 
2.43.0


From 715595bc1d1265898498be0ae837b555904347cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 36/98] fix: continuous benefits from the limiting age of a
 mortality law have no value

---
 src/actuarialmath/annuity.py   | 2 +-
 src/actuarialmath/insurance.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index f5ea477..4ac4d25 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -34,7 +34,7 @@ class Annuity(Insurance):
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
                                * self.S(x, s, t=t+u))
-                a = self.integral(Y, 0, t)
+                a = self.integral(Y, 0, t) if t > 0 else 0.
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
         return a
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index b105025..55abb55 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -75,7 +75,7 @@ class Insurance(Fractional):
             else:   # use continous first principles
                 Z = lambda t: ((benefit(x+s, t+u) * self.interest.v_t(t+u))**moment 
                                * self.f(x, s, t+u))
-                A = self.integral(Z, 0, t)
+                A = self.integral(Z, 0, t) if t > 0 else 0.
         except:
             raise Exception("Failed to numerically integrate EPV of insurance")
         return A + E
-- 
2.43.0


From f0d6035f674d137dbda57c8fc6bf50fece94c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 37/98] fix: annuities at zero interest through the last age of
 a life table

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 12fc137..583d893 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -267,7 +267,7 @@ class LifeTable(Reserves):
             # complete by UDD between integer age recursion
             e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
                      + self.l(x, s=s+k+1) for k in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=s)
+            return e / self.l(x, s=s) if e else 0.   # zero at last age
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
@@ -287,7 +287,7 @@ class LifeTable(Reserves):
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        p = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:
             return self.interest.v_t(t)**2 * p * (1 - p) * endowment**2
         return (endowment * self.interest.v_t(t))**moment * p
-- 
2.43.0


From 644aad725351562dd8b27f008b94f6622297e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 38/98] fix: no survivors beyond the limiting age of the Beta
 and Uniform laws

---
 src/actuarialmath/mortalitylaws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 484dcd3..9ec1019 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -106,10 +106,10 @@ class Beta(MortalityLaws):
             return alpha / (omega - (x+s))
 
         def _l(x: int, s: float) -> float:
-            return radix * (omega - (x+s))**alpha
+            return radix * max(0, omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
-            return ((omega-(x+s+t))/(omega-(x+s)))**alpha
+            return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
             return _S(x, s, t) * _mu(x, s+t)
-- 
2.43.0


From d2a73d9836c3b4340ea5c4d394d358ae6fec43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:23 +0000
Subject: [PATCH 39/98] fix: time of death at which a percentile is attained
 was sought from ages instead of durations and often not a root

---
 src/actuarialmath/annuity.py   |  3 +--
 src/actuarialmath/insurance.py | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 4ac4d25..30334f7 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -266,8 +266,7 @@ class Annuity(Insurance):
 
         """
         assert prob < 1.0
-        t = self.solve(lambda t: self.S(x, 0, t), target=1. - prob,
-                       grid=[self._MINAGE, self._MAXAGE])
+        t = self._S_to_t(x, 1. - prob)
         return math.ceil(t) if discrete else t   # should be opposite of insurance?
 
     def Y_x(self, x, s: int = 0, t: float = 1., discrete: bool = True) -> float:
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 55abb55..96fc984 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -6,6 +6,7 @@ from typing import Callable, Any, Tuple, List
 import math
 import matplotlib.pyplot as plt
 import numpy as np
+import scipy.optimize
 from actuarialmath import Fractional
 
 class Insurance(Fractional):
@@ -260,6 +261,22 @@ class Insurance(Fractional):
         else:
             return self.f_r(x, s=s, t=t) * self.interest.v_t(t)
 
+    def _S_to_t(self, x: int, prob: float) -> float:
+        """Time t s.t. S(t)==prob, by bracketing since S never increases
+
+        Args:
+          x : age initially insured
+          prob : survival probability
+        """
+        stop = self._MAXAGE - x
+        t = 0
+        while t + 1 < stop and self.S(x, 0, t + 1) > prob:
+            t += 1
+        upper = min(t + 1, stop)
+        if self.S(x, 0, upper) > prob:  # does not fall to prob by last age
+            return upper
+        return scipy.optimize.brentq(lambda t: self.S(x, 0, t) - prob, t, upper)
+
     def Z_t(self, x: int, prob: float, discrete: bool = True) -> float:
         """T_x, given the prob of the PV of life insurance, i.e. r.v. Z(t)
 
@@ -275,8 +292,7 @@ class Insurance(Fractional):
           >>> t = life.Z_t(x=20, prob=0.8, discrete=True)
         """
         assert prob < 1.0  # Note survival function and PV both decreasing in t
-        t = self.solve(lambda t: self.S(x, 0, t),
-                       target=prob, grid=[self._MINAGE, self._MAXAGE])
+        t = self._S_to_t(x, prob)
         return math.floor(t) if discrete else t       # opposite of annuity
 
     def Z_from_t(self, t: float, discrete: bool = True) -> float:
-- 
2.43.0


From 50079bfc6ee312da075f433bfd57304ef81ccf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 40/98] fix: time of death given present value of annuity at
 zero interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 30334f7..3c5c089 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -316,7 +316,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.isclose(self.interest.delta):            # if interest=0:
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From 3624b945f5c7bb080315cc92db47773cc552eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 41/98] fix: percentile of annuity-due counted one payment too
 many

---
 src/actuarialmath/annuity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 3c5c089..c61a87f 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -308,6 +308,8 @@ class Annuity(Insurance):
           discrete : annuity due (True) or continuous (False)
         """
         t = self.Y_t(x, prob, discrete=discrete)
+        if discrete:
+            t -= 1      # dies in the year before t==ceil(T): t payments
         return self.Y_from_t(t=t, discrete=discrete)
 
     def Y_to_t(self, Y: float) -> float:
-- 
2.43.0


From bb049c0d0eed2bac13d1c645f8f5b5a9a085e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 42/98] fix: time of death given a future loss is bracketed

---
 src/actuarialmath/policyvalues.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..528fe17 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -4,7 +4,7 @@ MIT License. Copyright 2022-2023 Terence Lim
 """
 import math
 import numpy as np
-import scipy
+import scipy.optimize
 import matplotlib.pyplot as plt
 from typing import Dict, Any
 from actuarialmath import Premiums, Actuarial
@@ -353,6 +353,13 @@ class PolicyValues(Premiums):
           contract : policy contract terms and expenses
         """
         c = contract or Contract()
+        if self.L_from_t(0, c) <= L:
+            return 0
+        for t in range(1, self._MAXAGE + 1):  # bracket, since L decreases with t
+            if self.L_from_t(t, c) <= L:
+                if c.discrete:
+                    return t
+                return scipy.optimize.brentq(lambda t: self.L_from_t(t, c) - L, t-1, t)
         T = Contract.solve(lambda t: self.L_from_t(t, c),
                            target=L,
                            grid=(0, self._MAXAGE),
-- 
2.43.0


From 510a49201815084f3c32800b66f5775405ce007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 43/98] fix: annotated values of insurance, annuity and loss
 plots

---
 src/actuarialmath/annuity.py      | 2 +-
 src/actuarialmath/insurance.py    | 2 +-
 src/actuarialmath/policyvalues.py | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index c61a87f..61b990a 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -389,7 +389,7 @@ class Annuity(Insurance):
     
         if T is not None:
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             
             label1, = ax.plot(T, Y, c=color, marker='o',
                               label=f"Y({T:.2f})={Y:.4f}")            
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 96fc984..1b09f1b 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -407,7 +407,7 @@ class Insurance(Fractional):
             
         if T is not None:
             # indicate PV of benefit Z(T*)
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c=color, marker='o',
                               label=f"Z({T:.2f})={Z:.4f}")
             #ax.text(T + xjig, Z, f"Z({T:.2f})={Z:.4f}", c=color)
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 528fe17..6885fc3 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -432,6 +432,7 @@ class PolicyValues(Premiums):
             bx.set_ylabel(f"$S({K})$", color='g')
             bx.tick_params(axis='y', colors='g')
 
+        z = None
         if T is not None:
             # plot indicate(T*)
             z = self.L_from_t(T, contract=contract)
-- 
2.43.0


From 63bd9725f76f7ed2f101b47c40452b7601e92007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 44/98] fix: loss of a life who survives the policy term pays
 the endowment at end of term and no death benefit

---
 src/actuarialmath/policyvalues.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 6885fc3..bef02f3 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -323,12 +323,11 @@ class PolicyValues(Premiums):
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
         if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+            t = c.T - 1 if c.discrete else c.T    # when last premium is paid
+            benefit = c.endowment * self.Z_from_t(c.T, discrete=False)
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            benefit = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (benefit
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From 3d8632d611b8fb837b6826adf4241e4adc9b2ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 45/98] fix: renewal terms of a whole life contract are still
 whole life

---
 src/actuarialmath/policyvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index bef02f3..c951454 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -92,7 +92,7 @@ class Contract(Actuarial):
                         discrete=self.discrete,
                         premium=self.premium,
                         endowment=self.endowment,
-                        T=self.T - t)
+                        T=self.add_term(self.T, -t))
 
     @property
     def renewal_profit(self) -> float:
-- 
2.43.0


From 92c2985a1fbdb1bc4c65479bd74dc1cf10bcad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 46/98] fix: term of policy is limited from age at issue, not
 from age at later durations

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c951454..30340e7 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From b79af4a422ead16b3bea75a154376f367283db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 47/98] fix: given initial and maturity reserves were
 overwritten when entering reserves

---
 src/actuarialmath/reserves.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index f9e7ec4..a5ee5dc 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -36,8 +36,9 @@ class Reserves(PolicyValues):
         if V:
             self._reserves['V'].update(V)
             self.T = max(len(V) - 1, self.T)
-        self._reserves['V'][0] = 0  # initial reserve is 0 by equivalence
-        self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
+        self._reserves['V'].setdefault(0, 0)  # initial reserve is 0 by equivalence
+        if endowment or self.T not in self._reserves['V']:
+            self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
         return self
 
     def fill_reserves(self, x: int, s: int = 0, reserve_benefit: bool = False,
-- 
2.43.0


From ae79eb001b139da4e3acbe8018007aeffda4a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 48/98] fix: reserves ignored the settlement expense of the
 policy

---
 src/actuarialmath/reserves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index a5ee5dc..6020443 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -61,7 +61,7 @@ class Reserves(PolicyValues):
                                  per_policy = -contract.endowment)
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.initial_premium, 
                                  per_policy=contract.initial_policy)
@@ -69,7 +69,7 @@ class Reserves(PolicyValues):
                     v = 0
                 else:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.renewal_premium, 
                                  per_policy=contract.renewal_policy)
-- 
2.43.0


From 8386b911c26c6f81e6024a97106def2db7216051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:23 +0000
Subject: [PATCH 49/98] fix: last age of a life table depended on the order in
 which its entries were given

---
 src/actuarialmath/lifetable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 583d893..d5a6bde 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -103,10 +103,8 @@ class LifeTable(Reserves):
             self._MINAGE = minage
         if maxage < 0:
             maxage = max([max(v) for v in inputs.values()])
-            if self._MAXAGE < 0:
+            if self._MAXAGE < 0 or maxage >= self._MAXAGE:
                 self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
         else:
             self._MAXAGE = maxage
 
-- 
2.43.0


From 7ccbda1c515a1c0f86bcaa3c7cd8079fa2cfed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:36 +0000
Subject: [PATCH 50/98] fix: filling a life table divided by zero when a year
 has no survivors, no deaths or no lives

---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index d5a6bde..97ad7c4 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -130,7 +130,7 @@ class LifeTable(Reserves):
                 return self._table['q'][x]
             if x in self._table['p']:
                 return 1 - self._table['p'][x]
-            if x in self._table['d'] and x in self._table['l']:
+            if x in self._table['d'] and self._table['l'].get(x, 0):
                 return self._table['d'][x] / self._table['l'][x]
             return None
 
@@ -146,11 +146,11 @@ class LifeTable(Reserves):
             """Helper to try compute number of lives aged x: l_x"""
             if x in self._table['l']:
                 return self._table['l'][x]
-            if x+1 in self._table['l'] and x in self._table['q']:
+            if x+1 in self._table['l'] and self._table['q'].get(x, 1) < 1:
                 return self._table['l'][x+1] / (1 - self._table['q'][x])
             if x-1 in self._table['l'] and x-1 in self._table['q']:
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
-            if x in self._table['d'] and x in self._table['q']:
+            if x in self._table['d'] and self._table['q'].get(x, 0):
                 return self._table['d'][x] / self._table['q'][x]
             return None
 
-- 
2.43.0


From c9801bc957c1d771ce3b92955cc0d0debc524a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:49 +0000
Subject: [PATCH 51/98] fix: numbers of lives were not filled from deaths and
 lives at an adjacent age

---
 src/actuarialmath/lifetable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 97ad7c4..ed79013 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -152,6 +152,10 @@ class LifeTable(Reserves):
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
             if x in self._table['d'] and self._table['q'].get(x, 0):
                 return self._table['d'][x] / self._table['q'][x]
+            if x+1 in self._table['l'] and x in self._table['d']:
+                return self._table['l'][x+1] + self._table['d'][x]
+            if x-1 in self._table['l'] and x-1 in self._table['d']:
+                return self._table['l'][x-1] - self._table['d'][x-1]
             return None
 
         def d_x(x: int) -> float | None:
-- 
2.43.0


From 003ae51cc69b5443fa987c0d4248b3dfbe00ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 52/98] fix: numbers of deaths entered in a select table column
 were replaced by expected lifetimes

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1c93241..a7037a8 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
-- 
2.43.0


From 246cad8fe501f9de0b0b29a02cff6d82023b7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 53/98] fix: last age of a select table could be lowered by
 entering a column by attained age

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index a7037a8..a8babed 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -140,7 +140,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From 2029d4720023f6714864056602a8cea95cd410a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 54/98] fix: all select lives were counted as dead by the last
 selection age instead of the end of the table

---
 src/actuarialmath/selectlife.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index a8babed..b6a0752 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -349,6 +349,16 @@ class SelectLife(LifeTable):
         """
         return self._get_sel(x, s, 'l')
 
+    def d_x(self, x: int, s: int = 0, t: int = 1) -> float:
+        """Returns number of deaths from [x]+s within t years
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : death within next t years
+        """
+        return self.l_x(x, s=s) - (self.l_x(x, s=s+t) or 0)
+
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
 
-- 
2.43.0


From 7988de8f2ee49a400fda6568f15a108b8a1ad151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 55/98] fix: number of select lives was not filled from deaths
 and survivors

---
 src/actuarialmath/selectlife.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index b6a0752..1d28bdd 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -214,6 +214,8 @@ class SelectLife(LifeTable):
                 return self._get_sel(x, s+1, 'l') / (1 - self._get_sel(x, s, 'q'))
             if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q'):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
+            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s+1, 'l'):
+                return self._get_sel(x, s, 'd') + self._get_sel(x, s+1, 'l')
 
             backwards = [(x, s-1)]  # to move backwards along row
             if s >= self.periods_:     # if in ultimate, can also move up column
-- 
2.43.0


From 1e420f9da9020f738fac5434070277edc65bf152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 56/98] fix: insurances and annuities of select lives ended at
 the last selection age instead of the last ultimate age

---
 src/actuarialmath/selectlife.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1d28bdd..a509c5f 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -285,6 +285,20 @@ class SelectLife(LifeTable):
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
+    def max_term(self, x: int, t: int, u: int = 0) -> int:
+        """Decrease term t if adding deferral period u exceeds end of table
+
+        Args:
+          x : attained age
+          t : term of insurance or annuity, after deferral period
+          u : term deferred
+        """
+        maxage = max([age + self.periods_ + 1     # end of ultimate mortality
+                      for age in self._select['q']
+                      if self._isin_sel(age, self.periods_, 'q')],
+                     default=self._MAXAGE)
+        return maxage - (x + u) if t < 0 or x + t + u > maxage else t
+
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
         """Returns insurance value computed from select table
-- 
2.43.0


From 43309f747986b8f7cbea4f0d6e0c737cb40b6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 57/98] fix: initial number of select lives is assumed only and
 always when no lives are given

---
 src/actuarialmath/selectlife.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index a509c5f..7b70f53 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -281,7 +281,9 @@ class SelectLife(LifeTable):
                                     curr += 1
                                     if self._verbose:
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
-            if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
+            if not any([self._isin_sel(x, s, 'l')        # arbitrary initial lives
+                        for x in self._select['l']
+                        for s in range(self.periods_ + 1)]):
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
-- 
2.43.0


From e4c2c0af572bda8e4fa376fe96a43dc50d280c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 58/98] fix: Recursion trace display to a text notebook raised
 NameError

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..418330e 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -69,7 +69,7 @@ class _Blog:
             if _Blog._notebook and _Blog._latex:
                 display_latex(_str, raw=True)
             elif _Blog._notebook:
-                display_pretty(_self, raw=True)
+                print(_str, end=end)
             else:
                 print(_str, end=end)
             
-- 
2.43.0


From 44da5244a68768dd0458c929b9287bb58fb9db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 59/98] fix: Recursion stored and returned second moments and
 variances scaled by the benefit, not by its square; facts with no death
 benefit were confused with endowment insurance

---
 src/actuarialmath/recursion.py | 39 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 418330e..14d0c4d 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -410,6 +410,10 @@ class Recursion(Reserves):
         for k in sorted(self.db.keys()):
             print(k, self.db[k])
 
+    def _scale(self, b: float, moment: int = 1) -> float:
+        """Factor by which the moment of a unit benefit scales to benefit b"""
+        return b**2 if moment == self.VARIANCE else b**moment
+
     #
     # Formulas for Mortality: u|t_q_x
     #
@@ -793,7 +797,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * self._scale(endowment, moment)  # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +811,7 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        val /= self._scale(endowment, moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -1117,13 +1121,12 @@ class Recursion(Reserves):
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
         if t == 0:          # terminal value of insurance
-            return endowment
-        if b == 0:          # normalize insurance factor by benefit amount
-            scale = endowment
-            endowment = 1
-        else:
-            scale = b
-            endowment = 1 if b == endowment else endowment / b
+            return endowment**moment if moment > 0 else 0
+        if b == 0:          # no death benefit, hence is a pure endowment
+            return None if u else self._get_E(x, s=s, t=t, endowment=endowment,
+                                              moment=moment)
+        scale = self._scale(b, moment)  # normalize by benefit amount
+        endowment = 1 if b == endowment else endowment / b
         key = self._db_key('A', x=x+s, u=u, t=t, moment=moment, 
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
@@ -1151,14 +1154,10 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
-        if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
-        elif b == 0:
-            val /= endowment   # store with benefit=1
-        else:
-            if b != 1:
-                val /= b
-                endowment /= b
+        if b == 0 and not u:   # no death benefit, hence is a pure endowment
+            return self.set_E(val, x, s=s, t=t, endowment=endowment, moment=moment)
+        val /= self._scale(b, moment)  # normalize by benefit amount
+        endowment = 1 if b == endowment else endowment / b
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
                                          discrete=discrete), val)
@@ -1478,7 +1477,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * b**(1 + variance)    # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1498,7 +1497,7 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        val /= b**(1 + variance)    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
@@ -1509,7 +1508,7 @@ class Recursion(Reserves):
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-            return b 
+            return 0 if variance else b
         if t == 0:
             return 0
         found = self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
-- 
2.43.0


From d0fe80f00cda2d6115bec0b459c7b6b195fe029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:34 +0000
Subject: [PATCH 60/98] fix: Recursion second moment of a pure endowment
 ignored its term and the square of its amount

---
 src/actuarialmath/recursion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 14d0c4d..354a7b5 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -825,13 +825,14 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, depth=depth)
+            if E is not None:  # (1) Shortcut: 2E_x = v^t E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return (E * self.interest.v_t(t)**(moment-1)
+                        * endowment**moment)
             else:
                 self.blog.pop(depth=depth)
 
@@ -898,6 +899,8 @@ class Recursion(Reserves):
             if found is not None:
                 return found
             t_p_x = self.p_x(x, s=s, t=t)
+            if t_p_x is None:
+                return None
             return (endowment * self.interest.v_t(t))**2 * t_p_x * (1-t_p_x)
         found = self._E_x(x, s=s, t=t, endowment=endowment, moment=moment,
                           depth=self.maxdepth)
-- 
2.43.0


From 402190fa8d45fd4506cb27a51b253b28de8999dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 61/98] fix: Recursion increasing insurance backward recursion
 used one-year insurance for the unit increase

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 354a7b5..f641b95 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -969,13 +969,13 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
                 self.blog(self.pprint.IA(x=x, s=s, t=t), '=',
                           self.pprint.A(x=x, s=s, t=t), '+',
-                          self.pprint.p(x=x, s=s), f"*", self.pprint.m(t, v="v"), "*",
+                          self.pprint.p(x=x, s=s), f"* v *",
                           self.pprint.IA(x=x, s=s+1, t=t-1),
                           #f"backward IA_{x+s}:{t}: A + IA_{x+s+1}:{t-1}",
                           depth=depth, rule='backward recursion')
-- 
2.43.0


From 7a27570e14500799555667e05c33af3b211549b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 62/98] fix: Recursion decreasing insurance rejected every term
 and exchanged increasing and decreasing values

---
 src/actuarialmath/recursion.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f641b95..f87f6c7 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1044,18 +1044,18 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1066,16 +1066,17 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
                 self.blog(self.pprint.DA(x=x, s=s, t=t), f"=",
-                          self.pprint.m(t, v="v"), "* t *",
+                          f"v * [ {t} *",
                           self.pprint.q(x=x, s=s), '+',
-                          self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
+                          self.pprint.p(x=x, s=s), '*',
+                          self.pprint.DA(x=x, s=s+1, t=t-1), ']',
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 460242b0e73db97973cb4936f0571ac5809cf93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:05 +0000
Subject: [PATCH 63/98] fix: Recursion applied first-moment recursions to
 variances

---
 src/actuarialmath/recursion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f87f6c7..46028b6 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1171,7 +1171,8 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if (endowment == b and t == 1 and discrete
+            and not u and moment > 0): # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1180,7 +1181,7 @@ class Recursion(Reserves):
                             moment=moment, endowment=endowment)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or moment < 0:  # no recursions for variance
             return None
 
         if discrete and u > 0:  # (1) deferred insurance  
@@ -1519,9 +1520,8 @@ class Recursion(Reserves):
                             variance=variance)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or variance:  # no recursions for variance
             return None
-        assert variance is False, "Annuity recursion requires variance=False"
 
         if u > 0:  # (1) deferred annuity
             found = self._a_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
-- 
2.43.0


From edae9835c53e4d3681eb282ecfb9fc59401049d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:13 +0000
Subject: [PATCH 64/98] fix: Recursion deferred and one-year insurance steps
 raised NameError and AttributeError

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 46028b6..64dd18b 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1188,7 +1188,7 @@ class Recursion(Reserves):
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
@@ -1262,7 +1262,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), f"*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From 1cd7958040253ad4cdc9235ed8d167ba51ee8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 65/98] fix: Recursion twin shortcuts ignored benefit amount

---
 src/actuarialmath/recursion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 64dd18b..7018d6b 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1371,14 +1371,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1450,11 +1450,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1605,13 +1605,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1641,7 +1641,7 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
@@ -1649,7 +1649,7 @@ class Recursion(Reserves):
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From 57db18cc63bf6fd97027ad7b67ae0c009676a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 66/98] fix: Recursion deferred_annuity fallback dropped the
 deferral period

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7018d6b..ccd5093 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1684,7 +1684,7 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, u=u, b=b, t=t, discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From f8ed82550a8a11f01cec2978395140883b053236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 67/98] fix: Mthly.A_x ignored a deferral (summed the deferred
 years too) and ran past the last age of a table

---
 src/actuarialmath/mthly.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..de8a56e 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,14 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
-                            * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.A_x(x, s=s, t=t, u=u, benefit=benefit,
+                              moment=moment, discrete=False)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
-- 
2.43.0


From 53a0ed8ba9be919a1f57de253e33786cab641045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 68/98] fix: Mthly.whole_life_insurance summed a number and
 raised TypeError

---
 src/actuarialmath/mthly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index de8a56e..e2f405c 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -139,8 +139,8 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
-
+        return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b,
+                        moment=moment)
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                        moment: int = 1) -> float:
-- 
2.43.0


From 70227c7ab84f3d555ed929b642e485220263895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:53 +0000
Subject: [PATCH 69/98] fix: variance of Mthly.endowment_insurance scaled the
 benefit twice

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index e2f405c..f1523c7 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -204,7 +204,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
-- 
2.43.0


From ae2c20258c8ab63377b621cb516051584e47f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 70/98] fix: Mthly.whole_life_annuity with continuous payment
 used the annual discount rate

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f1523c7..025970a 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -263,7 +263,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
-- 
2.43.0


From 8673be296ffbdfeeaac96b071a7c6f9f9fd92ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 71/98] fix: variance of Mthly.temporary_annuity used term in
 place of endowment insurance

---
 src/actuarialmath/mthly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 025970a..e877ddc 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -277,8 +277,8 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
-- 
2.43.0


From b73c12e8a2448cc7a70bfb605ab0a68206219aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 72/98] fix: Mthly.temporary_annuity called a nonexistent
 max_term

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index e877ddc..825c8a5 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -283,7 +283,7 @@ class Mthly(Actuarial):
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
-- 
2.43.0


From 7feb06840796dfbb8cbf40cb2a8592a86cd4bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 73/98] fix: continuous Mthly.immediate_annuity ignored the
 benefit amount

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 825c8a5..a3a90a9 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -317,7 +317,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From 2ea767694f22b8a6661a529423109fe0434601a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:02 +0000
Subject: [PATCH 74/98] fix: UDD.whole_life_insurance ignored the benefit
 amount and failed for second moments

---
 src/actuarialmath/udd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..4c56c6d 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -63,10 +63,11 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return ((self.whole_life_insurance(x, s=s, moment=2) -
                      self.whole_life_insurance(x, s=s)**2) * b**2)
-        A = self.life.whole_life_insurance(x, s=s, moment=moment)
+        A = self.life.whole_life_insurance(x, s=s, moment=moment, 
+                                           discrete=True) * b**moment
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i=i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * i / i_m
 
-- 
2.43.0


From faa2c2def15541cb5883003af9d099407fefd21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 75/98] fix: UDD.term_insurance failed for second moments and
 adjusted a continuous value for some lives

---
 src/actuarialmath/udd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4c56c6d..f6d46ad 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -112,10 +112,11 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return (self.term_insurance(x, s=s, t=t, b=b, moment=2) -
                     self.term_insurance(x, s=s, t=t, b=b)**2)
-        A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
+        A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment,
+                                     discrete=True)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i=i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From bce0f6ece1ee23ead1d0dba3e1f32bdde6776742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:23 +0000
Subject: [PATCH 76/98] fix: variance of UDD.whole_life_annuity used a
 nonexistent discount rate

---
 src/actuarialmath/udd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index f6d46ad..8653650 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -136,7 +136,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
-- 
2.43.0


From 8b99a58f2429cfa4ed071b519dcbdf3e9178dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 77/98] fix: variance of UDD.temporary_annuity called a
 nonexistent method

---
 src/actuarialmath/udd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 8653650..e3b10e4 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -155,9 +155,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
-- 
2.43.0


From ed2d310c44dfa43057319b3ea2c04acf3595eb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 78/98] fix: UDD.deferred_annuity raised NameError, and ignored
 the end of its term in the second adjustment factor

---
 src/actuarialmath/udd.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index e3b10e4..cd94cbf 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -177,15 +177,14 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
-
-        a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u)
+        a = self.temporary_annuity(x, s=s+u, t=t)
+        if variance:  # from the moments of the annuity if survived to start
+            a2 = self.temporary_annuity(x, s=s+u, t=t, variance=True) + a**2
+            return (self.E_x(x, s=s, t=u, moment=2)*a2 - (E * a)**2) * b**2
+        return E * a * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From 7afe9009401fbfff00454c8ca2a9ebfbc725aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 79/98] fix: UDD annuity factors kept the interest rate at
 construction while insurances used the current one

---
 src/actuarialmath/udd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index cd94cbf..59b32a8 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,16 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        """1/mthly UDD alpha function value at current interest rate"""
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        """1/mthly UDD beta function value at current interest rate"""
+        return self.beta(m=self.m, i=self.life.interest.i)
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
-- 
2.43.0


From 1e4e850681127b8dd1d9b0451de3ae0b5a972a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 80/98] fix: Woolhouse approximate force of mortality asked for
 a negative duration since selection

---
 src/actuarialmath/woolhouse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..e61e041 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -31,7 +31,9 @@ class Woolhouse(Mthly):
           s : years after selection
         """
         if self.approximate_mu is True:       # approximate mu from integer ages
-            return -.5 * sum([math.log(self.life.p_x(x, s=s+t)) for t in [0,-1]])
+            y, r = (x, s-1) if s > 0 else (x-1, s)   # age one year younger
+            return -.5 * (math.log(self.life.p_x(x, s=s)) +
+                          math.log(self.life.p_x(y, s=r)))
         elif self.approximate_mu is False:
             return self.life.mu_x(x, s=s)     # use exact mu from survival model
         else:                                 # apply custom function for mu
-- 
2.43.0


From 1a5131dc9f60492b7891777557574b39c1715330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:14 +0000
Subject: [PATCH 81/98] fix: Woolhouse treated a force of mortality given as
 zero as not given

---
 src/actuarialmath/woolhouse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index e61e041..84e7905 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -40,7 +40,7 @@ class Woolhouse(Mthly):
             return self.approximate_mu(x, s)
 
     def whole_life_insurance(self, x: int, s: int = 0, b: int = 1,
-                             mu: float | None = 0.) -> float:
+                             mu: float | None = None) -> float:
         """1/m'thly Woolhouse whole life insurance: A_x
  
         Args:
@@ -52,7 +52,7 @@ class Woolhouse(Mthly):
         return b * self.insurance_twin(self.whole_life_annuity(x, s=s, mu=mu))
 
     def term_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
-                       b: int = 1, mu: float | None = 0., 
+                       b: int = 1, mu: float | None = None, 
                        mu1: float | None = None) -> float:
         """1/m'thly Woolhouse term insurance: A_x:t
 
@@ -126,8 +126,9 @@ class Woolhouse(Mthly):
         a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
              (self.m - 1)/(2 * self.m))
         if self.three_term:
-            mu = mu or self.mu_x(x, s)
-            a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
+            if mu is None:
+                mu = self.mu_x(x, s)
+            a -= (mu + self.life.interest.delta) * (1 - r**2) / 12
         return a * b
 
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
-- 
2.43.0


From 352b16826035a8834eb744741a058cfda67970d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 82/98] fix: Woolhouse divided by zero when payment is
 continuous

---
 src/actuarialmath/woolhouse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 84e7905..4aae990 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -123,8 +123,8 @@ class Woolhouse(Mthly):
           >>> life = Recursion().set_interest(i=0.05).set_a(3.4611, x=0)
           >>> Woolhouse(m=4, life=life).whole_life_annuity(x=0)
         """
-        a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
-             (self.m - 1)/(2 * self.m))
+        r = 1 / self.m if self.m > 0 else 0.     # zero if paid continuously
+        a = self.life.whole_life_annuity(x, s=s, discrete=True) - (1 - r)/2
         if self.three_term:
             if mu is None:
                 mu = self.mu_x(x, s)
-- 
2.43.0


From 35aadbf56c5f914e4505947cfc3d49f40a22b168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 83/98] fix: Woolhouse annuity for a term of zero or beyond the
 last age returned a whole life annuity or failed

---
 src/actuarialmath/woolhouse.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4aae990..17c0b2d 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -159,10 +159,13 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
-        a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
-        return a * b
+        if self.life.max_term(x+s, u) < u:
+            return 0.
+        a = self.whole_life_annuity(x, s=s+u, mu=mu)
+        if t >= 0 and self.life.max_term(x+s+u, t) >= t:
+            a -= (self.E_x(x, s=s+u, t=t) *
+                  self.whole_life_annuity(x, s=s+t+u, mu=mu1))
+        return self.E_x(x, s=s, t=u) * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From 20d653df67b59ed3f9e4cf19881bd11645d52391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 84/98] fix: Mthly.deferred_insurance took its years of
 deferral under an undocumented name

---
 src/actuarialmath/mthly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index a3a90a9..f49d61a 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -165,7 +165,7 @@ class Mthly(Actuarial):
         A -= E * self.whole_life_insurance(x, s=s+t, b=b, moment=moment)
         return A
 
-    def deferred_insurance(self, x: int, s: int = 0, n: int = 0, b: int = 1, 
+    def deferred_insurance(self, x: int, s: int = 0, u: int = 0, b: int = 1, 
                            t: int = Annuity.WHOLE, moment: int = 1) -> float:
         """Deferred insurance n|_A_x:t^1 = discounted whole life
 
@@ -177,14 +177,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           moment : return first or second moment
         """
-        if self.life.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if moment == self.VARIANCE:
-            A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
-            A1 = self.deferred_insurance(x, s=s, t=t, n=n)
+            A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
+            A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        E = self.E_x(x, s=s, t=n, moment=moment)
-        A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
+        E = self.E_x(x, s=s, t=u, moment=moment)
+        A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From acde5a8066321250659ae453076372bf06c4e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 85/98] fix: ExtraRisk raised NameError in place of refusing an
 unknown risk

---
 src/actuarialmath/extrarisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..1e97f95 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
-- 
2.43.0


From d95994ec968bbd6ee53974a2ead23b10a851ec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 86/98] fix: ExtraRisk multiplied mortality rates beyond
 certainty

---
 src/actuarialmath/extrarisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index 1e97f95..644a6dd 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -81,7 +81,7 @@ class ExtraRisk(Actuarial):
         if self.risk_ in ["ADD_AGE"]:
             return self.life.q_x(x + self.extra_, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
-            return self.extra_ * self.life.q_x(x, s=s)
+            return min(1, self.extra_ * self.life.q_x(x, s=s))
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From 5209d7ca01bb471bcb56c1e672ed0b7ad216008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:27 +0000
Subject: [PATCH 87/98] fix: ExtraRisk with no risk had survival but no
 mortality probabilities

---
 src/actuarialmath/extrarisk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index 644a6dd..e43e58b 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -82,6 +82,7 @@ class ExtraRisk(Actuarial):
             return self.life.q_x(x + self.extra_, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
             return min(1, self.extra_ * self.life.q_x(x, s=s))
+        return self.life.q_x(x, s=s)
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From 28d6b2a0f883bb09afb7d6952c87b561981b3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 88/98] fix: Beta and Uniform survival from the maximum age
 divided by zero (so did a column of adjusted rates)

---
 src/actuarialmath/mortalitylaws.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 9ec1019..9665b57 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -109,6 +109,8 @@ class Beta(MortalityLaws):
             return radix * max(0, omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
+            if x + s >= omega:
+                return 0. if t > 0 else 1.  # none survive the maximum age
             return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-- 
2.43.0


From b62883a76a0fddfcf86b160cfe715954ca8d581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:48 +0000
Subject: [PATCH 89/98] fix: SelectLife could not be filled when some rate of
 mortality is one

---
 src/actuarialmath/selectlife.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 7b70f53..9d3d246 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -180,7 +180,8 @@ class SelectLife(LifeTable):
             if s >= self.periods_:      # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # A_x+1 = (A_x - qv) / (p v)
-                if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'A'):
+                if (self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'A')
+                    and self._get_sel(_x, _s, 'q') < 1):
                     q = self._get_sel(_x, _s, 'q')
                     return ((self._get_sel(_x, _s, 'A') - q * self.interest.v)
                             / (self.interest.v * (1 - q)))
@@ -199,7 +200,8 @@ class SelectLife(LifeTable):
             if s >= self.periods_:      # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # a_x+1 = (a_x - 1) / (p v)
-                if self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'a'):
+                if (self._isin_sel(_x, _s, 'q') and self._isin_sel(_x, _s, 'a')
+                    and self._get_sel(_x, _s, 'q') < 1):
                     p = 1 - self._get_sel(_x, _s, 'q')
                     return (self._get_sel(_x, _s, 'a') - 1)/(p*self.interest.v)
 
@@ -210,7 +212,8 @@ class SelectLife(LifeTable):
                 return self._get_sel(x, s, 'l')
             if self._isin_sel(x, s-1, 'l') and self._isin_sel(x, s-1, 'q'):
                 return self._get_sel(x, s-1, 'l')*(1 - self._get_sel(x, s-1, 'q'))
-            if self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q'):
+            if (self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q')
+                and self._get_sel(x, s, 'q') < 1):
                 return self._get_sel(x, s+1, 'l') / (1 - self._get_sel(x, s, 'q'))
             if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q'):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
@@ -256,7 +259,8 @@ class SelectLife(LifeTable):
             if s >= self.periods_:     # if in ultimate, can also move up column
                 backwards += [(x-1, s)]
             for _x, _s in backwards:   # e_x+1 = e_x/p_x - 1
-                if self._isin_sel(_x, _s, 'e') and self._isin_sel(_x, _s, 'q'):
+                if (self._isin_sel(_x, _s, 'e') and self._isin_sel(_x, _s, 'q')
+                    and self._get_sel(_x, _s, 'q') < 1):
                     return (self._get_sel(_x, _s, 'e') 
                             / (1 - self._get_sel(_x, _s, 'q'))) - 1
 
-- 
2.43.0


From 99db4b05858f7ee4682c5b5150e49393cbe7fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 90/98] fix: survival drawn on the second axis of plots is that
 of [x]+s at fractional times too, annotation at time 0 returns its value,
 L_plot shows its title

---
 src/actuarialmath/annuity.py      | 7 ++++---
 src/actuarialmath/insurance.py    | 7 ++++---
 src/actuarialmath/policyvalues.py | 6 ++++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 61b990a..1785f72 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -379,7 +379,8 @@ class Annuity(Insurance):
 
         # plot survival probabilities in secondary axis
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.p_x(x=x, s=s, t=t) if discrete else self.S(x, s, t)
+                 for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if discrete else 'post')
@@ -397,7 +398,7 @@ class Annuity(Insurance):
             ax.legend(handles=[label1], loc='upper left')
 
             if dual:
-                prob = self.S(x, 0, T)
+                prob = self.S(x, s, T)
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -406,7 +407,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1b09f1b..735b4fc 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -397,7 +397,8 @@ class Insurance(Fractional):
 
         # plot survival probabilities in secondary axis
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.p_x(x=x, s=s, t=t) if discrete else self.S(x, s, t)
+                 for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if discrete else 'post')
@@ -414,7 +415,7 @@ class Insurance(Fractional):
             ax.legend(handles=[label1], loc='lower left')
 
             if dual:
-                prob = self.S(x, 0, T)      # note: is opposite of annuity
+                prob = self.S(x, s, T)      # note: is opposite of annuity
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -423,7 +424,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 30340e7..65a8eca 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -423,7 +423,8 @@ class PolicyValues(Premiums):
         xjig = (xmax - xmin) / 50
 
         if dual:
-            p = [self.p_x(x=x, s=s, t=t) for t in steps]
+            p = [self.p_x(x=x, s=s, t=t) if contract.discrete else self.S(x, s, t)
+                 for t in steps]
             bx = ax.twinx()
             bx.step(steps, p, '-', c='g', alpha=alpha,
                     where='pre' if contract.discrete else 'post')
@@ -444,7 +445,8 @@ class PolicyValues(Premiums):
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
-        ax.set_title(f"PV future loss at issue r.v. $_0L$")
+        ax.set_title(f"PV future loss at issue r.v. $_0L$"
+                     if title is None else title)
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-- 
2.43.0


From 1923b952dfa2ab0294bae5605396de4da3a6c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 91/98] fix: displayed recursion steps state the equation used
 (terms of lifetimes, moments and benefits of insurances, deferred annuity,
 titles)

---
 src/actuarialmath/recursion.py | 66 +++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index ccd5093..276dbef 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -715,7 +715,7 @@ class Recursion(Reserves):
                     if e is not None and e_t is not None and p_t is not None:
                         self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
                                   self.pprint.e(x=x, s=s, curtate=curtate), '-',
-                                  self.pprint.p(x=x, s=s), '*',
+                                  self.pprint.p(x=x, s=s, t=t), '*',
                                   self.pprint.e(x=x, s=s+t, curtate=curtate),
                                   #"e_{x+s}:{t}: e_x - p_x e_x+t",
                                   depth=depth, rule="temporary lifetime")
@@ -733,10 +733,10 @@ class Recursion(Reserves):
                     #_t = "" if t < 0 else ":" + str(t)
                     #msg = f"forward e_{x+s}{_t} = e_{x+s}:1 + p_{x+s} e_{x+s+1}"
                     self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '= [',
-                              self.pprint.e(x=x, s=s-1, t=self.add_term(t, 1),
+                              self.pprint.e(x=x, s=s-u, t=self.add_term(t, u),
                                             curtate=curtate), '-',
-                              self.pprint.e(x=x, s=s-1, t=1, curtate=curtate), '] /',
-                              self.pprint.p(x=x, s=s-1, t=1), 
+                              self.pprint.e(x=x, s=s-u, t=u, curtate=curtate), '] /',
+                              self.pprint.p(x=x, s=s-u, t=u), 
                               depth=depth, rule='forward recursion')
                     return (e - e1) / p # (3) forward: (e_x-1 - e_x-1:1) / p_x-1
                 else:
@@ -828,7 +828,7 @@ class Recursion(Reserves):
             E = self._E_x(x, s=s, t=t, depth=depth)
             if E is not None:  # (1) Shortcut: 2E_x = v^t E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
-                          f"= " + self.pprint.m(moment*t, v="v"), '*',
+                          f"= " + self.pprint.m((moment-1)*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
                 return (E * self.interest.v_t(t)**(moment-1)
@@ -842,7 +842,7 @@ class Recursion(Reserves):
         #    print('p', x, s, t, depth)
         if p is not None:   # (2) E_x = p_x * v
             #msg = f"pure endowment {t}_E_{x+s} = {t}_p_{x+s} * v^{t}"
-            self.blog(self.pprint.E(x=x, s=s, t=t), '=',
+            self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment), '=',
                       self.pprint.p(x=x, s=s, t=t),
                       f"*", self.pprint.m(moment*t, v="v"),
                       depth=depth, rule='pure endowment')
@@ -857,9 +857,12 @@ class Recursion(Reserves):
         A = self._A_x(x, s=s, t=t, b=endowment, endowment=endowment, 
                       moment=moment, depth=depth-1)        
         if A is not None and At is not None:
-            self.blog(self.pprint.E(x=x, s=s, t=t), '=',
-                      self.pprint.A(x=x, s=s, t=t, endowment=endowment), '-',
-                      self.pprint.A(x=x, s=s, t=t, endowment=0),
+            self.blog(self.pprint.E(x=x, s=s, t=t, endowment=endowment,
+                                    moment=moment), '=',
+                      self.pprint.A(x=x, s=s, t=t, b=endowment, moment=moment,
+                                    endowment=endowment), '-',
+                      self.pprint.A(x=x, s=s, t=t, b=endowment, moment=moment,
+                                    endowment=0),
                       #f"endowment - term insurance = {t}_E_{x+s}",
                       depth=depth, rule='endowment insurance minus term')
             return A - At  # (3) endowment insurance - term (helpful SULT)
@@ -1091,7 +1094,7 @@ class Recursion(Reserves):
           b : amount of benefit in first year
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        self.blog = self.Blog("Increasing Insurance",
+        self.blog = self.Blog("Decreasing Insurance",
                               self.pprint.DA(x=x, s=s, t=t, b=b, discrete=discrete),
                               levels=self.maxdepth)
         if t == 0:
@@ -1219,9 +1222,9 @@ class Recursion(Reserves):
                             endowment=endowment, depth=depth-1)
             if A is not None and E_x is not None:
                 # f"term + pure insurance = A_{x+s}:{t}",
-                self.blog(self.pprint.A(x=x, s=s, t=t, endowment=endowment,
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, endowment=endowment,
                                             moment=moment),
-                          '=', self.pprint.A(x=x, s=s, t=t, moment=moment), '+',
+                          '=', self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '+',
                           self.pprint.E(x=x, s=s, t=t, endowment=endowment,
                                             moment=moment),
                           depth=depth, rule='term plus pure endowment')
@@ -1235,8 +1238,9 @@ class Recursion(Reserves):
                             depth=depth-1)
             if A is not None and E_x is not None:
                 #msg = f"endowment insurance - pure endowment = A_{x+s}^1:{t}"
-                self.blog(self.pprint.A(x=x, s=s, t=t, moment=moment), '=',
-                          self.pprint.A(x=x, s=s, t=t, moment=moment, endowment=b), '-',
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '=',
+                          self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                        endowment=b), '-',
                           self.pprint.E(x=x, s=s, t=t, endowment=b, moment=moment),
                           depth=depth, rule='endowment insurance - pure')
                 return A - E_x
@@ -1257,13 +1261,13 @@ class Recursion(Reserves):
             #print(p, x, s, t, b, endowment)
             
             if p is not None:  # (3b) one-year discrete insurance
-                self.blog(self.pprint.A(x=x, s=s, t=t, moment=moment,
+                self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
                                             endowment=endowment), "=",
-                          self.pprint.m(moment, v="v"), "*",
+                          self.pprint.m(moment, v="v"), "* [",
                           self.pprint.q(x=x, s=s), f"*",
-                          self.pprint.m(moment, v="v"), "+",
+                          self.pprint.m(moment, b=b), "+",
                           self.pprint.p(x=x, s=s), f"*",
-                          self.pprint.m(moment, endow=endowment),
+                          self.pprint.m(moment, endow=endowment), "]",
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
                 return (self.interest.v**moment 
@@ -1280,12 +1284,14 @@ class Recursion(Reserves):
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s, t=1, depth=depth-1) # (4) backward recursion
         if A is not None and p is not None:
-            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment),
+            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                    endowment=endowment),
                       f"= v"+self.pprint.m(moment), "* [",
                       self.pprint.q(x=x,s=s), f"*",
                       self.pprint.m(moment, b="b"), "+",
                       self.pprint.p(x=x, s=s), '*',
-                      self.pprint.A(x=x, s=s+1, t=t-1, b=b, moment=moment), ']',
+                      self.pprint.A(x=x, s=s+1, t=t-1, b=b, moment=moment,
+                                    endowment=endowment), ']',
                       #f"backward: A_{x+s} = qv + pvA_{x+s+1}",
                       depth=depth, rule='backward recursion')
             return self.interest.v_t(1)**moment * ((1 - p)*b**moment + p*A)
@@ -1337,8 +1343,10 @@ class Recursion(Reserves):
                       endowment=endowment, depth=depth-1)
         p = self._p_x(x, s=s-1, t=1, depth=depth-1)
         if A is not None and p is not None:  # (5) forward recursion
-            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment), '= [',
-                      self.pprint.A(x=x, s=s-1, t=t+1, b=b, moment=moment),
+            self.blog(self.pprint.A(x=x, s=s, t=t, b=b, moment=moment,
+                                    endowment=endowment), '= [',
+                      self.pprint.A(x=x, s=s-1, t=self.add_term(t, 1), b=b,
+                                    moment=moment, endowment=endowment),
                       f"/", self.pprint.m(moment, v="v"), "-",
                       self.pprint.q(x=x, s=s-1), f"*",
                       self.pprint.m(moment, b="b"), "] /", self.pprint.p(x=x, s=s-1),
@@ -1436,14 +1444,14 @@ class Recursion(Reserves):
                             endowment: int = -1, moment: int = 1,
                             discrete: bool = True) -> float:
         """Compute endowment insurance u|A_x:t by attempting recursion first"""
+        assert t >= 0
+        if endowment < 0:
+            endowment = b
         self.blog = self.Blog("Endowment Insurance",
                               self.pprint.A(x=x, s=s, t=t, b=b, u=0,
                                             discrete=discrete,
                                             endowment=endowment, moment=moment),
                               levels=self.maxdepth)
-        assert t >= 0
-        if endowment < 0:
-            endowment = b
         found = self._A_x(x, s=s, b=b, t=t, moment=moment, discrete=discrete,
                           endowment=endowment, depth=self.maxdepth)
         if found is not None:
@@ -1530,7 +1538,7 @@ class Recursion(Reserves):
             if found is not None and E is not None:
                 #msg = f"backward {u}_a_{x+s} = {u}_E * a_{x+s+u}"
                 self.blog(self.pprint.a(x=x, s=s, u=u, t=t), '=',
-                          self.pprint.a(x=x, s=s+1, t=t, u=u-1), '/',
+                          self.pprint.a(x=x, s=s+1, t=t, u=u-1), '*',
                           self.pprint.E(x=x, s=s),
                           depth=depth, rule='backward deferred annuity')
                 return E * found  # (1a) backward recusion
@@ -1597,7 +1605,7 @@ class Recursion(Reserves):
         """
         self.blog = self.Blog("Whole Life Annuity",
                               self.pprint.a(x=x, s=s, t=Reserves.WHOLE, b=b, u=0,
-                                            discrete=discrete, variance=False),
+                                            discrete=discrete, variance=variance),
                               levels=self.maxdepth)
         found = self._a_x(x, s=s, b=b, variance=variance, 
                           discrete=discrete, depth=self.maxdepth)
@@ -1644,8 +1652,8 @@ class Recursion(Reserves):
             A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
-                self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
-                          self.pprint.A(x=x, s=s, t=t, b=b, endowment=b), f"] / d",
+                self.blog(self.pprint.a(x=x, s=s, t=t), '= [ 1 -',
+                          self.pprint.A(x=x, s=s, t=t, endowment=1), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-- 
2.43.0


From e305e3a9d81e988c0601bcc430b92c8dbad62cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 92/98] fix: a refused set_survival (form not callable) left
 the model half reconfigured

---
 src/actuarialmath/survival.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index d1abd72..363e31d 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -37,6 +37,8 @@ class Survival(Life):
         >>> life = Survival().set_survival(l=ell)
         """
         assert(any([S, f, l, mu])), "One form of survival function must be specified"
+        for name, fun in dict(l=l, S=S, mu=mu, f=f).items():  # before any change
+            assert fun is None or callable(fun), f"{name} must be callable"
         self._MAXAGE = maxage
         self._MINAGE = minage
         self.S = None   # survival probability: Prob(T_[x]+s > t)
@@ -83,20 +85,16 @@ class Survival(Life):
 
         # derive and set all forms of basic survival and mortality functions
         if l is not None:
-            assert callable(l), "l must be callable"
             self.S = S_from_l
             self.mu = mu_from_l
             self.f = f_from_l
         if S is not None:
-            assert callable(S), "S must be callable"
             self.mu = mu_from_S
             self.f = f_from_S
         if mu is not None:
-            assert callable(mu), "mu must be callable"
             self.S = S_from_mu
             self.f = f_from_mu
         if f is not None:
-            assert callable(f), "f must be callable"
             self.S = S_from_f
             self.mu = mu_from_f
         self.l = l or self.l
-- 
2.43.0


From 20a72bf4dd585234ef2922ca3aec6ba6c011e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 93/98] fix: variance of an empty temporary annuity-due at zero
 interest was that of the whole lifetime

---
 src/actuarialmath/annuity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 1785f72..ffd3211 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -156,8 +156,8 @@ class Annuity(Insurance):
         interest = self.interest.d if discrete else self.interest.delta
         if variance and not interest: # when interest=0, is variance of lifetime
             t = self.max_term(x+s, t)   # limited to (t-1) years if annuity due
-            return b**2 * self.e_x(x, s=s, t=t-int(discrete), curtate=discrete,
-                                   moment=self.VARIANCE)
+            return b**2 * self.e_x(x, s=s, t=max(0, t-int(discrete)),
+                                   curtate=discrete, moment=self.VARIANCE)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
-- 
2.43.0


From f90ba177dd38d523707fa97d72f3b53fb5fb4026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 94/98] fix: typeset display of recursion steps dropped the
 moment and amount of a pure endowment, so that its steps stated false
 equations

---
 src/actuarialmath/recursion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 276dbef..6d87606 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -258,10 +258,12 @@ class PPrint(_Blog):
           moment: int = 1) -> str:
         """Return latex string representation of pure endowment t_E_[x+s]:t term"""
         left = '~'
+        if moment > 1:
+            left += f"^{moment}"
         if t != 1:
             left += f"_{{{t}}}"
         right = f"x+{x+s}" if x + s > 0 else "x"
-        return f"{left}E_{{{right}}}"
+        return f"{left}E_{{{right}}}" + f"* {endowment}"*(endowment != 1)
     
     @staticmethod
     def IA(x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
-- 
2.43.0


From 318174e69c940f68517c6521a4608552096d2882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 95/98] fix: typeset pure endowment for life shows infinity not
 the internal marker of whole life

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6d87606..877e4fe 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -261,7 +261,7 @@ class PPrint(_Blog):
         if moment > 1:
             left += f"^{moment}"
         if t != 1:
-            left += f"_{{{t}}}"
+            left += f"_{{{t}}}" if t >= 0 else "_{\\infty}"  # term or whole life
         right = f"x+{x+s}" if x + s > 0 else "x"
         return f"{left}E_{{{right}}}" + f"* {endowment}"*(endowment != 1)
     
-- 
2.43.0


From d3d41a1a6dae7bc89a6f45aa559f474cc987d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:01 +0000
Subject: [PATCH 96/98] fix: select table fill divided by zero where no lives
 or no deaths

---
 src/actuarialmath/selectlife.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 9d3d246..06cc1b1 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -215,7 +215,8 @@ class SelectLife(LifeTable):
             if (self._isin_sel(x, s+1, 'l') and self._isin_sel(x, s, 'q')
                 and self._get_sel(x, s, 'q') < 1):
                 return self._get_sel(x, s+1, 'l') / (1 - self._get_sel(x, s, 'q'))
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q'):
+            if (self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'q')
+                and self._get_sel(x, s, 'q') > 0):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'q')
             if self._isin_sel(x, s, 'd') and self._isin_sel(x, s+1, 'l'):
                 return self._get_sel(x, s, 'd') + self._get_sel(x, s+1, 'l')
@@ -239,7 +240,8 @@ class SelectLife(LifeTable):
             """Helper to solve for one-year mortality [x]+s: q_[x]+s"""
             if self._isin_sel(x, s, 'q'):
                 return self._get_sel(x, s, 'q')
-            if self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'l'):
+            if (self._isin_sel(x, s, 'd') and self._isin_sel(x, s, 'l')
+                and self._get_sel(x, s, 'l') > 0):
                 return self._get_sel(x, s, 'd') / self._get_sel(x, s, 'l')
             if self._isin_sel(x, s, 'e') and self._isin_sel(x, s+1, 'e'):
                 return 1 - (self._get_sel(x, s, 'e') 
-- 
2.43.0


From f7d14e653895c0fa42cf9330c761f44f30fa0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 97/98] fix: reserves given for separate years set the term by
 their count and made up a zero reserve

---
 src/actuarialmath/reserves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index 6020443..792827a 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -35,7 +35,7 @@ class Reserves(PolicyValues):
             self.T = T
         if V:
             self._reserves['V'].update(V)
-            self.T = max(len(V) - 1, self.T)
+            self.T = max(max(V), self.T)   # reserves need not be consecutive
         self._reserves['V'].setdefault(0, 0)  # initial reserve is 0 by equivalence
         if endowment or self.T not in self._reserves['V']:
             self._reserves['V'][self.T] = endowment  # n_V is 0 or endowment
-- 
2.43.0


From 56df16607316ee646934948714025db7e343b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 98/98] fix: a step of the lifetime recursion from a longer
 term was displayed with a negative term shown as a whole-life lifetime

---
 src/actuarialmath/recursion.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 877e4fe..d828e23 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -744,6 +744,23 @@ class Recursion(Reserves):
                 else:
                     self.blog.pop(depth=depth)
 
+                if 0 <= t < u:  # from longer term: e_x:t = e_x:u - t_p_x e_x+t:u-t
+                    e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1,
+                                  depth=depth-1)
+                    e_t = self._e_x(x, s=s+t, t=u-t, curtate=curtate, moment=1,
+                                    depth=depth-1)
+                    p = self._p_x(x, s=s, t=t)
+                    if e is not None and e_t is not None and p is not None:
+                        self.blog(self.pprint.e(x=x, s=s, t=t, curtate=curtate), '=',
+                                  self.pprint.e(x=x, s=s, t=u, curtate=curtate), '-',
+                                  self.pprint.p(x=x, s=s, t=t), '*',
+                                  self.pprint.e(x=x, s=s+t, t=u-t, curtate=curtate),
+                                  depth=depth, rule='temporary lifetime')
+                        return e - p * e_t
+                    else:
+                        self.blog.pop(depth=depth)
+                    continue
+
                 e = self._e_x(x, s=s, t=u, curtate=curtate, moment=1, depth=depth-1)
                 e_t = self._e_x(x, s=s+u, t=self.add_term(t, -u), curtate=curtate,
                                 moment=1, depth=depth-1)
-- 
2.43.0

