From a097bfc9b5cc59e5b9b2537346df9325939849df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 01/80] fix: accept a zero rate in Interest.mthly

---
 src/actuarialmath/interest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..748a470 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -115,13 +115,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From 94e5952f49b639ede6b80fe8a4cf181542242520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 02/80] fix: value annuities certain at a zero interest rate

---
 src/actuarialmath/interest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index 748a470..12a60c5 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if self.i == 0:   # if zero interest, is the total amount of payments
+            return t if t >= 0 else math.inf
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
-- 
2.43.0


From 9d7047316be3f5dae72ad05ef1864d8dc575efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 03/80] fix: differentiate functions that only accept scalars

---
 src/actuarialmath/actuarial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..2946ac3 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,8 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        f = np.vectorize(fun, otypes=[float])   # fun need only accept a scalar
+        return float(scipy.differentiate.derivative(f, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
-- 
2.43.0


From 15cd00e515620d44ade97fdfa695b84d1fc4fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 04/80] fix: lifetime density from number of lives is per life

---
 src/actuarialmath/survival.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..1bb5270 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,7 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return -self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From 606477bbb5f44a235cbbba85e9a0e7f7332b27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 05/80] fix: variance of a one-year curtate lifetime

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..0331326 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment != self.VARIANCE:   # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 6c802400cc8a7afe66978f31fa4c6e326852fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 06/80] fix: lifetime density within the year of age

---
 src/actuarialmath/fractional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..2fa1a2b 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -140,11 +140,10 @@ class Fractional(Lifetime):
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: constant given alive at age r
+                q = self.q_x(x, s=s)
+                return q / (1. - r * q)  # does not depend on duration
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-- 
2.43.0


From 4580b5ec82fbadd3caef68baf8110b4beb5fbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 07/80] fix: constant force expectation when nobody dies in the
 year

---
 src/actuarialmath/fractional.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 2fa1a2b..87c1314 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -206,6 +206,8 @@ class Fractional(Lifetime):
                     return self.q_r(x=x, s=s, t=t)*(t/2) + self.p_r(x, s=s, t=t)*t
             else:         # Constant Force case
                 mu = -math.log(max(0.00001, self.p_x(x=x, s=s)))  # constant mu
+                if mu == 0:    # certain to survive the year
+                    return t
                 return (1. - math.exp(-mu*t)) / mu                # shortcut
 
         # t > 1: apply one-year recursion formula            
-- 
2.43.0


From c5ba8a977609c5f2884aa633dd1934cb04d0b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 08/80] fix: lifetime density at a whole number of years

---
 src/actuarialmath/fractional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 87c1314..879df6a 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,6 +139,9 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1 
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
             if self.udd_:       # UDD shortcut: constant given alive at age r
                 q = self.q_x(x, s=s)
@@ -147,9 +150,6 @@ class Fractional(Lifetime):
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-- 
2.43.0


From f3d68007206ead31c08f83242e62466e6c43e623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 09/80] fix: deferred deaths beyond the last age of a life
 table

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..922a9de 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -205,7 +205,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)   # nobody lives beyond the table
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -231,7 +231,7 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
+        if denom:
             return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
         else:
             return 1     # the only certainty in life
-- 
2.43.0


From af94e03d470d095cb0fd87f73b8ae4189fb7ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 10/80] fix: variance of pure endowments from a life table, and
 terms beyond its last age

---
 src/actuarialmath/lifetable.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 922a9de..5086e42 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -271,10 +271,9 @@ class LifeTable(Reserves):
             return 1.
         if t < 0:
             return 0.
-        t = self.max_term(x+s, t)
-        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        p = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
+            return self.interest.v_t(t)**2 * p * (1 - p)
         if moment == 1:
             return self.interest.v_t(t) * p
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-- 
2.43.0


From 113e91eb01d334b266ce3eb62621f33a4c4df8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 11/80] fix: expected lifetimes from a life table at select
 durations and higher moments

---
 src/actuarialmath/lifetable.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 5086e42..2f00f10 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
         if moment == 1:
-            # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
+            # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
+            t = self.max_term(x+s, t)
             # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From cadbaf31209c354553f4db4bfdfadfd0a6ad9d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 12/80] fix: whole duration when the lifetime density spans
 years

---
 src/actuarialmath/fractional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 879df6a..96a43bc 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -152,8 +152,8 @@ class Fractional(Lifetime):
         else: # else survive to integer age, times density at fractional age
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
-            t = t + r - t_floor     # s.t. t < 1
-            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+u+r, t=t)
+            t = max(0., t + r - t_floor)  # s.t. t < 1
+            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+t_floor, t=t)
 
     #
     # Define fractional age pure endowment function
-- 
2.43.0


From 40e175dd141c16749110bbc73a01f1fc9cb07426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 13/80] fix: pure endowment payable immediately

---
 src/actuarialmath/insurance.py | 4 ++--
 src/actuarialmath/lifetable.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..ab04449 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => EPV(0) = endowment, with certainty
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 2f00f10..1dd1ee1 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -268,7 +268,7 @@ class LifeTable(Reserves):
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else 1.
         if t < 0:
             return 0.
         p = self.p_x(x, s=s, t=t)
-- 
2.43.0


From 96137f762ee2bd8c963470a6db239dbdee875662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 14/80] fix: second moment of the endowment in insurance EPV

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index ab04449..c5ac623 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From c9cb28cf0a9b2ced998f2ecf8bfaba455a4c3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 15/80] fix: variance of whole life insurance

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index c5ac623..a1b6816 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
-- 
2.43.0


From 8f5419f77f7fbf6193942e76c9120e5b6a39f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 16/80] fix: variance of term insurance

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index a1b6816..c5ae3ec 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From bc7e07c95dafde980b2216a6dd1ec91c31904f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 17/80] fix: variance of endowment insurance scales with
 benefit once

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index c5ae3ec..38c1673 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 8239f6a3c5f319a85ecf3f21a53badb16dfcda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:19 +0000
Subject: [PATCH 18/80] fix: decreasing insurance at select durations

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 38c1673..fe82fd1 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From e968abafeacf8554602c96b6e5a092f8541cc9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 19/80] fix: continuous annuity EPV at select durations

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..a08cde8 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t=t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From c5927f5688489fa6fa0e47ca81d848f89d51a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 20/80] fix: whole life annuity benefit at zero interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a08cde8..41bbbd0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From a1bacb832e517ba074e8e607c099e2e7334ad0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 21/80] fix: benefit amount of certain and life annuity

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 41bbbd0..271bc56 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -202,7 +202,7 @@ class Annuity(Insurance):
         if u < 0:
             return 0.
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 59460008fb2359118f123bb58757fd1ceb8241a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 22/80] fix: continuously increasing and decreasing annuities

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 271bc56..7932257 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -219,7 +219,7 @@ class Annuity(Insurance):
           >>> life.increasing_annuity(x=24, t=10)
         """
         t = self.max_term(x+s, t=t)
-        benefit = lambda x, s: b * (s + 1) # increasing benefit
+        benefit = lambda x, s: b * (s + int(discrete)) # increasing benefit
         return self.a_x(x, s=s, benefit=benefit, t=t, discrete=discrete)
 
     def decreasing_annuity(self, x: int, s: int = 0, t: int = 0, 
-- 
2.43.0


From 6e90c9134b9df8bc1e95aedc598e1d409ea3ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 23/80] fix: time from annuity present value at zero interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 7932257..f3cde50 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -309,7 +309,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.isclose(self.interest.delta):   # if interest=0
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From ce929ac726af60e51e4080b0f189cb885ff5a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 24/80] fix: variance of annuities at zero interest

---
 src/actuarialmath/annuity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index f3cde50..e703df8 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -123,6 +123,9 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and interest == 0:  # variance of the number of payments
+            return b**2 * self.e_x(x=x, s=s, curtate=discrete, 
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -150,6 +153,12 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
+        interest = self.interest.d if discrete else self.interest.delta
+        if variance and interest == 0:  # variance of the number of payments
+            if t >= 0:
+                t = max(0, self.max_term(x+s, t) - int(discrete))
+            return b**2 * self.e_x(x=x, s=s, t=t, curtate=discrete, 
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
-- 
2.43.0


From feeacd37517c45accd6381056b3a070e92ae56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:40 +0000
Subject: [PATCH 25/80] fix: decreasing annuity with term beyond the maximum
 age

---
 src/actuarialmath/annuity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index e703df8..fe11b63 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -246,7 +246,6 @@ class Annuity(Insurance):
           >>> life.decreasing_annuity(x=24, t=10)
         """
         assert t >= 0   # decreasing must be till term
-        t = self.max_term(x+s, t=t)
         a = self.temporary_annuity(x, s=s, t=t, discrete=discrete)
         n = t + int(discrete)
         return b * (a*n - self.increasing_annuity(x, s=s, t=t, discrete=discrete))
-- 
2.43.0


From 8a9aa217a8775a1904009958b9d42a81a535578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 26/80] fix: certain payments of a life annuity do not stop at
 the maximum age

---
 src/actuarialmath/annuity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index fe11b63..76e5cff 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -188,6 +188,8 @@ class Annuity(Insurance):
         Examples:
           >>> life.deferred_annuity(x=24, u=5, t=10, discrete=False)
         """
+        if self.max_term(x+s, u) < u:   # deferred beyond maximum age
+            return 0.
         a = self.temporary_annuity(x, s=s+u, t=t, b=b, discrete=discrete)
         return self.E_x(x, s=s, t=u) * a
 
@@ -207,9 +209,8 @@ class Annuity(Insurance):
         Examples:
           >>> life.certain_life_annuity(x=24, u=5, t=10)
         """
-        u = self.max_term(x+s, u)
         if u < 0:
-            return 0.
+            u = self.max_term(x+s, u)
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
         return b * self.interest.annuity(u, m=int(discrete)) + a
 
-- 
2.43.0


From 80b4bbbc6b2b0c57718fc97e9197abce0e54caa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 27/80] fix: deaths given to SelectLife.set_select

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..c90200b 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
-- 
2.43.0


From 488676fa00c98b042dfb0c1995519b2640d3c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 28/80] fix: oldest age inferred by SelectLife.set_select

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index c90200b..4edf966 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -140,7 +140,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From 482bede1b93f706f8f5aa08bb3b2d4bc9f854c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 29/80] fix: annuity value of a select life not in the table

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 4edf966..95de4cc 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -309,7 +309,7 @@ class SelectLife(LifeTable):
         if self._isin_sel(x, s, 'a'):
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From 9d4a41d6cbce7a97d3cb9e3e0acdf3f05f0f8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 30/80] fix: arbitrary initial lives only when a select table
 gives none

---
 src/actuarialmath/selectlife.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 95de4cc..47cf0a7 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -279,7 +279,8 @@ class SelectLife(LifeTable):
                                     curr += 1
                                     if self._verbose:
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
-            if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
+            if not any(v is not None for row in self._select['l'].values()
+                       for v in row.values()):     # arbitrary initial lives
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
-- 
2.43.0


From d02b951a5e149dce90ae28fcd082e7b5e2028234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 31/80] fix: terms near the end of a select table, and limited
 expected lifetimes

---
 src/actuarialmath/selectlife.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 47cf0a7..10dcafe 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -312,6 +312,21 @@ class SelectLife(LifeTable):
         else:
             return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
+    def max_term(self, x: int, t: int, u: int = 0) -> int:
+        """Decrease term t if exceeds the oldest age with known mortality
+
+        Args:
+          x : age
+          t : term of insurance or annuity, after deferral period
+          u : term deferred
+        """
+        maxage = max([age + self.periods_ + 1 for age in self._select['q']
+                      if self._isin_sel(age, self.periods_, 'q')],
+                     default=self._MAXAGE)
+        if t < 0 or x + t + u > maxage:
+            return maxage - (x + u)
+        return t
+
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
 
@@ -352,9 +367,10 @@ class SelectLife(LifeTable):
           t : limit of expected future lifetime
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if t < 0 and self._isin_sel(x, s, 'e'):
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
+        t = self.max_term(x+s, t)
+        e = sum([self.p_x(x, s=s, t=k+1) for k in range(t)])
         return e
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
-- 
2.43.0


From efbae879759fc1142892f22aafa5f7ccb8f90888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 32/80] fix: select table insurance and annuity values are of
 unit whole life benefits

---
 src/actuarialmath/selectlife.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 10dcafe..4781961 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -293,7 +293,7 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if self._isin_sel(x, s, 'A') and not kwargs:  # unit whole life
             return self._get_sel(x, s, 'A')
         else:
             return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
@@ -307,11 +307,25 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        if self._isin_sel(x, s, 'a') and not kwargs:  # unit whole life
             return self._get_sel(x, s, 'a')
         else:
             return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Whole life insurance: multiple of the value in the select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : amount of benefit
+        """
+        if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
+            return b * self.A_x(x, s=s)
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
+
     def max_term(self, x: int, t: int, u: int = 0) -> int:
         """Decrease term t if exceeds the oldest age with known mortality
 
-- 
2.43.0


From 1e0b8a6275af68a8fdcd4e59a48f7e4315a8dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 33/80] fix: deaths of select lives near the end of the table

---
 src/actuarialmath/selectlife.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 4781961..c0a5574 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -350,6 +350,16 @@ class SelectLife(LifeTable):
         """
         return self._get_sel(x, s, 'l')
 
+    def d_x(self, x: int, s: int = 0, t: int = 1) -> float:
+        """Returns deaths in t years of lives aged [x]+s from select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : death within next t years
+        """
+        return self.l_x(x, s=s) * self.q_x(x, s=s, t=t)
+
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
 
-- 
2.43.0


From a7b95efdcf5f4bcef5131b1740270067ac180889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 34/80] fix: term insurance to the end of a select table with
 given insurance values

---
 src/actuarialmath/selectlife.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index c0a5574..e458a58 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -323,6 +323,11 @@ class SelectLife(LifeTable):
         """
         if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
             return b * self.A_x(x, s=s)
+        if moment == 1 and discrete and self._isin_sel(x, s-1, 'A'):
+            q = self._get_sel(x, s-1, 'q')   # year after the last in the table
+            if q is not None and q < 1:
+                return b * ((self._get_sel(x, s-1, 'A') - q * self.interest.v)
+                            / (self.interest.v * (1 - q)))
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From 708995d821ec309257c8f17d9cece47d34278be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 35/80] fix: percentile of a life annuity paid yearly had one
 payment too many

---
 src/actuarialmath/annuity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 76e5cff..2aac7d9 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -310,6 +310,8 @@ class Annuity(Insurance):
           discrete : annuity due (True) or continuous (False)
         """
         t = self.Y_t(x, prob, discrete=discrete)
+        if discrete:     # ceil(T) payments have been made to those who die at T
+            t -= 1
         return self.Y_from_t(t=t, discrete=discrete)
 
     def Y_to_t(self, Y: float) -> float:
-- 
2.43.0


From 6dd2299bda5d808755fb3c434581bd2f614528b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 36/80] fix: survival over fractional periods spanning
 birthdays ignored selection

---
 src/actuarialmath/fractional.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 96a43bc..03f3502 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -69,7 +69,9 @@ class Fractional(Lifetime):
                 return 1 - self.q_r(x, s=s, r=r, t=t)
             else:          # Constant force shortcut within int age
                 return self.p_x(x, s=s)**t   # does not depend on r
-        return self.l_r(x, s=s, r=r+t) / self.l_r(x, s=s, r=r)
+        k = math.floor(r + t)  # survive to an integer age, then fraction of year
+        return (self.p_x(x, s=s, t=k) * self.p_r(x, s=s+k, t=r+t-k)
+                / self.p_r(x, s=s, t=r))
 
     def q_r(self, x: int, s: int = 0, r: float = 0., t: float = 1., 
             u: float = 0.) -> float:
@@ -102,8 +104,7 @@ class Fractional(Lifetime):
                 return (t * self.q_x(x, s=s)) / (1. - r * self.q_x(x, s=s))
             else:
                 return 1 - self.p_r(x, s=s, r=r, t=t)
-        return ((self.l_r(x, s=s, r=r+u) - self.l_r(x, s=s, r=r+u+t)) 
-                / self.l_r(x, s=s, r=r))
+        return self.p_r(x, s=s, r=r, t=u) - self.p_r(x, s=s, r=r, t=u+t)
         
     def mu_r(self, x: int, s: int = 0, r: float = 0.) -> float:
         """Force of mortality at fractional age: mu_[x]+s+r
-- 
2.43.0


From f6ee0e89c452f6672a0eaf1504aa47bdcc605cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 37/80] fix: term of a policy is limited by the age at issue,
 not that at valuation

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..c34361f 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From 8ffa97598facbf8d37beb5313be2b55649d5f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 38/80] fix: loss of a policy whose insured life survives its
 term

---
 src/actuarialmath/policyvalues.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index c34361f..125554f 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -322,13 +322,12 @@ class PolicyValues(Premiums):
         """
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and k >= c.T:   # survives term: only endowment is paid
+            claims = c.endowment * self.interest.v_t(c.T)
+            t = c.T - int(c.discrete)    # last premium was paid then
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            claims = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (claims
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From 53ef97d330adee4137a83f80ed5ff89cab087169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:19 +0000
Subject: [PATCH 39/80] fix: reserves tables ignored settlement expenses

---
 src/actuarialmath/reserves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index f9e7ec4..ea11d75 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -60,7 +60,7 @@ class Reserves(PolicyValues):
                                  per_policy = -contract.endowment)
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.initial_premium, 
                                  per_policy=contract.initial_policy)
@@ -68,7 +68,7 @@ class Reserves(PolicyValues):
                     v = 0
                 else:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.renewal_premium, 
                                  per_policy=contract.renewal_policy)
-- 
2.43.0


From ee411d6d15f61e6a60a673fb7afef13e4271072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:05 +0000
Subject: [PATCH 40/80] fix: one-year insurance recursion raised AttributeError

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..b258eeb 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1258,7 +1258,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), "*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From d55807c110ebc10eaae0c9b70e13c2680436d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 41/80] fix: deferred mortality without limit ignored deferral

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index b258eeb..a073e05 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -450,8 +450,8 @@ class Recursion(Reserves):
             return found
         if t == 0:
             return 0
-        if t < 0:
-            return 1
+        if t < 0:    # dies eventually, if survives u years
+            return self._p_x(x, s=s, t=u, depth=depth)
         if u > 0:
             pu = self._p_x(x, s=s, t=u, depth=depth-1) #depth-1)
             qt = self._get_q(x, s=s+u, t=t)
-- 
2.43.0


From c023ec26678022f3c396000fa57c8e9c26a669d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:30 +0000
Subject: [PATCH 42/80] fix: moments of pure endowments by recursion ignored
 term and amount

---
 src/actuarialmath/recursion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index a073e05..1a3374e 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -793,7 +793,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * endowment**(abs(moment))   # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +807,7 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        val /= endowment**(abs(moment))   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -821,13 +821,13 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, endowment=endowment, depth=depth)
+            if E is not None:  # (1) Shortcut: 2E_x = v^t E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * (endowment * self.interest.v_t(t))**(moment-1)
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From c5b73a469a7e9aba81789ee397659e73455b0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:28 +0000
Subject: [PATCH 43/80] fix: moments and variances of insurances by recursion

---
 src/actuarialmath/recursion.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 1a3374e..e9550b8 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1117,18 +1117,17 @@ class Recursion(Reserves):
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
         if t == 0:          # terminal value of insurance
-            return endowment
-        if b == 0:          # normalize insurance factor by benefit amount
-            scale = endowment
-            endowment = 1
-        else:
-            scale = b
-            endowment = 1 if b == endowment else endowment / b
+            return 0 if moment == self.VARIANCE else endowment**moment
+        if b == 0:          # pure endowment
+            return self._get_E(x, s=s, t=u+t, endowment=endowment,
+                               moment=moment) if endowment else 0
+        scale = b           # normalize insurance factor by benefit amount
+        endowment = 1 if b == endowment else endowment / b
         key = self._db_key('A', x=x+s, u=u, t=t, moment=moment, 
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * scale   # stored with benefit=1
+            return val * scale**abs(moment)   # stored with benefit=1
 
 
     def set_A(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
@@ -1152,12 +1151,13 @@ class Recursion(Reserves):
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
         if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
-        elif b == 0:
-            val /= endowment   # store with benefit=1
+            val /= b**abs(moment)
+        elif b == 0:           # pure endowment
+            return self.set_E(val, x, s=s, t=u+t, endowment=endowment,
+                              moment=moment)
         else:
             if b != 1:
-                val /= b
+                val /= b**abs(moment)
                 endowment /= b
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
@@ -1168,7 +1168,7 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if endowment == b and t == 1 and discrete and moment > 0: # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1177,7 +1177,7 @@ class Recursion(Reserves):
                             moment=moment, endowment=endowment)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or moment < 0:  # no recursion for variances
             return None
 
         if discrete and u > 0:  # (1) deferred insurance  
-- 
2.43.0


From b38f1afc5514d0c0d2e7135666b49ed0605f47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 44/80] fix: twin shortcuts of recursion ignored benefit amount

---
 src/actuarialmath/recursion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index e9550b8..bd5e516 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1367,14 +1367,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1446,11 +1446,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1602,13 +1602,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1638,7 +1638,7 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
@@ -1646,7 +1646,7 @@ class Recursion(Reserves):
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From 851c50e48636ddd309c7b0272104b016679f09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 45/80] fix: deferred annuity without recursion ignored
 deferral

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index bd5e516..c0dc2fa 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1681,7 +1681,7 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, b=b, t=t, u=u, discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From 4a32a1f0a36601c2a321ac311a8cef5ba332157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 46/80] fix: variance of annuities given to recursion scaled
 with benefit instead of its square

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index c0dc2fa..8a09d6f 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1478,7 +1478,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * (b**2 if variance else b)   # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1498,7 +1498,7 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        val /= b**2 if variance else b   # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
@@ -1509,7 +1509,7 @@ class Recursion(Reserves):
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-            return b 
+            return 0 if variance else b 
         if t == 0:
             return 0
         found = self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
-- 
2.43.0


From 03fedd90a95dc6d7aeb61de9527bc944882b1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 47/80] fix: recursions of increasing and decreasing insurance

---
 src/actuarialmath/recursion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 8a09d6f..5163cd2 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -962,7 +962,7 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
@@ -1037,18 +1037,18 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1059,7 +1059,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1068,7 +1068,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From dcb7738c21a12b4bb407e51b9650b5bfba07264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 48/80] fix: lifetime density of beta law was that of uniform
 law

---
 src/actuarialmath/mortalitylaws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..633f73c 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -112,7 +112,8 @@ class Beta(MortalityLaws):
             return ((omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            return (alpha / (omega - (x+s))
+                    * ((omega-(x+s+t))/(omega-(x+s)))**(alpha-1))
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From 94c2647a4ed155f9a220531c9095d6539cd32c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 49/80] fix: fractional lifetime expectation of mortality laws
 called undefined method

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 633f73c..6e61ad2 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From 6486780cf21a9459ed7ee02692211e80c348dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:39 +0000
Subject: [PATCH 50/80] fix: fractional lives of Makeham and Gompertz laws

---
 src/actuarialmath/mortalitylaws.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 6e61ad2..ef52fe4 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -23,6 +23,8 @@ class MortalityLaws(Reserves):
           s : years after selection
           r : fractional year after selection
         """
+        if self.l is None:  # law specified by its survival function only
+            return self.l_x(x, s=s) * self.S(x, s, r)
         return self.l(x, s+r)
 
     def p_r(self, x: int, s: int = 0, r: float = 0., t: float = 1.) -> float:
-- 
2.43.0


From f8547bfa3268cb05192cf411c770dda8e7e36e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:49 +0000
Subject: [PATCH 51/80] fix: limited lifetime expectation of beta law ignored
 its limit

---
 src/actuarialmath/mortalitylaws.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index ef52fe4..383d104 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -121,17 +121,21 @@ class Beta(MortalityLaws):
         self.omega_ = omega  # store omega parameter
         self.alpha_ = alpha  # store alpha parameter
 
-    def e_r(self, x: int, s: int = 0, t: float = Reserves.WHOLE) -> float:
-        """Expectation of future lifetime through fractional age: e_[x]+s:t
+    def e_r(self, x: int, s: int = 0, r: float = 0.,
+            t: float = Reserves.WHOLE) -> float:
+        """Expectation of future lifetime through fractional age: e_[x]+s+r:t
 
         Args:
           x : age of selection
           s : years after selection
+          r : fractional year after selection
           t : limited at t years
         """
-        e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
-            return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
+        if t == 0:
+            return 0.
+        e = (self.omega_ - (x+s+r)) / (self.alpha_ + 1)
+        if 0 < t < self.omega_ - (x+s+r): # temporary expectation
+            return e - self.p_r(x, s=s, r=r, t=t) * self.e_r(x, s=s, r=r+t)
         return e   # complete expectation
 
     def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
-- 
2.43.0


From 6e1bcc7f05398916b283d2ddafa7a98921ffa14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 52/80] fix: variance and limited moments of lifetime under
 beta law

---
 src/actuarialmath/mortalitylaws.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 383d104..3834d8f 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -138,27 +138,26 @@ class Beta(MortalityLaws):
             return e - self.p_r(x, s=s, r=r, t=t) * self.e_r(x, s=s, r=r+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
+                return (self.alpha_ * (self.omega_ - (x + s))**2
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From 048599578098a3ef20f659acd98e9c2650bdf494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:07 +0000
Subject: [PATCH 53/80] fix: lifetime expectation under uniform law ignored
 select duration and swapped weights

---
 src/actuarialmath/mortalitylaws.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 3834d8f..3b8fd59 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -185,16 +185,17 @@ class Uniform(Beta):
           moment : whether to compute first (1) or second (2) moment
         """
         if moment in [1, self.VARIANCE] and not curtate:
+            n = self.omega_ - (x + s)
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return n**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return n / 2
             elif moment == 1:         # temporary expectation shortcut
-                # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
-                t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
-                return t_p_x * t  + (1 - t_p_x) * (t / 2)
+                # (Pr[die within t years] * t/2) plus (Pr[survive t years] * t)
+                t = min(t, n)
+                t_q_x = t / n
+                return t_q_x * (t / 2) + (1 - t_q_x) * t
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
-- 
2.43.0


From 503ead599ba84346f2846a67714911337c9911cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:19 +0000
Subject: [PATCH 54/80] fix: pure endowment under uniform law ignored select
 duration and endowment amount

---
 src/actuarialmath/mortalitylaws.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 3b8fd59..d4c35b2 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -200,7 +200,7 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -210,17 +210,15 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
-        if t == 0:
-            return 1.
+        assert moment > 0 or moment == self.VARIANCE
         if t < 0:
             return 0.
-        t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        n = self.omega_ - (x + s)
+        t = min(t, n)
+        t_p_x = (n - t) / n
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return (endowment * self.interest.v_t(t))**2 * t_p_x * (1 - t_p_x)
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From f5c4182dfa01d0adb9c60212f76e91d7f151f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:43 +0000
Subject: [PATCH 55/80] fix: second moments, variances and discrete terms of
 insurance under uniform law

---
 src/actuarialmath/mortalitylaws.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index d4c35b2..2921e24 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -237,7 +237,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                    discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -255,16 +255,16 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
+                                            discrete=False)**2)
             t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+            return (b**moment * (1 - self.interest.v_t(t)**moment)
+                    / (moment * self.interest.delta * (self.omega_ - (x+s))))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From 27daaa4fcac5879a13a7ed8fb9b196c7b9ee554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 56/80] fix: division by zero in continuous annuities to the
 last age under uniform law

---
 src/actuarialmath/mortalitylaws.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 2921e24..282cdab 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -262,6 +262,8 @@ class Uniform(Beta):
                         self.term_insurance(x, s=s, b=b, t=t, 
                                             discrete=False)**2)
             t = self.max_term(x+s, t)                                        
+            if x + s >= self.omega_:   # no lifetime remaining at last age
+                return b**moment
             return (b**moment * (1 - self.interest.v_t(t)**moment)
                     / (moment * self.interest.delta * (self.omega_ - (x+s))))
         return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
-- 
2.43.0


From d2d6f961513dea62d272c5715b66f91753196dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:04 +0000
Subject: [PATCH 57/80] fix: variance of limited lifetime under constant force
 ignored limit

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..230073b 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From 16450f40c09ddedab67e786cd791af94f8aa312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 58/80] fix: variance and immediate amount of pure endowment
 under constant force

---
 src/actuarialmath/constantforce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 230073b..15c8172 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -63,8 +63,8 @@ class ConstantForce(MortalityLaws):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        if t == 0:
-            return 1.
+        if moment == self.VARIANCE:
+            return super().E_x(x, s=s, t=t, endowment=endowment, moment=moment)
         if t < 0:
             return 0.
         delta = moment * self.interest.delta   # multiply force of interest
-- 
2.43.0


From 392f984e91994bc2b71da8180cf171a08c6cd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 59/80] fix: continuous whole life insurance under constant
 force ignored benefit amount

---
 src/actuarialmath/constantforce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 15c8172..56b9125 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -133,7 +133,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return (b**moment * self.mu_ / (self.mu_ + delta)
+                    if self.mu_ > 0 else 0.)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From 8a923ab883a97e220e781df94d92a2a2532e3b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:59 +0000
Subject: [PATCH 60/80] fix: variance of annuities under constant force divided
 by zero at zero interest

---
 src/actuarialmath/constantforce.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 56b9125..b64269c 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -82,11 +82,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
-            A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:
+            return super().whole_life_annuity(x, s=s, b=b, variance=True,
+                                              discrete=discrete)
         if not discrete:
             den = self.mu_ + self.interest.delta
             return (1. / den) * b if den > 0 else math.inf
@@ -105,13 +103,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        interest = self.interest.d if discrete else self.interest.delta
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2,
-                                          discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
+                                             discrete=discrete)
         if not discrete:
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
-- 
2.43.0


From 637a641d8884989692e254285a5dd9a2e6a2afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 61/80] fix: unknown extra risk raised NameError

---
 src/actuarialmath/extrarisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..1e97f95 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
-- 
2.43.0


From 6bc2293c88e6ba6bc1d65a7fb464f9e72775898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 62/80] fix: mortality rate was missing without extra risk and
 exceeded one if multiplied

---
 src/actuarialmath/extrarisk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index 1e97f95..602491f 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -80,8 +80,10 @@ class ExtraRisk(Actuarial):
             return 1 - self.p_x(x, s=s)
         if self.risk_ in ["ADD_AGE"]:
             return self.life.q_x(x + self.extra_, s=s)
+        q = self.life.q_x(x, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
-            return self.extra_ * self.life.q_x(x, s=s)
+            q = min(1, self.extra_ * q)
+        return q
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From e8731d6e2832b38204074ecd7e470fc985735bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:08 +0000
Subject: [PATCH 63/80] fix: deferral and last age of m-thly insurance benefits

---
 src/actuarialmath/mthly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..564c2c0 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,15 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
+            Z = lambda t: ((benefit(x+s, t+u) * self.life.interest.v_t(t+u))**moment
                             * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.integral(Z, 0, t)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
-- 
2.43.0


From cc07381555e4a6b4844886504ced33f7f0548de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 64/80] fix: m-thly whole life insurance raised TypeError

---
 src/actuarialmath/mthly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 564c2c0..7b03ded 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -140,8 +140,8 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
-
+        return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
+                        moment=moment)
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                        moment: int = 1) -> float:
-- 
2.43.0


From 3be75a91dbb5b231c9ba7f95e93f1dd7d04fbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 65/80] fix: m-thly annuities and their variances

---
 src/actuarialmath/mthly.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 7b03ded..7135abe 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -264,7 +264,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
@@ -278,13 +278,13 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
@@ -318,7 +318,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From 780ec56a37a4eb25966671ebb90f44d108ab3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 66/80] fix: m-thly deferred insurance did not accept its
 documented deferral argument

---
 src/actuarialmath/mthly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 7135abe..dbba16d 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -166,7 +166,7 @@ class Mthly(Actuarial):
         A -= E * self.whole_life_insurance(x, s=s+t, b=b, moment=moment)
         return A
 
-    def deferred_insurance(self, x: int, s: int = 0, n: int = 0, b: int = 1, 
+    def deferred_insurance(self, x: int, s: int = 0, u: int = 0, b: int = 1, 
                            t: int = Annuity.WHOLE, moment: int = 1) -> float:
         """Deferred insurance n|_A_x:t^1 = discounted whole life
 
@@ -178,14 +178,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           moment : return first or second moment
         """
-        if self.life.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if moment == self.VARIANCE:
-            A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
-            A1 = self.deferred_insurance(x, s=s, t=t, n=n)
+            A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
+            A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        E = self.E_x(x, s=s, t=n, moment=moment)
-        A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
+        E = self.E_x(x, s=s, t=u, moment=moment)
+        A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From c4328c02b5e39dfa7a25e595c4f0b333847df26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 67/80] fix: second moments and benefit amount of m-thly
 insurance under UDD

---
 src/actuarialmath/udd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..488d3f2 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -66,9 +66,9 @@ class UDD(Mthly):
         A = self.life.whole_life_insurance(x, s=s, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i=i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * i / i_m
+        return b**moment * A * i / i_m
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
@@ -114,7 +114,7 @@ class UDD(Mthly):
         A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i=i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From 4cffc1cb2e147a6cff550081f363626db7ee110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 68/80] fix: variance of m-thly annuities under UDD

---
 src/actuarialmath/udd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 488d3f2..918ea2d 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -134,7 +134,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -153,9 +153,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
-- 
2.43.0


From 27d77e9102491a1c44d2a651efebb6de849c641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:17 +0000
Subject: [PATCH 69/80] fix: m-thly deferred annuity under UDD

---
 src/actuarialmath/udd.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 918ea2d..b2895a7 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -175,15 +175,25 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+        if variance:  # from moments of annuity of those who survive deferral
+            E1 = self.E_x(x, s=s, t=u)
+            E2 = self.E_x(x, s=s, t=u, moment=2)
+            if t < 0:
+                A1 = self.whole_life_insurance(x, s=s+u)
+                A2 = self.whole_life_insurance(x, s=s+u, moment=2)
+            else:
+                A1 = self.endowment_insurance(x, s=s+u, t=t)
+                A2 = self.endowment_insurance(x, s=s+u, t=t, moment=2)
+            d_m = self.life.interest.mthly(m=self.m, d=self.life.interest.d)
+            return (E2 * (1 - 2*A1 + A2) - (E1 * (1 - A1))**2) * (b / d_m)**2
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u)
+        if t >= 0:
+            E -= self.E_x(x, s=s, t=u+t)
+        return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From a877bd26754c6f559ae3c540f660b3d69a5cdde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 70/80] fix: variance of m-thly endowment insurance applied
 benefit amount twice

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index dbba16d..55edce9 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -205,7 +205,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
-- 
2.43.0


From 62285770ebccb810138be31aff1f4ff834d5aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 71/80] fix: continuous payments divided by zero with Woolhouse
 approximation

---
 src/actuarialmath/woolhouse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..3c2b676 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -121,11 +121,11 @@ class Woolhouse(Mthly):
           >>> life = Recursion().set_interest(i=0.05).set_a(3.4611, x=0)
           >>> Woolhouse(m=4, life=life).whole_life_annuity(x=0)
         """
-        a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
-             (self.m - 1)/(2 * self.m))
+        r = 1 / self.m if self.m > 0 else 0     # continuous if zero frequency
+        a = self.life.whole_life_annuity(x, s=s, discrete=True) - (1 - r) / 2
         if self.three_term:
             mu = mu or self.mu_x(x, s)
-            a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
+            a -= (mu + self.life.interest.delta) * (1 - r**2) / 12
         return a * b
 
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
-- 
2.43.0


From 6993b014dcd2fab04e0f6d1f5ce4a79b6f57703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:38 +0000
Subject: [PATCH 72/80] fix: temporary annuity of zero years was a whole life
 annuity with Woolhouse approximation

---
 src/actuarialmath/woolhouse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 3c2b676..c59ab4c 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -157,7 +157,7 @@ class Woolhouse(Mthly):
           mu1 : value of mu at age x+s+u+t
         """
         a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
+        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t >= 0 else 0
         a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
         return a * b
 
-- 
2.43.0


From c65a7f052177e001b391b61144f9d5187386ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 73/80] fix: plots annotated a value off the curve that they
 drew

---
 src/actuarialmath/annuity.py   | 6 +++---
 src/actuarialmath/insurance.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 2aac7d9..470ecb5 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -391,7 +391,7 @@ class Annuity(Insurance):
     
         if T is not None:
             # indicate PV benefit Y(T*)
-            Y = self.Y_from_t(T, discrete=discrete) * benefit(self._MINAGE, T)
+            Y = self.Y_from_t(T, discrete=discrete) * benefit(x, s+T)
             
             label1, = ax.plot(T, Y, c=color, marker='o',
                               label=f"Y({T:.2f})={Y:.4f}")            
@@ -399,7 +399,7 @@ class Annuity(Insurance):
             ax.legend(handles=[label1], loc='upper left')
 
             if dual:
-                prob = self.S(x, 0, T)
+                prob = self.S(x, s, T)
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -408,7 +408,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index fe82fd1..2a59eb4 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -391,14 +391,14 @@ class Insurance(Fractional):
             
         if T is not None:
             # indicate PV of benefit Z(T*)
-            Z = benefit(self._MINAGE, T) * self.Z_from_t(T, discrete=discrete)
+            Z = benefit(x, s+T) * self.Z_from_t(T, discrete=discrete)
             label1, = ax.plot(T, Z, c=color, marker='o',
                               label=f"Z({T:.2f})={Z:.4f}")
             #ax.text(T + xjig, Z, f"Z({T:.2f})={Z:.4f}", c=color)
             ax.legend(handles=[label1], loc='lower left')
 
             if dual:
-                prob = self.S(x, 0, T)      # note: is opposite of annuity
+                prob = self.S(x, s, T)      # note: is opposite of annuity
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
@@ -407,7 +407,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
-- 
2.43.0


From dd9aeaf4ef068f45c7b5d033981e0528ba8dc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 74/80] fix: plot of future loss without annotation raised
 UnboundLocalError

---
 src/actuarialmath/policyvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 125554f..614a98c 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -440,7 +440,7 @@ class PolicyValues(Premiums):
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return z
+        return z if T is not None else None
 
     def _L_plot(self, x: int, s: int = 0, stop: int = 0,
                 T: float | None = None,
-- 
2.43.0


From 2fb0e78e4bba75833fb867a4041348112f83c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 75/80] fix: time of death at a given loss of a yearly contract
 could be years off

---
 src/actuarialmath/policyvalues.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 614a98c..b38ca34 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -352,13 +352,13 @@ class PolicyValues(Premiums):
           contract : policy contract terms and expenses
         """
         c = contract or Contract()
-        T = Contract.solve(lambda t: self.L_from_t(t, c),
-                           target=L,
-                           grid=(0, self._MAXAGE),
-                           mad=True)
-        if not c.discrete:
-            return T
-        return math.floor(T) if self.L_from_t(t=T, contract=c) <= L else math.ceil(T)
+        if c.discrete:   # step function of time: first year s.t. loss no more than L
+            return next((t for t in range(self._MAXAGE)
+                         if self.L_from_t(t, c) <= L), self._MAXAGE)
+        return Contract.solve(lambda t: self.L_from_t(t, c),
+                              target=L,
+                              grid=(0, self._MAXAGE),
+                              mad=True)
 
     def L_to_prob(self, x: int, L: float,
                   contract: Contract = Contract()) -> float:
-- 
2.43.0


From bf1893c5a40ccd561f07c539901331596d3695f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 76/80] fix: adding later ages to a life table dropped the last
 year of rates

---
 src/actuarialmath/lifetable.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 1dd1ee1..e665d27 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -90,10 +90,7 @@ class LifeTable(Reserves):
             self._MINAGE = minage
         if maxage < 0:
             maxage = max([max(v) for v in inputs.values()])
-            if self._MAXAGE < 0:
-                self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
+            self._MAXAGE = max(self._MAXAGE, maxage + 1)
         else:
             self._MAXAGE = maxage
 
-- 
2.43.0


From b1161bef714e8cea64f7bd0677691565e0cc6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:25 +0000
Subject: [PATCH 77/80] fix: net policy value of a pure endowment divided by
 the zero death benefit

---
 src/actuarialmath/policyvalues.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index b38ca34..3c9c036 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -202,11 +202,10 @@ class PolicyValues(Premiums):
             n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
-            a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
-                                        discrete=discrete)
+            a1 = self.temporary_annuity(x, s=s+t, t=n-t, discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete,
                                             b=b, endowment=endowment)
-            a = self.temporary_annuity(x, s=s, t=n, b=b, discrete=discrete)
+            a = self.temporary_annuity(x, s=s, t=n, discrete=discrete)
             return A1 - a1 * (A / a)
         return self.net_future_loss(A=A, A1=A1, b=b)  # apply shortcut
 
-- 
2.43.0


From 13ec86bdd69bf18730f775be52c28c29f9274850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 78/80] fix: approximated force of mortality in Woolhouse
 failed for lives not from tables

---
 src/actuarialmath/woolhouse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index c59ab4c..dd3246f 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -31,7 +31,8 @@ class Woolhouse(Mthly):
           s : years after selection
         """
         if self.approximate_mu is True:       # approximate mu from integer ages
-            return -.5 * sum([math.log(self.life.p_x(x, s=s+t)) for t in [0,-1]])
+            p0 = self.life.p_x(x, s=s-1) if s > 0 else self.life.p_x(x-1) # prior
+            return -.5 * (math.log(self.life.p_x(x, s=s)) + math.log(p0))
         elif self.approximate_mu is False:
             return self.life.mu_x(x, s=s)     # use exact mu from survival model
         else:                                 # apply custom function for mu
-- 
2.43.0


From 34cf12822386b853bc7f5ebb8e2cb3212ab294e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 79/80] fix: expected lifetime from a life table divided by
 zero at ages nobody reaches

---
 src/actuarialmath/lifetable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index e665d27..95749a1 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -251,7 +251,8 @@ class LifeTable(Reserves):
             # approximate complete by UDD between integer age recursion
             e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
                      + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=s)
+            lives = self.l(x, s=s)
+            return e / lives if lives else 0.   # no lifetime left
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From b6d84814ef4ad14383a48d5f98c7499e4f525125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 80/80] fix: UDD annuities kept the interest rate of the time
 of construction

---
 src/actuarialmath/udd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index b2895a7..06accb8 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,16 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        """alpha function value at current interest rate of underlying life"""
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        """beta function value at current interest rate of underlying life"""
+        return self.beta(m=self.m, i=self.life.interest.i)
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
-- 
2.43.0

