From d561a9522e8d4e23c1ebd7a79d79847400c8ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 01/71] fix: interval difference raised ValueError or returned
 empty pieces for adjacent bounds

---
 src/jpt/base/intervals.pyx | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..b33a468 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1041,37 +1041,35 @@ cdef class ContinuousSet(NumberSet):
             return self.copy()
         if isinstance(other, RealSet):
             return RealSet([self]).difference(other)
-        cdef NumberSet result
-        if other.contains_interval(self):
+        if self.isempty():
             return ContinuousSet.c_emptyset()
-
-        elif self.contains_interval(other, proper_containment=True):
-            result = RealSet([
+        if not self.intersects(other):
+            return self.copy()
+        # what remains of this interval to the left and to the right of ``other``
+        remainders = []
+        if self.lowermost() < other.lowermost():
+            remainders.append(
                 ContinuousSet(
                     self.lower,
                     other.lower,
                     self.left,
                     _INC if other.left == _EXC else _EXC
-                ),
+                )
+            )
+        if self.uppermost() > other.uppermost():
+            remainders.append(
                 ContinuousSet(
                     other.upper,
                     self.upper,
                     _INC if other.right == _EXC else _EXC,
                     self.right
                 )
-            ])
-            return result
-        elif self.intersects(other):
-            result = self.copy()
-            if self.contains_value(other.uppermost()) and self.uppermost() != other.uppermost():
-                result.lower = other.upper
-                result.left = _INC if other.right == _EXC else _EXC
-            elif self.contains_value(other.lowermost()) and self.lowermost() != other.lowermost():
-                result.upper = other.lower
-                result.right = _INC if other.left == _EXC else _EXC
-            return result
-        else:
-            return self.copy()
+            )
+        if not remainders:
+            return ContinuousSet.c_emptyset()
+        if len(remainders) == 1:
+            return first(remainders)
+        return RealSet(remainders)
 
     cpdef inline NumberSet complement(ContinuousSet self):
         """
-- 
2.43.0


From 3686c85d9d426d84516f884c6cc03fd63ef56726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 02/71] fix: RealSet.simplify merged intervals wrongly and
 modified the operand's intervals

---
 src/jpt/base/intervals.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index b33a468..97fe6f4 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -468,7 +468,7 @@ cdef class RealSet(NumberSet):
         while tail:
             head, tail_ = first(chop(tail))
             if not head.isempty():
-                intervals.append(head)
+                intervals.append(head.copy())
             tail = []
             for subset in tail_:
                 diff = subset.difference(head)
@@ -478,7 +478,7 @@ cdef class RealSet(NumberSet):
                     tail.extend(diff.intervals)
         if not intervals:
             return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
+        head, tail = first(chop(sorted(intervals, key=attrgetter('min'))))
         intervals = [head]
         for subset in tail:
             if intervals[-1].contiguous(subset):
-- 
2.43.0


From 1012d4422f9e3a4d508cf96ffbc2e5a9cb2238ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 03/71] fix: RealSet.to_json kept only the last interval

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 97fe6f4..92c1e3c 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From d13a1680d915ecc80e81b3500d530ddc220c8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 04/71] fix: equal number sets had different hashes

---
 src/jpt/base/intervals.pyx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 92c1e3c..b6b0bf8 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -197,10 +197,12 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        # Equal sets must have equal hashes, also if they are composed of different
+        # sub-intervals or if they are equal to a ``ContinuousSet``
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -1295,8 +1297,10 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
+        if self.isempty():
+            return hash((ContinuousSet, None))
         return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
+            (ContinuousSet, self.min, self.max)
         )
 
     def __getstate__(self):
-- 
2.43.0


From a83a8b51fc534c5d34b589c9fcf84a4387fd2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 05/71] fix: ContinuousSet.intersects was wrong for empty and
 for adjacent intervals

---
 src/jpt/base/intervals.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index b6b0bf8..2711e1b 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -927,7 +927,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
@@ -937,7 +937,7 @@ cdef class ContinuousSet(NumberSet):
             return False
         if self.upper == other.lower and (self.right == _EXC or other.left == _EXC):
             return False
-        return True
+        return self.lowermost() <= other.uppermost() and other.lowermost() <= self.uppermost()
 
     cpdef inline np.int32_t isdisjoint(ContinuousSet self, NumberSet other):
         """
-- 
2.43.0


From eff8502750fbb99cb77d140d4b804136bc7f020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 06/71] fix: ContinuousSet.size of one-element open intervals

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 2711e1b..0f015e2 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1087,7 +1087,7 @@ cdef class ContinuousSet(NumberSet):
         """
         if self.isempty():
             return 0
-        if self.lower == self.upper or np.nextafter(self.lower, self.upper) == self.upper and self.itype() == HALFOPEN:
+        if self.lowermost() == self.uppermost():
             return 1
         return np.inf
 
-- 
2.43.0


From 0c36b2eca63cc8f5fc57d1bbe36c1fef47d4e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 07/71] fix: comparing an undefined and a linear function
 raised TypeError

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..bbec9c8 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -176,7 +176,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and (np.isnan(other.m) or np.isnan(other.c)):
             return True
         return False
 
-- 
2.43.0


From d6be25a19d90d85db313f168d4ba37b4a96254ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 08/71] fix: a linear and an undefined function could not be
 added or multiplied

---
 src/jpt/base/functions.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index bbec9c8..4bcac8a 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -572,6 +572,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m * f.value, self.c * f.value)
         elif isinstance(f, LinearFunction):
             return QuadraticFunction(self.m * f.m, self.m * f.c + f.m * self.c, self.c * f.c).simplify()
+        elif isinstance(f, Undefined):
+            return Undefined()
         else:
             raise TypeError('No operator "*" defined for objects of '
                             'types %s and %s' % (type(self).__name__, type(f).__name__))
@@ -583,6 +585,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m, self.c + f)
         elif isinstance(f, ConstantFunction):
             return LinearFunction(self.m, self.c + f.value)
+        elif isinstance(f, Undefined):
+            return Undefined()
         else:
             raise TypeError('Operator "+" undefined for types %s '
                             'and %s' % (type(f).__name__, type(self).__name__))
-- 
2.43.0


From d3e36eb0cfb5416b7c0bcc92aa9cef10ac233c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 09/71] fix: PiecewiseFunction.simplify modified its operand

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 4bcac8a..060915b 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1553,14 +1553,14 @@ cdef class PiecewiseFunction(Function):
             if i.isempty():
                 continue
             if not plf.functions:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
                 continue
             i_, f_ = plf[-1]
             if i.contiguous(i_) and f == f_:
                 i_.upper = i.upper
                 i_.right = i.right
             else:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
         return plf
 
     @staticmethod
-- 
2.43.0


From 5dd06ac189884eb84f8b4a49fa367d087d963e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 10/71] fix: LinearFunction.integrate over unbounded ranges was
 wrong for slope 0

---
 src/jpt/base/functions.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 060915b..c1a8719 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -706,16 +706,16 @@ cdef class LinearFunction(Function):
             raise ValueError('The x2 argument must be greater than x1.')
         elif x2 == x1:
             return 0
+        elif self.m == 0:
+            return 0 if not self.c else (self.c * (x2 - x1))
         elif np.isinf(x1) and np.isinf(x2):
-            if self.m != 0:
-                return np.nan
-            return np.PINF if self.c > 0 else np.NINF
+            return np.nan
         elif np.isinf(x1):
-            if self.m <= 0:
+            if self.m < 0:
                 return np.PINF
             return np.NINF
         elif np.isinf(x2):
-            if self.m >= 0:
+            if self.m > 0:
                 return np.PINF
             return np.NINF
         return (.5 * self.m * x2 ** 2 + self.c * x2) - (.5 * self.m * x1 ** 2 + self.c * x1)
-- 
2.43.0


From bac626128d2dfd4e20033079624c878ff42b2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:32 +0000
Subject: [PATCH 11/71] fix: PiecewiseFunction equality ignored surplus pieces
 and equal functions had different hashes

---
 src/jpt/base/functions.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index c1a8719..9ae99f6 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -924,7 +924,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple((i, f) for i, f in self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
@@ -940,6 +940,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self) != len(other):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
-- 
2.43.0


From 4eeeb65ca1fa72feb5b123651a480663e7d98d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 12/71] fix: restricting a symbolic distribution to a single
 impossible value did not fail

---
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..298555f 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -370,7 +370,7 @@ class Multinomial(Distribution):
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
         if not isinstance(restriction, Collections):
-            return self.create_dirac_impulse(restriction)
+            restriction = {restriction}
 
         result = self.copy()
         for idx, value in enumerate(result.values.values()):
-- 
2.43.0


From d3e752f6b5b395a79df7d223577ee84d11983923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 13/71] fix: assigning a probability to a value of a Boolean
 distribution raised ValueError

---
 src/jpt/distributions/univariate/multinomial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 298555f..b3b4dac 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -634,9 +634,8 @@ class Bool(Multinomial):
     #     return f'{self._cl}<p=[{",".join([f"{v}={p:.3f}" for v, p in zip(self.labels, self._params)])}]>'
 
     def __setitem__(self, v, p):
-        if not isinstance(p, Iterable):
-            p = np.array([p, 1 - p])
         super().__setitem__(v, p)
+        super().__setitem__(not v, 1 - p)
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From ba6a5989b135718d2db01ae56e1e58bb638bdcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:43 +0000
Subject: [PATCH 14/71] fix: a symbolic domain equalled every domain whose
 values it is a prefix of

---
 src/jpt/distributions/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..6bb0ba0 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -204,6 +204,8 @@ class OrderedDictProxy:
     def __eq__(self, other):
         if not isinstance(other, OrderedDictProxy):
             return False
+        if len(self) != len(other):
+            return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
                 return False
-- 
2.43.0


From 044b530608b51efdc726fda403c506a097eba083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:54 +0000
Subject: [PATCH 15/71] fix: cropping a numeric distribution to an interval
 without mass or starting at a jump gave wrong distributions

---
 src/jpt/distributions/quantile/quantiles.pyx | 35 +++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..c188fde 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -84,6 +84,16 @@ cdef class QuantileDistribution:
         d.pdf = pdf
         return d
 
+    @staticmethod
+    def dirac(x: float, epsilon: float = .01, min_samples_mars: int = 5) -> 'QuantileDistribution':
+        '''Construct a distribution that has all of its mass on ``x``.'''
+        cdf = PiecewiseFunction()
+        cdf.intervals = [ContinuousSet(np.NINF, x, EXC, EXC), ContinuousSet(x, np.PINF, INC, EXC)]
+        cdf.functions = [ConstantFunction(0), ConstantFunction(1)]
+        d = QuantileDistribution(epsilon, min_samples_mars=min_samples_mars)
+        d.cdf = cdf
+        return d
+
     cpdef _assert_consistency(self):
         if self._cdf is not None:
             assert len(self.cdf.functions) > 1, self.cdf.pfmt()
@@ -270,8 +280,15 @@ cdef class QuantileDistribution:
         # I: crop
         cdf_ = self.cdf.crop(interval)
 
-        # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
+        # II: add constant to move to. If the cdf jumps at the lower
+        # end of the interval, the jump is part of the interval
+        lowermost = cdf_.intervals[0].lowermost()
+        jump = 0
+        if not np.isinf(lowermost):
+            jump = cdf_.eval(lowermost) - self._cdf.at(np.nextafter(lowermost, np.NINF)).eval(lowermost)
+            if jump <= 1e-8:
+                jump = 0
+        cdf_ += jump - cdf_.eval(lowermost)
 
         # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
@@ -281,13 +298,23 @@ cdef class QuantileDistribution:
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
-        f_ = cdf_.functions[0]
+        # There is no probability mass in the interval, but it may
+        # still have a point in common with the support
+        if alpha <= 1e-12:
+            for x in (interval.lowermost(), interval.uppermost()):
+                if not np.isinf(x) and self.pdf.eval(x) > 0:
+                    return QuantileDistribution.dirac(x, self.epsilon, self.min_samples_mars)
+            raise Unsatisfiability(
+                'CDF has zero Probability in %s' % interval
+            )
+
+        f_ = ConstantFunction(0.) if jump else cdf_.functions[0]
         for i, f in zip(cdf_.intervals, cdf_.functions):
             if f == ConstantFunction(0.):
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
+            c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
             upper_ = np.nextafter(i.upper, i.upper - 1)
-- 
2.43.0


From 340891550ee4ec791aa3b8f2a5e65560e65c0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 16/71] fix: probabilities of numeric distributions ignored
 jumps of the cdf and counted overlapping intervals twice

---
 src/jpt/distributions/quantile/quantiles.pyx | 17 ++++++++++++-----
 src/jpt/distributions/univariate/numeric.py  | 18 +++++++++++-------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index c188fde..5b2f7e9 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -94,6 +94,17 @@ cdef class QuantileDistribution:
         d.cdf = cdf
         return d
 
+    cpdef DTYPE_t atom(self, DTYPE_t x):
+        """
+        The probability mass that is concentrated in the point ``x``, i.e. the height of
+        the jump of the cdf at ``x``.
+        """
+        cdef DTYPE_t mass
+        if np.isinf(x):
+            return 0
+        mass = self._cdf.eval(x) - self._cdf.at(np.nextafter(x, np.NINF)).eval(x)
+        return mass if mass > 1e-8 else 0
+
     cpdef _assert_consistency(self):
         if self._cdf is not None:
             assert len(self.cdf.functions) > 1, self.cdf.pfmt()
@@ -283,11 +294,7 @@ cdef class QuantileDistribution:
         # II: add constant to move to. If the cdf jumps at the lower
         # end of the interval, the jump is part of the interval
         lowermost = cdf_.intervals[0].lowermost()
-        jump = 0
-        if not np.isinf(lowermost):
-            jump = cdf_.eval(lowermost) - self._cdf.at(np.nextafter(lowermost, np.NINF)).eval(lowermost)
-            if jump <= 1e-8:
-                jump = 0
+        jump = self.atom(lowermost)
         cdf_ += jump - cdf_.eval(lowermost)
 
         # everything left of the leftmost point of the cropped function evaluates to 0
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..7cdda3e 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -23,7 +23,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, INC, EXC
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -268,21 +268,25 @@ class Numeric(Distribution):
         if not isinstance(value, (NumberSet, numbers.Number)):
             raise TypeError(
                 'Argument must be numbers.Number or '
-                'jpt.base.intervals.NumberSet (got %s).' % type(labels)
+                'jpt.base.intervals.NumberSet (got %s).' % type(value)
             )
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
-            return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
+            value = value.simplify()
+            if isinstance(value, RealSet):
+                return sum(self._p(i) for i in value.intervals)
+        if value.isempty():
             return 0
         probmass = (
                 (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
                 (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
         )
-        if not probmass:
-            return probspace in value
+        # If the cdf has jumps at the bounds, they count for including bounds only
+        if value.left == INC:
+            probmass += self._quantile.atom(value.lower)
+        if value.right == EXC:
+            probmass -= self._quantile.atom(value.upper)
         return probmass
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
-- 
2.43.0


From 76c3268880dd0ad78e8a85ca1d40fb9015d4dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 17/71] fix: cropping a numeric distribution to a number
 modified it, cropping to a set ignored the probabilities of its intervals

---
 src/jpt/distributions/univariate/numeric.py | 31 +++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 7cdda3e..689c5fa 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -11,6 +11,7 @@ from dnutils import ifnone, ifnot, first
 from matplotlib import pyplot as plt
 
 from ..utils import Identity, DataScaler, DataScalerProxy
+from ...base.errors import Unsatisfiability
 from ...base.utils import save_plot, pairwise, normalized, none2nan
 from . import Distribution
 
@@ -377,16 +378,32 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
+            restriction = restriction.simplify()
+            if isinstance(restriction, ContinuousSet):
+                return self._crop(restriction)
+
             distributions = []
+            weights = []
 
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
+            for continuous_set in restriction.intervals:
+                try:
+                    distributions.append(
+                        self._crop(continuous_set)
+                    )
+                except Unsatisfiability:
+                    continue
+                weights.append(
+                    self._p(continuous_set)
+                )
+
+            if not distributions:
+                raise Unsatisfiability(
+                    'Distribution has zero probability in %s' % restriction
                 )
 
             return self.merge(
                 distributions,
-                [1 / len(distributions)] * len(distributions)
+                normalized(weights if any(weights) else [1] * len(weights))
             )
 
         elif isinstance(restriction, ContinuousSet):
@@ -398,7 +415,11 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            if not self._p(restriction) and not self.pdf.eval(restriction) > 0:
+                raise Unsatisfiability(
+                    'Distribution has zero probability in %s' % restriction
+                )
+            return type(self)().create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From 812a1e8d75b155f0325e0a0b2ff1db2cfc3c1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 18/71] fix: moments of numeric distributions ignored jumps of
 the cdf, the center and the scaling of impulses

---
 src/jpt/distributions/univariate/numeric.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 689c5fa..0dbee5c 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -578,20 +578,18 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
-        if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
         result = 0
-        for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
+        # The probability mass that is concentrated in single points
+        for interval in self.cdf.intervals[1:]:
+            atom = self._quantile.atom(interval.lower)
+            if atom:
+                result += atom * pow(value_transform(interval.lower) - center, order)
+        for interval, function in zip(self.cdf.intervals[1:-1], self.cdf.functions[1:-1]):
             interval_ = value_transform(interval)
             if interval_.width == 0:
                 continue
             # We have to "stretch" the pdf value over the interval in label space:
-            function_value = function.value * interval.width / interval_.width
+            function_value = function.m * interval.width / interval_.width
             result += (
                     (
                             pow(interval_.upper - center, order + 1)
-- 
2.43.0


From 8f3b0b07b5efc3a0fa8972e91e84f6ef168ed3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 19/71] fix: updating a numeric distribution did not use the
 given weight

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 0dbee5c..675df21 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -354,7 +354,7 @@ class Numeric(Distribution):
             raise TypeError('Can only update with distribution of the same type, got %s' % type(dist))
         tmp = Numeric.merge(
             [self, dist],
-            normalized([1, weight])
+            [1 - weight, weight]
         )
         self.values = tmp.values
         self.labels = tmp.labels
-- 
2.43.0


From 5fe043d3f7a231d05cfabf8b684f2580c67e5025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:23 +0000
Subject: [PATCH 20/71] fix: k_mpe of numeric distributions listed equally
 likely states several times

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 675df21..4a1e5f5 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -209,7 +209,7 @@ class Numeric(Distribution):
         """
         likelihoods = [f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)]
         sorted_likelihood = sorted(
-            likelihoods,
+            set(likelihoods),
             reverse=True
         )[:ifnone(k, len(likelihoods))]
 
-- 
2.43.0


From 0e69d5455676b46812ece33c18a0fe476ce865b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 21/71] fix: the density of a numeric distribution with several
 impulses was zero everywhere

---
 src/jpt/distributions/quantile/quantiles.pyx | 24 +++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 5b2f7e9..fbbf0a6 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -379,18 +379,20 @@ cdef class QuantileDistribution:
 
         elif self._pdf is None:
             pdf = self._cdf.differentiate()
-            if len(self._cdf.intervals) == 2:
-                pdf.intervals.insert(
-                    1,
-                    ContinuousSet(
-                        pdf.intervals[0].upper,
-                        pdf.intervals[0].upper + eps,
-                        INC,
-                        EXC
+            # If there are only jumps, there is an impulse at each of them
+            if all(f.value == 0 for f in pdf.functions):
+                for idx in reversed(range(1, len(pdf.intervals))):
+                    pdf.intervals.insert(
+                        idx,
+                        ContinuousSet(
+                            pdf.intervals[idx - 1].upper,
+                            pdf.intervals[idx - 1].upper + eps,
+                            INC,
+                            EXC
+                        )
                     )
-                )
-                pdf.intervals[-1].lower += eps
-                pdf.functions.insert(1, ConstantFunction(np.PINF))
+                    pdf.intervals[idx + 1].lower += eps
+                    pdf.functions.insert(idx, ConstantFunction(np.PINF))
             self._pdf = pdf
         return self._pdf
 
-- 
2.43.0


From 10d7bf204b85c09aa3b8a8348e8943c2bc058ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 22/71] fix: similarity and divergence of numeric distributions
 with impulses

---
 src/jpt/distributions/univariate/numeric.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 4a1e5f5..9af75b0 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -317,7 +317,7 @@ class Numeric(Distribution):
         for (x0, p_, q_), (x1, _, _) in pairwise(queue):
             p = ifnone(p_, p)
             q = ifnone(q_, q)
-            i = ContinuousSet(x0, x1)
+            i = ContinuousSet(x0, x1, INC, EXC)
             result += self._p(i) * abs(self._p(i) - other._p(i))
         return result
 
@@ -635,14 +635,11 @@ class Numeric(Distribution):
         intersection = 0
         union = 0
         for p1, p2 in pairwise(points):
-            v1 = d1.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            v2 = d2.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            intersection += min(v1, v2) * (p2 - p1)
-            union += max(v1, v2) * (p2 - p1)
+            i = ContinuousSet(p1, p2, INC, EXC)
+            v1 = d1._p(i)
+            v2 = d2._p(i)
+            intersection += min(v1, v2)
+            union += max(v1, v2)
         return intersection / union
 
     def plot(
-- 
2.43.0


From 7dc54f28081eb0f86c27b65f768fe615c34db205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 23/71] fix: sampling from numeric distributions with jumps in
 the cdf failed

---
 src/jpt/distributions/quantile/quantiles.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index fbbf0a6..3cfb383 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -601,10 +601,17 @@ cdef class QuantileDistribution:
         if len(self.cdf.intervals) == 2:
             return np.full(n, self.cdf.intervals[0].upper)
 
-        # create probability distribution with the probabilities of each function part
-        interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
-                                           for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
+        # create probability distribution with the probabilities of each function part ...
+        intervals = self.cdf.intervals[1:-1]
+        interval_probabilities = [function.eval(interval.upper) - function.eval(interval.lower)
+                                  for function, interval in
+                                  zip(self.cdf.functions[1:-1], intervals)]
+
+        # ... and each jump
+        for interval in self.cdf.intervals[1:]:
+            if self.atom(interval.lower):
+                intervals.append(ContinuousSet(interval.lower, interval.lower))
+                interval_probabilities.append(self.atom(interval.lower))
 
         # sample in which function part the samples will be
         sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
@@ -614,7 +621,7 @@ cdef class QuantileDistribution:
         result = np.zeros((n, ))
 
         # for every interval
-        for idx, interval in enumerate(interval for interval in self.cdf.intervals[1:-1]):
+        for idx, interval in enumerate(intervals):
 
             # get the indices where the samples are from this interval
             indices = np.where(sample_intervals == idx)[0]
-- 
2.43.0


From eb440944ca120e19979fd233f4ca18407a0103d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 24/71] fix: the quantile function was wrong where the cdf
 jumps at the beginning of a linear piece

---
 src/jpt/distributions/quantile/quantiles.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 3cfb383..4b71592 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -432,6 +432,10 @@ cdef class QuantileDistribution:
             for interval, f in zip(self._cdf.intervals, self._cdf.functions):
 
                 if f.is_invertible():
+                    if self.atom(interval.lower):
+                        ppf.functions.append(ConstantFunction(interval.lower))
+                        ppf.intervals[-1].upper = f(interval.lower)
+                        ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, np.PINF, INC, EXC))
                     ppf.functions.append(f.invert())
                     const = 0
                 elif not f.c:
-- 
2.43.0


From 957d358d958ff002ba12e7e79cc73461193b72eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 25/71] fix: the quantile function of an impulse was undefined
 below 1

---
 src/jpt/distributions/quantile/quantiles.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 4b71592..2808a7d 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -419,9 +419,9 @@ cdef class QuantileDistribution:
             self._assert_consistency()
 
             if len(self._cdf.functions) == 2:
-                ppf.intervals[-1].upper = 1
+                ppf.intervals[-1].upper = 0
                 ppf.functions.append(Undefined())
-                ppf.intervals.append(ContinuousSet(1, one_plus_eps, INC, EXC))
+                ppf.intervals.append(ContinuousSet(0, one_plus_eps, INC, EXC))
                 ppf.functions.append(ConstantFunction(self._cdf.intervals[-1].lower))
                 ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
                 ppf.functions.append(Undefined())
-- 
2.43.0


From 07728cca4bd4f1ec55fe8369ca0e4ccaef8c9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 26/71] fix: deep copies of variable maps dropped values, k-MPE
 inference did not terminate for several symbolic variables

---
 src/jpt/variables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..df29d7b 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -5,6 +5,7 @@ import hashlib
 import math
 import numbers
 import uuid
+from copy import deepcopy
 
 from typing import List, Tuple, Any, Union, Dict, Iterator, Set, Iterable, Type, Optional
 import collections.abc
@@ -689,10 +690,12 @@ class VariableMap:
 
         vmap = type(self)(variables=self._variables.values())
         for vname, value in self.items():
-            if isinstance(value, (numbers.Number, str)):
+            if isinstance(value, (numbers.Number, str, frozenset)):
                 vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
+            elif hasattr(value, 'copy'):
                 vmap[vname] = value.copy()
+            else:
+                vmap[vname] = deepcopy(value)
         return vmap
 
     @classmethod
-- 
2.43.0


From 937a3a72924e685fdc06685cd4cf1157ee6fca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 27/71] fix: k_mpe of trees listed the states of several leaves
 in the wrong order and ignored the probabilities of the leaves

---
 src/jpt/trees.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..45b427d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1330,20 +1330,28 @@ class JPT:
                         likelihoods.append(likelihood_max)
         likelihood_max = ifnot(likelihoods, 1, max)
         mpe_solvers = [
-            MPESolver(
-                distributions=leaf.distributions,
-                likelihood_divisor=likelihood_max if likelihoods else None
-            ).solve() for leaf in conditional_jpt.leaves.values()
+            (
+                leaf.prior,
+                MPESolver(
+                    distributions=leaf.distributions,
+                    likelihood_divisor=likelihood_max if likelihoods else None
+                ).solve()
+            ) for leaf in conditional_jpt.leaves.values()
         ]
 
+        def candidate(prior, solver):
+            solution, likelihood = next(solver)
+            return solution, likelihood * prior, prior, solver
+
+        # the heap returns the smallest item first, but we want the most probable state
         mpe_candidates = Heap(
-            data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
+            data=[candidate(prior, solver) for prior, solver in mpe_solvers],
+            key=lambda c: -c[1]
         )
 
         count = 0
         while mpe_candidates and (not k or count < k):
-            solution, likelihood, solver = mpe_candidates.pop()
+            solution, likelihood, prior, solver = mpe_candidates.pop()
             values = ValueAssignment(
                 [
                     (variable, value if variable.numeric else set(value))
@@ -1353,7 +1361,7 @@ class JPT:
             values = values.label_assignment()
             yield values, likelihood
             try:
-                mpe_candidates.push((*next(solver), solver))
+                mpe_candidates.push(candidate(prior, solver))
             except StopIteration:
                 pass
             count += 1
-- 
2.43.0


From 8270b1c92f9a4b1c6e2f79bac89fe406fb9abab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 28/71] fix: conditional probabilities of events about
 variables that are also part of the evidence

---
 src/jpt/trees.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 45b427d..5b0bb16 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1076,11 +1076,18 @@ class JPT:
             p_e += p_m
 
             if leaf.applies(query_):
-                for var in set(query_.keys()):
-                    query_val = query_[var]
+                p_m = w
+                for var in set(query_.keys()) | set(evidence_.keys()):
+                    # the joint event of query and evidence
+                    vals = [
+                        assignment[var] for assignment in (query_, evidence_) if var in assignment
+                    ]
                     if var in leaf.path:
-                        query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
+                        vals.append(leaf.path[var])
+                    val = vals[0]
+                    for val_ in vals[1:]:
+                        val = val.intersection(val_)
+                    p_m *= leaf.distributions[var]._p(val)
                 p_q += p_m
 
         if p_e == 0:
-- 
2.43.0


From 3a759346ff451333112dededfaba5b28fef9b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 29/71] fix: posteriors of evidence variables ignored the
 evidence in leaves that do not restrict the variable

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5b0bb16..0eec928 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1178,7 +1178,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From 00d8624b7eb37c3ecf9ec2c18ac85ea12d959914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:16 +0000
Subject: [PATCH 30/71] fix: likelihoods of joint states depended on the order
 in which the search assigned the variables

---
 src/jpt/inference/mpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..3d30db4 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -177,7 +177,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            domain[solution.state.assignment[var]] for var, domain in self.domains.items()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
-- 
2.43.0


From 0ffb6867fc751b49a702e5f083dde98582c32e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 31/71] fix: samples at the split value of a numeric variable
 were assigned to the wrong leaf

---
 src/jpt/trees.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 0eec928..95b88b7 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -123,7 +123,7 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, (ContinuousSet, RealSet)):
                         # if the ranges don't intersect return false
                         if value.isdisjoint(restriction):
                             return False
@@ -131,7 +131,7 @@ class Node:
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if not restriction.contains_value(value):
                             return False
 
                 # if the variable is symbolic or integer
@@ -176,7 +176,11 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                values = samples[:, index]
+                result *= (
+                    ((values >= restriction.lower) if restriction.left == INC else (values > restriction.lower)) &
+                    ((values <= restriction.upper) if restriction.right == INC else (values < restriction.upper))
+                )
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
-- 
2.43.0


From 85642885029fbc3d94db1fa7ed6f4671f3c4870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:07 +0000
Subject: [PATCH 32/71] fix: training samples had likelihood 0 in leaves where
 a numeric variable has a single value at the upper end of the data

---
 src/jpt/trees.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 95b88b7..44b2621 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2444,10 +2444,16 @@ class JPT:
                             leaf.path[variable].upper,
                         )
                     if distribution.is_dirac_impulse():
+                        if left is None and right is None:
+                            continue
+                        # the impulse itself must remain possible, hence include it at the upper end
                         # noinspection PyTypeChecker
                         interval = ContinuousSet(
                             left.lower if left is not None else distribution.cdf.intervals[0].upper,
-                            right.upper if right is not None else distribution.cdf.intervals[1].lower,
+                            right.upper if right is not None else np.nextafter(
+                                distribution.cdf.intervals[1].lower,
+                                np.PINF
+                            ),
                             INC,
                             EXC
                         )
-- 
2.43.0


From 6175c7f68abc21ded513504adffd90f5a07b60c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 33/71] fix: the density of trees with symbolic or integer
 variables failed or was wrong (values taken for labels)

---
 src/jpt/trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 44b2621..07cf1ba 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1009,6 +1009,7 @@ class JPT:
         pdf = 0
         for leaf in self.apply(values_sets):
             pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+                                      if var.numeric else leaf.distributions[var]._pdf(value)
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 817ff56fe1d2ced21da4e3b4fd379322f92307cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 34/71] fix: trees with separate targets and features did not
 equal their JSON or pickle copies

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 07cf1ba..a9e1957 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -772,7 +772,7 @@ class JPT:
         if dependencies is None:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap({
                 var: list(self.targets) for var in self.features
-            })
+            }, variables=self.variables)
         else:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
                 dependencies.items(),
-- 
2.43.0


From 6faf1da3ebb8ada91869e33316fd02a51db5a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 35/71] fix: variables lost their settings in JSON, pickle and
 copies

---
 src/jpt/variables.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index df29d7b..3cd457d 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -251,13 +251,14 @@ class NumericVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', {})
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -384,7 +385,7 @@ class IntegerVariable(Variable):
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=data.get('settings', {}).get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -424,9 +425,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', {})
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From c7cbf1e8310d8d5afa13c6972675a47371009e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 36/71] fix: ranges of evidence that merely touch the region of
 a leaf counted with the density in posteriors

---
 src/jpt/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a9e1957..f55b947 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1157,7 +1157,9 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
+                # the density is only relevant if the evidence itself is a single value, not
+                # if a range merely touches the region of the leaf
+                if isinstance(evidence_[var], ContinuousSet) and evidence_[var].size() == 1:
                     l_var = leaf.distributions[var].pdf(evidence_set.lower)
                     l_var = 1 if np.isinf(l_var) else l_var
                 else:
-- 
2.43.0


From 20dc4e16db8f06ba93892ee2c47f7b7d86b356d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:44 +0000
Subject: [PATCH 37/71] fix: k-MPE search ranked sets of equally likely values
 by their joint probability

---
 src/jpt/inference/mpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index 3d30db4..c402861 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -147,7 +147,7 @@ class MPESolver:
                             -np.log(
                                 (dist.pdf / likelihood_divisor).eval(val.any_point())
                                 if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                else self.domains[var][val]
                             )
                         )
                         for val in self.domains[var]],
-- 
2.43.0


From a9bf261b830a3980bb35ee50e4cce5b3a9c57717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:38 +0000
Subject: [PATCH 38/71] fix: k-MPE inference failed if all numeric
 distributions of a tree are impulses

---
 src/jpt/inference/mpe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index c402861..25f568b 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -129,7 +129,9 @@ class MPESolver:
 
             if isinstance(dist, Numeric):
                 _, likelihood_max = dist._mpe()
-                likelihoods.append(likelihood_max)
+                # the infinite likelihood of impulses cannot serve as a divisor
+                if not np.isnan(likelihood_max) and not np.isinf(likelihood_max):
+                    likelihoods.append(likelihood_max)
 
         # Build the unary constraints given by the log of
         # an events probability
-- 
2.43.0


From d95e99a17baef0a89c07183fa94566b6430bf759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:36 +0000
Subject: [PATCH 39/71] fix: pruning of conditional trees failed if one branch
 of a decision is impossible

---
 src/jpt/trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index f55b947..ec70152 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2636,10 +2636,12 @@ class JPT:
         queue: deque[DecisionNode] = deque(list(jpt.innernodes.values()))
         while queue:
             node: DecisionNode = queue.popleft()
+            if node.idx not in jpt.innernodes or len(node.children) != 2:
+                # merged already or (in conditional trees) with one impossible branch
+                continue
             left, right = node.children
             if (
-                    node.idx not in jpt.innernodes
-                    or not isinstance(left, Leaf)
+                    not isinstance(left, Leaf)
                     or not isinstance(right, Leaf)
             ):
                 continue
-- 
2.43.0


From d3e8586e807dbc5dc8c37ff9216639082269c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 40/71] fix: elements of zero weight could be sampled from the
 roulette wheel

---
 src/jpt/base/sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/sampling.py b/src/jpt/base/sampling.py
index 5838057..2e60b3d 100644
--- a/src/jpt/base/sampling.py
+++ b/src/jpt/base/sampling.py
@@ -29,7 +29,8 @@ class RouletteWheelSampler:
         if not (0 <= x <= self._upperbounds[-1]):
             raise IndexError('Indexes in the roulette wheel must be in [0, %s] (got %s)' % (self._upperbounds[-1], x))
         for i, bound in enumerate(self._upperbounds):
-            if x <= bound:
+            # elements of zero weight must not be selected, hence the bounds are exclusive (except for the last)
+            if x < bound or x == bound == self._upperbounds[-1]:
                 return i
 
     def sample(self, n=1):
-- 
2.43.0


From 0d946a05b4cc8e0ddc18cdcaa183b2fc71989fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:04 +0000
Subject: [PATCH 41/71] fix: sampling from sets with empty intervals failed or
 sampled from the wrong interval

---
 src/jpt/base/intervals.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 0f015e2..0c82a57 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -276,8 +276,8 @@ cdef class RealSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
         cdef ContinuousSet i_
-        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
-                                              for i_ in self.intervals if i_.size()], dtype=np.float64)
+        cdef list intervals = [i_ for i_ in self.intervals if i_.size()]
+        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower) for i_ in intervals], dtype=np.float64)
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -289,7 +289,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    intervals[j].sample(result=result[i:i+1])
                     break
         return result
 
-- 
2.43.0


From b45261db5c49d75d8065ca63806d96f4dde8433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 42/71] fix: impurities of symbolic targets used the domain
 sizes of other symbolic variables

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..e210864 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
-- 
2.43.0


From 84cc88d28aa193a719bbef31bd8feee34567b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:15 +0000
Subject: [PATCH 43/71] fix: splits on symbolic variables were evaluated with
 wrong sample counts if all targets are numeric

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index e210864..3fcc0f5 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1133,6 +1133,7 @@ cdef class Impurity:
 
             # if this variable is symbolic
             if symbolic:
+                self.num_samples[...] = 0
 
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
@@ -1140,7 +1141,6 @@ cdef class Impurity:
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
-- 
2.43.0


From 644ec85ba3bba3d735bbff75dae8f7548446bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 44/71] fix: the improvement of a split was wrong if some
 targets do not depend on the split variable

---
 src/jpt/learning/impurity.pyx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 3fcc0f5..9092fd2 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1104,6 +1104,11 @@ cdef class Impurity:
                     samples_right,
                     result=self.variances_right
                 )
+                # variables that do not depend on this variable are not affected by the split
+                for i in range(self.n_num_vars):
+                    if not self.is_dependent(self.numeric_dependency_matrix[var_idx, :], i):
+                        self.variances_left[i] = variances_total[i]
+                        self.variances_right[i] = variances_total[i]
 
                 # compute the variance improvement for this split
                 impurity_improvement += compute_var_improvements(
@@ -1124,6 +1129,10 @@ cdef class Impurity:
                     # update gini impurity left and right of the split
                     self.gini_impurity(self.symbols_left, samples_left, self.gini_left)
                     self.gini_impurity(self.symbols_right, samples_right, self.gini_right)
+                    for i in range(self.n_sym_vars):
+                        if not self.is_dependent(self.symbolic_dependency_matrix[var_idx, :], i):
+                            self.gini_left[i] = self.gini_impurities[i]
+                            self.gini_right[i] = self.gini_impurities[i]
                     impurity_improvement += (
                         (gini_total -
                         mean(self.gini_left) * (<DTYPE_t> samples_left / <DTYPE_t> n_samples) -
@@ -1162,6 +1171,21 @@ cdef class Impurity:
 
         return max_impurity_improvement
 
+    cdef inline int is_dependent(Impurity self, SIZE_t[::1] dependent_columns, SIZE_t idx) nogil:
+        """
+        Check if a target is among the dependent targets of a variable.
+        :param dependent_columns: the indices of the dependent targets, -1 marks the end
+        :param idx: the index of the target
+        :return: 1 if the target is dependent, 0 else
+        """
+        cdef SIZE_t i
+        for i in range(dependent_columns.shape[0]):
+            if dependent_columns[i] == -1:
+                return False
+            if dependent_columns[i] == idx:
+                return True
+        return False
+
     cdef inline void update_numeric_stats_with_dependencies(Impurity self,
                                                             SIZE_t sample_idx,
                                                             SIZE_t[::1] dependent_columns) nogil:
-- 
2.43.0


From d589ce090b73007144a038e9449c2bd345ea3bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 45/71] fix: evidence of overlapping intervals was counted
 twice in conditional trees

---
 src/jpt/trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index ec70152..3fbae4f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -517,6 +517,9 @@ class Leaf(Node):
             This can be useful to use the same likelihood parameters for different test sets for example in cross
             validation processes.
         """
+        if isinstance(value, RealSet):
+            # overlapping intervals must not be counted twice
+            value = value.simplify()
         if isinstance(value, RealSet):
             return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
 
-- 
2.43.0


From 491c5a8955014d4a699c3f8a988327d8be6d8410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 46/71] fix: conditioning a conditional tree ignored the leaves
 below decisions with one impossible branch

---
 src/jpt/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 3fbae4f..647649f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2235,6 +2235,7 @@ class JPT:
 
         # initialize exploration queue
         fringe = deque([conditional_jpt.root])
+        expanded = set()
 
         while fringe:
             # get the next node to inspect
@@ -2259,7 +2260,8 @@ class JPT:
                     rm = True
 
                 # else recurse into its children
-                elif len(node.children) == 2:
+                elif node not in expanded:
+                    expanded.add(node)
                     fringe.extendleft(node.children)
                     continue
 
-- 
2.43.0


From aa7bbf8f469911dbbdf553fa36051397644e7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 47/71] fix: queries about variables whose evidence is a set of
 intervals raised TypeError

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 647649f..80cd00b 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1094,7 +1094,7 @@ class JPT:
                         vals.append(leaf.path[var])
                     val = vals[0]
                     for val_ in vals[1:]:
-                        val = val.intersection(val_)
+                        val = val_.intersection(val) if isinstance(val_, RealSet) else val.intersection(val_)
                     p_m *= leaf.distributions[var]._p(val)
                 p_q += p_m
 
-- 
2.43.0


From 1d7d0794110af3af161199f2674a7d49637a87b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 48/71] fix: approximating a piecewise function with equal
 functions in several segments removed the wrong segment

---
 src/jpt/base/functions.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9ae99f6..fe85199 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -2008,10 +2008,11 @@ class PLFApproximator:
                 break
 
             # Remove the left and right segments of the replacement from the original function
-            del result.intervals[result.intervals.index(replacement.left.i)]
-            del result.functions[result.functions.index(replacement.left.f)]
-            del result.intervals[result.intervals.index(replacement.right.i)]
-            del result.functions[result.functions.index(replacement.right.f)]
+            # (there may be equal functions in other intervals, so only the intervals identify a segment)
+            for segment in (replacement.left, replacement.right):
+                idx = result.intervals.index(segment.i)
+                del result.intervals[idx]
+                del result.functions[idx]
 
             # Insert the new segment at the interval union of the former left and right segments
             result = result.overwrite_at(
-- 
2.43.0


From 2c13185a4226e86a8f5da51adb286aa65cbfff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:01 +0000
Subject: [PATCH 49/71] fix: deleting an item from a heap destroyed the order
 of the heap

---
 src/jpt/base/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..c316520 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -507,6 +507,7 @@ class Heap:
 
     def __delitem__(self, item: int):
         del self._data[item]
+        heapq.heapify(self._data)
 
     def __bool__(self):
         return bool(self._data)
-- 
2.43.0


From bcc9e0233009e974cc3c1bb64f19fdeff5c74b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 50/71] fix: marginals of sequential trees squared the priors
 and mixed up time steps from the eleventh on

---
 src/jpt/sequential_trees.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..dafc80f 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,4 @@
 import datetime
-from operator import itemgetter
 from typing import List, Dict
 
 import numpy as np
@@ -322,20 +321,14 @@ class SequentialJPT:
             '(length %s) took %s.' % (len(evidence_), now - start)
         )
 
-        # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
-            prior = dict(
-                zip(
-                    sorted(self.template_tree.leaves.keys()),
-                    distribution
-                )
-            )
-
-            adjusted_tree = tree.multiply_by_leaf_prior(prior)
-            result.append(adjusted_tree)
+        # transform trees: the marginals of the leaves comprise the priors of the conditional
+        # trees already, which is why they replace those priors
+        for timestep, tree in enumerate(altered_jpts):
+            distribution = leaf_distribution["t%s" % timestep]
+            for leaf_idx, probability in zip(self.template_tree.leaves.keys(), distribution):
+                if leaf_idx in tree.leaves:
+                    tree.leaves[leaf_idx].prior = probability
+            result.append(tree.normalize())
 
         self.logger.debug('Independent marginals computation finished.')
         return result
-- 
2.43.0


From 804d7292a344a24322c183f28c9d2ea579680d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 51/71] fix: blurred evidence was transformed as if
 probabilities were labels

---
 src/jpt/trees.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 80cd00b..5fb19e2 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1435,25 +1435,29 @@ class JPT:
                     # Apply a "blur" to single value evidences, if any blur is set
                     elif var.blur:
                         prior = self.priors[var.name]
-                        transformer = var.domain.label2value if space == 'labels' else var.domain.value2label
+                        if space == 'labels':
+                            to_value, from_value = var.domain.label2value, var.domain.value2label
+                        else:
+                            to_value = from_value = lambda v: v
+                        val = to_value(val)
                         quantile = prior.cdf.functions[
                             max(
                                 1,
                                 min(
                                     len(prior.cdf) - 2,
-                                    prior.cdf.idx_at(transformer(val))
+                                    prior.cdf.idx_at(val)
                                 )
                             )
                         ].eval(val)
-                        lower = transformer(quantile - var.blur / 2)
-                        upper = transformer(quantile + var.blur / 2)
+                        lower = quantile - var.blur / 2
+                        upper = quantile + var.blur / 2
                         query_[var] = ContinuousSet(
-                            transformer(
-                                prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
+                            from_value(
+                                prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(lower)))].eval(
                                     lower
                                 )
                             ),
-                            transformer(
+                            from_value(
                                 prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
                                     upper
                                 )
-- 
2.43.0


From 6783702fc04ef1cb449ad37532efadd749df96a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 52/71] fix: normalized() truncated weights of integer arrays

---
 src/jpt/base/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index c316520..d4694b4 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -375,7 +375,7 @@ def normalized(
                 result[e]for e in range(len(dist_))
             ]
         if isinstance(dist, np.ndarray):
-            return np.array(result, dtype=dist.dtype)
+            return np.array(result, dtype=float if np.issubdtype(dist.dtype, np.integer) else dist.dtype)
         return result
 
 
-- 
2.43.0


From 309f667b1f00b9e2f6fd487c3e6001af745caa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 53/71] fix: linspace with one sample returned half the
 distance instead of the center

---
 src/jpt/base/cutils.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/cutils.pxd b/src/jpt/base/cutils.pxd
index 61ea4fe..9d9a6bd 100644
--- a/src/jpt/base/cutils.pxd
+++ b/src/jpt/base/cutils.pxd
@@ -308,7 +308,7 @@ cpdef inline DTYPE_t[::1] linspace(DTYPE_t start, DTYPE_t stop, np.int64_t num):
     cdef DTYPE_t space, val = start
     cdef np.int64_t i
     if num == 1:
-        samples[0] = (stop - start) / 2
+        samples[0] = start + (stop - start) / 2
     else:
         n = <DTYPE_t> num - 1
         space = (stop - start) / n
-- 
2.43.0


From 4279ede0fef125b19c3e9e6eec7cd6eadb1836e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 54/71] fix: convolution with an impulse ignored its position

---
 src/jpt/base/functions.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index fe85199..e308473 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1721,10 +1721,14 @@ cdef class PiecewiseFunction(Function):
         :return:
         '''
         f = self
+        if g.is_impulse():
+            f, g = g, f
         if f.is_impulse():
-            return g.copy()
-        elif g.is_impulse():
-            return f.copy()
+            result = g.xshift(-f.intervals[1].min)
+            if result.intervals[1].isempty():  # both functions are impulses
+                result.intervals[1].upper = result.intervals[1].lower + eps
+                result.intervals[2].lower = result.intervals[1].upper
+            return result
         for func in itertools.chain(f.functions, g.functions):
             if (not isinstance(func, (ConstantFunction, Undefined)) and
                     isinstance(func, LinearFunction) and func.m != 0):
-- 
2.43.0


From bd82163c2b93eb3b9e3547cd534640eb8c17c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 55/71] fix: distributions from densities with several impulses
 ignored their weights or failed

---
 src/jpt/distributions/quantile/quantiles.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 2808a7d..c39a465 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -121,7 +121,9 @@ cdef class QuantileDistribution:
         cdf = PiecewiseFunction()
         pdf = pdf.rectify()
         head = 0
-        dirac_weights = normalized(dirac_weights) if dirac_weights is not None else []
+        if dirac_weights is None:
+            dirac_weights = [1] * sum(1 for f in pdf.functions if np.isinf(f.value))
+        dirac_weights = normalized(list(dirac_weights)) if len(dirac_weights) else []
         dirac_offsets = []
 
         last_int: ContinuousSet = None
@@ -131,7 +133,7 @@ cdef class QuantileDistribution:
             elif np.isinf(f.value):
                 dirac_offsets.append((
                     len(cdf),
-                    dirac_offsets.pop(-1) if dirac_offsets else 1
+                    dirac_weights.pop(0)
                 ))
                 last_int = i
                 continue
-- 
2.43.0


From 9472a4c972b2c74d2af22e6aa541657be54ff1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 56/71] fix: inferring variables ignored -inf in remove_nan and
 min_impurity_improvement of integer variables

---
 src/jpt/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 3cd457d..7b01bc0 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -525,7 +525,7 @@ def infer_from_dataframe(df,
             elif scale_numeric_types:
                 values = df[col]
                 if remove_nan:
-                    values = values[~values.isin([np.nan, np.inf])]
+                    values = values[~values.isin([np.nan, np.inf, -np.inf])]
                 dom = NumericType(
                     '%s%s_TYPE_N' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
                     values.unique()
@@ -547,7 +547,9 @@ def infer_from_dataframe(df,
                     lmin=df[col].min(),
                     lmax=df[col].max()
                 )
-            var = IntegerVariable(col, dom)
+            var = IntegerVariable(col,
+                                  dom,
+                                  min_impurity_improvement=min_impurity_improvement)
         else:
             raise TypeError('Unknown column type:', col, '[%s]' % dtype)
         variables.append(var)
-- 
2.43.0


From f4d8ecd34c71d48d422011d0c103b6b930a231d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 57/71] fix: assignments of single labels, numbers, number sets
 and values failed or changed in JSON

---
 src/jpt/variables.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 7b01bc0..d3fdd39 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -761,15 +761,33 @@ class VariableAssignment(VariableMap):
             variable = var_by_name[v_name]
 
             if variable.symbolic or variable.integer:
-                value_ = set(value)
+                value_ = set(value) if isinstance(value, (list, tuple, set)) else value
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if isinstance(value, numbers.Number):
+                    value_ = value
+                elif 'intervals' in value:
+                    value_ = RealSet.from_json(value)
+                else:
+                    value_ = ContinuousSet.from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
             vmap[variable] = value_
         return vmap
 
+    def to_json(self) -> Dict[str, Any]:
+        """ Convert this assignment to a json serializable dictionary. To achieve that sets are replaced
+        with lists."""
+        result = dict()
+        for variable, value in self.items():
+            if variable.symbolic or variable.integer:
+                if isinstance(value, collections.abc.Iterable) and not isinstance(value, str):
+                    value = list(value)
+
+            result[variable.name] = to_json(value)
+
+        return result
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -802,19 +820,6 @@ class LabelAssignment(VariableAssignment):
     def value_assignment(self) -> 'ValueAssignment':
         return ValueAssignment([(var, var.domain.label2value(val)) for var, val in self.items()])
 
-    def to_json(self) -> Dict[str, Any]:
-        """ Convert this LabelAssignment to a json serializable dictionary. To achieve that sets are replaced
-        with lists."""
-        result = dict()
-        for variable, value in self.items():
-            if variable.symbolic or variable.integer:
-                if isinstance(value, collections.abc.Iterable):
-                    value = list(value)
-
-            result[variable.name] = to_json(value)
-
-        return result
-
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From c335ac02f39ca6020b60ea669551424224f1ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:18 +0000
Subject: [PATCH 58/71] fix: RealSet.contains_interval over several touching
 constituents

---
 src/jpt/base/intervals.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 0c82a57..6c1f31f 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -313,8 +313,12 @@ cdef class RealSet(NumberSet):
         """
         if isinstance(other, RealSet):
             return all([self.contains_interval(i) for i in other.intervals])
+        # ``other`` may extend over several contiguous or overlapping constituents of this set
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return simplified.contains_interval(other)
         cdef ContinuousSet s
-        for s in self.intervals:
+        for s in simplified.intervals:
             if s.contains_interval(other):
                 return True
         return False
-- 
2.43.0


From 666ebc4208d61d267ccefef6ae60b60f8d6c648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:18 +0000
Subject: [PATCH 59/71] fix: RealSet.chop on sets that simplify to a single
 interval

---
 src/jpt/base/intervals.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 6c1f31f..0704e81 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -534,7 +534,9 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
+        # NB: a set of contiguous intervals simplifies to a single ``ContinuousSet``
+        simplified = self.simplify()
+        for i in simplified.intervals if isinstance(simplified, RealSet) else [simplified]:
             yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
-- 
2.43.0


From 048cbfadede152ff0c0b2aa376ace98e231b5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:18 +0000
Subject: [PATCH 60/71] fix: union and intersection operators of an interval
 and a RealSet

---
 src/jpt/base/intervals.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 0704e81..96f8189 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1246,9 +1246,13 @@ cdef class ContinuousSet(NumberSet):
         return not self == other
 
     def __or__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.union(self)
         return self.union(other)
 
     def __and__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.intersection(self)
         return self.intersection(other)
 
     def __sub__(self, other: NumberSet) -> NumberSet:
-- 
2.43.0


From 966fea080b4728deaeaf16d44c0d4d38cc9303dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 61/71] fix: numbers as left operands of functions and
 differences of linear functions

---
 src/jpt/base/functions.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index e308473..5a716ca 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -93,6 +93,8 @@ cdef class Function:
         raise NotImplementedError()
 
     def __add__(self, other):
+        if not isinstance(self, Function):  # NB: Cython passes the operands in their original order
+            return other + self
         if isinstance(other, numbers.Real):
             return self.add(
                 ConstantFunction(other)
@@ -108,6 +110,8 @@ cdef class Function:
             )
 
     def __mul__(self, other: Union[float, Function]) -> 'Function':
+        if not isinstance(self, Function):  # NB: Cython passes the operands in their original order
+            return other * self
         if isinstance(other, numbers.Real):
             return self.mul(
                 ConstantFunction(other)
@@ -592,7 +596,7 @@ cdef class LinearFunction(Function):
                             'and %s' % (type(f).__name__, type(self).__name__))
 
     def __sub__(self, x):
-        return -x + self
+        return x * (-1) + self
 
     def __radd__(self, x):
         return self + x
-- 
2.43.0


From cd7c631ab0de7198af1daa63e494ec4aa2340c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 62/71] fix: LinearFunction.intersects denied that identical
 lines intersect

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 5a716ca..85ca90a 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -531,12 +531,12 @@ cdef class LinearFunction(Function):
         """
         if isinstance(f, LinearFunction):
             if self.m == f.m:
-                return False
+                return self.c == f.c
             else:
                 return True
         elif isinstance(f, ConstantFunction):
             if self.m == 0:
-                return False
+                return self.c == f.value
             else:
                 return True
         else:
-- 
2.43.0


From 31cdb3df1a49e9b9663e28b403861f1cf2653aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 63/71] fix: sums and products of quadratic and undefined
 functions

---
 src/jpt/base/functions.pyx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 85ca90a..12f106d 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -768,8 +768,10 @@ cdef class QuadraticFunction(Function):
     cpdef Function mul(self, Function f):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
+        elif isinstance(f, Undefined):
+            return Undefined()
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
                                                                              type(f).__name__))
 
     cpdef Function add(self, Function f):
@@ -779,6 +781,15 @@ cdef class QuadraticFunction(Function):
             return QuadraticFunction(self.a, self.b + f.m, self.c + f.c)
         elif isinstance(f, QuadraticFunction):
             return QuadraticFunction(self.a + f.a, self.b + f.b, self.c + f.c)
+        elif isinstance(f, Undefined):
+            return Undefined()
+        else:
+            raise TypeError(
+                'Unsupported operand type(s) for add(): %s and %s.' % (
+                    type(self).__name__,
+                    type(f).__name__
+                )
+            )
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
         return self.a * x * x + self.b * x + self.c
-- 
2.43.0


From f027608f62de85571a4cc7834326a7895f689944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 64/71] fix: PiecewiseFunction.ensure_right changed the left
 end of the last piece and left its right end closed

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 12f106d..812a633 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1346,12 +1346,12 @@ cdef class PiecewiseFunction(Function):
         elif xing and xing.upper > self.intervals[-1].lower and xing.lower <= x:
             self.intervals.append(ContinuousSet(xing.lower, np.PINF, INC, EXC))
             self.intervals[-2].upper = xing.upper
-            self.intervals[-2].left = INC
+            self.intervals[-2].right = EXC
             self.functions.append(right)
         else:
             self.intervals.append(ContinuousSet(x, np.PINF, INC, EXC))
             self.intervals[-2].upper = x
-            self.intervals[-2].left = INC
+            self.intervals[-2].right = EXC
             self.functions.append(right)
             if not self.intervals[-2]:
                 del self.intervals[-2]
-- 
2.43.0


From cf7acd78e671cc648c6ce26d696edb9a2a9ec4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:21 +0000
Subject: [PATCH 65/71] fix: differences of piecewise functions and numbers

---
 src/jpt/base/functions.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 812a633..8fd1c14 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -963,7 +963,11 @@ cdef class PiecewiseFunction(Function):
         else:
             return True
 
-    def __sub__(self, other: Function) -> PiecewiseFunction:
+    def __sub__(self, other: Function or numbers.Real) -> PiecewiseFunction:
+        if not isinstance(self, Function):  # NB: Cython passes the operands in their original order
+            return other.mul(ConstantFunction(-1)).add(ConstantFunction(self))
+        if isinstance(other, numbers.Real):
+            other = ConstantFunction(other)
         return self.add(
             other.mul(
                 ConstantFunction(-1)
-- 
2.43.0


From bf48d2b9dafa757b9c52318fbdfe3d15793b13ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:03 +0000
Subject: [PATCH 66/71] fix: mirroring and differentiating piecewise functions
 with undefined pieces failed

---
 src/jpt/base/functions.pxd | 2 ++
 src/jpt/base/functions.pyx | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/jpt/base/functions.pxd b/src/jpt/base/functions.pxd
index 178532f..c89911f 100644
--- a/src/jpt/base/functions.pxd
+++ b/src/jpt/base/functions.pxd
@@ -52,6 +52,8 @@ cdef class Undefined(Function):
     '''
     cpdef Function xshift(self, DTYPE_t delta)
 
+    cpdef Function differentiate(self)
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 8fd1c14..95fa1df 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -199,6 +199,12 @@ cdef class Undefined(Function):
     cpdef Function xshift(self, DTYPE_t delta):
         return Undefined()
 
+    cpdef Function xmirror(self):
+        return Undefined()
+
+    cpdef Function differentiate(self):
+        return Undefined()
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 1a276ecd19019fffbc848d4134f8f6f9c5af55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:26 +0000
Subject: [PATCH 67/71] fix: Integer.cdf returned the probability of each value
 instead of accumulating them

---
 src/jpt/distributions/univariate/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..d8dc096 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -81,7 +81,7 @@ class Integer(Distribution):
         if self._params is None:
             raise Exception(f'Fit!')
 
-        for v1, v2, p in zip(['-inf']+vals[:-1], vals, self._params):
+        for v1, v2, p in zip(['-inf']+vals[:-1], vals, np.cumsum(self._params)):
             # constant for each value and undefined for everything in between
             cdf.append(interval=ContinuousSet.parse(f']{v1},{v2}['), f=Undefined())
             cdf.append(interval=ContinuousSet.parse(f'[{v2},{v2}]'), f=ConstantFunction(p))
-- 
2.43.0


From ea6aa3af85f369db12ab45e78fb4cf160970274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:41 +0000
Subject: [PATCH 68/71] fix: distributions could not be unpickled or
 deep-copied

---
 src/jpt/distributions/univariate/distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/distribution.py b/src/jpt/distributions/univariate/distribution.py
index 5e242f5..8ad7f61 100644
--- a/src/jpt/distributions/univariate/distribution.py
+++ b/src/jpt/distributions/univariate/distribution.py
@@ -177,7 +177,8 @@ class Distribution:
         return self.to_json()
 
     def __setstate__(self, state):
-        self.__dict__ = Distribution.from_json(state).__dict__
+        self.__dict__ = type(self).from_json(state).__dict__
+        self.to_json = self.inst_to_json
 
     @staticmethod
     def from_json(data) -> Type['Distribution']:
-- 
2.43.0


From 517ddce0a8f1cf3fb952602a8bb5c084dc26d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:41 +0000
Subject: [PATCH 69/71] fix: DataScaler could not transform integer arrays

---
 src/jpt/distributions/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index 6bb0ba0..8ba26f9 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -34,7 +34,7 @@ class DataScaler:
 
     def inverse_transform(self, x, make_copy=True):
         if type(x) is np.ndarray:
-            target = np.array(x) if make_copy else x
+            target = np.array(x, dtype=np.float64) if make_copy else x
             target *= self.scale
             target += self.mean
             return target
@@ -42,7 +42,7 @@ class DataScaler:
 
     def transform(self, x, make_copy=True):
         if type(x) is np.ndarray:
-            target = np.array(x) if make_copy else x
+            target = np.array(x, dtype=np.float64) if make_copy else x
             target -= self.mean
             target /= self.scale
             return target
-- 
2.43.0


From 094ea2b9b0f9d7c0f4a96a6f4c3d0e347cdb7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 70/71] fix: comparing a JPT with an object of another type
 raised an AttributeError

---
 src/jpt/trees.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5fb19e2..9a0c470 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -934,21 +934,9 @@ class JPT:
         self.__dict__ = JPT.from_json(json_data).__dict__
 
     def __eq__(self, o) -> bool:
-        eq = (
-            isinstance(o, JPT),
-            self.innernodes == o.innernodes,
-            self.leaves == o.leaves,
-            self.priors == o.priors,
-            self.min_samples_leaf == o.min_samples_leaf,
-            self.min_impurity_improvement == o.min_impurity_improvement,
-            self.targets == o.targets,
-            self.variables == o.variables,
-            self.max_depth == o.max_depth,
-            self.max_leaves == o.max_leaves,
-            self.dependencies == o.dependencies
-        )
+        if not isinstance(o, JPT):
+            return False
         return all((
-            isinstance(o, JPT),
             self.innernodes == o.innernodes,
             self.leaves == o.leaves,
             self.priors == o.priors,
-- 
2.43.0


From 33bb3f7b9fcfc1ee2a4537fe8a0a3ee48373bb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:49 +0000
Subject: [PATCH 71/71] fix: JPT.moment took the centers in value space but the
 moments in label space

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 9a0c470..5e33d6f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2568,9 +2568,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # Convert c, if necessary, to labels: the moments are taken over the labels of the variables
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0

