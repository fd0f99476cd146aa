From 2843877698a147bf00538397b25cbcf046ab040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 01/46] fix: interpolation from_dict builds lists of values

---
 dcf/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index dd5b3a0..6bcc894 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -66,7 +66,7 @@ class base_interpolation(object):
         :return: interpolation object
         """
 
-        return cls(sorted(xy_dict), (xy_dict[k] for k in sorted(xy_dict)))
+        return cls(sorted(xy_dict), [xy_dict[k] for k in sorted(xy_dict)])
 
 
 class flat(base_interpolation):
-- 
2.43.0


From 644863d6682f4f03ae04f8ef140dd8329d34b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 02/46] fix: log rate interpolations are 1 at zero if no value
 is given

---
 dcf/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/interpolation.py b/dcf/interpolation.py
index 6bcc894..0c1bcc3 100755
--- a/dcf/interpolation.py
+++ b/dcf/interpolation.py
@@ -442,7 +442,7 @@ class loglinearrate(linear):
                 'log interpolation requires positive values. Got %s' % str(
                     y_list))
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(loglinearrate, self).__init__(x_list, log_y_list)
@@ -490,7 +490,7 @@ class logconstantrate(constant):
         if not all(0. < y for y in y_list):
             raise ValueError('log interpolation requires positive values.')
         z = [x for x in x_list if not x]
-        self._y_at_zero = y_list[x_list.index(z[0])] if z else None
+        self._y_at_zero = y_list[x_list.index(z[0])] if z else 1.0
         log_y_list = [-log(y) / x for x, y in zip(x_list, y_list) if x]
         x_list = [x for x in x_list if x]
         super(logconstantrate, self).__init__(x_list, log_y_list)
-- 
2.43.0


From d59ed05e9c94ed79730553f063c886c77b8e4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 03/46] fix: curve iterates over its domain

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 95ada81..d5bc7f4 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -268,7 +268,7 @@ class Curve(object):
         return item in self.domain
 
     def __iter__(self):
-        return self.domain
+        return iter(self.domain)
 
     def __getitem__(self, item):
         if item in self:
-- 
2.43.0


From 01ad1250887cfecd380ba05ebe3fb35d2cdf4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 04/46] fix: point update of a curve keeps other points apart
 from spread and fixings

---
 dcf/curves/curve.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d5bc7f4..d60e70f 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -275,9 +275,13 @@ class Curve(object):
             return self(item)
         raise KeyError(item)
 
+    def _get_points(self):
+        # given (not interpolated) y-values at domain
+        return [self._func(x) for x in self.domain]
+
     def __setitem__(self, key, value):
         domain = list(self.domain)
-        data = list(self(domain))
+        data = self._get_points()
         if key in domain:
             data[domain.index(key)] = value
         else:
@@ -454,6 +458,10 @@ class DateCurve(Curve):
         super()._update(flt_domain, data)
         self._domain = domain
 
+    def _get_points(self):
+        # given y-values at domain not touched by fixings or spreads
+        return [self._func(self.day_count(d)) for d in self.domain]
+
     def __call__(self, x):
         if isinstance(x, (list, tuple)):
             return tuple(self(xx) for xx in x)
-- 
2.43.0


From d7fa0669324431259dd3544d1855a3bfdb203e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 05/46] fix: copy of a date curve with dates keeps dates,
 origin and day count

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index d60e70f..3ff61f4 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -427,7 +427,7 @@ class DateCurve(Curve):
         if isinstance(domain, DateCurve):
             data = domain
             domain = data.domain
-        elif isinstance(data, DateCurve):
+        if isinstance(data, DateCurve):
             interpolation = interpolation or data.kwargs.interpolation
             origin = origin or data.kwargs.origin
             day_count = day_count or data.kwargs.day_count
-- 
2.43.0


From 3aacd13ffe7bd9da9fcc084a5b2516d230977fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 06/46] fix: arithmetic of date curves keeps origin and day
 count

---
 dcf/curves/curve.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 3ff61f4..fe3650f 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -295,17 +295,17 @@ class Curve(object):
         return self._func(x)
 
     def __add__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) + other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __sub__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) - other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
     def __mul__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         y_list = [self(x) * other(x) for x in x_list]
         return self.__class__(x_list, y_list, self._interpolation)
 
@@ -313,7 +313,7 @@ class Curve(object):
         return self.__div__(other)
 
     def __div__(self, other):
-        x_list = sorted(set(self.domain + other.domain))
+        x_list = sorted(set(self.domain).union(other.domain))
         if any(not other(x) for x in x_list):
             raise ZeroDivisionError("Division with %s requires on "
                                     "zero values." % other.__class__.__name__)
@@ -472,29 +472,26 @@ class DateCurve(Curve):
     def __add__(self, other):
         new = super(DateCurve, self).__add__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __sub__(self, other):
         new = super(DateCurve, self).__sub__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __mul__(self, other):
         new = super(DateCurve, self).__mul__(
             other.shifted(self.origin - other.origin))
-        self.__class__(new.domain, new(new.domain), new._interpolation,
-                       self.origin, self._day_count)
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def __div__(self, other):
         new = super(DateCurve, self).__div__(
             other.shifted(self.origin - other.origin))
-        new.origin = self.origin
-        return new
+        return self.__class__(new.domain, new(new.domain), new._interpolation,
+                              self.origin, self._day_count)
 
     def day_count(self, start, end=None):
         """ day count function to calculate a year fraction of time period
-- 
2.43.0


From 3c524d60a5674279039405b5589e4cd4bb4cbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 07/46] fix: shifted curve keeps values at shifted points

---
 dcf/curves/curve.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index fe3650f..ee5b0f8 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -352,9 +352,8 @@ class Curve(object):
             x_list = [x + delta for x in self.domain]
         else:
             x_list = self.domain
-        # y_list = self(self.domain)
-        # return self.__class__(x_list, y_list, self.interpolation)
-        return self.__class__(x_list, self)
+        y_list = self(self.domain)
+        return self.__class__(x_list, y_list, self._interpolation)
 
 
 class DateCurve(Curve):
@@ -509,6 +508,12 @@ class DateCurve(Curve):
             return day_count(start, end)
         return self._day_count(start, end)
 
+    def shifted(self, delta=0.0):
+        new = super(DateCurve, self).shifted(delta)
+        origin = self.origin + delta if delta else self.origin
+        return new.__class__(new.domain, new(new.domain), new._interpolation,
+                             origin, self._day_count)
+
     def to_curve(self):
         """deprecated method to cast to |Curve()| object"""
         cls = self.__class__.__name__
-- 
2.43.0


From 23246b7acdf137625271b6f410b4e9481607839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 08/46] fix: swap annuity sums over accrual periods

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index e0c3bb2..667b15b 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -275,7 +275,7 @@ class InterestRateCurve(RateCurve):
         """
         return sum(
             self.get_discount_factor(self.origin, e) * self.day_count(s, e)
-            for s, e in zip(date_list[:-1], date_list[0:])
+            for s, e in zip(date_list[:-1], date_list[1:])
         )
 
 
-- 
2.43.0


From 93a18b452db1fdab1fbbb90b077f32d0004fd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 09/46] fix: cash rate over periods other than forward tenor

---
 dcf/curves/interestratecurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index 667b15b..b742c71 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -438,4 +438,4 @@ class CashRateCurve(InterestRateCurve):
             stop = start + self.forward_tenor if step is None else start + step
         if stop == start + self.forward_tenor:
             return self(start)
-        return super(CashRateCurve, self).get_cash_rate(start, stop)
+        return super(CashRateCurve, self)._get_cash_rate(start, stop)
-- 
2.43.0


From 82411c1f68c128e36309f8da7065024365cce289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 10/46] fix: flat intensity at a single date

---
 dcf/curves/creditcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 4bc85d4..fb43674 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -231,7 +231,7 @@ class FlatIntensityCurve(CreditCurve):
             return self(stop)
         if start == stop:
             return self._get_compounding_rate(
-                start, start + self.__class__._time_shift)
+                start, start + self.__class__._TIME_SHIFT)
 
         s = self(start) * self.day_count(self.origin, start)
         e = self(stop) * self.day_count(self.origin, stop)
-- 
2.43.0


From f85c2be6b59dc479cf79064588bc1a80cb3c67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 11/46] fix: short and hazard rates of curves with a single
 date

---
 dcf/curves/creditcurve.py       | 2 ++
 dcf/curves/interestratecurve.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index fb43674..2bf241c 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -120,6 +120,8 @@ class CreditCurve(RateCurve):
 
     def _get_hazard_rate(self, start):  # aka get_short_rate
 
+        if min(self.domain) == max(self.domain):
+            return self.get_flat_intensity(start, start + self._TIME_SHIFT)
         if start < min(self.domain):
             return self.get_hazard_rate(min(self.domain))
         if max(self.domain) <= start:
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b742c71..b1648b0 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -143,6 +143,8 @@ class InterestRateCurve(RateCurve):
         return self._get_short_rate(start)
 
     def _get_short_rate(self, start):
+        if min(self.domain) == max(self.domain):
+            return self.get_zero_rate(start, start + self._TIME_SHIFT)
         if start < min(self.domain):
             return self.get_short_rate(min(self.domain))
         if max(self.domain) <= start:
-- 
2.43.0


From eaa29c4a20db8cea978d0a32af7bd87326ba1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 12/46] fix: cash rate curve cast stores rates of its own tenor

---
 dcf/curves/interestratecurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index b1648b0..aa3f646 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -413,6 +413,9 @@ class CashRateCurve(InterestRateCurve):
                     new_domain.append(x)
                     x -= forward_tenor
             domain = sorted(set(new_domain))
+            day_count = data.kwargs.day_count \
+                if day_count is None else day_count
+            data = [data.get_cash_rate(x, step=forward_tenor) for x in domain]
         super(CashRateCurve, self).__init__(domain, data, interpolation,
                                             origin, day_count, forward_tenor)
 
-- 
2.43.0


From 09b5ce3d32bc731ad206708dd557a16854c1826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 13/46] fix: explicit origin of a casted curve may be zero

---
 dcf/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index ee5b0f8..be97a2f 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -428,7 +428,7 @@ class DateCurve(Curve):
             domain = data.domain
         if isinstance(data, DateCurve):
             interpolation = interpolation or data.kwargs.interpolation
-            origin = origin or data.kwargs.origin
+            origin = data.kwargs.origin if origin is None else origin
             day_count = day_count or data.kwargs.day_count
             data = data(domain)  # assuming data is a list of dates !
 
@@ -747,7 +747,7 @@ class RateCurve(DateCurve):
             # interpolation = other.interpolation
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
-            origin = origin or other.kwargs.origin
+            origin = other.kwargs.origin if origin is None else origin
             day_count = day_count or other.kwargs.day_count
 
         super(RateCurve, self).__init__(
-- 
2.43.0


From 00daae5d7b0f4f76322696c04b9fc2abc2a0b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 14/46] fix: cast of volatility curves with any sequence of
 dates

---
 dcf/curves/volatilitycurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/volatilitycurve.py b/dcf/curves/volatilitycurve.py
index 9315fb0..fa191b3 100644
--- a/dcf/curves/volatilitycurve.py
+++ b/dcf/curves/volatilitycurve.py
@@ -49,7 +49,7 @@ class InstantaneousVolatilityCurve(VolatilityCurve):
             data = domain
             origin = data.origin if origin is None else origin
             new_domain = list()
-            for d in data.domain + [origin]:
+            for d in list(data.domain) + [origin]:
                 new_domain.extend(
                     [d - self._TIME_SHIFT, d, d + self._TIME_SHIFT])
             domain = sorted(set(new_domain))
-- 
2.43.0


From 586b92ccf4b951aa6bb0531af8a82b5a105101eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 15/46] fix: kwargs of default probability curves hold default
 probabilities

---
 dcf/curves/creditcurve.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 2bf241c..811ac37 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -201,6 +201,14 @@ class DefaultProbabilityCurve(SurvivalProbabilityCurve):
     """
     _INTERPOLATION = log_linear_rate_scheme
 
+    @property
+    def kwargs(self):
+        """ returns constructor arguments as ordered dictionary """
+        kw = super().kwargs
+        kw['data'] = tuple(1. - d for d in kw['data'])
+        setattr(kw, 'data', kw['data'])
+        return kw
+
     @staticmethod
     def _get_storage_value(curve, x):
         return curve.get_survival_prob(curve.origin, x)
@@ -330,6 +338,14 @@ class MarginalDefaultProbabilityCurve(MarginalSurvivalProbabilityCurve):
     """
     _INTERPOLATION = log_linear_scheme
 
+    @property
+    def kwargs(self):
+        """ returns constructor arguments as ordered dictionary """
+        kw = super().kwargs
+        kw['data'] = tuple(1. - d for d in kw['data'])
+        setattr(kw, 'data', kw['data'])
+        return kw
+
     @staticmethod
     def _get_storage_value(curve, x):
         return curve.get_survival_prob(x, x + curve.forward_tenor)
-- 
2.43.0


From 7aca8378515b61ca4ef7463d157f87a9286123c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 16/46] fix: forward curves extrapolate from their latest date

---
 dcf/curves/curve.py | 2 +-
 dcf/curves/fx.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index be97a2f..972c7b6 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -644,7 +644,7 @@ class ForwardCurve(DateCurve):
         :param value_date: future date of asset price
         :return: asset forward price at **value_date**
         """
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().__call__(value_date)
         last_price = super().__call__(last_date)
diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 01c54c0..0f81277 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -28,7 +28,7 @@ class FxForwardCurve(ForwardCurve):
         self.foreign_curve = foreign_curve
 
     def get_forward_price(self, value_date):
-        last_date = self.domain[-1]
+        last_date = max(self.domain)
         if value_date <= last_date:
             return super().get_forward_price(value_date)
         else:
-- 
2.43.0


From f5923e5fde3a4332a363f591e0bdc99a51af46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 17/46] fix: fx container pairs use the curves and spots of
 their currencies

---
 dcf/curves/fx.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/dcf/curves/fx.py b/dcf/curves/fx.py
index 0f81277..aa282d3 100755
--- a/dcf/curves/fx.py
+++ b/dcf/curves/fx.py
@@ -165,28 +165,22 @@ class FxContainer(dict):
                            foreign_curve=foreign_curve)
         self[foreign_currency, self.currency] = \
             FxForwardCurve([self.domestic_curve.origin], [1 / fx_spot],
-                           domestic_curve=self.domestic_curve,
-                           foreign_curve=foreign_curve)
+                           domestic_curve=foreign_curve,
+                           foreign_curve=self.domestic_curve)
         # _update relevant FxCurves
         f = foreign_currency
         new = dict()
         for d, s in self:
-            if s is self.currency and d is not foreign_currency:
+            if s == self.currency and not d == foreign_currency:
                 triangulated = self[d, s](self.domestic_curve.origin) * fx_spot
-                if (d, f) in self:
-                    self[d, f].foreign_curve = foreign_curve
-                    self[d, f].fx_spot = triangulated
-                    self[f, d].domestic_curve = foreign_curve
-                    self[f, d].fx_spot = 1 / triangulated
-                else:
-                    new[d, f] = FxForwardCurve(
-                        [self.domestic_curve.origin], [triangulated],
-                        domestic_curve=self[d, s].domestic_curve,
-                        foreign_curve=foreign_curve)
-                    new[f, d] = FxForwardCurve(
-                        [self.domestic_curve.origin], [1 / triangulated],
-                        domestic_curve=foreign_curve,
-                        foreign_curve=self[d, s].domestic_curve)
+                new[d, f] = FxForwardCurve(
+                    [self.domestic_curve.origin], [triangulated],
+                    domestic_curve=self[d, s].domestic_curve,
+                    foreign_curve=foreign_curve)
+                new[f, d] = FxForwardCurve(
+                    [self.domestic_curve.origin], [1 / triangulated],
+                    domestic_curve=foreign_curve,
+                    foreign_curve=self[d, s].domestic_curve)
         self.update(new)
 
     def get_forward_price(self, domestic_currency, foreign_currency,
-- 
2.43.0


From eddecebb5de6c9d3f093a34b37fb677f7d66022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 18/46] fix: cashflow table of contingent cashflows uses the
 payoff model

---
 dcf/cashflows/cashflow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 5a71e49..c4483cf 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -31,8 +31,9 @@ class CashFlowList(object):
         for d in self.domain:
             payoff = self._flows.get(d, 0.)
             if hasattr(payoff, 'details'):
-                fwd = getattr(self, 'forward_curve', None)
-                details = payoff.details(fwd)
+                model = getattr(self, 'forward_curve', None)
+                model = getattr(self, 'payoff_model', model)
+                details = payoff.details(model)
                 details['pay date'] = d
             else:
                 details = {'cashflow': float(payoff), 'pay date': d}
-- 
2.43.0


From cc092e019317fa3744c3e98cf48e980592b7db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 19/46] fix: cashflow leg list evaluates and tabulates flows of
 its legs

---
 dcf/cashflows/cashflow.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index c4483cf..d3a9fdc 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -232,6 +232,15 @@ class CashFlowLegList(CashFlowList):
             return sum(
                 float(leg[item]) for leg in self._legs if item in leg.domain)
 
+    def __call__(self, _=None):
+        legs = CashFlowLegList(tuple(leg(_) for leg in self._legs))
+        return CashFlowList(self.domain, legs[self.domain], self._origin)
+
+    @property
+    def table(self):
+        """ cashflow details as list of tuples """
+        return self().table
+
     def __add__(self, other):
         for leg in self._legs:
             leg.__add__(other)
-- 
2.43.0


From d0d2db42468b73e733889188d6abf73b34a490c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 20/46] fix: greeks are calculated with time to expiry

---
 dcf/models/optionpricing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3858226..f0ec0cd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -337,7 +337,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            gamma = self._call_gamma(date, strike, fwd, vol)
+            gamma = self._call_gamma(time, strike, fwd, vol)
             if gamma is not None:
                 return gamma * (scale ** 2)
         gamma = self._call_price(time, strike, fwd + shift, vol)
@@ -384,7 +384,7 @@ class OptionPayOffModel(OptionPricingFormula):
             if vega is not None:
                 return vega * scale
         vega = self._call_price(time, strike, fwd, vol + shift)
-        vega -= self._call_price(date, strike, fwd, vol)
+        vega -= self._call_price(time, strike, fwd, vol)
         vega *= scale / shift
         return vega
 
@@ -422,7 +422,7 @@ class OptionPayOffModel(OptionPricingFormula):
         if not vol or not time:
             return 0.0
         if not self.bump_greeks:
-            theta = self._call_theta(date, strike, fwd, vol)
+            theta = self._call_theta(time, strike, fwd, vol)
             if theta is not None:
                 return theta * scale
         theta = self._call_price(time + shift, strike, fwd, vol)
-- 
2.43.0


From 3b2fb444c53814dfa217011936479fad6d3c8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 21/46] fix: annuity plan without interest

---
 dcf/plans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/plans.py b/dcf/plans.py
index 4b49e38..91e54a7 100644
--- a/dcf/plans.py
+++ b/dcf/plans.py
@@ -65,6 +65,8 @@ def annuity(num, amount=DEFAULT_AMOUNT, fixed_rate=FIXED_RATE):
     $$X_i = \frac{r}{(1 + r)^{n-i}} \cdot N \text{ for } i=1 \dots n$$
     """
     q = 1. + fixed_rate
+    if q == 1.:
+        return amortize(int(num), amount)
     a = amount * (q - 1) / (q ** int(num) - 1)
     return list(a * q ** i for i in range(int(num)))
 
-- 
2.43.0


From 56bff8dd55860162b9aa2fbd62fe189449e167ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 22/46] fix: contingent rate cashflows may start at zero

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 661fea3..b7148cc 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -245,7 +245,7 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
-        if origin:
+        if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
         elif origin is None and len(payment_date_list) > 1:
-- 
2.43.0


From 166a2c9cf80e5ff0f50dd22db285bd6c1867c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:10 +0000
Subject: [PATCH 23/46] fix: present value restores the valuation date of the
 payoff model in any case

---
 dcf/pricer.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index ead6041..035adb5 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -94,24 +94,25 @@ def get_present_value(
         return sum(get_present_value(
             leg, discount_curve, valuation_date) for leg in cashflow_list.legs)
 
-    # store and set valuation date to payoff_model
-    model_valuation_date = valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        model_valuation_date = cashflow_list.payoff_model.valuation_date
-        cashflow_list.payoff_model.valuation_date = valuation_date
-
     # filter flows
     pay_dates = list(d for d in cashflow_list.domain if valuation_date <= d)
 
+    # store and set valuation date to payoff_model
+    payoff_model = getattr(cashflow_list, 'payoff_model', None)
+    if hasattr(payoff_model, 'valuation_date'):
+        model_valuation_date = payoff_model.valuation_date
+        payoff_model.valuation_date = valuation_date
+        try:
+            flows = cashflow_list[pay_dates]
+        finally:
+            # re-store model_valuation_date
+            payoff_model.valuation_date = model_valuation_date
+    else:
+        flows = cashflow_list[pay_dates]
+
     # discount flows
-    value_flows = zip(pay_dates, cashflow_list[pay_dates])
-    values = (discount_curve.get_discount_factor(valuation_date, t) * float(a)
-              for t, a in value_flows)
-
-    # re-store model_valuation_date
-    if hasattr(cashflow_list, 'payoff_model'):
-        cashflow_list.payoff_model.valuation_date = model_valuation_date
-    return sum(values)
+    return sum(discount_curve.get_discount_factor(valuation_date, t) * float(a)
+               for t, a in zip(pay_dates, flows))
 
 
 def get_yield_to_maturity(cashflow_list, valuation_date=None, present_value=0.,
-- 
2.43.0


From 37501552e7ef284ab8f95db5582ef2749be249fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 24/46] fix: fair rate restores fixed rates in any case

---
 dcf/pricer.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 035adb5..da6c7c1 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -349,8 +349,9 @@ def get_fair_rate(cashflow_list, discount_curve,
     1000000.0
 
     """  # noqa 501
-    # store fixed rate
-    fixed_rate = cashflow_list.fixed_rate
+    # store fixed rates
+    payoffs = tuple(cashflow_list.payoff(d) for d in cashflow_list.domain)
+    fixed_rates = tuple(p.fixed_rate for p in payoffs)
 
     # set error function
     def err(current):
@@ -358,11 +359,13 @@ def get_fair_rate(cashflow_list, discount_curve,
         pv = get_present_value(cashflow_list, discount_curve, valuation_date)
         return pv - present_value
 
-    # run bracketing
-    _, par, _ = _simple_bracketing(err, *bounds, precision)
-
-    # restore fixed rate
-    cashflow_list.fixed_rate = fixed_rate
+    try:
+        # run bracketing
+        _, par, _ = _simple_bracketing(err, *bounds, precision)
+    finally:
+        # restore fixed rates
+        for payoff, fixed_rate in zip(payoffs, fixed_rates):
+            payoff.fixed_rate = fixed_rate
     return par
 
 
-- 
2.43.0


From ec86fe5d427b2a98dcaa67131b6c31cff0b67ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 25/46] fix: sensitivities remove their spreads in any case

---
 dcf/pricer.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index da6c7c1..34e4a79 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -425,11 +425,15 @@ def get_basis_point_value(cashflow_list, discount_curve, valuation_date=None,
     if not isinstance(delta_curve, (list, tuple)):
         delta_curve = delta_curve,
 
-    for d in delta_curve:
-        d.spread = DateCurve([d.origin], [shift])
-    sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-    for d in delta_curve:
-        d.spread = None
+    shifted = list()
+    try:
+        for d in delta_curve:
+            d.spread = DateCurve([d.origin], [shift])
+            shifted.append(d)
+        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
+    finally:
+        for d in shifted:
+            d.spread = None
 
     return (sh - pv) / shift * .0001
 
@@ -572,11 +576,16 @@ def get_bucketed_delta(cashflow_list, discount_curve, valuation_date=None,
 
     buckets = list()
     for g, s in zip(grids, shifts):
-        for d in delta_curve:
-            d.spread = DateCurve(g, s)
-        sh = get_present_value(cashflow_list, discount_curve, valuation_date)
-        for d in delta_curve:
-            d.spread = None
+        shifted = list()
+        try:
+            for d in delta_curve:
+                d.spread = DateCurve(g, s)
+                shifted.append(d)
+            sh = get_present_value(
+                cashflow_list, discount_curve, valuation_date)
+        finally:
+            for d in shifted:
+                d.spread = None
 
         buckets.append((sh - pv) / shift * .0001)
     return tuple(buckets)
-- 
2.43.0


From 554af01e5ade0bc8891da05a47d10c46ee6c30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 26/46] fix: curve fit removes its spread in any case

---
 dcf/pricer.py | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 34e4a79..5b88e43 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -726,27 +726,29 @@ def get_curve_fit(cashflow_list, discount_curve, valuation_date=None,
 
     # copy fitting_curve but set al values to 0.0
     fitting_curve.spread = fitting_curve.__class__(fitting_grid, fitting_curve)
-    for d in fitting_curve.spread.domain:
-        fitting_curve.spread[d] = 0.0
-
-    pp_list = tuple(zip(cashflow_list, present_value))
-    for d in fitting_curve.spread.domain:
-        # prepare products and prices
-        # todo: better use sensitivity to current curve point than maturity
-        filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
-
-        # set error function
-        def err(current):
-            fitting_curve.spread[d] = current
-            pvs = list()
-            for cf, pv in filtered_pp_list:
-                p = get_present_value(cf, discount_curve, valuation_date)
-                pvs.append(p - pv)
-            return sum(pvs)
-
-        # run bracketing
-        _simple_bracketing(err, *bounds, precision)
-
-    data = fitting_curve(fitting_curve.spread.domain)
-    fitting_curve.spread = None
+    try:
+        for d in fitting_curve.spread.domain:
+            fitting_curve.spread[d] = 0.0
+
+        pp_list = tuple(zip(cashflow_list, present_value))
+        for d in fitting_curve.spread.domain:
+            # prepare products and prices
+            # todo: better use sensitivity to current curve point than maturity
+            filtered_pp_list = list(p for p in pp_list if max(p[0].domain) <= d)
+
+            # set error function
+            def err(current):
+                fitting_curve.spread[d] = current
+                pvs = list()
+                for cf, pv in filtered_pp_list:
+                    p = get_present_value(cf, discount_curve, valuation_date)
+                    pvs.append(p - pv)
+                return sum(pvs)
+
+            # run bracketing
+            _simple_bracketing(err, *bounds, precision)
+
+        data = fitting_curve(fitting_curve.spread.domain)
+    finally:
+        fitting_curve.spread = None
     return data
-- 
2.43.0


From eebf9acf6540f3b1ffc8d4d175549fe820064b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 27/46] fix: bracketing ends if interval can not be divided any
 more

---
 dcf/pricer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 5b88e43..2bbe02d 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -42,7 +42,7 @@ def _simple_bracketing(func, a, b, precision=1e-13):
         raise AssertionError(msg)
 
     m = a + (b - a) * 0.5
-    if abs(b - a) < precision and abs(fb - fa) < precision:
+    if abs(b - a) < precision and abs(fb - fa) < precision or m in (a, b):
         return a, m, b
 
     a, b = (m, b) if f(m) < 0 else (a, m)
-- 
2.43.0


From 7ec1f3a69cf922c2076fbc154f3f79e5074355fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 28/46] fix: accrued interest of contingent rate cashflows and
 of periods paid in arrears

---
 dcf/pricer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/pricer.py b/dcf/pricer.py
index 2bbe02d..f4fa609 100644
--- a/dcf/pricer.py
+++ b/dcf/pricer.py
@@ -285,8 +285,8 @@ def get_interest_accrued(cashflow_list, valuation_date):
                 if cf.start < valuation_date:
                     remaining = cf.day_count(valuation_date, cf.end)
                     total = cf.day_count(cf.start, cf.end)
-                    flow = cf(cashflow_list.forward_curve)
-                    ac += flow * (1. - remaining / total)
+                    flow = cashflow_list[pay_date]
+                    ac += flow * min(1. - remaining / total, 1.)
     return ac
 
 
-- 
2.43.0


From 449c0de18a7810fa13c6e67756a97ccf1062354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 29/46] fix: interest payment dates of non business dates

---
 dcf/cashflows/products.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index a60546c..2766949 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -39,12 +39,12 @@ def _interest_payment_dates(
     else:
         payment_date_list = [end_date]
         cnt = 1
-        while start_date + period <= payment_date_list[0]:
+        while start_date + period < payment_date_list[-1]:
             payment_date_list.append(end_date - period * cnt)
             cnt += 1
         payment_date_list.reverse()
         for d in payment_date_list:
-            if hasattr('adjust', d):
+            if hasattr(d, 'adjust'):
                 d.adjust(convention, holidays)
         return payment_date_list
 
-- 
2.43.0


From b532d959b60468b14fee02335712e095240abd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 30/46] fix: marginal probability curve cast stores
 probabilities of its own tenor

---
 dcf/curves/creditcurve.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index 811ac37..e1b44e8 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -292,6 +292,22 @@ class MarginalSurvivalProbabilityCurve(ProbabilityCurve):
     def _get_storage_value(curve, x):
         return curve.get_survival_prob(x, x + curve.forward_tenor)
 
+    def __init__(self, domain=(), data=(), interpolation=None, origin=None,
+                 day_count=None, forward_tenor=None):
+        if isinstance(domain, RateCurve) and not data:
+            curve = domain
+            origin = curve.origin if origin is None else origin
+            day_count = curve.kwargs.day_count \
+                if day_count is None else day_count
+            forward_tenor = curve.forward_tenor \
+                if forward_tenor is None else forward_tenor
+            domain = sorted(set(list(curve.domain) + [
+                origin + '1d', max(curve.domain) + '1y']))
+            data = [curve.get_survival_prob(x, x + forward_tenor)
+                    for x in domain]
+        super(MarginalSurvivalProbabilityCurve, self).__init__(
+            domain, data, interpolation, origin, day_count, forward_tenor)
+
     def _get_compounding_factor(self, start, stop):
         if start == stop:
             return 1. if 2 * float_info.min <= self(start) else 0.
-- 
2.43.0


From 1ec428882264f39452c4c515ece26acd0c0b8609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 31/46] fix: options past expiry are worth their intrinsic
 value

---
 dcf/models/optionpricing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index f0ec0cd..63138cd 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -253,7 +253,7 @@ class OptionPayOffModel(OptionPricingFormula):
 
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return max(fwd - strike, 0.0)
         return self._call_price(time, strike, fwd, vol)
 
@@ -269,7 +269,7 @@ class OptionPayOffModel(OptionPricingFormula):
         $$P_K(F(T)) = K - F(T) + C_K(F(T))$$
         """
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return max(strike - fwd, 0.0)
         call = self._call_price(time, strike, fwd, vol)
         return strike - fwd + call  # put/call parity
@@ -288,7 +288,7 @@ class OptionPayOffModel(OptionPricingFormula):
         scale = self.__class__.DELTA_SCALE
         shift = self.__class__.DELTA_SHIFT
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0 if fwd < strike else 1.0 * scale  # cadlag
         if not self.bump_greeks:
             delta = self._call_delta(time, strike, fwd, vol)
@@ -334,7 +334,7 @@ class OptionPayOffModel(OptionPricingFormula):
         scale = self.__class__.DELTA_SCALE
         shift = self.__class__.DELTA_SHIFT
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             gamma = self._call_gamma(time, strike, fwd, vol)
@@ -377,7 +377,7 @@ class OptionPayOffModel(OptionPricingFormula):
         shift = self.__class__.VEGA_SHIFT
         scale = self.__class__.VEGA_SCALE
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             vega = self._call_vega(time, strike, fwd, vol)
@@ -419,7 +419,7 @@ class OptionPayOffModel(OptionPricingFormula):
         shift = self.__class__.THETA_SHIFT
         scale = self.__class__.THETA_SCALE
         time, strike, fwd, vol = self._tsfv(date, strike)
-        if not vol or not time:
+        if not vol or time <= 0:
             return 0.0
         if not self.bump_greeks:
             theta = self._call_theta(time, strike, fwd, vol)
-- 
2.43.0


From c7c20420988fa278dd0c3e4cb063c937dffe3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 32/46] fix: explicit zero inputs of binary option models

---
 dcf/models/optionpricing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 63138cd..3f4166a 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -477,10 +477,12 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
         """
         self._inner = pricing_formula
         if isinstance(pricing_formula, OptionPayOffModel):
-            valuation_date = valuation_date or pricing_formula.valuation_date
-            forward_curve = forward_curve or pricing_formula.forward_curve
-            volatility_curve = volatility_curve \
-                or pricing_formula.volatility_curve
+            if valuation_date is None:
+                valuation_date = pricing_formula.valuation_date
+            if forward_curve is None:
+                forward_curve = pricing_formula.forward_curve
+            if volatility_curve is None:
+                volatility_curve = pricing_formula.volatility_curve
             day_count = day_count or pricing_formula.day_count
         super().__init__(valuation_date, forward_curve, volatility_curve,
                          day_count, bump_greeks=True)
-- 
2.43.0


From 691e4d98a391087c4d59850a044c93018036fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 33/46] fix: strike shift of binary option models

---
 dcf/models/optionpricing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index 3f4166a..b058577 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -476,6 +476,8 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
 
         """
         self._inner = pricing_formula
+        self._strike_shift = self.__class__.STRIKE_SHIFT \
+            if strike_shift is None else strike_shift
         if isinstance(pricing_formula, OptionPayOffModel):
             if valuation_date is None:
                 valuation_date = pricing_formula.valuation_date
@@ -488,7 +490,7 @@ class BinaryOptionPayOffModel(OptionPayOffModel):
                          day_count, bump_greeks=True)
 
     def _call_price(self, time, strike, forward, volatility):
-        shift = self.__class__.STRIKE_SHIFT
+        shift = self._strike_shift
         high_strike = strike + shift / 2
         low_strike = strike - shift / 2
         call = self._inner(time, low_strike, forward, volatility)
-- 
2.43.0


From b88ed98f913e694825ab392ed1c4e7b0ed4fe1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:36 +0000
Subject: [PATCH 34/46] fix: shifted dated curve with a single point

---
 dcf/curves/curve.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 972c7b6..09a7793 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -509,10 +509,12 @@ class DateCurve(Curve):
         return self._day_count(start, end)
 
     def shifted(self, delta=0.0):
-        new = super(DateCurve, self).shifted(delta)
-        origin = self.origin + delta if delta else self.origin
-        return new.__class__(new.domain, new(new.domain), new._interpolation,
-                             origin, self._day_count)
+        x_list, origin = self.domain, self.origin
+        if delta:
+            x_list = [x + delta for x in x_list]
+            origin = origin + delta
+        return self.__class__(x_list, self(self.domain), self._interpolation,
+                              origin, self._day_count)
 
     def to_curve(self):
         """deprecated method to cast to |Curve()| object"""
-- 
2.43.0


From 3eeae344a1caf42492f8c0b89e84f9478611ccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 35/46] fix: explicit origin zero of a list of fixed flows made
 of another list

---
 dcf/cashflows/cashflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index d3a9fdc..76ddd1a 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -273,7 +273,8 @@ class FixedCashFlowList(CashFlowList):
 
         if isinstance(payment_date_list, CashFlowList):
             amount_list = payment_date_list[payment_date_list.domain]
-            origin = origin or getattr(payment_date_list, '_origin', None)
+            if origin is None:
+                origin = getattr(payment_date_list, '_origin', None)
             payment_date_list = payment_date_list.domain
 
         if isinstance(amount_list, (int, float)):
-- 
2.43.0


From 4afa2cf1b9e3fe75070acc9fdc8d25312a3f6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 36/46] fix: option pricing models from functions

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index b058577..a266376 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -71,7 +71,7 @@ class OptionPricingFormula(object):
         """
         if name is None:
             name = func.__name__ + cls.__name__
-        return type(name, cls, {'__call__': func})
+        return type(name, (cls,), {'__call__': func})
 
     def __call__(self, time, strike, forward, volatility):
         return self._call_price(time, strike, forward, volatility)
-- 
2.43.0


From eaa9dffb9124573aeb5279f9b0fe34dbc221d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 37/46] fix: option pricing at a forward given as number zero

---
 dcf/models/optionpricing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/models/optionpricing.py b/dcf/models/optionpricing.py
index a266376..44c6675 100644
--- a/dcf/models/optionpricing.py
+++ b/dcf/models/optionpricing.py
@@ -201,7 +201,7 @@ class OptionPayOffModel(OptionPricingFormula):
         """
         details = {'valuation date': self.valuation_date}
         forward = 0.0
-        if self.forward_curve:
+        if self.forward_curve is not None:
             if hasattr(self.forward_curve, 'get_forward_price'):
                 forward = self.forward_curve.get_forward_price(date)
             elif hasattr(self.forward_curve, 'get_cash_rate'):
-- 
2.43.0


From 049d7933710a8d0461661dec76ce5e857217a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 38/46] fix: collared interest at a forward given as number
 zero

---
 dcf/cashflows/payoffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 3d9ae4c..0ef249a 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -118,7 +118,7 @@ class RateCashFlowPayOff(CashFlowPayOff):
         }
 
         forward = 0.0
-        if forward_curve:
+        if forward_curve is not None:
             fixing_date = self.start
             if self.fixing_offset:
                 fixing_date -= self.fixing_offset
-- 
2.43.0


From 608bec72679f60c133ae89b9d5d153aa97f3e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 39/46] fix: name the number of options of a refused strategy
 instead of failing on the message

---
 dcf/cashflows/contingent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index b7148cc..2f430b2 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -181,7 +181,7 @@ class OptionStrategyCashflowList(ContingentCashFlowList):
         if 10 < len(put_strike_list) + len(call_strike_list):
             raise KeyError('OptionStrategyCashflowList are limited '
                            'to 10 options per strategy payoff not '
-                           '%d' % len(put_strike_list) + len(call_strike_list))
+                           '%d' % (len(put_strike_list) + len(call_strike_list)))
         payoff_list = list()
         for expiry in payment_date_list:
             if pay_offset:
-- 
2.43.0


From 9b1ada036cac5e2ec6f52c0f394c99193355f283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 40/46] fix: refuse lists of amounts, strikes and put flags of
 the wrong length in all cashflow lists

---
 dcf/cashflows/cashflow.py   |  6 ++++++
 dcf/cashflows/contingent.py | 13 +++++++++++++
 dcf/cashflows/payoffs.py    |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index 76ddd1a..bc3ab92 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -334,6 +334,12 @@ class RateCashFlowList(CashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
+        if not len(amount_list) == len(payment_date_list):
+            msg = f"{self.__class__.__name__} arguments " \
+                  f"`payment_date_list` and `amount_list` " \
+                  f"must have same length."
+            raise ValueError(msg)
+
         if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
diff --git a/dcf/cashflows/contingent.py b/dcf/cashflows/contingent.py
index 2f430b2..fa1c523 100644
--- a/dcf/cashflows/contingent.py
+++ b/dcf/cashflows/contingent.py
@@ -114,6 +114,13 @@ class OptionCashflowList(ContingentCashFlowList):
         if isinstance(is_put_list, (bool, int, float)):
             is_put_list = [is_put_list] * len(payment_date_list)
 
+        if not len(amount_list) == len(strike_list) == len(is_put_list) \
+                == len(payment_date_list):
+            msg = f"{self.__class__.__name__} arguments " \
+                  f"`payment_date_list`, `amount_list`, `strike_list` " \
+                  f"and `is_put_list` must have same length."
+            raise ValueError(msg)
+
         payoff_list = list()
         for expiry, amount, strike, is_put in \
                 zip(payment_date_list, amount_list, strike_list, is_put_list):
@@ -245,6 +252,12 @@ class ContingentRateCashFlowList(ContingentCashFlowList):
         if isinstance(amount_list, (int, float)):
             amount_list = [amount_list] * len(payment_date_list)
 
+        if not len(amount_list) == len(payment_date_list):
+            msg = f"{self.__class__.__name__} arguments " \
+                  f"`payment_date_list` and `amount_list` " \
+                  f"must have same length."
+            raise ValueError(msg)
+
         if origin is not None:
             start_dates = [origin]
             start_dates.extend(payment_date_list[:-1])
diff --git a/dcf/cashflows/payoffs.py b/dcf/cashflows/payoffs.py
index 0ef249a..debcb81 100644
--- a/dcf/cashflows/payoffs.py
+++ b/dcf/cashflows/payoffs.py
@@ -284,6 +284,11 @@ class OptionStrategyCashFlowPayOff(CashFlowPayOff):
         if isinstance(call_amount_list, (int, float)):
             call_amount_list = [call_amount_list] * len(call_strike_list)
 
+        if not (len(put_amount_list) == len(put_strike_list)
+                and len(call_amount_list) == len(call_strike_list)):
+            raise ValueError(f"{self.__class__.__name__} amount lists "
+                             f"and strike lists must have same length.")
+
         self._options = list()
         cls = OptionCashFlowPayOff
         for amount, strike in zip(put_amount_list, put_strike_list):
-- 
2.43.0


From d17c5a89b35376a88b85049865fdc1c02dd434e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 41/46] fix: keep day count functions and interpolation
 functions in casts and copies of curves

---
 dcf/curves/creditcurve.py       | 2 +-
 dcf/curves/curve.py             | 8 ++++----
 dcf/curves/interestratecurve.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dcf/curves/creditcurve.py b/dcf/curves/creditcurve.py
index e1b44e8..5ddff35 100644
--- a/dcf/curves/creditcurve.py
+++ b/dcf/curves/creditcurve.py
@@ -297,7 +297,7 @@ class MarginalSurvivalProbabilityCurve(ProbabilityCurve):
         if isinstance(domain, RateCurve) and not data:
             curve = domain
             origin = curve.origin if origin is None else origin
-            day_count = curve.kwargs.day_count \
+            day_count = curve._day_count \
                 if day_count is None else day_count
             forward_tenor = curve.forward_tenor \
                 if forward_tenor is None else forward_tenor
diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 09a7793..8338d95 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -236,7 +236,7 @@ class Curve(object):
             domain = data.domain
         if isinstance(data, Curve):
             interpolation = \
-                interpolation or data.kwargs.get('interpolation', None)
+                interpolation or data._interpolation
             _data = data(domain)  # assuming domain is a list of dates !
             if isinstance(data, DateCurve):
                 domain = [data.day_count(d) for d in domain]
@@ -427,9 +427,9 @@ class DateCurve(Curve):
             data = domain
             domain = data.domain
         if isinstance(data, DateCurve):
-            interpolation = interpolation or data.kwargs.interpolation
+            interpolation = interpolation or data._interpolation
             origin = data.kwargs.origin if origin is None else origin
-            day_count = day_count or data.kwargs.day_count
+            day_count = day_count or data._day_count
             data = data(domain)  # assuming data is a list of dates !
 
         self._domain = domain
@@ -750,7 +750,7 @@ class RateCurve(DateCurve):
             # interpolation = \
             #     interpolation or other.kwargs.get('interpolation', None)
             origin = other.kwargs.origin if origin is None else origin
-            day_count = day_count or other.kwargs.day_count
+            day_count = day_count or other._day_count
 
         super(RateCurve, self).__init__(
             domain, data, interpolation, origin, day_count)
diff --git a/dcf/curves/interestratecurve.py b/dcf/curves/interestratecurve.py
index aa3f646..dce5a9f 100644
--- a/dcf/curves/interestratecurve.py
+++ b/dcf/curves/interestratecurve.py
@@ -413,7 +413,7 @@ class CashRateCurve(InterestRateCurve):
                     new_domain.append(x)
                     x -= forward_tenor
             domain = sorted(set(new_domain))
-            day_count = data.kwargs.day_count \
+            day_count = data._day_count \
                 if day_count is None else day_count
             data = [data.get_cash_rate(x, step=forward_tenor) for x in domain]
         super(CashRateCurve, self).__init__(domain, data, interpolation,
-- 
2.43.0


From 589fac3fc009e1744b0183991c3b5b1ee1bab945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 42/46] fix: keep the dates of a curve if the list they were
 given by changes

---
 dcf/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 8338d95..1dd53a8 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -455,7 +455,7 @@ class DateCurve(Curve):
     def _update(self, domain, data):
         flt_domain = tuple(self.day_count(d) for d in domain)
         super()._update(flt_domain, data)
-        self._domain = domain
+        self._domain = list(domain) if isinstance(domain, list) else domain
 
     def _get_points(self):
         # given y-values at domain not touched by fixings or spreads
-- 
2.43.0


From f0099909a2df1b3d5b3870ff3c6da207e1153dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 43/46] fix: bonds and swaps with the day count left out

---
 dcf/cashflows/products.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcf/cashflows/products.py b/dcf/cashflows/products.py
index 2766949..77d6ab9 100644
--- a/dcf/cashflows/products.py
+++ b/dcf/cashflows/products.py
@@ -55,7 +55,7 @@ def bond(start_date=TODAY,
          convention='mod_follow',
          holidays=None,
          notional_amount=1.0,
-         day_count='thirty360',
+         day_count=None,
          fixed_rate=0.0,
          forward_curve=None,
          fixing_offset=None,
@@ -131,13 +131,13 @@ def interest_rate_swap(start_date=TODAY,
                        convention='mod_follow',
                        holidays='target',
                        notional_amount=1.0,
-                       day_count='thirty360',
+                       day_count=None,
                        fixed_rate=0.0,
                        forward_curve=None,
                        fixing_offset=None,
                        pay_offset=None,
                        rec_leg_period=SWAP_TENOR,
-                       rec_leg_day_count='actact',
+                       rec_leg_day_count=None,
                        rec_leg_fixed_rate=0.0,
                        rec_leg_forward_curve=None):
     """ plain vanilla swap
-- 
2.43.0


From a9b2b9f798acaaf4bef7f77b00f138b600118326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:23 +0000
Subject: [PATCH 44/46] fix: table of cashflow lists with payoffs which are
 functions

---
 dcf/cashflows/cashflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcf/cashflows/cashflow.py b/dcf/cashflows/cashflow.py
index bc3ab92..3f8aefb 100755
--- a/dcf/cashflows/cashflow.py
+++ b/dcf/cashflows/cashflow.py
@@ -36,7 +36,7 @@ class CashFlowList(object):
                 details = payoff.details(model)
                 details['pay date'] = d
             else:
-                details = {'cashflow': float(payoff), 'pay date': d}
+                details = {'cashflow': float(self[d]), 'pay date': d}
             for k in self.__class__._cashflow_details:
                 if k in details and k not in header:
                     header.append(k)
-- 
2.43.0


From 9fea63618a48844bb4a38d64a88f7e9c23ce4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 45/46] fix: yields and spot prices of forward curves given as
 whole numbers

---
 dcf/curves/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index 1dd53a8..b154e37 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -614,7 +614,7 @@ class ForwardCurve(DateCurve):
 
         """
         if not data:
-            if isinstance(domain, float):
+            if isinstance(domain, (int, float)):
                 # build lists from single spot price value
                 data = [domain]
                 domain = [origin]
@@ -624,7 +624,7 @@ class ForwardCurve(DateCurve):
                 data = [domain.value]
                 domain = [domain.origin]
         super().__init__(domain, data, interpolation, origin, day_count)
-        if isinstance(yield_curve, float) and self.origin is not None:
+        if isinstance(yield_curve, (int, float)) and self.origin is not None:
             yc = (lambda x: exp(-self.day_count(x) * yield_curve))
         else:
             yc = yield_curve
-- 
2.43.0


From 9fd5c945f6fb23eaf83091a3024475a05a979a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 46/46] fix: shifted default probability curves keep their
 probabilities, shifted rate curves their tenor

---
 dcf/curves/curve.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dcf/curves/curve.py b/dcf/curves/curve.py
index b154e37..edde3fb 100755
--- a/dcf/curves/curve.py
+++ b/dcf/curves/curve.py
@@ -513,7 +513,7 @@ class DateCurve(Curve):
         if delta:
             x_list = [x + delta for x in x_list]
             origin = origin + delta
-        return self.__class__(x_list, self(self.domain), self._interpolation,
+        return self.__class__(x_list, self.kwargs.data, self._interpolation,
                               origin, self._day_count)
 
     def to_curve(self):
@@ -763,6 +763,11 @@ class RateCurve(DateCurve):
         s = self._spread(x) if self._spread else 0.0
         return super().__call__(x) + s
 
+    def shifted(self, delta=0.0):
+        new = super().shifted(delta)
+        new._forward_tenor = self._forward_tenor
+        return new
+
     def __add__(self, other):
         new = super(RateCurve, self).__add__(self.__class__(other))
         return self.__class__(new, forward_tenor=self._forward_tenor)
-- 
2.43.0

