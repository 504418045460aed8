From 10ba4154c3aea1ebb228d87bd985641a14977cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 01/64] fix: division of a scalar by a step function leaked
 -inf where the divisor is zero

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..fd95343 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -117,7 +117,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
-- 
2.43.0


From 373c2ae06c64d8cecf5ec1c743814c750844c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 02/64] fix: from_values kept -inf values although it reports
 converting infinities to NaN

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..f24a41e 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -138,7 +138,7 @@ class Stairs:
 
         series_values_inf_mask = np.isinf(values)
         if series_values_inf_mask.any():
-            values = values.replace([np.inf], np.nan)
+            values = values.replace([np.inf, -np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
         new_instance = cls(closed=closed)
-- 
2.43.0


From 0e247148def5a842a2a51019729c39a3eb048c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 03/64] fix: from_values shared its data with the caller's
 Series

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index f24a41e..ea71cf1 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -143,7 +143,7 @@ class Stairs:
 
         new_instance = cls(closed=closed)
         new_instance.initial_value = initial_value
-        new_instance._data = values.to_frame("value")
+        new_instance._data = values.copy().to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance
-- 
2.43.0


From 64bde082675fd813602eda13cabbc10e873fc4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 04/64] fix: from_values kept redundant step points

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index ea71cf1..b8b8d60 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -146,7 +146,7 @@ class Stairs:
         new_instance._data = values.copy().to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-        return new_instance
+        return new_instance._remove_redundant_step_points()
 
     def _has_na(self) -> bool | np.array:
         return np.isnan(self._data.values).any() or np.isnan(self.initial_value)
-- 
2.43.0


From ffb6c0e0bf2a05fce9792e9bfeaaa63d52630d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 05/64] fix: from_values kept narrow integer dtypes, so
 arithmetic on the result overflowed

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index b8b8d60..4fb7f46 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -143,7 +143,7 @@ class Stairs:
 
         new_instance = cls(closed=closed)
         new_instance.initial_value = initial_value
-        new_instance._data = values.copy().to_frame("value")
+        new_instance._data = values.astype("float64").to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
-- 
2.43.0


From 298bd74c092c508cff0296b804fdc9daa948f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 06/64] fix: scalar layering which cancels every step left the
 previous steps in place

---
 staircase/core/layering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..3754833 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -126,9 +126,8 @@ def _layer_scalar(self, start, end, value):
             deltas.loc[end] = -value
         if deltas.loc[end] == 0:
             deltas.drop(end, inplace=True)
-    if len(deltas) > 0:
-        self._data = deltas.sort_index().to_frame()
-        self._valid_deltas = True
+    self._data = deltas.sort_index().to_frame() if len(deltas) > 0 else None
+    self._valid_deltas = self._data is not None
     self._valid_values = False
     return self
 
-- 
2.43.0


From c4cf060917a7bd8d6165de40a8ec877021e56658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 07/64] fix: a scalar NaN or NaT start/end was layered as a
 step point instead of meaning unbounded

---
 staircase/core/layering.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 3754833..eb3fade 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -80,6 +80,10 @@ def _preprocess_layer_args(frame, start, end, value):
         end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
+    if not is_list_like(start) and pd.isna(start):
+        start = None
+    if not is_list_like(end) and pd.isna(end):
+        end = None
     if value is None:
         value = 1
     return start, end, value
-- 
2.43.0


From 8bb574d63908b74f30c24ed426600e48b611dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 08/64] fix: layering onto a partly undefined step function
 gave wrong values

---
 staircase/core/layering.py | 4 ++++
 staircase/core/stairs.py   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index eb3fade..7ff44e8 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -171,6 +171,10 @@ def layer(self, start=None, end=None, value=None, frame=None):
     if self._data is None and np.isnan(self.initial_value):
         return self
     self._clear_cache()
+    if self._data is not None and self._has_na():
+        # changes in value are not defined across undefined regions
+        layered = type(self)(closed=self.closed).layer(start, end, value, frame)
+        return self._adopt(self + layered)
     start, end, value = _preprocess_layer_args(frame, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, value)
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 4fb7f46..0671be3 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -542,6 +542,14 @@ class Stairs:
 
         return self
 
+    def _adopt(self, other: Stairs) -> Stairs:
+        # become the step function represented by other, in place
+        self.initial_value = other.initial_value
+        self._data = other._data
+        self._valid_deltas = other._valid_deltas
+        self._valid_values = other._valid_values
+        return self
+
     def copy(self) -> Stairs:
         """
         Returns a deep copy of this Stairs instance
-- 
2.43.0


From 3c3ae77a0e574021b48f53ea7fd57fefd9486fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 09/64] fix: layering unsigned or narrow integer values wrapped
 around when negated

---
 staircase/core/layering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 7ff44e8..503aee2 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -113,13 +113,14 @@ def _layer_scalar(self, start, end, value):
     else:
         deltas = self._get_deltas()
 
+    value = float(value)
     if start is None:
         self.initial_value += value
     else:
         if start in deltas.index:
             deltas.loc[start] += value
         else:
-            deltas.loc[start] = float(value)
+            deltas.loc[start] = value
         if deltas.loc[start] == 0:
             deltas.drop(start, inplace=True)
 
@@ -180,6 +181,7 @@ def layer(self, start=None, end=None, value=None, frame=None):
         return _layer_scalar(self, start, end, value)
     value = np.array(value)
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
+    value = value.astype(float)
     start = _convert_to_series(start)
     end = _convert_to_series(end)
     _check_args_dtypes(start, end)  # conversion to Series required before checking
-- 
2.43.0


From 9a614defa14a0d97cb19fba8f64afc295121e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 10/64] fix: vector layering with unbounded starts corrupted
 receivers held by values only

---
 staircase/core/layering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 503aee2..b6e03f2 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -187,7 +187,6 @@ def layer(self, start=None, end=None, value=None, frame=None):
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
-    self.initial_value += start_series[start_series.index.isna()].sum()
     if self._data is None:
         to_concat = [
             start_series,
@@ -200,6 +199,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
             self._get_deltas(),
         ]
     deltas = pd.concat(to_concat)
+    # only once the existing deltas have been derived from the old initial value
+    self.initial_value += start_series[start_series.index.isna()].sum()
 
     self._data = deltas.groupby(deltas.index).sum().rename("delta").to_frame()
     self._valid_deltas = True
-- 
2.43.0


From 36eb294c2f879ca8d94706476abafdb99bb7134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 11/64] fix: limit ignored include_index for constants, failed
 for scalars with include_index and for empty query vectors

---
 staircase/core/sampling.py | 42 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..6159903 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -10,6 +10,22 @@ from staircase.util import _is_datetime_like
 from staircase.util._decorators import Appender
 
 
+def _limit_values(self, x, side):
+    if self._data is None or (is_list_like(x) and len(x) == 0):
+        if is_list_like(x):
+            return self.initial_value * np.ones_like(x, dtype=float)
+        else:
+            return self.initial_value
+    amended_values = np.append(
+        self._get_values().values, [self.initial_value]
+    )  # hack for -1 index value
+    if is_list_like(x) and _is_datetime_like(next(iter(x))):
+        x = pd.Series(x).values  # faster, but also bug free in numpy
+    elif _is_datetime_like(x):
+        x = pd.Series([x]).values[0]
+    return amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
+
+
 # capable of single or vector
 @Appender(examples.sample_example, join="\n", indents=1)
 def sample(
@@ -38,12 +54,7 @@ def sample(
     staircase.sample
     """
     side = "right" if self._closed == "left" else "left"
-    values = limit(self, x, side)
-    if include_index:
-        if not is_list_like(x):
-            x = [x]
-        values = pd.Series(values, index=x)
-    return values
+    return limit(self, x, side, include_index)
 
 
 @Appender(examples.limit_example, join="\n", indents=1)
@@ -77,22 +88,11 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     staircase.sample
     """
     assert side in ("left", "right")
-    passed_x = x
-    if self._data is None:
-        if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
-        else:
-            return self.initial_value
-    amended_values = np.append(
-        self._get_values().values, [self.initial_value]
-    )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
-        x = pd.Series(x).values  # faster, but also bug free in numpy
-    elif _is_datetime_like(x):
-        x = pd.Series([x]).values[0]
-    values = amended_values[np.searchsorted(self._data.index.values, x, side=side) - 1]
+    values = _limit_values(self, x, side)
     if include_index:
-        values = pd.Series(values, index=passed_x)
+        if not is_list_like(x):
+            x = [x]
+        values = pd.Series(values, index=x)
     return values
 
 
-- 
2.43.0


From a4ecf66c931414579cf5b8a0ac4eb5234fe38e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 12/64] fix: initial values and scalar operands of narrow numpy
 types wrapped around in arithmetic

---
 staircase/core/stairs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 0671be3..bb634a6 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -73,6 +73,9 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
+        if isinstance(initial_value, np.number):
+            # arithmetic with narrow numpy types can wrap around or lose precision
+            initial_value = initial_value.item()
         self.initial_value = initial_value
         self._clear_cache()
 
-- 
2.43.0


From 79ab8f966a048526462489c5073b23d0548423f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 13/64] fix: comparing a numpy scalar with a step function on
 its right gave a bool

---
 staircase/core/ops/__init__.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/staircase/core/ops/__init__.py b/staircase/core/ops/__init__.py
index 0a4009e..92693f0 100644
--- a/staircase/core/ops/__init__.py
+++ b/staircase/core/ops/__init__.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from staircase.core.ops.arithmetic import add, divide, multiply, negate, subtract
 from staircase.core.ops.logical import (
     invert,
@@ -19,8 +21,31 @@ from staircase.core.ops.rops import (
 )
 
 
+def _array_ufunc(self, ufunc, method, *inputs, **kwargs):
+    # A numpy scalar on the left hand side of a comparison.  If left to numpy the resulting
+    # step function would be coerced to a bool.
+    reflected = {
+        np.less: gt,
+        np.greater: lt,
+        np.less_equal: ge,
+        np.greater_equal: le,
+        np.equal: eq,
+        np.not_equal: ne,
+    }.get(ufunc)
+    if reflected and method == "__call__" and isinstance(inputs[0], np.ndarray):
+        if inputs[0].ndim == 0:
+            return reflected(self, inputs[0].item())
+    # otherwise treated as any other Python object is
+    inputs = [
+        np.array(x, dtype=object) if isinstance(x, type(self)) else x for x in inputs
+    ]
+    return getattr(ufunc, method)(*inputs, **kwargs)
+
+
 def add_operations(cls):
 
+    cls.__array_ufunc__ = _array_ufunc
+
     cls.negate = negate
 
     cls.add = add
-- 
2.43.0


From ba05e7e2b13a0497bd7a0d3333a041e343887c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 14/64] fix: comparing a constant with a step function of the
 opposite closed side lost the closed side

---
 staircase/core/ops/relational.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..7e1d993 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -26,6 +26,10 @@ def _make_relational_func(
                 float_relational(self.initial_value, other.initial_value) * 1
             )
 
+        # the operand with steps determines the closed side
+        steps_in_other_only = self._data is None and other._data is not None
+        closed = other.closed if steps_in_other_only else self.closed
+
         if (
             (self._data is None and other._data is None)
             or (np.isnan(other.initial_value) and other._data is None)
@@ -34,7 +38,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=closed,
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +58,7 @@ def _make_relational_func(
                     {"value": new_values * 1},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=closed,
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From bbb90336af391d4aea4c8c4f785d74c35f20a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 15/64] fix: comparisons of a partly undefined step function
 with a constant held object values

---
 staircase/core/ops/relational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e1d993..c6e1d44 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -43,12 +43,12 @@ def _make_relational_func(
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
                 values = self._get_values()
-                new_values = numpy_relational(values, other.initial_value)
+                new_values = numpy_relational(values, other.initial_value).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
-                new_values = numpy_relational(self.initial_value, values)
+                new_values = numpy_relational(self.initial_value, values).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = other._data.index
 
-- 
2.43.0


From 379b5c1f0877216efbc1074addde1e32eb1670ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 16/64] fix: masking by a constant whose value is a numpy
 integer 0 made everything undefined

---
 staircase/core/ops/masking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..677e05f 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -93,7 +93,10 @@ def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
 
-    full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
+    def is_full_mask(initial_value):
+        return initial_value != 0
+
+    full_mask_comparator = is_full_inverse_mask if inverse else is_full_mask
     if other._data is None:
         if full_mask_comparator(other.initial_value):
             return sc.Stairs(initial_value=np.nan)
-- 
2.43.0


From 5bfc8b2e74007d99d3f9babb04126f981b4ff761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 17/64] fix: 'and' with 0 and 'or' with a non-zero constant
 defined points where the other operand is undefined

---
 staircase/core/ops/logical.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..d8a6927 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -43,12 +43,16 @@ make_boolean = _make_boolean_func(
 invert = _make_boolean_func(docstrings.invert_docstring, pd.Series.eq, operator.eq)
 
 
+def _constant_where_defined(self, value):
+    return sc.Stairs._new(value, None, closed=self.closed).mask(self.isna())
+
+
 def _make_logical_func(docstring, array_op, float_op):
     def _op_with_scalar_and(self, other):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return _constant_where_defined(self, 0)
         else:
             return self.make_boolean()
 
@@ -58,7 +62,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return _constant_where_defined(self, 1)
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From 7c18762bcdecb532d78fa1455f3103f5cbff6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 18/64] fix: mask with a tuple treated the interval as
 left-closed whatever the function's closed side

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 677e05f..4f1b2a2 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -109,7 +109,9 @@ def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From 305fd55683099f0e3179fcfa39ea9b661b344de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 19/64] fix: where kept points at which the given step function
 is undefined towards -inf

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 4f1b2a2..11e52a4 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -83,7 +83,9 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=np.nan
+        if np.isnan(self.initial_value) or op(self.initial_value, 0)
+        else 0,
         data=data,
         closed=self.closed,
     )
-- 
2.43.0


From 6c8ef8671875a93a14d498782d601a853f9bd96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 20/64] fix: masking everything reset the closed side

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 11e52a4..e735fcf 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -101,7 +101,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = is_full_inverse_mask if inverse else is_full_mask
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
-- 
2.43.0


From 712ba40326edb5a9b4d6641202de163e216ffd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 21/64] fix: clip without bounds returned the receiver itself

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index e735fcf..c50955d 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -38,7 +38,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From 834e9540c37dc2a8af351d8b9edbfa0addd0291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 22/64] fix: masking a constant kept redundant step points

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index c50955d..9078153 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -88,9 +88,10 @@ def _maskify(self, inverse=False):
         else 0,
         data=data,
         closed=self.closed,
-    )
+    )._remove_redundant_step_points()
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
-- 
2.43.0


From 3360fc889a9fe3dc6f10c5797d62b24844da0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 23/64] fix: infinite float bounds were treated as points of
 the domain

---
 staircase/core/ops/masking.py | 3 +--
 staircase/util/__init__.py    | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9078153..06b269b 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -111,6 +111,7 @@ def _mask_stairs(self, other, inverse):
 def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
+        left, right = _replace_none_with_infs((left, right))
         return _mask_stairs(
             self,
             sc.Stairs(closed=self.closed).layer(start=left, end=right),
@@ -119,8 +120,6 @@ def _make_mask_or_where_func(docstring, which):
 
     @convert_string_args_to_timestamp
     def handle_tuple_where(self, left, right):
-        left = -inf if left is None else left
-        right = inf if right is None else right
         return clip(self, lower=left, upper=right)
 
     handle_tuple_func = {"mask": handle_tuple_mask, "where": handle_tuple_where}[which]
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 45982a3..28a5b60 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -54,12 +54,16 @@ def _get_lims(stairs, closed):
         }[closed]
 
 
+def _is_float_inf(x, infinity):
+    return isinstance(x, (float, np.floating)) and x == infinity
+
+
 def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
     left, right = tuple_
-    if left is None:
+    if left is None or _is_float_inf(left, -np.inf):
         left = -inf
-    if right is None:
+    if right is None or _is_float_inf(right, np.inf):
         right = inf
     return (left, right)
-- 
2.43.0


From 08076b07fd3834b7d5013e55e12a18825409a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 24/64] fix: bounds of mixed datetime types or timezones
 failed, or replaced the timezone of the step points

---
 staircase/core/ops/masking.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 06b269b..e9a7cd7 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -11,7 +11,7 @@ from staircase.core.ops.common import (
     convert_string_args_to_timestamp,
     requires_closed_match,
 )
-from staircase.util import _replace_none_with_infs
+from staircase.util import _is_datetime_like, _replace_none_with_infs
 from staircase.util._decorators import Appender
 
 
@@ -31,10 +31,21 @@ def _get_slice_index(self, lower, upper, lower_how, upper_how):
     return left_index, right_index
 
 
+def _conform_bounds(self, *bounds):
+    # numpy and python datetimes do not reliably compare with each other, or with infinities
+    bounds = [pd.Series([x]).iloc[0] if _is_datetime_like(x) else x for x in bounds]
+    # bounds from other timezones, eg those parsed from strings, should not change that of self
+    tz = None if self._data is None else getattr(self._data.index, "tz", None)
+    tzs = [tz] + [getattr(x, "tz", None) for x in bounds]
+    tz = next((tz for tz in tzs if tz is not None), None)
+    return [x if getattr(x, "tz", None) is None else x.tz_convert(tz) for x in bounds]
+
+
 @Appender(docstrings.clip_docstring, join="\n", indents=1)
 @convert_string_args_to_timestamp
 def clip(self, lower=-inf, upper=inf):
     lower, upper = _replace_none_with_infs((lower, upper))
+    lower, upper = _conform_bounds(self, lower, upper)
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
@@ -112,6 +123,7 @@ def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
         left, right = _replace_none_with_infs((left, right))
+        left, right = _conform_bounds(self, left, right)
         return _mask_stairs(
             self,
             sc.Stairs(closed=self.closed).layer(start=left, end=right),
-- 
2.43.0


From 6038ba4f2db88dfa0b2d2738de7d1d0bdaca8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 25/64] fix: fillna with a step function lost defined points
 where that function is undefined

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index e9a7cd7..b33bb23 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -224,7 +224,8 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    result = self.fillna(0) + value.fillna(0) * self.isna()
+    return result.mask(self.isna() & value.isna())
 
 
 # TODO: test
-- 
2.43.0


From 89cf8a9534b45eaeb3ebfce83503689ff8ac6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 26/64] fix: multiplying or dividing by a constant kept
 redundant step points

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index fd95343..9c8f0e5 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -124,7 +124,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
-            )
+            )._remove_redundant_step_points()
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From 261abae0a4b7bb75cc115cfd422d65c3cb545b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 27/64] fix: aggregating a collection of constants raised an
 error

---
 staircase/core/arrays/extension.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..2a7da14 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -163,12 +163,16 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        initial_value = float(func([s.initial_value for s in self.data]))
+        with_steps = [s for s in self.data if s.number_of_steps]
+        if not with_steps:
+            return Stairs._new(initial_value, None, closed=self.data[0].closed)
         index = pd.Index(
             np.unique(
                 np.concatenate(
                     [
                         s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
+                        for s in with_steps
                     ]
                 )
             )
@@ -178,7 +182,7 @@ class StairsArray(ExtensionArray):
             new_values = new_values.astype(int)
 
         return Stairs._new(
-            initial_value=func([s.initial_value for s in self.data]),
+            initial_value=initial_value,
             data=pd.Series(
                 new_values,
                 index=index,
-- 
2.43.0


From 31d74c4f9ead01901436edaa226774f78a41e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:30 +0000
Subject: [PATCH 28/64] fix: aggregating a collection took the first member's
 closed side, silently merging opposite sides

---
 staircase/core/arrays/extension.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 2a7da14..78484e2 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -167,6 +168,8 @@ class StairsArray(ExtensionArray):
         with_steps = [s for s in self.data if s.number_of_steps]
         if not with_steps:
             return Stairs._new(initial_value, None, closed=self.data[0].closed)
+        for s in with_steps:
+            _assert_closeds_equal(with_steps[0], s)
         index = pd.Index(
             np.unique(
                 np.concatenate(
@@ -188,7 +191,7 @@ class StairsArray(ExtensionArray):
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=with_steps[0].closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From c87f004a693014d21111a78efb24f05bb1251bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 29/64] fix: fillna of a constant with a step function could
 lose the closed side of the latter

---
 staircase/core/ops/masking.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index b33bb23..e537648 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -225,7 +225,11 @@ def _make_data_fillna_scalar(self, value):
 def _fillna_with_stairs(self, value):
     # value is Stairs
     result = self.fillna(0) + value.fillna(0) * self.isna()
-    return result.mask(self.isna() & value.isna())
+    result = result.mask(self.isna() & value.isna())
+    # intermediate results may have lost the steps, and hence the closed side, of the operands
+    has_side = self if self.number_of_steps or not value.number_of_steps else value
+    result._closed = has_side.closed
+    return result
 
 
 # TODO: test
-- 
2.43.0


From 8a40fec2f7dc9632876b5eaa4221c092d208c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 30/64] fix: describe reported bound methods instead of the
 mean, std, min and max

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index bb634a6..f7fd1f6 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -616,12 +616,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From edc94d2c10b9c6c852234bbc1a401b99f7044bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 31/64] fix: shift (hence diff) of a step-free function reset
 the closed side

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index f7fd1f6..fe5eb13 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -648,7 +648,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return Stairs(initial_value=self.initial_value, closed=self.closed)
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From fb5d16b14626cdf82d7e4ddf9c95f8dfe7a6cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 32/64] fix: values_in_range gave NaN for undefined constants,
 min and max failed when there are no values

---
 staircase/core/stats/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..89813a2 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -119,7 +119,8 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
+        values = np.array([self.initial_value])
+        return values[~np.isnan(values)]
     values = self._get_values().iloc[max(0, left_index) : right_index]
     if left_index < 0 and not np.isnan(self.initial_value):
         values = np.append([self.initial_value], values)
@@ -135,7 +136,7 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    return min(self.values_in_range(where, closed), default=np.nan)
 
 
 def _max(
@@ -146,7 +147,7 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    return max(self.values_in_range(where, closed), default=np.nan)
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From 36ab8bf4cc69f530d7042862378e3c0d62ee955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 33/64] fix: histograms with stat frequency or density failed
 or were wrong on datetime-like domains

---
 staircase/core/stats/distribution.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..fc39c68 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -83,14 +83,15 @@ class ECDF(sc.core.stairs.Stairs):
         )
 
         # inspired by seaborn.histplot
-        if stat != "probability":
+        # widths are divided by while values are numbers, as opposed to durations
+        if stat in ("frequency", "density"):
+            widths = (bins.right - bins.left).values
+            if stat == "frequency":
+                values = values / widths
+            elif stat == "density":
+                values = values / np.dot(values, widths)
+        if stat in ("sum", "frequency"):
             values = values * self._denormalize_probability_factor
-            if stat in ("frequency", "density"):
-                widths = bins.map(lambda i: i.right - i.left)
-                if stat == "frequency":
-                    values = values / widths
-                elif stat == "density":
-                    values = values / np.dot(values, widths)
 
         return pd.Series(
             data=values,
-- 
2.43.0


From d4a27a238a3f98a344929947b57d4f256e5d31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:54 +0000
Subject: [PATCH 34/64] fix: slicer max and min gave NaN where only the closed
 endpoint, or only the inside, is undefined

---
 staircase/core/slicing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..1b12309 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
-- 
2.43.0


From a7e60bfaeded257ac327671ddfaa70d479841567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 35/64] fix: slicer hist ignored positional bins, failed for
 constants and mixed durations with numbers

---
 staircase/core/slicing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 1b12309..d80ab76 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -4,7 +4,7 @@ from typing import Callable
 
 import numpy as np
 import pandas as pd
-from pandas.api.types import is_list_like
+from pandas.api.types import is_list_like, is_timedelta64_dtype
 from typing_extensions import Literal
 
 import staircase as sc
@@ -77,10 +77,9 @@ class StairsSlicer:
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
         self._ensure_slices()
-        zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
-        )  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        hists = self._slices.apply(sc.Stairs.hist, args=args, **kwargs)
+        is_duration = any(map(is_timedelta64_dtype, hists.dtypes))
+        return hists.fillna(pd.Timedelta(0) if is_duration else 0)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From 418480ac5c51eac571f76edfb7d89e21eca3c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 36/64] fix: resample failed where the statistic does not exist
 on a slice

---
 staircase/core/slicing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index d80ab76..27d42f9 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -92,12 +92,20 @@ class StairsSlicer:
         left_bound = self._slices.index.left.min()
         right_bound = self._slices.index.right.max()
         stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)
-        return (
+        result = (
             self._stairs.mask((left_bound, right_bound))
             .fillna(0)
             .mask(stairs_na)
-            .layer(new_values.index.left, new_values.index.right, new_values.values)
+            .layer(
+                new_values.index.left,
+                new_values.index.right,
+                new_values.fillna(0).values,
+            )
         )
+        # slices over which the statistic does not exist
+        for interval in new_values.index[new_values.isna()]:
+            result = result.mask((interval.left, interval.right))
+        return result
 
 
 def make_slice_method(method_name: str) -> Callable:
-- 
2.43.0


From 7db8399472f14c32528d1a48eaf781916f7c80ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 37/64] fix: StairsArray operators failed with numpy scalars
 and other list-likes, returned an error for a length mismatch

---
 staircase/core/arrays/extension.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 78484e2..e3f82e0 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -12,6 +12,7 @@ from pandas.api.extensions import (
     ExtensionDtype,
     register_extension_dtype,
 )
+from pandas.api.types import is_number
 from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
@@ -251,14 +252,17 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if isinstance(other, np.ndarray) and other.ndim == 0:
+            other = other.item()
+        if is_number(other) or isinstance(other, Stairs):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-                return ValueError("Arrays have different lengths.")
-            result = StairsArray(
-                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
-            )
+                raise ValueError("Arrays have different lengths.")
+            others = other.values() if is_dict_like(other) else other
+            if isinstance(other, pd.Series):
+                others = other.array
+            result = StairsArray([stairs_func(s1, s2) for s1, s2 in zip(self, others)])
         else:
             return NotImplemented
         return result
@@ -266,6 +270,15 @@ def _make_binary_func(func_str: str) -> Callable:
     return func
 
 
+def _make_magic_func(func: Callable) -> Callable:
+    def magic_func(self, other):
+        if isinstance(other, (pd.Series, pd.Index, pd.DataFrame)):
+            return NotImplemented  # pandas unpacks these
+        return func(self, other)
+
+    return magic_func
+
+
 for funcstr in (
     "ge",
     "gt",
@@ -292,7 +305,7 @@ for funcstr in (
         "rmultiply": "rmul",
         "rdivide": "rtruediv",
     }.get(funcstr, funcstr)
-    setattr(StairsArray, f"__{magic}__", func)
+    setattr(StairsArray, f"__{magic}__", _make_magic_func(func))
 
 
 def _make_corr_cov_func(
-- 
2.43.0


From d3288dab4bf713f45669512204c00542a5a3df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 38/64] fix: operators with a step function on the left of an
 array or Series of step functions failed

---
 staircase/core/ops/__init__.py | 35 ++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/staircase/core/ops/__init__.py b/staircase/core/ops/__init__.py
index 92693f0..e316534 100644
--- a/staircase/core/ops/__init__.py
+++ b/staircase/core/ops/__init__.py
@@ -1,4 +1,8 @@
+import functools
+
 import numpy as np
+import pandas as pd
+from pandas.api.extensions import ExtensionArray
 
 from staircase.core.ops.arithmetic import add, divide, multiply, negate, subtract
 from staircase.core.ops.logical import (
@@ -42,6 +46,17 @@ def _array_ufunc(self, ufunc, method, *inputs, **kwargs):
     return getattr(ufunc, method)(*inputs, **kwargs)
 
 
+def _defer_to_arrays(func):
+    # operations with an array, or Series, of step functions are elementwise
+    @functools.wraps(func)
+    def magic_func(self, other):
+        if isinstance(other, (ExtensionArray, pd.Series)):
+            return NotImplemented
+        return func(self, other)
+
+    return magic_func
+
+
 def add_operations(cls):
 
     cls.__array_ufunc__ = _array_ufunc
@@ -66,16 +81,16 @@ def add_operations(cls):
     cls.ge = ge
 
     cls.__neg__ = negate
-    cls.__add__ = add
-    cls.__sub__ = subtract
-    cls.__mul__ = multiply
-    cls.__truediv__ = divide
-    cls.__eq__ = eq
-    cls.__ne__ = ne
-    cls.__lt__ = lt
-    cls.__gt__ = gt
-    cls.__le__ = le
-    cls.__ge__ = ge
+    cls.__add__ = _defer_to_arrays(add)
+    cls.__sub__ = _defer_to_arrays(subtract)
+    cls.__mul__ = _defer_to_arrays(multiply)
+    cls.__truediv__ = _defer_to_arrays(divide)
+    cls.__eq__ = _defer_to_arrays(eq)
+    cls.__ne__ = _defer_to_arrays(ne)
+    cls.__lt__ = _defer_to_arrays(lt)
+    cls.__gt__ = _defer_to_arrays(gt)
+    cls.__le__ = _defer_to_arrays(le)
+    cls.__ge__ = _defer_to_arrays(ge)
 
     cls.invert = invert
     cls.logical_and = logical_and
-- 
2.43.0


From 5355ecaa9fe98988d9944d752394c48f744fcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 39/64] fix: adding a constant to a function undefined towards
 -inf left stale step changes

---
 staircase/core/ops/arithmetic.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 9c8f0e5..d475aa0 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -39,6 +39,13 @@ def _add_or_sub_deltas_no_mask(self, other, series_op, float_op):
     return new_instance
 
 
+def _copy_data(stairs):
+    if np.isnan(stairs.initial_value):
+        # the first change, from undefined, depends on the values
+        return stairs._get_values().to_frame().copy()
+    return stairs._data.copy()
+
+
 def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
     @Appender(docstring, join="\n", indents=1)
     @requires_closed_match
@@ -54,8 +61,8 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
             if np.isnan(other.initial_value):
                 data = None
             else:
-                data = self._data.copy()
-                if self._valid_values:
+                data = _copy_data(self)
+                if "value" in data:
                     data["value"] = series_op(data["value"], other.initial_value)
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
@@ -66,10 +73,10 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
             if np.isnan(self.initial_value):
                 data = None
             else:
-                data = other._data.copy()
-                if other._valid_values:
+                data = _copy_data(other)
+                if "value" in data:
                     data["value"] = series_rop(data["value"], self.initial_value)
-                if other._valid_deltas:
+                if "delta" in data:
                     data["delta"] = series_rop(data["delta"], 0)
             return sc.Stairs._new(
                 initial_value=float_op(self.initial_value, other.initial_value),
-- 
2.43.0


From 72728184175c355f5bfa18cd7f5f7492e856dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:10 +0000
Subject: [PATCH 40/64] fix: layering a vector of values with fewer starts and
 ends failed

---
 staircase/core/layering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index b6e03f2..d65f273 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -186,6 +186,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     end = _convert_to_series(end)
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
+    if value.ndim and len(value) > len(df):
+        df = df.reindex(range(len(value)))  # missing starts and ends
     start_series = pd.Series(value, index=df.iloc[:, 0])
     if self._data is None:
         to_concat = [
-- 
2.43.0


From efc82481e93e884f119245f3cb02c6ef6958b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 41/64] fix: integral returned None instead of raising
 OverflowError when queried again or after mean

---
 staircase/core/stats/statistic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 89813a2..cfab707 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -42,9 +42,11 @@ def integral(self):
         try:
             _cache_integral_and_mean(self)
         except (OverflowError, ValueError):
-            raise OverflowError(
-                "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
-            )
+            pass
+    if self._integral_and_mean[0] is None:
+        raise OverflowError(
+            "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
+        )
     return self._integral_and_mean[0]
 
 
@@ -53,7 +55,7 @@ def mean(self):
     if self._integral_and_mean is None:
         try:
             _cache_integral_and_mean(self)
-        except OverflowError:
+        except (OverflowError, ValueError):
             pass
     return self._integral_and_mean[1]
 
-- 
2.43.0


From 60a0a01b073b811e6e6db33ad48c2a4a12436a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 42/64] fix: layering onto a returned ecdf, percentile or
 fractile function corrupted later statistics

---
 staircase/core/stairs.py             |  6 +++---
 staircase/core/stats/distribution.py | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index fe5eb13..fcde651 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -205,7 +205,7 @@ class Stairs:
         Stairs.percentile
         Stairs.fractile
         """
-        return self.dist.ecdf
+        return self.dist.detached("ecdf")
 
     @property
     def fractile(self):
@@ -251,7 +251,7 @@ class Stairs:
         >>> sf.percentile([0.25, 0.5, 0.75])
         array([2., 3., 4.])
         """
-        return self.dist.fractile
+        return self.dist.detached("fractile")
 
     @property
     def percentile(self):
@@ -297,7 +297,7 @@ class Stairs:
         >>> sf.percentile([25,50,75])
         array([2., 3., 4.])
         """
-        return self.dist.percentile
+        return self.dist.detached("percentile")
 
     @Appender(stats.docstrings.hist_example, join="\n", indents=2)
     def hist(self, bins="unit", closed="left", stat="sum"):
diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index fc39c68..5386ddf 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -137,6 +137,20 @@ class Dist:
             self._percentiles = Percentiles.from_ecdf(self.ecdf)
         return self._percentiles
 
+    def detached(self, name):
+        """A copy of the ecdf, fractile or percentile, which can be layered without affecting the cached one."""
+        original = getattr(self, name)
+        result = type(original)._new(
+            initial_value=original.initial_value,
+            data=original._data.copy(),
+            closed=original.closed,
+        )
+        if name == "ecdf":
+            result._denormalize_probability_factor = (
+                original._denormalize_probability_factor
+            )
+        return result
+
     def quantiles(self, n):
         assert n > 0 and isinstance(n, int)
         return self.fractile(np.linspace(0, 1, n + 1)[1:-1])
-- 
2.43.0


From f4fd596e44b1b61f8f7d57384b4ae5150aa0cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 43/64] fix: step functions returned by a slicer's apply were
 the slicer's own cached slices

---
 staircase/core/slicing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 27d42f9..c73c36f 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -42,7 +42,9 @@ class StairsSlicer:
     @Appender(docstrings.apply_docstring, join="\n", indents=1)
     def apply(self, func: Callable, *args, **kwargs) -> pd.Series:
         self._ensure_slices()
-        return self._slices.apply(func, args=args, **kwargs)
+        # func may return or layer its argument, which must not affect the cached slices
+        slices = self._slices.map(sc.Stairs.copy)
+        return slices.apply(func, args=args, **kwargs)
 
     @Appender(docstrings._docstrings["max"], join="\n", indents=1)
     def max(self) -> float:
-- 
2.43.0


From 1c4b7302c4e604c6de87643d9927c7db70fc8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 44/64] fix: identical ignored the closed sides of functions
 with steps

---
 staircase/core/ops/relational.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index c6e1d44..60fdb81 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -127,6 +127,8 @@ def identical(self, other):
         return True
     elif self._data is None or other._data is None:
         return False
+    elif self.closed != other.closed:
+        return False  # the functions differ at their step points
     elif self._valid_values and other._valid_values:
         return _is_series_equal(self._data["value"], other._data["value"])
     else:
-- 
2.43.0


From e849372635e027cbb8f345b5799a645cb93ebca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 45/64] fix: corr and cov could silently merge opposite closed
 sides

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index cfab707..e971d01 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -206,6 +207,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.corr, staircase.cov, staircase.corr
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
@@ -254,6 +256,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.cov, staircase.corr, staircase.cov
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
-- 
2.43.0


From a48053ec0aaeb2fa6f6c3fbcd8540a73533debe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 46/64] fix: corr raised AttributeError where the functions
 have no common domain

---
 staircase/core/stats/statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index e971d01..36d9b46 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -266,10 +266,13 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     mask = self.isna() | other.isna()
     self = self.mask(mask)
     other = other.mask(mask)
+    covariance = self.cov(other, where)
+    if np.isnan(covariance):
+        return np.nan  # nowhere are both defined
     denominator = self.clip(*where).std() * other.clip(*where).std()
     if denominator == 0:
         return np.nan
-    return self.cov(other, where) / denominator
+    return covariance / denominator
 
 
 def _get_stairs_method(name):
-- 
2.43.0


From 901aee0bee3ee727e5a86f94bba6ed9599ea0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:31 +0000
Subject: [PATCH 47/64] fix: corr could exceed 1 by rounding errors

---
 staircase/core/stats/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 36d9b46..0328b75 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -272,7 +272,8 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     denominator = self.clip(*where).std() * other.clip(*where).std()
     if denominator == 0:
         return np.nan
-    return covariance / denominator
+    # rounding errors could otherwise give values such as 1.0000000000000002
+    return np.clip(covariance / denominator, -1, 1)
 
 
 def _get_stairs_method(name):
-- 
2.43.0


From ac1bd94fe4b1fee704a6f48d0be892b7e77560ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 48/64] fix: corr matrices had ones for members without any
 spread, unlike the pairwise result

---
 staircase/core/arrays/extension.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index e3f82e0..c031bcb 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -308,15 +308,13 @@ for funcstr in (
     setattr(StairsArray, f"__{magic}__", _make_magic_func(func))
 
 
-def _make_corr_cov_func(
-    docstring: str, stairs_method: Callable, assume_ones_diagonal: int
-) -> Callable:
+def _make_corr_cov_func(docstring: str, stairs_method: Callable) -> Callable:
     @Appender(docstring, join="\n", indents=1)
     def func(self, where=(-inf, inf)):
         size = len(self.data)
         vals = np.ones(shape=(size, size))
         for i in range(size):
-            for j in range(i + assume_ones_diagonal, size):
+            for j in range(i, size):
                 vals[i, j] = stairs_method(self.data[i], self.data[j], where=where)
                 vals[j, i] = vals[i, j]
         return vals
@@ -325,8 +323,8 @@ def _make_corr_cov_func(
 
 
 StairsArray.corr = _make_corr_cov_func(
-    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=True
+    docstrings.make_docstring("array", "corr"), _corr
 )
 StairsArray.cov = _make_corr_cov_func(
-    docstrings.make_docstring("array", "cov"), _cov, assume_ones_diagonal=False
+    docstrings.make_docstring("array", "cov"), _cov
 )
-- 
2.43.0


From 52ef3d21883fedf6a8293e6d39c63440ad81b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:16 +0000
Subject: [PATCH 49/64] fix: corr of functions without spread could be +-1
 because of rounding errors

---
 staircase/core/stats/statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0328b75..af6f8b1 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -269,7 +269,10 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     covariance = self.cov(other, where)
     if np.isnan(covariance):
         return np.nan  # nowhere are both defined
-    denominator = self.clip(*where).std() * other.clip(*where).std()
+    self, other = self.clip(*where), other.clip(*where)
+    if self.min() == self.max() or other.min() == other.max():
+        return np.nan  # no spread, even if rounding errors suggest there is
+    denominator = self.std() * other.std()
     if denominator == 0:
         return np.nan
     # rounding errors could otherwise give values such as 1.0000000000000002
-- 
2.43.0


From 1131e190a9c6788ad1fac7b290f2dc412c607053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 50/64] fix: combining step functions on Timedelta domains
 could leave an index with an unusable inferred frequency

---
 staircase/core/ops/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index 1a8660e..b664743 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -49,6 +49,9 @@ def _combine_step_series(
 ):
     # kind = "values" or "deltas"
     new_index = series_1.index.union(series_2.index)
+    if getattr(new_index, "freq", None) is not None:
+        # pandas may infer frequencies, eg business hours, which it cannot then use
+        new_index = pd.Index(pd.Series(new_index))
 
     reindex_method = _reindex_values if kind == "values" else _reindex_deltas
     reindexed_series_1 = reindex_method(new_index, series_1, initial_value_1)
-- 
2.43.0


From 11cf649cc425323e71daa48547b8df6c21e506b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 51/64] fix: rolling_mean with a numpy datetime where and a
 python timedelta window

---
 staircase/core/stairs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index fcde651..e266df6 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -27,6 +27,7 @@ from staircase.constants import inf
 from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
+from staircase.core.ops.masking import _conform_bounds
 from staircase.plotting.accessor import PlotAccessor
 from staircase.util import _replace_none_with_infs
 from staircase.util._decorators import Appender
@@ -716,7 +717,7 @@ class Stairs:
         where = _replace_none_with_infs(where)
         assert len(window) == 2, "Window should be a listlike object of length 2."
         left_delta, right_delta = window
-        lower, upper = where
+        lower, upper = _conform_bounds(self, *where)
         clipped = self.clip(lower, upper)
         if clipped._data is None:
             return pd.Series([clipped.initial_value] * 2, index=where)
-- 
2.43.0


From 599cc669071658476b63b3a0a4e2108116ac1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 52/64] fix: aggregating a Series with repeated labels

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index c031bcb..4c58fb0 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -73,7 +73,7 @@ class StairsArray(ExtensionArray):
                 )
             self.data = data
         elif is_dict_like(data):
-            self.data = np.array([data[k] for k in data.keys()])
+            self.data = np.array([s for _, s in data.items()])
         elif isinstance(data, Stairs) or is_list_like(data):
             self.data = np.array(data, ndmin=1)
         else:
-- 
2.43.0


From d83c15ef632ce9e9595110a02f582a75ce605539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 53/64] fix: StairsArray operator methods with a Series

---
 staircase/core/arrays/extension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 4c58fb0..ecf8619 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -259,9 +259,10 @@ def _make_binary_func(func_str: str) -> Callable:
         elif is_list_like(other):
             if len(other) != len(self):
                 raise ValueError("Arrays have different lengths.")
-            others = other.values() if is_dict_like(other) else other
             if isinstance(other, pd.Series):
                 others = other.array
+            else:
+                others = other.values() if is_dict_like(other) else other
             result = StairsArray([stairs_func(s1, s2) for s1, s2 in zip(self, others)])
         else:
             return NotImplemented
-- 
2.43.0


From 1661fe53e3a3dd8462cd69137ef97c1871a70379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:43 +0000
Subject: [PATCH 54/64] fix: sample and limit tables of StairsArray with
 repeated points

---
 staircase/core/arrays/extension.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index ecf8619..d38f209 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -58,6 +58,13 @@ def _make_logical(func: Callable) -> Callable:
     return logical_func
 
 
+def _tabulate(rows: list[pd.Series]) -> pd.DataFrame:
+    # the rows share an index, whose labels may be repeated
+    return pd.DataFrame(
+        [row.values for row in rows], columns=rows[0].index if rows else None
+    )
+
+
 class StairsArray(ExtensionArray):
 
     _dtype = StairsDtype()
@@ -197,13 +204,11 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
     def sample(self, x) -> pd.Series:
-        array = pd.Series(self.data)
-        return array.apply(Stairs.sample, x=x, include_index=True)
+        return _tabulate([s.sample(x, include_index=True) for s in self.data])
 
     @Appender(docstrings.make_docstring("array", "limit"), join="\n", indents=1)
     def limit(self, x, side="right"):
-        array = pd.Series(self.data)
-        return array.apply(Stairs.limit, x=x, side=side, include_index=True)
+        return _tabulate([s.limit(x, side, include_index=True) for s in self.data])
 
     @Appender(docstrings.make_docstring("array", "logical_or"), join="\n", indents=1)
     def logical_or(self):
-- 
2.43.0


From 8144caf0b44e1804e6ff888b51f040ea114f4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:10 +0000
Subject: [PATCH 55/64] fix: integral of a function defined on no finite piece
 raised on datetime-like domains

---
 staircase/core/stats/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index af6f8b1..87ab0e3 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -20,6 +20,9 @@ def _cache_integral_and_mean(self):
     else:
         value_sums = self.value_sums(group=False)
         value_sums = value_sums[value_sums.index.notnull()]
+        if value_sums.empty:
+            self._integral_and_mean = value_sums.sum(), np.nan
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From 58b8a5762b7a02bb4e4ec2a14cde325e3bcd629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 56/64] fix: arithmetic with integers which do not fit into 64
 bits

---
 staircase/core/ops/arithmetic.py |  3 ++-
 staircase/core/stairs.py         | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index d475aa0..0b1bb94 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -126,7 +126,8 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
                     data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
-            initial_value = initial_value if np.isfinite(initial_value) else np.nan
+            if not np.isfinite(float(initial_value)):
+                initial_value = np.nan
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=data,
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index e266df6..a48251f 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -54,6 +54,16 @@ def _make_vals_from_deltas(init_val: float, deltas: pd.DataFrame):
     return deltas.cumsum() + base
 
 
+def _conform_initial_value(initial_value):
+    if isinstance(initial_value, np.number):
+        # arithmetic with narrow numpy types can wrap around or lose precision
+        initial_value = initial_value.item()
+    if isinstance(initial_value, int) and abs(initial_value) > 2**53:
+        # numpy does not support unbounded integers
+        initial_value = float(initial_value)
+    return initial_value
+
+
 class Stairs:
 
     class_name = "Stairs"
@@ -74,10 +84,7 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
-        if isinstance(initial_value, np.number):
-            # arithmetic with narrow numpy types can wrap around or lose precision
-            initial_value = initial_value.item()
-        self.initial_value = initial_value
+        self.initial_value = _conform_initial_value(initial_value)
         self._clear_cache()
 
         if any([x is not None for x in (start, end, value)]):
@@ -95,7 +102,7 @@ class Stairs:
         closed: Literal["left", "right"] = "left",
     ) -> Stairs:
         new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
+        new_instance.initial_value = _conform_initial_value(initial_value)
         new_instance._data = data
         new_instance._valid_deltas = False if data is None else "delta" in data.columns
         new_instance._valid_values = False if data is None else "value" in data.columns
@@ -146,7 +153,7 @@ class Stairs:
             warnings.warn("Infinity values detected and have been converted to NaN")
 
         new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
+        new_instance.initial_value = _conform_initial_value(initial_value)
         new_instance._data = values.astype("float64").to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-- 
2.43.0


From ecca4c94a6f12c122cc7514530596d08730c24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 57/64] fix: logical operators with a numpy longdouble on the
 left crashed, and numpy bools failed as initial values

---
 staircase/core/ops/__init__.py | 8 ++++++--
 staircase/core/stairs.py       | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/__init__.py b/staircase/core/ops/__init__.py
index e316534..6723c49 100644
--- a/staircase/core/ops/__init__.py
+++ b/staircase/core/ops/__init__.py
@@ -35,9 +35,13 @@ def _array_ufunc(self, ufunc, method, *inputs, **kwargs):
         np.greater_equal: le,
         np.equal: eq,
         np.not_equal: ne,
+        # numpy would convert a longdouble to an object array, and back, endlessly
+        np.bitwise_and: logical_rand,
+        np.bitwise_or: logical_ror,
+        np.bitwise_xor: logical_rxor,
     }.get(ufunc)
-    if reflected and method == "__call__" and isinstance(inputs[0], np.ndarray):
-        if inputs[0].ndim == 0:
+    if reflected and method == "__call__":
+        if isinstance(inputs[0], (np.ndarray, np.generic)) and inputs[0].ndim == 0:
             return reflected(self, inputs[0].item())
     # otherwise treated as any other Python object is
     inputs = [
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index a48251f..159ac50 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -55,7 +55,7 @@ def _make_vals_from_deltas(init_val: float, deltas: pd.DataFrame):
 
 
 def _conform_initial_value(initial_value):
-    if isinstance(initial_value, np.number):
+    if isinstance(initial_value, (np.number, np.bool_)):
         # arithmetic with narrow numpy types can wrap around or lose precision
         initial_value = initial_value.item()
     if isinstance(initial_value, int) and abs(initial_value) > 2**53:
-- 
2.43.0


From 1a1f95b51f9dfdc3c986400ece9e8758a443a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 58/64] fix: initial values which are bools or long doubles
 were kept as they were

---
 staircase/core/stairs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 159ac50..33c1f7a 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -55,9 +55,11 @@ def _make_vals_from_deltas(init_val: float, deltas: pd.DataFrame):
 
 
 def _conform_initial_value(initial_value):
-    if isinstance(initial_value, (np.number, np.bool_)):
-        # arithmetic with narrow numpy types can wrap around or lose precision
-        initial_value = initial_value.item()
+    # arithmetic with narrow numpy types can wrap around or lose precision
+    if isinstance(initial_value, (bool, np.bool_, np.integer)):
+        initial_value = int(initial_value)
+    elif isinstance(initial_value, np.floating):
+        initial_value = float(initial_value)
     if isinstance(initial_value, int) and abs(initial_value) > 2**53:
         # numpy does not support unbounded integers
         initial_value = float(initial_value)
-- 
2.43.0


From a3475a795cbc1a0ddfb851efa566c98524d27be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 59/64] fix: filling with a bool gave a step function which
 could not be used any further

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index e537648..f4f11c4 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -216,7 +216,7 @@ def _make_data_fillna_scalar(self, value):
     if self._data is None:
         data = None
     else:
-        values = self._get_values().copy().fillna(value=value)
+        values = self._get_values().copy().fillna(value=float(value))
         data = pd.DataFrame({"value": values})
     return initial_value, data
 
-- 
2.43.0


From 5e6a492517e1b1748c7dc68feb44ebd1fa8ad8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 60/64] fix: operators of StairsArray with a numpy bool gave an
 ndarray

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d38f209..fc7da5c 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -259,7 +259,7 @@ def _make_binary_func(func_str: str) -> Callable:
     def func(self, other):
         if isinstance(other, np.ndarray) and other.ndim == 0:
             other = other.item()
-        if is_number(other) or isinstance(other, Stairs):
+        if is_number(other) or isinstance(other, (np.bool_, Stairs)):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-- 
2.43.0


From 09653dba70848fbc01a07f16e7f609f4bca53945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:23 +0000
Subject: [PATCH 61/64] fix: vectors of datetimes and timedeltas which are not
 of nanosecond resolution

---
 staircase/core/layering.py | 13 ++++++++++++-
 staircase/core/stairs.py   |  3 ++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index d65f273..e48d62f 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -62,6 +62,17 @@ def _check_args_types(start, end):
     _check_approved_type(end, tuple(base_approved_types + [NegInf]))
 
 
+def _conform_resolution(vec):
+    # pandas does not reliably combine, or compare, datetimes of different resolutions
+    is_datetime_like = is_datetime64_any_dtype(vec) or is_timedelta64_dtype(vec)
+    if is_datetime_like and "[ns" not in str(vec.dtype):
+        try:
+            return (vec.dt if isinstance(vec, pd.Series) else vec).as_unit("ns")
+        except (pd.errors.OutOfBoundsDatetime, pd.errors.OutOfBoundsTimedelta):
+            pass  # cannot be represented in nanoseconds
+    return vec
+
+
 def _convert_to_series(vec: Any) -> pd.Series:
     if not isinstance(vec, pd.Series):
         if vec is None or (isinstance(vec, (tuple, list)) and not len(vec)):
@@ -70,7 +81,7 @@ def _convert_to_series(vec: Any) -> pd.Series:
             vec = pd.Series(vec)
     else:
         vec = vec.reset_index(drop=True)
-    return vec
+    return _conform_resolution(vec)
 
 
 def _preprocess_layer_args(frame, start, end, value):
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 33c1f7a..488f0e7 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -26,7 +26,7 @@ from staircase import docstrings
 from staircase.constants import inf
 from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
-from staircase.core.layering import _check_args_dtypes
+from staircase.core.layering import _check_args_dtypes, _conform_resolution
 from staircase.core.ops.masking import _conform_bounds
 from staircase.plotting.accessor import PlotAccessor
 from staircase.util import _replace_none_with_infs
@@ -157,6 +157,7 @@ class Stairs:
         new_instance = cls(closed=closed)
         new_instance.initial_value = _conform_initial_value(initial_value)
         new_instance._data = values.astype("float64").to_frame("value")
+        new_instance._data.index = _conform_resolution(values.index)
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
-- 
2.43.0


From cf0d0ca715feea8fbcefdd063bfaf1518302cff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 62/64] fix: vectors of labels of narrow or nullable numeric
 dtypes

---
 staircase/core/layering.py | 13 +++++++++++--
 staircase/core/stairs.py   |  4 ++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index e48d62f..ed9167a 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -8,6 +8,8 @@ import numpy as np
 import pandas as pd
 from pandas.api.types import (
     is_datetime64_any_dtype,
+    is_float_dtype,
+    is_integer_dtype,
     is_list_like,
     is_number,
     is_numeric_dtype,
@@ -62,7 +64,14 @@ def _check_args_types(start, end):
     _check_approved_type(end, tuple(base_approved_types + [NegInf]))
 
 
-def _conform_resolution(vec):
+def _conform_dtype(vec):
+    # arithmetic with narrow numeric types can wrap around or lose precision
+    if is_integer_dtype(vec) and vec.dtype != "int64":
+        if vec.isna().any():
+            return vec.astype("float64")
+        return vec.astype("int64") if vec.max() < 2**63 else vec
+    if is_float_dtype(vec):
+        return vec.astype("float64")
     # pandas does not reliably combine, or compare, datetimes of different resolutions
     is_datetime_like = is_datetime64_any_dtype(vec) or is_timedelta64_dtype(vec)
     if is_datetime_like and "[ns" not in str(vec.dtype):
@@ -81,7 +90,7 @@ def _convert_to_series(vec: Any) -> pd.Series:
             vec = pd.Series(vec)
     else:
         vec = vec.reset_index(drop=True)
-    return _conform_resolution(vec)
+    return _conform_dtype(vec)
 
 
 def _preprocess_layer_args(frame, start, end, value):
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 488f0e7..f75baea 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -26,7 +26,7 @@ from staircase import docstrings
 from staircase.constants import inf
 from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
-from staircase.core.layering import _check_args_dtypes, _conform_resolution
+from staircase.core.layering import _check_args_dtypes, _conform_dtype
 from staircase.core.ops.masking import _conform_bounds
 from staircase.plotting.accessor import PlotAccessor
 from staircase.util import _replace_none_with_infs
@@ -157,7 +157,7 @@ class Stairs:
         new_instance = cls(closed=closed)
         new_instance.initial_value = _conform_initial_value(initial_value)
         new_instance._data = values.astype("float64").to_frame("value")
-        new_instance._data.index = _conform_resolution(values.index)
+        new_instance._data.index = _conform_dtype(values.index)
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
-- 
2.43.0


From 0a6643c7042193a4daff0bb358fc3da67107e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 63/64] fix: numpy integers as lags, windows, bounds and
 numbers of quantiles

---
 staircase/core/stairs.py             | 10 +++-------
 staircase/core/stats/distribution.py |  3 ++-
 staircase/core/stats/statistic.py    |  4 +++-
 staircase/util/__init__.py           | 11 ++++++++++-
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index f75baea..a53aa63 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -29,7 +29,7 @@ from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes, _conform_dtype
 from staircase.core.ops.masking import _conform_bounds
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs
+from staircase.util import _conform_number, _replace_none_with_infs
 from staircase.util._decorators import Appender
 
 
@@ -55,11 +55,7 @@ def _make_vals_from_deltas(init_val: float, deltas: pd.DataFrame):
 
 
 def _conform_initial_value(initial_value):
-    # arithmetic with narrow numpy types can wrap around or lose precision
-    if isinstance(initial_value, (bool, np.bool_, np.integer)):
-        initial_value = int(initial_value)
-    elif isinstance(initial_value, np.floating):
-        initial_value = float(initial_value)
+    initial_value = _conform_number(initial_value)
     if isinstance(initial_value, int) and abs(initial_value) > 2**53:
         # numpy does not support unbounded integers
         initial_value = float(initial_value)
@@ -726,7 +722,7 @@ class Stairs:
         """
         where = _replace_none_with_infs(where)
         assert len(window) == 2, "Window should be a listlike object of length 2."
-        left_delta, right_delta = window
+        left_delta, right_delta = map(_conform_number, window)
         lower, upper = _conform_bounds(self, *where)
         clipped = self.clip(lower, upper)
         if clipped._data is None:
diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index 5386ddf..52362b2 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -1,4 +1,5 @@
 import math
+import numbers
 
 import numpy as np
 import pandas as pd
@@ -152,7 +153,7 @@ class Dist:
         return result
 
     def quantiles(self, n):
-        assert n > 0 and isinstance(n, int)
+        assert n > 0 and isinstance(n, numbers.Integral)
         return self.fractile(np.linspace(0, 1, n + 1)[1:-1])
 
 
diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 87ab0e3..5078e54 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -10,7 +10,7 @@ from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
-from staircase.util import _get_lims, _replace_none_with_infs
+from staircase.util import _conform_number, _get_lims, _replace_none_with_infs
 from staircase.util._decorators import Appender
 
 
@@ -212,6 +212,7 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
+    lag = _conform_number(lag)
     if lag != 0:
         assert clip in ["pre", "post"]
         if clip == "pre" and where[1] != inf:
@@ -261,6 +262,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     """
     _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
+    lag = _conform_number(lag)
     if lag != 0:
         assert clip in ["pre", "post"]
         if clip == "pre" and where[1] != inf:
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 28a5b60..5a5b0b6 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -54,6 +54,15 @@ def _get_lims(stairs, closed):
         }[closed]
 
 
+def _conform_number(x):
+    # arithmetic with narrow numpy types can wrap around or lose precision
+    if isinstance(x, (bool, np.bool_, np.integer)) and not _is_datetime_like(x):
+        return int(x)
+    if isinstance(x, np.floating):
+        return float(x)
+    return x
+
+
 def _is_float_inf(x, infinity):
     return isinstance(x, (float, np.floating)) and x == infinity
 
@@ -61,7 +70,7 @@ def _is_float_inf(x, infinity):
 def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
-    left, right = tuple_
+    left, right = map(_conform_number, tuple_)
     if left is None or _is_float_inf(left, -np.inf):
         left = -inf
     if right is None or _is_float_inf(right, np.inf):
-- 
2.43.0


From 4f3e2e7cd46faa8ac663e20a1ae7babda4888e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 64/64] fix: a slicer mixed the function at the time of slicing
 with later layers of it

---
 staircase/core/slicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index c73c36f..8fad11a 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -16,7 +16,8 @@ from staircase.util._decorators import Appender
 
 class StairsSlicer:
     def __init__(self, stairs: sc.Stairs, interval_index):
-        self._stairs = stairs
+        # a copy, as the slices do not follow later layering of the function
+        self._stairs = stairs.copy()
         self._interval_index = interval_index
         self._slices: pd.Series | None = None
 
-- 
2.43.0

