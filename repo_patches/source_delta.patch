From 96a1bddff43b01dc38c87a57c06aeb6a60253589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 01/63] fix: compare index arrays of different lengths when
 mapping views

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..c4a560e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(np.array_equal(u, ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From 2a92007ba07a83a543bd9a50bbdffadc331f905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 02/63] fix: reductions of integer/boolean data, argmax/argmin
 axis arguments and chunking

---
 pygeode/reduce.py | 83 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 69 insertions(+), 14 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..9e66abd 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -9,6 +9,10 @@ from pygeode.var import Var
 #########################
 class ReducedVar(Var):
 # {{{
+  # Given the dtype of the data, determine the dtype of the reduced values.
+  @staticmethod
+  def _out_dtype (dtype): return dtype
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -66,18 +70,42 @@ class ReducedVar(Var):
     # Remove the reduction axis from the output variable
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
-    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    Var.__init__(self, axes, dtype=self._out_dtype(dtype), name=var.name, atts=var.atts, plotatts=var.plotatts)
 
   # }}}
 # }}}
 
+# Averages and variances of integers (or booleans) aren't integers.
+def _float_dtype (dtype):
+# {{{
+  import numpy as np
+  return dtype if np.issubdtype(dtype, np.inexact) else np.dtype('d')
+# }}}
+# Sums are accumulated in the same type as numpy (i.e., booleans are counted,
+# and small integers don't overflow).
+def _sum_dtype (dtype):
+# {{{
+  import numpy as np
+  return np.sum(np.zeros(1,dtype)).dtype
+# }}}
+# Initial value for accumulating with the given dtype: 'value' if the dtype can
+# represent it (i.e., inf or nan), otherwise the lowest / highest allowed value.
+def _initial (dtype, value, highest):
+# {{{
+  import numpy as np
+  if np.issubdtype(dtype, np.inexact): return value
+  if dtype == np.dtype(bool): return highest
+  info = np.iinfo(dtype)
+  return info.max if highest else info.min
+# }}}
+
 class MinVar(ReducedVar):
 # {{{
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npmin
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('inf')
+    out[()] = _initial(self.dtype, float('inf'), True)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -88,7 +116,7 @@ class NANMinVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmin
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.full(view.shape, _initial(self.dtype, np.nan, True), self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       #Ignore NaNs when finding mininum
       out[outsl] = np.nanmin([out[outsl], npnanmin(indata, self.indices)], 0)
@@ -101,7 +129,7 @@ class MaxVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('-inf')
+    out[()] = _initial(self.dtype, float('-inf'), False)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -112,7 +140,7 @@ class NANMaxVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmax
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.full(view.shape, _initial(self.dtype, np.nan, False), self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       #Ignore NaNs when finding maximum
       out[outsl] = np.nanmax([out[outsl], npnanmax(indata, self.indices)], 0)
@@ -121,12 +149,12 @@ class NANMaxVar(ReducedVar):
 
 class ArgMaxVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(indices[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -144,18 +172,19 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The whole axis is needed to determine the index
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
 class ArgMinVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(indices[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -173,13 +202,16 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    # The whole axis is needed to determine the index
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
 
 class SumVar(ReducedVar):
 # {{{
+  _out_dtype = staticmethod(_sum_dtype)
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -191,6 +223,8 @@ class SumVar(ReducedVar):
 class WeightedSumVar(ReducedVar):
 # {{{
   '''WeightedSumVar(ReducedVar) - computes weighted sum.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -215,10 +249,12 @@ class WeightedSumVar(ReducedVar):
 
 class NANSumVar(ReducedVar):
 # {{{
+  _out_dtype = staticmethod(_sum_dtype)
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.full(view.shape, np.nan if np.issubdtype(self.dtype, np.inexact) else 0, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       # Accumulation must be nan-safe
       out[outsl] = np.nansum([out[outsl], npnansum(indata, self.indices)], 0)
@@ -227,6 +263,8 @@ class NANSumVar(ReducedVar):
 class WeightedNANSumVar(ReducedVar):
 # {{{
   '''WeightedNANSumVar(ReducedVar) - computes weighted sum, neglecting NaNs.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -255,6 +293,8 @@ class WeightedNANSumVar(ReducedVar):
 class MeanVar(ReducedVar):
 # {{{
   '''MeanVar(ReducedVar) - computes unweighted mean.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -267,6 +307,8 @@ class MeanVar(ReducedVar):
 class WeightedMeanVar(ReducedVar):
 # {{{
   '''WeightedMeanVar(ReducedVar) - computes weighted mean.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -296,6 +338,8 @@ class WeightedMeanVar(ReducedVar):
 class NANMeanVar(ReducedVar):
 # {{{
   '''NANMeanVar(ReducedVar) - computes unweighted mean, ignoring NANs.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -316,6 +360,8 @@ class NANMeanVar(ReducedVar):
 class WeightedNANMeanVar(ReducedVar):
 # {{{ 
   '''WeightedNANMeanVar(ReducedVar) - computes weighted mean.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def __init__(self, var, indices, weights):
   #  {{{
     ReducedVar.__init__(self, var, indices)
@@ -352,6 +398,8 @@ class WeightedNANMeanVar(ReducedVar):
 #TODO: make it more numerically stable, add weights
 class VarianceVar(ReducedVar):
 # {{{
+  _out_dtype = staticmethod(_float_dtype)
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -359,6 +407,7 @@ class VarianceVar(ReducedVar):
     x2 = np.zeros(view.shape, self.dtype)
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+      indata = np.asarray(indata, self.dtype)
       x[outsl] += npsum(indata, self.indices)  
       x2[outsl] += npsum(indata**2, self.indices)  
 
@@ -368,6 +417,8 @@ class VarianceVar(ReducedVar):
 class WeightedVarianceVar(ReducedVar):
 # {{{
   '''WeightedVarianceVar(ReducedVar) - computes weighted mean.'''
+  _out_dtype = staticmethod(_float_dtype)
+
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -387,6 +438,7 @@ class WeightedVarianceVar(ReducedVar):
     x2 = np.zeros(view.shape, self.dtype)
     W = np.zeros(view.shape, self.dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
+      indata = np.asarray(indata, self.dtype)
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
       x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
@@ -399,6 +451,8 @@ class WeightedVarianceVar(ReducedVar):
 # NB: There is possibly an issue with this for integer datatypes
 class NANVarianceVar(ReducedVar):
 # {{{
+  _out_dtype = staticmethod(_float_dtype)
+
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -409,6 +463,7 @@ class NANVarianceVar(ReducedVar):
     out = np.zeros(view.shape, self.dtype)
 
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+      indata = np.asarray(indata, self.dtype)
       x[outsl] = np.nansum([x[outsl],\
                   npnansum(indata, self.indices)], 0)
       x2[outsl] = np.nansum([x2[outsl],\
@@ -572,7 +627,7 @@ def argmax (var, axis):
     --------
     argmin
   '''
-  return ArgMaxVar(var, axis)
+  return ArgMaxVar(var, [axis])
 # }}}
 def argmin (var, axis): 
 # {{{
@@ -594,7 +649,7 @@ def argmin (var, axis):
     --------
     argmax
   '''
-  return ArgMinVar(var, axis)
+  return ArgMinVar(var, [axis])
 # }}}
 
 
-- 
2.43.0


From bbb1209f2e3d9a8011e2f68d360f4140e4a39587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 03/63] fix: 'from pygeode import *' (tuple inside __all__)

---
 pygeode/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/__init__.py b/pygeode/__init__.py
index 04f7fbd..1e6897f 100644
--- a/pygeode/__init__.py
+++ b/pygeode/__init__.py
@@ -119,7 +119,7 @@ __all__.append('ensemble')
 
 from pygeode.stats import *
 from pygeode.stats import __all__ as stats_all
-__all__.append(stats_all)
+__all__.extend(stats_all)
 
 from pygeode.spectral import *
 from pygeode.spectral import __all__ as spectral_all
-- 
2.43.0


From ee672ea1cbab88dc9b658dc898ed69a7b25f1e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 04/63] fix: axis comparison tolerance (rtol attribute, small
 values, slices), '!=' consistent with '==', mapping onto duplicate values

---
 pygeode/axis.py | 19 +++++++++++++------
 pygeode/tools.c |  8 ++++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..fd43acc 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -122,7 +122,8 @@ class Axis(Var):
       if len(inz) > 1:
         vnz = np.sort(values[inz]).astype('d')
         logr = np.floor(np.min( np.log10(np.abs(np.diff(vnz) / vnz[:-1])) ))
-        if not np.isinf(logr) and 10**logr < rtol: rtol = 10**logr
+        # (the tolerance must be smaller than the spacing)
+        if not np.isinf(logr) and 10**logr < rtol: rtol = 0.5 * 10**logr
 
     #: The relative tolerance for identifying an element of this axis.
     self.rtol = rtol
@@ -205,7 +206,7 @@ class Axis(Var):
   #TODO: fix inconsistency between Axis and Var, for == and !=
   #      Vars produce a boolean mask under those operations, Axes return scalar True/False
   # I.e., "lat == 30" and "(lat*1) == 30" give very different results!
-  def __ne__ (self, other): return not is_equivalent(self, other)
+  def __ne__ (self, other): return not (self == other)
   def __eq__ (self, other): return is_equivalent(self, other)
 
   def alleq (self, *others):
@@ -375,6 +376,9 @@ class Axis(Var):
 
     axis = type(self)(values, name=self.name, atts=self.atts, **aux)
 
+    # The points are still identified with the same tolerance
+    axis.rtol = self.rtol
+
     return axis
   # }}}
 
@@ -713,11 +717,14 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
   # Check the values
   from numpy import allclose
   if rtol == 'max':
-    rtol = max(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = max(ax1.rtol, ax2.rtol)
   elif rtol == 'min':
-    rtol = min(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = min(ax1.rtol, ax2.rtol)
+
+  # Don't let the absolute tolerance overwhelm axes with very small values
+  atol = min(1e-8, rtol * max(abs(ax1.values).max(), abs(ax2.values).max())) if len(ax1.values) > 0 else 1e-8
 
-  if not allclose(ax1.values, ax2.values, rtol = rtol):
+  if not allclose(ax1.values, ax2.values, rtol = rtol, atol = atol):
 #   print 'values mismatch'
     return False
 
@@ -761,7 +768,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if not isinstance(other, NamedAxis): return False
 
     # Check the names
     if self.name != other.name: return False
diff --git a/pygeode/tools.c b/pygeode/tools.c
index c62703b..1a123ba 100644
--- a/pygeode/tools.c
+++ b/pygeode/tools.c
@@ -134,12 +134,16 @@ int map_to (int na, double *a_orig, int nb, double *b_orig, int *indices, double
 //    double check = atol + rtol * fabs(B);
     // Find a that's closest to b
     while (ai < na-1) {
-      if (fabs(a[ai+1]-B) < fabs(a[ai]-B)) ai++;
+      // (also skip over duplicate values)
+      if (fabs(a[ai+1]-B) < fabs(a[ai]-B) || a[ai+1] == a[ai]) ai++;
       else break;
     }
+    // Use the first occurence of any duplicate value
+    int ai0 = ai;
+    while (ai0 > 0 && a[ai0-1] == a[ai]) ai0--;
     // Check if it's a match
     //printf("A: %d %e <-> B: %d %e\n", a_ind[ai], a[ai], b_ind[bi], b[bi]);
-    if (fabs(a[ai]-B) <= rtol*fabs(B)) indices[b_ind[bi]] = a_ind[ai];
+    if (fabs(a[ai]-B) <= rtol*fabs(B)) indices[b_ind[bi]] = a_ind[ai0];
     // Otherwise, check if no more matches are expected
     else if (ai == na-1) continue;
   }
-- 
2.43.0


From 760846f0efa15d5ab49a5359644ebfe790b7d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 05/63] fix: lagged, split and joined time series on any axis
 and view; integer input to lag()

---
 pygeode/timeutils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..cb3058a 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -306,7 +306,9 @@ class LagVar(Var):
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Need to be able to represent missing values
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -332,9 +334,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
@@ -466,7 +468,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -541,7 +543,7 @@ class JoinTime(Var):
     data = np.rollaxis(data, daxis, yaxis+1)
     # Then, combine then
     shape = list(data.shape)
-    shape = shape[:yaxis] + [-1] + shape[daxis+1:]
+    shape = shape[:yaxis] + [-1] + shape[yaxis+2:]
     data = data.reshape(shape)
 
     # Now, we may have slightly more data than we actually need
@@ -552,7 +554,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
-- 
2.43.0


From e96fea9637f8b41c6b91f7fda10c4a61e8f35907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 06/63] fix: derivatives and differences of integer data;
 second derivative needs three points

---
 pygeode/deriv.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..d25b3bd 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -10,6 +10,7 @@ class DerivativeVar (Var):
     ''' __init__()'''
 
     from pygeode.var import Var
+    import numpy as np
 
     self.daxis = daxis = var.whichaxis(daxis)
     assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
@@ -38,7 +39,10 @@ class DerivativeVar (Var):
     else:
       name = 'd(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # Derivatives of integers aren't integers
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -77,7 +81,7 @@ class DerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
     allaxis = allview.get(self.dx)
 
     # Define a map from these unique points back to the left & right arrays
@@ -107,9 +111,10 @@ class SecondDerivativeVar (Var):
     ''' __init__()'''
 
     from pygeode.var import Var
+    import numpy as np
 
     self.daxis = daxis = var.whichaxis(daxis)
-    assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
+    assert var.shape[daxis] > 2, "need at least three values along differentiation axis"
 
     if dx is not None:
       if dx.naxes == 1:
@@ -132,7 +137,10 @@ class SecondDerivativeVar (Var):
     else:
       name = 'd2(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # Derivatives of integers aren't integers
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -161,7 +169,7 @@ class SecondDerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
     allaxis = allview.get(self.dx)
 
     # Define a map from these unique points back to the left & right arrays
-- 
2.43.0


From ba4fb4c9264287f95ef8b5a4d131611cd901917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 07/63] fix: cumsum includes every element; integrate error
 path

---
 pygeode/intgr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 1f43613..3fe0530 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -16,7 +16,7 @@ class IntegrateVar (Var):
     iaxis = var.whichaxis(iaxis)
     self.iaxis = iaxis
     if var.shape[iaxis] < 2:
-      raise ValueError('At least two values are needed to integrate %s along axis %s' % (var.name, var.axis[iaxis]))
+      raise ValueError('At least two values are needed to integrate %s along axis %s' % (var.name, var.axes[iaxis]))
 
     self.var = var
 
@@ -100,9 +100,12 @@ class IntegrateVar (Var):
     elif self.type == 'rectr':
       dat = np.concatenate([d0, (d*data[sl2])[slr]], iaxis)
     elif self.type == 'cumsum':
-      dat = np.concatenate([d0, (data[sl2])[slr]], iaxis)
+      dat = np.concatenate([d0, data[slr]], iaxis)
 
-    out = np.add.accumulate(dat, iaxis, 'd')[slr]
+    out = np.add.accumulate(dat, iaxis, 'd')
+    # The cumulative sum includes the first value (same behaviour as np.cumsum)
+    if self.type == 'cumsum': out = out[sl2]
+    out = out[slr]
 
     # Select the requested values along the integration axis
     sl1 = list(sl1)
-- 
2.43.0


From a02b2ed5168f396b21b4c28491611108c898ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 08/63] fix: composites with per-event windows, integer data
 and flattening over arbitrary views

---
 pygeode/composite.py | 81 ++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 55 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 8afc777..3f56e31 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -40,11 +40,10 @@ class CompositeVar(Var):
     # Event lengths can either be specified per event or as a single length
     if hasattr(evlen, '__len__'):
       evlen = np.array(evlen)
-      mevlen = (evlen - evoff + mevoff).max()
       assert evlen.shape == ievents.shape, "The number of event lengths provided does not match the number of events."
     else:
-      mevlen = evlen
-      evlen = np.ones(n, 'i') * mevlen
+      evlen = np.ones(n, 'i') * evlen
+    mevlen = (evlen - evoff + mevoff).max()
 
     # Construct event and offset axes
     from pygeode.timeaxis import Time, Yearless
@@ -67,15 +66,17 @@ class CompositeVar(Var):
     self.mevoff = mevoff
 
     for i, (iev, el, eo) in enumerate(zip(ievents, evlen, evoff)):
-      if iev - eo < 0:
-         self.evoffs[i] += iev - eo
-         self.evlens[i] -= iev - eo
-      if iev - eo + el >= len(caxis):
-         self.evlens[i] = len(caxis) - (iev - eo)
+      # Number of points before the event, and from the event onward
+      nbefore = min(eo, iev)
+      nafter = min(el - eo, len(caxis) - iev)
+      self.evoffs[i] = nbefore
+      self.evlens[i] = nbefore + nafter
 
       #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
          #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Need to be able to represent missing values
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   #}}}
 
   def getview (self, view, pbar):
@@ -213,7 +214,7 @@ class FlattenVar(Var):
     if inner == -1:
       if isinstance(var, CompositeVar):
          out = var.whichaxis(var.event.__class__)
-         inner = var.whichaxis(var.offset.__class__)
+         inner = out + 1
          stride = len(var.axes[inner])
          vals = concatenate([e + var.axes[inner].values for e in var.axes[out].values])
       else:
@@ -235,60 +236,30 @@ class FlattenVar(Var):
     self.stride = stride
     self.source_var = var
 
-    self.name = var.name
-
-    Var.__init__(self, axes, var.dtype)
+    Var.__init__(self, axes, var.dtype, name=var.name)
   #}}}
 
   def getview (self, view, pbar):
   # {{{
-    # TODO: handle strides, random access...
+    import numpy as np
     io = self.iout  # Index of outer axis in source var
     ii = self.iin   # Index of inner axis in source var
     ifl = self.iout # Index of flattened axis
-    stride = self.stride
     src = self.source_var
 
-    import numpy as np
-    out = np.empty(view.shape, self.dtype)
-    slf = view.slices[ifl]  # Again, need these indices in the space of the variable (?)
-    slo = slice(int(np.floor(slf.start / float(stride))),
-                          int(np.ceil(slf.stop / float(stride))))
-
-    inviewt = view.replace_axis(ifl, src.axes[io], slice(None))
-    inviewt = inviewt.add_axis(ii, src.axes[ii], slice(None))
-
-    sllen = lambda sl: sl.stop-sl.start
-    if sllen(slo) == 1: # Request lies within a single stride
-      # Build inner slice
-      sli = slice(slf.start - slo.start * stride, slf.stop - slo.start * stride)
-
-      # Set bounds on inner view
-      inview = inviewt.modify_slice(io, slo).modify_slice(ii, sli)
-
-      return inview.get(src, pbar=pbar.subset(0, 100)).reshape(view.shape) # Get data, reshape
-    else:     # Request spans multiple strides;
-      # Need to get interior slice, initial and final partial strides
-      # Build slices
-      slos = [slice(slo.start, slo.start + 1),  # Initial
-              slice(slo.start + 1, slo.stop - 1),  # Interior (should be degenerate if slo.cnt=2)
-              slice(slo.stop - 1, slo.stop)]  # Final
-
-      slis = [slice(slf.start - slo.start * stride, stride),
-              slice(0, stride),
-              slice(0, slf.stop - (slo.stop - 1) * stride)]
-
-      # Compute appropriate shape of each request
-      shp = list(view.shape)
-      shapes = [list(shp) for shp[ifl] in [sllen(slis[0]), sllen(slos[1]) * stride, sllen(slis[2])]]
-      progs = np.cumsum([0] + [s[io] for s in shapes])
-      progs = [(100.*progs[i]/progs[-1], 100.*progs[i+1]/progs[-1]) for i in range(len(progs) - 1)]
-
-      # Construct views
-      inviews = [inviewt.modify_slice(io, slo).modify_slice(ii, sli) for slo, sli in zip(slos, slis)]
-
-      # Get data, reshape, concatenate along flattened axis
-      return np.concatenate([inv.get(src, pbar=pbar.subset(*p)).reshape(shp) for inv, shp, p in zip(inviews, shapes, progs)], ifl)
+    # Position of each requested point along the outer and inner axes
+    ind = view.integer_indices[ifl]
+    outer, iouter = np.unique(ind // self.stride, return_inverse=True)
+    inner, iinner = np.unique(ind % self.stride, return_inverse=True)
+
+    # Get the data for all the points needed along these two axes
+    inview = view.replace_axis(ifl, src.axes[io], outer).add_axis(ii, src.axes[ii], inner)
+    data = inview.get(src, pbar=pbar)
+
+    # Pick out the requested points (the inner axis comes right after the outer one)
+    sl = [slice(None)] * src.naxes
+    sl[io], sl[ii] = iouter, iinner
+    return data[tuple(sl)]
   # }}}
 
 def flatten (var, inner = -1, naxis=None):
-- 
2.43.0


From ab38eb21ec34b7c04fdc604c7d844e4c807980ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 09/63] fix: interpolation of profiles without valid points,
 and of profiles with their own coordinate direction

---
 pygeode/interp.c | 53 ++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/pygeode/interp.c b/pygeode/interp.c
index 03d0066..840ff2b 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -36,30 +36,7 @@ int interpgsl (int narrays, int nxin, int nxout,
 
   int i, j, n, start, end, step, status; 
   double *local_xin, *local_xout, *local_yin;
-  double dx, xmin, ymin, xmax, ymax;
-
-  // Check the order of the x coordinates
-  // If the order seems to be reversed, then flip the sign of the coordinates
-  if (nxin > 1) {
-    i = 0;
-    do {
-      dx = xin[i + 1] - xin[i];
-    } while (!isfinite(dx) && ++i < nxin);
-  } else {
-    dx = 1.;
-  }
-
-  if (!isfinite(dx) || dx == 0. ) { return -1; }
-  
-  if (dx < 0.) {
-    start = nxin - 1; 
-    end = -1;
-    step = -1;
-  } else {
-    start = 0;
-    end = nxin;
-    step = 1;
-  }
+  double xfirst, xmin, ymin, xmax, ymax;
 
   local_xin = (double *) malloc(nxin * sizeof(double));
   local_yin = (double *) malloc(nxin * sizeof(double));
@@ -76,6 +53,20 @@ int interpgsl (int narrays, int nxin, int nxout,
   if (NULL == acc) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate gsl_interp_accel object."); goto clean_err;}
 
   for (n = 0; n < narrays; n++) {
+    // Check the order of the x coordinates (of this array)
+    // If the order seems to be reversed, then traverse it backwards
+    if (n == 0 || loop_xin) {
+      start = 0; end = nxin; step = 1;
+      for (i = 0; i < nxin && !isfinite(xin[i]); i++);
+      xfirst = (i < nxin) ? xin[i] : 0.;
+      for (; i < nxin; i++) {
+        if (isfinite(xin[i]) && xin[i] != xfirst) {
+          if (xin[i] < xfirst) { start = nxin - 1; end = -1; step = -1; }
+          break;
+        }
+      }
+    }
+
     // Search for nans, resort if necessary
     for (i = start, j = 0; i != end; i += step) {
       if (isfinite(yin[i]) && isfinite(xin[i])) {
@@ -89,17 +80,13 @@ int interpgsl (int narrays, int nxin, int nxout,
       }
     }
 
-    // Save extremal points for extrapolation
-    xmin = local_xin[0];
-    xmax = local_xin[j-1];
-
     if (loop_xout) {
       for (i = 0; i < nxout; i++) local_xout[i] = xout[i]; 
     }
 
     // If we have insufficient points for the interpolation type, then fill
     // the output array with NaNs.
-    if (j < type->min_size) {
+    if (j < (int)type->min_size) {
       for (j = 0; j < nxout; j++, xout++, yout++) *yout = NAN;
       // Update the input/output pointers, be consistent with the normal case
       // below.
@@ -109,6 +96,10 @@ int interpgsl (int narrays, int nxin, int nxout,
       continue;
     }
 
+    // Save extremal points for extrapolation
+    xmin = local_xin[0];
+    xmax = local_xin[j-1];
+
     interp = gsl_interp_alloc (type, j);
     if (NULL == interp) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate interp object."); goto clean_err;}
 
@@ -131,6 +122,7 @@ int interpgsl (int narrays, int nxin, int nxout,
 
     gsl_interp_accel_reset (acc);
     gsl_interp_free (interp);
+    interp = NULL;
 
     if (loop_xin) { xin += nxin; }
     if (!loop_xout) { xout -= nxout; }
@@ -190,6 +182,9 @@ static PyObject *interpcore_interpgsl (PyObject *self, PyObject *args) {
   else if (strcmp(type_str,"akima")==0) type = gsl_interp_akima;
   else if (strcmp(type_str,"akima_periodic")==0) type = gsl_interp_akima_periodic;
   else {
+    Py_DECREF(xin_array);
+    Py_DECREF(xout_array);
+    Py_DECREF(yin_array);
     PyErr_SetString(PyExc_KeyError, type_str);
     return NULL;
   }
-- 
2.43.0


From 617243a2034f2d93434b22357e335de95d1735a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 10/63] fix: climatologies of integer data, standard deviation
 of constant series, precision of trends

---
 pygeode/climat.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..9943b7f 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -54,7 +54,8 @@ def loopover(varlist, view, pbar):
   for i, (inv, climv) in enumerate(loop):
     subpbar = pbar.part(i, len(loop))
     data = [inv.get(var, pbar = subpbar.subset(prog[j],prog[j+1])) for j,var in enumerate(varlist)]
-    data = [np.ascontiguousarray(d) for d in data]
+    # (integer data is accumulated in double precision)
+    data = [np.ascontiguousarray(d, dtype=d.dtype if np.issubdtype(d.dtype, np.inexact) else 'd') for d in data]
     slices = list(climv.slices)
     slices[ti] = slice(None)
     yield slices, data, climv.integer_indices[ti]
@@ -129,7 +130,7 @@ class Seasonal(TimeMap):
     try:
       SeasonalAxis = SeasonalTAxes[intime.__class__]
     except:
-      raise NotImplemented('Seasonal Time axis not implemented for this calendar')
+      raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
     outax = SeasonalAxis(values = intime.values, \
@@ -153,7 +154,7 @@ class Seasonal(TimeMap):
     try:
       SeasonalAxis = SeasonalTAxes[intime.__class__]
     except:
-      raise NotImplemented('Seasonal Time axis not implemented for this calendar')
+      raise NotImplementedError('Seasonal Time axis not implemented for this calendar')
 
     # Wrap in axis with a seasonal axis to allow reduction
     return SeasonalAxis(values = intime.values, \
@@ -167,6 +168,7 @@ class TimeOp(Var):
 # {{{
   extra_dims = ()  # Override this in a subclass if needed (see Trend class)
   def __init__ (self, var):
+    import numpy as np
     from pygeode.var import Var
     from pygeode.timeaxis import CalendarTime
     self.ti  = ti = var.whichaxis(CalendarTime)
@@ -182,7 +184,9 @@ class TimeOp(Var):
 
     axes = list(var.axes)
     axes[ti] = outtime
-    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts)
+    # Averages of integer data are not integers
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+    Var.__init__ (self, axes+list(self.extra_dims), dtype=dtype, atts=var.atts)
 # }}}
 
 class Mean(TimeOp):
@@ -251,6 +255,7 @@ class Stdev(TimeOp):
 
     x /= nx
     var = (xx - nx*x**2) / (nx - 1)
+    var[var < 0] = 0  # rounding errors
     return np.sqrt(var)
 # }}}
 
@@ -280,6 +285,7 @@ class NANStdev(TimeOp):
 
     x /= nx
     var = (xx - nx*x**2) / (nx - 1)
+    var[var < 0] = 0  # rounding errors
     return np.sqrt(var)
 # }}}
 
@@ -329,13 +335,14 @@ class Trend(TimeOp):
 
     cview = view.remove(Coef)  # view without regard to a 'coefficient' axis
 
-    X = np.zeros(cview.shape, self.dtype)
+    # Accumulate in double precision (the times in seconds are large numbers)
+    X = np.zeros(cview.shape, 'd')
     nX = np.zeros(cview.shape, int)
-    F = np.zeros(cview.shape, self.dtype)
+    F = np.zeros(cview.shape, 'd')
     nF = np.zeros(cview.shape, int)
-    XF = np.zeros(cview.shape, self.dtype)
+    XF = np.zeros(cview.shape, 'd')
     nXF = np.zeros(cview.shape, int)
-    X2 = np.zeros(cview.shape, self.dtype)
+    X2 = np.zeros(cview.shape, 'd')
     nX2 = np.zeros(cview.shape, int)
 
 
-- 
2.43.0


From 4ca1f703afda9f3d4a4c044d86f645a682a5e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 11/63] fix: shape of empty results from View.get

---
 pygeode/view.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index c4a560e..0ad1ec6 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -228,7 +228,10 @@ class View:
 #      print 'mapped view:', newview.axes, newview.slices
 #      raise Exception
 
-      return np.empty([s if o > -1 else 1 for s,o in zip(newview.shape,order)], var.dtype)
+      if not conform: return np.empty(newview.shape, var.dtype)
+      shape = [s if o > -1 else 1 for s,o in zip(self.shape,order)]
+      assert any(s == 0 for s in shape), "Can't map %s to %s" % (repr(self), repr(var))
+      return np.empty(shape, var.dtype)
     assert newview.axes == var.axes                              # Or it gets the hose again
 
     # Only request unique elements from the input
-- 
2.43.0


From 51f80bae1272ebf772c04f1924b226d5f2c7a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 12/63] fix: seasons of the standard calendar at month ends and
 in leap years; seasonal axis of one time

---
 pygeode/timeaxis.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..44c73cc 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -843,22 +843,23 @@ def makeSeasonalAxis(Base):
   # {{{
       import numpy as np
       year, month, day, hour, minute, second = Base._get_dates(dates)
-      doy = Base._getdoy(self, dates)         # Base season on day of the year (no support for leap years(!))
-
-      if hasattr(year, '__len__'):
-        season = np.zeros(len(year), 'i')
-        for i, s in enumerate(self.season_boundaries):
-          mplus = (s[0] <= doy - 365) & (doy - 365 < s[1])
-          m = (s[0] <= doy) & (doy < s[1])
-          mminus = (s[0] <= doy + 365) & (doy + 365 < s[1])
-          year[mplus] += 1
-          year[mminus] -= 1
-          season[mplus | m | mminus] = i + 1
-      else:
-        for i, s in enumerate(self.season_boundaries):
-          if s[0] <= doy - 365 < s[1]: year += 1; season = i + 1
-          elif s[0] <= doy < s[1]: season = i + 1
-          elif s[0] <= doy + 365 < s[1]: year -= 1; season = i + 1
+      use_arrays = any(hasattr(d, '__len__') for d in dates.values())
+      year, month, day = [np.array(f, dtype='int32', ndmin=1) for f in (year, month, day)]
+
+      # Base season on the day of the year, not counting any leap day
+      ndays = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
+      doy = np.cumsum(ndays)[month-1] - ndays[month-1] + np.minimum(day, ndays[month-1])
+
+      season = np.zeros(len(year), 'i')
+      for i, s in enumerate(self.season_boundaries):
+        mplus = (s[0] <= doy - 365) & (doy - 365 < s[1])
+        m = (s[0] <= doy) & (doy < s[1])
+        mminus = (s[0] <= doy + 365) & (doy + 365 < s[1])
+        year[mplus] += 1
+        year[mminus] -= 1
+        season[mplus | m | mminus] = i + 1
+
+      if not use_arrays: year, season = year[0], season[0]
 
       return {'year':year, 'season':season}
   # }}}
-- 
2.43.0


From 455bef7c4da66fae95607cb857989b98426be100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 13/63] fix: smoothing of integer, complex and missing data

---
 pygeode/fft_smooth.py | 11 ++++++++---
 pygeode/smooth.py     | 33 +++++++++++++++------------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index 1482b1c..dc306d4 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -12,7 +12,10 @@ class FFTSmoothVar (Var):
     self.saxis = saxis
     self.var = var
     self.maxharm = maxharm
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Smoothing integers doesn't give integers
+    import numpy as np
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -37,8 +40,10 @@ class FFTSmoothVar (Var):
     from numpy import fft
     if 'complex' in self.dtype.name:
       ct=fft.fft(src,self.shape[saxis],saxis)
-      smsl=[ slice(maxharm,-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
-      ct[smsl]=0
+      # (the last maxharm-1 coefficients are those of the negative frequencies)
+      stop = self.shape[saxis] - max(maxharm - 1, 0)
+      smsl = [slice(maxharm,max(stop,maxharm)) if i == saxis else slice(None) for i in range(self.naxes)]
+      ct[tuple(smsl)]=0
       st = fft.ifft(ct, self.shape[saxis], saxis)
     else:
       ct=fft.rfft(src,self.shape[saxis],saxis)
diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..cc060ff 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -24,23 +24,20 @@ class SmoothVar (Var):
     self.kernel /= np.sum(self.kernel)
     self.kernel.shape = [self.klen if i == saxis else 1 for i in range(var.naxes)]
 
-    # Determine which convolution function to use
+    # Smoothing integers doesn't give integers
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
+
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+  # }}}
+
+  def _convolve (self, src):
+  # {{{
+    import numpy as np
     from scipy import signal as sg
-    tdata = np.ones(len(kernel), 'd')
-    if self.fft:
-      try:
-        sg.fftconvolve(tdata, kernel, 'same', old_behaviour=False)
-        self._convolve = lambda x, y, z: sg.fftconvolve(x, y, z, old_behaviour=False)
-      except TypeError:
-        self._convolve = sg.fftconvolve
-    else:
-      try:
-        sg.convolve(tdata, kernel, 'same', old_behaviour=False)
-        self._convolve = lambda x, y, z: sg.convolve(x, y, z, old_behaviour=False)
-      except TypeError:
-        self._convolve = sg.convolve
-
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # The Fourier transform would spread missing (or infinite) values over the whole axis
+    if self.fft and np.all(np.isfinite(src)):
+      return sg.fftconvolve(src, self.kernel, 'same')
+    return sg.convolve(src, self.kernel, 'same', method='direct')
   # }}}
 
   def getview (self, view, pbar):
@@ -78,7 +75,7 @@ class SmoothVar (Var):
 
     for outsl, (indata,) in loopover(self.var, aview, preserve=[saxis], pbar=pbar):
       src_shape = indata.shape[:saxis] + (src_saxislen,) + indata.shape[saxis+1:]
-      src = np.zeros(src_shape, self.var.dtype)
+      src = np.zeros(src_shape, self.dtype)
       sslo[saxis] = slice(mleft_len, src_saxislen - mright_len)
       src[tuple(sslo)] = indata
 
@@ -94,7 +91,7 @@ class SmoothVar (Var):
         sslo[saxis] = slice(-mright_len, None)
         src[tuple(sslo)] = src[tuple(ssli)]
 
-      out[outsl] = self._convolve(src, self.kernel, 'same')[tuple(cnvsl)]
+      out[outsl] = self._convolve(src)[tuple(cnvsl)]
 
     return out
   # }}}
-- 
2.43.0


From ca579aec33e244bc6b286affc0921922034c89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 14/63] fix: statistics: means of missing data, axis order and
 broadcasting of operands, paired t-test, residual variance and outputs of
 multiple_regress, correlation over all axes

---
 pygeode/stats.py | 124 ++++++++++++++++++++++++++++-------------------
 1 file changed, 73 insertions(+), 51 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b14b690..6754636 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -136,7 +136,7 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
   den = 1 - rho**2
   # Saturate the denominator (when correlation is perfect) to avoid div by zero warnings
   eps = 1e-8
-  den[den < eps] = eps
+  den = np.maximum(den, eps)
 
   t = np.zeros(oview.shape, 'd')
   p = np.zeros(oview.shape, 'd')
@@ -328,7 +328,7 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   t = np.zeros(oview.shape, 'd')
   p = np.zeros(oview.shape, 'd')
 
-  sige[dmsk] = (yy[dmsk] - m[dmsk] * xy[dmsk]) / N_eff[dmsk]
+  sige[dmsk] = np.maximum(yy[dmsk] - m[dmsk] * xy[dmsk], 0.) / N_eff[dmsk]
   sigm[dmsk] = np.sqrt(sige[dmsk] / xx[dmsk])
   sige[dmsk] = np.sqrt(sige[dmsk])
   t[dmsk] = np.abs(m[dmsk]) / sigm[dmsk]
@@ -388,7 +388,7 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   return ds
 # }}}
 
-def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
+def multiple_regress(Xs, Y, axes=None, N_fac=None, output='beta,p', pbar=None):
 # {{{
   r'''Computes least-squares multiple regression of Y against variables Xs.
 
@@ -412,7 +412,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   output : string, optional
     A string determining which parameters are returned; see list of possible outputs
     in the Returns section. The specifications must be separated by a comma. Defaults 
-    to 'B,p'.
+    to 'beta,p'.
 
   pbar : progress bar, optional
     A progress bar object. If nothing is provided, a progress bar will be displayed
@@ -429,14 +429,14 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     Note that a constant term is not included by default. The following
     parameters can be returned:
 
-    * 'B': Linear coefficients :math:`\beta_i` of each regressor
+    * 'beta': Linear coefficients :math:`\beta_i` of each regressor
     * 'r2': Fraction of the variance in Y explained by all Xs (:math:`R^2`)
     * 'p': p-value of regession; see notes.
     * 'sb': Standard deviation of each linear coefficient
     * 'covb': Covariance matrix of the linear coefficients
     * 'se': Standard deviation of residuals
 
-    The outputs 'B', 'p', and 'sb' will produce as many outputs as there are
+    The outputs 'beta', 'p', and 'sb' will produce as many outputs as there are
     regressors. 
 
   Notes
@@ -502,6 +502,9 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   for outsl, datatuple in loopover(Xs + [Y], oview, inaxes, pbar=pbar):
     ydata =  datatuple[-1].astype('d')
     xdata = [datatuple[ i].astype('d') for i in range(Nr)]
+    # (not every regressor needs to have all of the axes)
+    xdata = list(np.broadcast_arrays(ydata, *xdata))
+    ydata = xdata.pop(0)
     y[outsl]  += npsum(ydata,    siaxes)
     yy[outsl] += npsum(ydata**2, siaxes)
     for i in range(Nr):
@@ -529,7 +532,10 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   if N_fac is None: N_eff = N
   else: N_eff = N // N_fac
 
-  sigbeta = [np.sqrt((yy - vare) * xxinv[..., i, i] / N_eff) for i in range(Nr)]
+  # Variance of the residuals
+  sige = (yy - vare) / (N_eff - Nr)
+
+  sigbeta = [np.sqrt(sige * xxinv[..., i, i]) for i in range(Nr)]
 
   pbar.update(100)
 
@@ -541,7 +547,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from .axis import NonCoordinateAxis
 
   ra  = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor')
-  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor2')
+  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor2 = xns, name = 'regressor2')
   Nd = len(oaxes)
 
   rvs = []
@@ -554,19 +560,19 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   if 'r2' in output:
     vary = (yy - y**2/N)
     R2 = 1 - (yy - vare) / vary
-    R2 = Var(oaxes, values=R2, name='R2')
+    R2 = Var(oaxes, values=R2, name='r2')
     R2.atts['longname'] = 'fraction of variance explained'
     rvs.append(R2)
 
   if 'p' in output:
     p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), N_eff-Nr)) for i in range(Nr)]
-    p = np.transpose(np.array(p), [Nd] + list(range(Nd)))
+    p = np.transpose(np.array(p), list(range(1, Nd+1)) + [0])
     p = Var(oaxes + (ra,), values=p, name='p')
     p.atts['longname'] = 'p-values'
     rvs.append(p)
 
   if 'sb' in output:
-    sigbeta = np.transpose(np.array(sigbeta), [Nd] + list(range(Nd)))
+    sigbeta = np.transpose(np.array(sigbeta), list(range(1, Nd+1)) + [0])
     sb = Var(oaxes + (ra,), values=sigbeta, name='sb')
     sb.atts['longname'] = 'standard deviation of linear coefficients'
     rvs.append(sb)
@@ -575,14 +581,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     sigmat = np.zeros(os2, 'd')
     for i in range(Nr):
       for j in range(Nr):
-        #sigmat[..., i, j] = np.sqrt((yy - vare) * xxinv[..., i, j] / N_eff)
-        sigmat[..., i, j] = (yy - vare) * xxinv[..., i, j] / N_eff
+        sigmat[..., i, j] = sige * xxinv[..., i, j]
     covb = Var(oaxes + (ra, ra2), values=sigmat, name='covb')
     covb.atts['longname'] = 'Covariance matrix of the linear coefficients'
     rvs.append(covb)
 
   if 'se' in output:
-    se = np.sqrt((yy - vare) / N_eff)
+    se = np.sqrt(sige)
     se = Var(oaxes, values=se, name='se')
     se.atts['longname'] = 'standard deviation of residual'
     rvs.append(se)
@@ -677,12 +682,14 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
 
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
+  siaxes = list(range(len(oaxes), len(srcaxes)))
 
-  ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
-  iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
+  # Each mean is taken over the variable's own axes
+  xraxes = [[a for a in X.axes if a.map_to(srcaxes[i]) is not None][0] for i in riaxes]
+  yraxes = [[a for a in Y.axes if a.map_to(srcaxes[i]) is not None][0] for i in riaxes]
 
-  Nx = np.product([len(X.axes[i]) for i in ixaxes])
-  Ny = np.product([len(Y.axes[i]) for i in iyaxes])
+  Nx = np.product([len(a) for a in xraxes])
+  Ny = np.product([len(a) for a in yraxes])
   assert Nx > 1, '%s has only one element along the reduction axes' % X.name
   assert Ny > 1, '%s has only one element along the reduction axes' % Y.name
 
@@ -691,41 +698,41 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
     pbar = PBar()
 
   # Construct work arrays
-  x  = np.full(oview.shape, np.nan, 'd')
-  y  = np.full(oview.shape, np.nan, 'd')
-  xx = np.full(oview.shape, np.nan, 'd')
-  yy = np.full(oview.shape, np.nan, 'd')
-  Nx = np.full(oview.shape, np.nan, 'd')
-  Ny = np.full(oview.shape, np.nan, 'd')
+  x  = np.zeros(oview.shape, 'd')
+  y  = np.zeros(oview.shape, 'd')
+  xx = np.zeros(oview.shape, 'd')
+  yy = np.zeros(oview.shape, 'd')
+  Nx = np.zeros(oview.shape, 'd')
+  Ny = np.zeros(oview.shape, 'd')
 
   # Accumulate data
-  for outsl, (xdata,) in loopover([X], oview, pbar=pbar):
+  for outsl, (xdata,) in loopover([X], oview, oaxes + xraxes, pbar=pbar):
     xdata = xdata.astype('d')
-    x[outsl]  = np.nansum([x[outsl],  npnansum(xdata, ixaxes)], 0)
-    xx[outsl] = np.nansum([xx[outsl], npnansum(xdata**2, ixaxes)], 0)
+    x[outsl]  += npnansum(xdata, siaxes)
+    xx[outsl] += npnansum(xdata**2, siaxes)
 
     # Count of non-NaN data points
-    Nx[outsl] = np.nansum([Nx[outsl], npnansum(~np.isnan(xdata), ixaxes)], 0) 
+    Nx[outsl] += npnansum(~np.isnan(xdata), siaxes)
 
-  for outsl, (ydata,) in loopover([Y], oview, pbar=pbar):
+  for outsl, (ydata,) in loopover([Y], oview, oaxes + yraxes, pbar=pbar):
     ydata = ydata.astype('d')
-    y[outsl]  = np.nansum([y[outsl],  npnansum(ydata, iyaxes)], 0)
-    yy[outsl] = np.nansum([yy[outsl], npnansum(ydata**2, iyaxes)], 0)
+    y[outsl]  += npnansum(ydata, siaxes)
+    yy[outsl] += npnansum(ydata**2, siaxes)
 
     # Count of non-NaN data points
-    Ny[outsl] = np.nansum([Ny[outsl], npnansum(~np.isnan(ydata), iyaxes)], 0) 
+    Ny[outsl] += npnansum(~np.isnan(ydata), siaxes)
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (Nx > 1) & (Ny > 1)
   xx[imsk] -= (x*x)[imsk] / Nx[imsk]
   xx[imsk] /= (Nx[imsk] - 1)
 
-  x[imsk]  /= Nx[imsk]
-
   yy[imsk] -= (y*y)[imsk] / Ny[imsk]
   yy[imsk] /= (Ny[imsk] - 1)
 
-  y[imsk]  /= Ny[imsk]
+  # (there is no mean without any data)
+  x /= np.where(Nx > 0, Nx, np.nan)
+  y /= np.where(Ny > 0, Ny, np.nan)
 
   # Ensure variances are non-negative
   xx[xx <= 0.] = 0.
@@ -888,15 +895,14 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
     riaxes = ri_new
 
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
+  inaxes = oaxes + [srcaxes[i] for i in riaxes]
   oview = View(oaxes) 
+  siaxes = list(range(len(oaxes), len(srcaxes)))
 
-  ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
-  Nx = np.product([len(X.axes[i]) for i in ixaxes])
-
-  iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
-  Ny = np.product([len(Y.axes[i]) for i in iyaxes])
+  Nx = np.product([len([a for a in X.axes if a.map_to(srcaxes[i]) is not None][0]) for i in riaxes])
+  Ny = np.product([len([a for a in Y.axes if a.map_to(srcaxes[i]) is not None][0]) for i in riaxes])
 
-  assert ixaxes == iyaxes and Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
+  assert Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
   
   if pbar is None:
     from pygeode.progress import PBar
@@ -906,24 +912,26 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   assert Ny > 1, '%s has only one element along the reduction axes' % Y.name
 
   # Construct work arrays
-  d  = np.full(oview.shape, np.nan, 'd')
-  dd = np.full(oview.shape, np.nan, 'd')
-  N  = np.full(oview.shape, np.nan, 'd')
+  d  = np.zeros(oview.shape, 'd')
+  dd = np.zeros(oview.shape, 'd')
+  N  = np.zeros(oview.shape, 'd')
 
   # Accumulate data
-  for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes=srcaxes, pbar=pbar):
+  for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes, pbar=pbar):
     ddata = xdata.astype('d') - ydata.astype('d')
-    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, ixaxes)], 0)
-    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, ixaxes)], 0)
+    d[outsl]  += npnansum(ddata, siaxes)
+    dd[outsl] += npnansum(ddata**2, siaxes)
 
     # Count of non-NaN data points
-    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), ixaxes)], 0) 
+    N[outsl] += npnansum(~np.isnan(ddata), siaxes)
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (N > 1)
   dd[imsk] -= (d*d)[imsk]/N[imsk]
   dd[imsk] /= (N[imsk] - 1)
-  d[imsk]  /= N[imsk]
+
+  # (there is no mean without any data)
+  d /= np.where(N > 0, N, np.nan)
 
   # Ensure variance is non-negative
   dd[dd <= 0.] = 0.
@@ -938,13 +946,16 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   ci  = np.zeros(oview.shape, 'd')
 
   den = np.zeros(oview.shape, 'd')
-  den[emsk] = np.sqrt(dd[emsk]/(eN[emsk] - 1))
+  den[emsk] = np.sqrt(dd[emsk]/eN[emsk])
   dmsk = (den > 0.)
 
   p[dmsk]  = np.abs(d[dmsk]/den[dmsk])
   p[dmsk]  = 2. * (1. - tdist.cdf(p[dmsk], eN[dmsk] - 1))
   ci[dmsk] = tdist.ppf(1. - alpha/2, eN[dmsk] - 1) * den[dmsk]
 
+  p[~dmsk]  = np.nan
+  ci[~dmsk] = np.nan
+
   pbar.update(100)
 
   # Construct dataset to return
@@ -1043,7 +1054,13 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
   from pygeode.view import View
 
-  riaxes = [X.whichaxis(n) for n in axes]
+  # Split output request now
+  ovars = ['m', 'p', 'ci']
+  output = [o for o in output.split(',') if o in ovars]
+  if len(output) < 1: raise ValueError('No valid outputs are requested. Possible outputs are %s.' % str(ovars))
+
+  if axes is None: riaxes = list(range(X.naxes))
+  else: riaxes = [X.whichaxis(n) for n in axes]
   raxes = [a for i, a in enumerate(X.axes) if i in riaxes]
   oaxes = [a for i, a in enumerate(X.axes) if i not in riaxes]
   oview = View(oaxes) 
@@ -1101,6 +1118,11 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   p[imsk]  = 2. * (1. - tdist.cdf(t[imsk], eNa[imsk] - 1))
   ci[imsk] = tdist.ppf(1. - alpha/2, eNa[imsk] - 1) * sdom[imsk]
 
+  # (nothing can be said without any data)
+  x[~imsk] = np.nan
+  p[~imsk] = np.nan
+  ci[~imsk] = np.nan
+
   pbar.update(100)
 
   name = X.name if X.name != '' else 'X'
-- 
2.43.0


From 584ac8f5f0e2e7ea992c660822a40ec6a9609d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 15/63] fix: nansum does not use weights by default, as
 documented

---
 pygeode/reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 9e66abd..38ea3fb 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -717,7 +717,7 @@ def nansum (var, *axes, **kwargs):
     --------
     getweights
   '''
-  weights = kwargs.pop('weights', True)
+  weights = kwargs.pop('weights', False)
   if weights is True:
     weights = var.getweights(axes)
 
-- 
2.43.0


From ec7b0b81a95b4355dcd06f91c8e1a278a1351d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 16/63] fix: selection by text in auxiliary arrays of station
 axes, unknown selection prefixes, dates with seconds in text

---
 pygeode/axis.py     | 7 +++++++
 pygeode/pygrc       | 4 ++--
 pygeode/timeaxis.py | 6 +++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index fd43acc..49dc31f 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -407,6 +407,10 @@ class Axis(Var):
       else:
         prefix, ax = '', k
 
+      if not set(prefix) <= set('iln'):
+        if ignore_mismatch: continue
+        raise Exception("unrecognized prefix '%s' in '%s'" % (prefix, k))
+
       if 'i' in prefix:
         ################### Select by index; key must correspond to this axis
         if not self.has_alias(ax):
@@ -1270,6 +1274,9 @@ class NonCoordinateAxis(Axis):
   # How to map string values to dummy indices
   def str_as_val(self, key, s):
 # {{{
+    # Text in another auxiliary array is compared as it is
+    if key in self.auxarrays and not self.has_alias(key):
+      return s if self.auxarrays[key].dtype.kind in 'SUO' else float(s)
     # Special case: referencing an aux array with the same name as the axis.
     if self._name in self.auxarrays:
       values = list(self.auxarrays[self._name])
diff --git a/pygeode/pygrc b/pygeode/pygrc
index 72411b3..6f1e63e 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -60,7 +60,7 @@ CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #                         (1/24., '$H:$M',    '$d $b $Y'), # Larger than 1 hour
 #                         (0.   , '$H:$M:$S', '$d $b $Y')] # Less than 1 hour
 CalendarTime.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
    ^(?P<year>\d+)(-(?P<month>\d{2})(-(?P<day>\d{2})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?)?$
    ^(?P<year>\d+)(-(?P<day>\d{3})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?$
 
@@ -70,7 +70,7 @@ Yearless.formatstr = day $d, $H:$M:$S
 #                     (1/24., '$H:$M',    'day $d'), # Larger than 1 hour
 #                     (0.  ,  '$H:$M:$S', 'day $d')] # Less than 1 hour
 Yearless.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d+)$
    ^(?P<day>\d+)(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?$
 
 [Plotting]
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 44c73cc..7f47221 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -344,7 +344,7 @@ class CalendarTime(Time):
           (0.  , '$H:$M:$S',  '$d $b $Y')] # Less than 1 hour
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
 
   allowed_fields = ('year', 'month', 'day', 'hour', 'minute', 'second')
 
@@ -643,7 +643,7 @@ class CalendarTime(Time):
       if res is not None: break
 
     if res is None:
-      raise ValueError('String "%s" not recognized as a time')
+      raise ValueError('String "%s" not recognized as a time' % s)
 
     d = {}
     for k, v in res.groupdict().items():
@@ -1025,7 +1025,7 @@ class Yearless(CalendarTime):
   allowed_fields = ('day', 'hour', 'minute', 'second')
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2})']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2})\s?)|^)(?P<day>\d{1,2})']
 
   _date_as_val = lib.date_as_val_yearless
   _val_as_date = lib.val_as_date_yearless
-- 
2.43.0


From 5be2633c47f2d03c58216e04271a32c480e2a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 17/63] fix: arctand2, integer overflow when combining small
 integers with scalars, axes of different explicit classes are never mapped

---
 pygeode/axis.py  | 4 ++++
 pygeode/ufunc.py | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 49dc31f..24ec2b4 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -250,6 +250,10 @@ class Axis(Var):
     # special case: both axes are identical
     if self == other: return np.arange(len(self))
 
+    # Axes which are explicitly classed as different are never mapped
+    cl1, cl2 = self.auxatts.get('class', None), other.auxatts.get('class', None)
+    if cl1 is not None and cl2 is not None and cl1 != cl2: return None
+
     # Use less conservative tolerance?
     #rtol = max(self.auxatts.get('rtol', 1e-5), other.auxatts.get('rtol', 1e-5))
 
diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 4c0f99d..0e376c8 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -99,6 +99,10 @@ class UfuncVar (Var):
       args[i] = view.get(args[i], pbar=pbar.subset(prog[I],prog[I+1]))
       # Fix for 0-dimensions variables, which will return a scalar
       args[i] = np.array(args[i])
+      # Use the declared precision for integers, so that combining a small
+      # integer type with a scalar doesn't overflow
+      if self.dtype.kind in 'iu' and args[i].dtype.kind in 'iu':
+        args[i] = args[i].astype(self.dtype)
     # Ensure that the output is still a numpy array
     # (if the input arrays are degenerate, numpy wants to return a scalar
     #  by default)
@@ -200,7 +204,7 @@ def chain (*f):
   assert len(f) > 0
   if len(f) == 1: return f[0]
   def make_chain (f1,f2):
-    def f3(x): return f1(f2(x))
+    def f3(*x): return f1(f2(*x))
     return f3
   return make_chain (f[0],chain(*f[1:]))
 
-- 
2.43.0


From e7db44207a3e64e081fb4bd0b8ab5cf98300830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 18/63] fix: axes keep units, plot attributes and tolerance
 when sliced or renamed; fill of 0-d data, unfill of integers and complex;
 replace_axes modifies caller's list

---
 pygeode/axis.py          | 25 ++++++++++++++++++-------
 pygeode/varoperations.py | 21 +++++++++++----------
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 24ec2b4..3008c63 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -378,11 +378,16 @@ class Axis(Var):
     for key,val in self.auxarrays.items():
       aux[key] = np.array(val[slices], ndmin=1)
 
-    axis = type(self)(values, name=self.name, atts=self.atts, **aux)
+    return self._copy_meta_to(type(self)(values, name=self.name, atts=self.atts, **aux))
+  # }}}
 
-    # The points are still identified with the same tolerance
+  # Copy properties which are not arguments of the constructor to another
+  # instance of this axis
+  def _copy_meta_to (self, axis):
+  # {{{
     axis.rtol = self.rtol
-
+    axis.units = self.units
+    axis.plotatts = self.plotatts.copy()
     return axis
   # }}}
 
@@ -579,7 +584,7 @@ class Axis(Var):
     for k,v in self.auxatts.items(): aux[k] = v
     for k,v in self.auxarrays.items(): aux[k] = v
 
-    return type(self)(values=self.values, name=name, atts=self.atts, **aux)
+    return self._copy_meta_to(type(self)(self.values, name=name, atts=self.atts, **aux))
 # }}}
 
   # Check if a given string is a meaningful alias to the axis
@@ -1226,12 +1231,12 @@ class Freq(Axis):
   name = 'freq'
 #  plotscale = 'log'
   def __init__ (self, values, inv_units=None, *args, **kwargs):
-    if inv_units is not None:
-      self.units = '/'+inv_units
-      self.plotatts['plottitle'] = 'Frequency (per %s)'%inv_units
     kwargs = kwargs.copy()
     kwargs['inv_units'] = inv_units
     Axis.__init__ (self, values, *args, **kwargs)
+    if inv_units is not None:
+      self.units = '/'+inv_units
+      self.plotatts['plottitle'] = 'Frequency (per %s)'%inv_units
 # }}}
 
 # Indexing arrays (represent discrete items, such as EOF number, ensemble number, etc.)
@@ -1262,6 +1267,12 @@ class NonCoordinateAxis(Axis):
     self._name = self.name
 # }}}
 
+  def _copy_meta_to (self, axis):
+# {{{
+    axis._name = self._name
+    return Axis._copy_meta_to(self, axis)
+# }}}
+
   # Modify test for equality to look for an exact match
   #TODO: Make the default Axis.__eq__ logic do this, and move the "close"
   # matching to a subclass of Axis.
diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..97cfc56 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -280,6 +280,7 @@ class Replace_axes (Var):
     if newaxes is None:
       newaxes = list(var.axes)
     else:
+      newaxes = list(newaxes)
       assert len(newaxes) == var.naxes, "wrong number of axes provided"
 
     for a,newa in axisdict.items():
@@ -550,10 +551,8 @@ class FillVar(Var):
     copy_meta(var, self)
   def getview (self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
-#    data[where(data == float('NaN'))] = self.fill
-    w = np.where(np.isnan(data))
-    data[w] = self._fill
+    data = np.array(view.get(self.var, pbar=pbar))
+    data[np.isnan(data)] = self._fill
     return data
 
 def fill (self, fill):
@@ -583,21 +582,23 @@ def fill (self, fill):
 # NOTE: if input values are integers, they are converted to floats
 class UnfillVar(Var):
   def __init__(self, var, fill):
-    from numpy import float32, float64
+    from numpy import float32, result_type
     from pygeode.var import Var, copy_meta
     self.var = var
     self._fill = fill
     # We need floating-point values to have a nan
-    if var.dtype not in (float32, float64):
-      dtype = float32
+    # (with enough precision to hold the other values)
+    if var.dtype.kind not in 'fc':
+      dtype = result_type(var.dtype, float32)
     else: dtype = var.dtype
     Var.__init__(self, var.axes, dtype)
     copy_meta (var, self)
   def getview(self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
-    data = np.asarray(data, self.dtype)
-    data[np.where(data == self._fill)] = float('NaN')
+    data = view.get(self.var, pbar=pbar)
+    missing = (data == self._fill)
+    data = np.array(data, self.dtype)
+    data[missing] = float('NaN')
     return data
 
 def unfill (self, fill):
-- 
2.43.0


From 7119ad1cd3046130acbd4127a121d5c7f8890fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 19/63] fix: evaluation of 0-d boolean variables; an axis is
 identified by its exact name before other aliases

---
 pygeode/tools.py | 3 +++
 pygeode/view.py  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..87bac8d 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -157,6 +157,9 @@ def whichaxis(axes, id):
   from pygeode.axis import Axis
   # Case 1: a string was given
   if isinstance(id, str):
+    # An axis of exactly this name has precedence over other aliases
+    for i,a in enumerate(axes):
+      if a.name == id: return i
     for i,a in enumerate(axes):
       if a.has_alias(id): return i
 
diff --git a/pygeode/view.py b/pygeode/view.py
index 0ad1ec6..1ea9a21 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -280,7 +280,7 @@ class View:
 
     pbar.update(100)
 
-    assert isinstance(values,(np.ndarray,np.number)), "did not receive a valid array from %s"%repr(var)
+    assert isinstance(values,(np.ndarray,np.generic)), "did not receive a valid array from %s"%repr(var)
 
     if values.dtype != var.dtype:
       warn ("%s is supposed to return a %s, but is returning %s"%(repr(var),var.dtype.name,values.dtype.name))
-- 
2.43.0


From 9078304da4cdeb2924c797ef1779f9f3fbd89db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 20/63] fix: concatenation of overlapping pieces; ensembles
 keep the precision of all members and only common attributes

---
 pygeode/concat.py   | 6 ++++--
 pygeode/ensemble.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygeode/concat.py b/pygeode/concat.py
index ca8d737..c871961 100644
--- a/pygeode/concat.py
+++ b/pygeode/concat.py
@@ -82,9 +82,11 @@ class ConcatVar(Var):
     else:
       chunks = []
       # Construct maps to concatenated variables
-      out_ax = view.subaxis(self.iaxis)
+      # (by position, since a coordinate may occur in more than one segment)
+      ind = np.asarray(view.integer_indices[self.iaxis])
       subaxes = [v.axes[self.iaxis] for v in self.vars]
-      slices = [ax.map_to(out_ax) for ax in subaxes]
+      offsets = np.cumsum([0] + [len(ax) for ax in subaxes])
+      slices = [ind[(ind >= i1) & (ind < i2)] - i1 for i1, i2 in zip(offsets[:-1], offsets[1:])]
       slice_lengths = [len(sl) for sl in slices]
       N = float(np.sum(slice_lengths))
       i = 0
diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index cfca9d1..888f4cc 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -12,13 +12,14 @@ from pygeode.var import Var
 class EnsembleVar(Var):
   def __init__(self, varlist):
     from pygeode.var import Var, combine_meta
+    from pygeode.tools import common_dtype
     self.varlist = varlist
     # Assume the vars have already been checked for consistency
     var0 = varlist[0]
 
     # Add ensemble axis to start of axis list
     axes = [make_ensemble(len(varlist))] + list(var0.axes)
-    Var.__init__(self, axes, dtype=var0.dtype)
+    Var.__init__(self, axes, dtype=common_dtype(varlist))
 
     combine_meta (varlist, self)
     self.name = varlist[0].name
@@ -71,7 +72,7 @@ def ensemble (*varlists):
     ensembles.append(ensemble)
 
   # Global attributes
-  atts = common_dict(dataset.atts for dataset in datasets)
+  atts = common_dict([dataset.atts for dataset in datasets])
   if isinstance(varlists[0], Dataset): return Dataset(ensembles, atts=atts)
   if isinstance(varlists[0], Var):
     assert len(ensembles) == 1
-- 
2.43.0


From c459bedc30d08703215609b31ad6de5d6f690c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 21/63] fix: EOF record axes, EOF_cov scaling and output names;
 SVD weights check and subspace size

---
 pygeode/eof.py | 20 ++++++++++++--------
 pygeode/svd.py | 13 ++++++++-----
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 42c404c..40c0ffd 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -14,7 +14,7 @@ del Axis
 
 def apply_weights (var, weight):
   # Normalize by area weight?
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
@@ -27,7 +27,7 @@ def apply_weights (var, weight):
 def remove_weights (var, weight):
   # Undo normalization by area weight?
   # (should be the exact opposite of the 'weight' function
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
@@ -52,7 +52,8 @@ def whichout (out):
   # Lower case
   out = [o.lower() for o in out]
   for o in out: assert o in names, "Unrecognized output '%s'"%o
-  return out
+  # Use the first of the equivalent names
+  return [ N[0] for o in out for N in namemap if o in N ]
 
 ##prep the var
 def prep (var, iaxis, weight, out):
@@ -88,7 +89,6 @@ def prep (var, iaxis, weight, out):
   # Keep the record axis/axes as a tuple
   # (in case we have more than one axis, i.e. time and ensemble)
   if not isinstance(timeaxes,(list,tuple)):
-    assert isinstance(timeaxes,int) or issubclass(timeaxes,Axis), 'unknown iaxis type %s'%type(timeaxes)
     timeaxes = [timeaxes]
 
   # Convert the axes to integer ids
@@ -106,6 +106,9 @@ def prep (var, iaxis, weight, out):
 
 #  var = SquishedVar(var, timeaxes, spaceaxes)
 
+  # The record axes come first
+  var = var.transpose(*(timeaxes + spaceaxes))
+
   # Preload the data, if possible
   if var.size <= MAX_ARRAY_SIZE: var = var.load()
 
@@ -202,7 +205,7 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
   del iaxis
 
   eofshape =  (subspace,) + space.shape
-  pcshape =  time.shape + (subspace,)
+  pcshape =  (time.size, subspace)
 
   pcs = np.empty(pcshape,dtype='d')
 
@@ -229,17 +232,18 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
 
     # Reset the accumulation arrays for the next approximations
     neweofs[()] = 0
+    time_offset = 0
 
     # Apply the covariance matrix
     for inview in View(x.axes).loop_mem():
       X = np.ascontiguousarray(inview.get(x), dtype='d')
       assert X.size >= space.size, "spatial pattern is too large"
 
-      nt = inview.shape[0]
-      time_offset = inview.slices[0].start
+      nt = X.size // space.size
       ier = lib.build_eofs (subspace, nt, NX, X, oldeofs,
                             neweofs, pcs[time_offset,...])
       assert ier == 0
+      time_offset += nt
 
       # Compute variance?
       if iter_num == 1:
@@ -394,7 +398,7 @@ def EOF_cov (x, num=1, iaxis=None, weight=True, out=None):
     cov += np.dot(X.transpose(),X)
 
   # Decompose the eigenvectors & eigenvalues
-  w, v = np.linalg.eigh(cov/(time.size-1))
+  w, v = np.linalg.eigh(cov)
 
   variance = w.sum()
   eig = np.sqrt(w[::-1][:num])
diff --git a/pygeode/svd.py b/pygeode/svd.py
index c8e0a38..97dee17 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -64,7 +64,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   if matrix in ('cov', 'covariance'): matrix = 'cov'
   elif matrix in ('cor', 'corr', 'correlation'): matrix = 'cor'
   else:
-    warn ("invalid matrix type '%'.  Defaulting to covariance."%matrix, stacklevel=2)
+    warn ("invalid matrix type '%s'.  Defaulting to covariance."%matrix, stacklevel=2)
     matrix = 'cov'
 
   MAX_ITER = 1000
@@ -84,7 +84,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
 #  if weight2 is not None: var2 *= weight2.sqrt()
   if weight1 is True: weight1 = var1.getweights()
   if weight1 is not False:
-    assert not weight1.hasaxis(iaxis), "Can't handle weights along the record axis"
+    assert not weight1.hasaxis(var1.getaxis(iaxis)), "Can't handle weights along the record axis"
     # Normalize the weights
     W = weight1.sum() / weight1.size
     weight1 /= W
@@ -92,7 +92,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     var1 *= weight1.sqrt()
   if weight2 is True: weight2 = var2.getweights()
   if weight2 is not False:
-    assert not weight2.hasaxis(iaxis), "Can't handle weights along the record axis"
+    assert not weight2.hasaxis(var2.getaxis(iaxis)), "Can't handle weights along the record axis"
     # Normalize the weights
     W = weight2.sum() / weight2.size
     weight2 /= W
@@ -138,6 +138,11 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     var2 /= std2
 
 
+  # Can't have more patterns than there are degrees of freedom
+  NT = var1.shape[iaxis1]
+  subspace = min(subspace, NT, var1.size // NT, var2.size // NT)
+  assert num <= subspace, 'not enough data for %d EOFs' % num
+
   eofshape1 =  (subspace,) + var1.shape[:iaxis1] + var1.shape[iaxis1+1:]
   eofshape2 =  (subspace,) + var2.shape[:iaxis2] + var2.shape[iaxis2+1:]
 
@@ -150,8 +155,6 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   NX2 = var2.size // var2.shape[iaxis2]
   assert NX2 <= MAX_ARRAY_SIZE, 'field is too large!'
 
-  # Total number of timesteps
-  NT = var1.shape[iaxis1]
   # Number of timesteps we can do in one fetch
   dt = MAX_ARRAY_SIZE // max(NX1,NX2)
 
-- 
2.43.0


From f974fae5831e5fe732df785110e85b85bed78e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 22/63] fix: symmetric axis comparison; exact class and
 calendar field comparison

---
 pygeode/axis.py     | 7 +++++--
 pygeode/timeaxis.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 3008c63..80cfa89 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -710,7 +710,7 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
 #   print 'not an axis?'
     return False
   if check_class:
-    if not isinstance(ax2, ax1.__class__):
+    if ax1.__class__ is not ax2.__class__:
   #   print 'mismatched classes'
       return False
   else:
@@ -737,7 +737,9 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
   # Don't let the absolute tolerance overwhelm axes with very small values
   atol = min(1e-8, rtol * max(abs(ax1.values).max(), abs(ax2.values).max())) if len(ax1.values) > 0 else 1e-8
 
-  if not allclose(ax1.values, ax2.values, rtol = rtol, atol = atol):
+  # (numpy's test is relative to its second argument)
+  if not allclose(ax1.values, ax2.values, rtol = rtol, atol = atol) and \
+     not allclose(ax2.values, ax1.values, rtol = rtol, atol = atol):
 #   print 'values mismatch'
     return False
 
@@ -1278,6 +1280,7 @@ class NonCoordinateAxis(Axis):
   # matching to a subclass of Axis.
   def __eq__ (self, other):
 # {{{
+    if self is other: return True
     # For simplicity, expect them to be the same type of axis.
     if type(self) != type(other): return False
     if set(self.auxarrays.keys()) != set(other.auxarrays.keys()): return False
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 7f47221..8fe1308 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -153,7 +153,7 @@ class Time (TAxis):
     assert len(self.auxarrays) > 0, "how is date formed?"
     # Different field values?
     for k,f in self.auxarrays.items():
-      if not np.allclose(f,other.auxarrays[k]): return False
+      if not np.allclose(f,other.auxarrays[k], rtol=0): return False
 
     return True
   # }}}
-- 
2.43.0


From 7c63e7379ff6a306156ffc8b899c3b2a341c4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 23/63] fix: day of the year in formatted dates; name of lag
 axes; attributes and integer data of split time axes; degenerate years in
 from_trend; periodic splines of two points

---
 pygeode/climat.py    | 2 +-
 pygeode/interp.c     | 3 ++-
 pygeode/pygrc        | 2 ++
 pygeode/timeaxis.py  | 6 +++---
 pygeode/timeutils.py | 7 +++++--
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 9943b7f..f9b4470 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -523,7 +523,7 @@ class from_trend (Var):
     if hasattr(coeft,'year'):
       import numpy as np
       from warnings import warn
-      if len(np.unique(coeft.year.values)) == 1:
+      if len(np.unique(coeft.year)) == 1:
         warn ("ignoring degenerate 'year' field", stacklevel=2)
         coeft = modify(coeft, exclude='year')
         coef = coef.replace_axes({Time:coeft})
diff --git a/pygeode/interp.c b/pygeode/interp.c
index 840ff2b..782603a 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -86,7 +86,8 @@ int interpgsl (int narrays, int nxin, int nxout,
 
     // If we have insufficient points for the interpolation type, then fill
     // the output array with NaNs.
-    if (j < (int)type->min_size) {
+    // (GSL also needs three points for a periodic cubic spline)
+    if (j < (int)type->min_size || (type == gsl_interp_cspline_periodic && j < 3)) {
       for (j = 0; j < nxout; j++, xout++, yout++) *yout = NAN;
       // Update the input/output pointers, be consistent with the normal case
       // below.
diff --git a/pygeode/pygrc b/pygeode/pygrc
index 6f1e63e..6d32827 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -53,6 +53,8 @@ Time.name = time
 Time.plottitle =
 Time.plotofsfmt =
 
+Lag.name = lag
+
 CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #CalendarTime.autofmts = [(365. , '$Y',       ''),         # Range larger than 1 year
 #                         (30.  , '$b $Y',    ''),         # Larger than 1 month
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 8fe1308..bb3618b 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -454,8 +454,8 @@ class CalendarTime(Time):
   # (for formatvalue)
   def _getdoy (self, date):
 # {{{
-    startdate = {'month':1,'day':0,'hour':0,'minute':0,'second':0}
-    date.pop('year', 0)
+    date = dict((k, v) for k, v in date.items() if k in ('year', 'month', 'day'))
+    startdate = {'year':date['year'],'month':1,'day':0,'hour':0,'minute':0,'second':0}
     return self.date_as_val (dates=date, startdate=startdate, units='days')
 # }}}
 
@@ -549,7 +549,7 @@ class CalendarTime(Time):
       d = dt['day']
       subs['d'] = '%d' % d
       subs['D'] = '%02d' % d
-      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = self._getdoy(dt)
+      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = '%d' % self._getdoy(dt)
     else:
       subs['d'], subs['D'], subs['j'] = '', '', ''
 
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index cb3058a..b68e087 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -426,9 +426,12 @@ class SplitTime (Var):
     axes = list(var.axes)
     axes = axes[:iaxis] + [years, days] + axes[iaxis+1:]
 
-    copy_meta(var,self)
+    # Dates missing from the series are filled with NaN
+    import numpy as np
+    dtype = var.dtype if np.issubdtype(var.dtype, np.inexact) else np.dtype('d')
 
-    Var.__init__(self, axes=axes, dtype=var.dtype)
+    Var.__init__(self, axes=axes, dtype=dtype)
+    copy_meta(var,self)
 
     self.iaxis = iaxis
     self.var = var
-- 
2.43.0


From fc80cf73ec0d3b8c9f2e7a873e2dc6b4cce71153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 24/63] fix: lag axes are named lag; times of nonexistent dates
 map to themselves

---
 pygeode/pygrc        | 2 --
 pygeode/timeaxis.py  | 3 ++-
 pygeode/timeutils.py | 8 ++++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/pygeode/pygrc b/pygeode/pygrc
index 6d32827..6f1e63e 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -53,8 +53,6 @@ Time.name = time
 Time.plottitle =
 Time.plotofsfmt =
 
-Lag.name = lag
-
 CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #CalendarTime.autofmts = [(365. , '$Y',       ''),         # Range larger than 1 year
 #                         (30.  , '$b $Y',    ''),         # Larger than 1 month
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index bb3618b..a8d91df 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -209,7 +209,8 @@ class Time (TAxis):
       othervalues = np.vstack(other_f).transpose()
       nfields = len(self_f)
 
-    isrt = np.argsort(self.values)
+    # (the search needs the order of the fields, not of the relative values)
+    isrt = _argsort(self_f) if len(self_f) > 0 else np.argsort(self.values)
     #iinv = np.argsort(isrt)
 
     indices = np.empty(len(other), 'int32')
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index b68e087..e68a3e6 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -184,6 +184,14 @@ from pygeode.timeaxis import Yearless
 class Lag(Yearless): 
 # {{{
   name = 'lag'
+
+  @classmethod
+  def _readaxisconfig(cls, ax):
+  # {{{
+    super(Lag, cls)._readaxisconfig(ax)
+    ax.name = cls.name
+  # }}}
+
   @classmethod
   def class_has_alias(cls, name):
   # {{{
-- 
2.43.0


From 1a1395e3ede86ca63e8a7f489ecc0ef0b6d0f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 25/63] fix: NetCDF round trips of stations, packed and missing
 data, unsigned integers, text attributes, time axes and variables named like
 auxiliary arrays

---
 pygeode/formats/__init__.py  | 15 ++++++++++++++-
 pygeode/formats/cfmeta.py    | 36 ++++++++++++++++++++++++++----------
 pygeode/formats/multifile.py |  2 +-
 pygeode/formats/netcdf.py    | 20 ++++++++++++++------
 pygeode/timeutils.py         |  2 +-
 5 files changed, 56 insertions(+), 19 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 4645640..d4b1806 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -37,8 +37,16 @@ class PackVar(Var):
 
     min = var.nanmin()
     max = var.nanmax()
+    # Calculate these in double precision (the range could overflow the original type).
+    min, max = float(min), float(max)
+    # Nothing to pack?
+    if not np.isfinite(min): min = max = 0.
     self.scale = (max - min) / (2**16 - 2.)
+    # Special case: constant field
+    if self.scale == 0: self.scale = 1.
     self.offset = 0.5 * (min + max)
+    # Value reserved for missing data
+    self.fillvalue = np.int16(-2**15)
 
     Var.__init__(self, var.axes, dtype=dtype)
 
@@ -46,11 +54,16 @@ class PackVar(Var):
     self.atts['packing_convention'] = 'NetCDF (16 bit)'
     self.atts['scale_factor'] = self.scale
     self.atts['add_offset'] = self.offset
+    self.atts['_FillValue'] = self.fillvalue
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return ((view.get(self.var, pbar) - self.offset) / self.scale).astype(self.dtype)
+    import numpy as np
+    data = np.asarray(view.get(self.var, pbar), dtype='float64')
+    data = np.rint((data - self.offset) / self.scale)
+    # Encode missing values
+    return np.where(np.isnan(data), self.fillvalue, data).astype(self.dtype)
   # }}}
 
 def autodetectformat(filename):
diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..b80d8d7 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -20,13 +20,15 @@ from pygeode.var import Var
 class var_newaxes (Var):
   def __init__(self, var, newaxes, name=None, fillvalue=None, scale=None, offset=None, atts={}, plotatts={}):
     from pygeode.var import Var, copy_meta 
+    import numpy as np
     atts = atts.copy()
     plotatts = plotatts.copy()
     assert len(newaxes) == len(var.axes)
     for a1, a2 in zip(newaxes, var.axes): assert len(a1) == len(a2)
     self.var = var
     dtype = var.dtype
-    if fillvalue is not None or scale is not None or offset is not None: dtype = 'float32'
+    # (integer and double precision data needs more than single precision)
+    if fillvalue is not None or scale is not None or offset is not None: dtype = np.result_type(var.dtype, np.float32)
     self.fillvalue = fillvalue
     self.scale = scale
     self.offset = offset
@@ -48,7 +50,9 @@ class var_newaxes (Var):
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
     if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = np.where(data==fillvalue)
+    if fillvalue is not None:
+      w = np.zeros(data.shape, dtype=bool)
+      for f in fillvalue: w |= (data == f)
     data = np.asarray(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
@@ -184,6 +188,14 @@ def encode_cf (dataset):
     #TODO: check 'units' attribute of the time axis, use that in the 'units' of the netcdf metadata
     if isinstance(a, Time):
       #TODO: cast into an integer array if possible
+      # Keep any arrays which aren't part of the date (i.e. weights)
+      auxnames = [aux for aux in a.auxarrays if aux not in a.allowed_fields]
+      for aux in auxnames:
+        auxname = name+'_'+aux
+        assert not any(v.name == auxname for v in varlist), "already have a variable named %s"%auxname
+        varlist.append( Var([a], values=a.auxarrays[aux], name=auxname) )
+      if len(auxnames) > 0:
+        atts['ancillary_variables'] = ' '.join(name+'_'+aux for aux in auxnames)
       axisdict[name] = NamedAxis(values=reltime(a), name=name, atts=atts, plotatts=plotatts)
       continue
 
@@ -216,7 +228,7 @@ def encode_cf (dataset):
       # Encode other auxarrays as generic "ancillary" arrays.
       ancillary_variables = []
       for auxname in list(a.auxarrays.keys()):
-        if auxname in coordinates: continue  # Handled above
+        if auxname in coordinates.split(): continue  # Handled above
         var = a.auxasvar(auxname)
         if var.dtype.name.startswith('str'):
           var = encode_string_var(var)
@@ -291,6 +303,7 @@ def decode_cf (dataset, ignore=[]):
   from pygeode.timeaxis import Time, ModelTime365, ModelTime360, StandardTime, Yearless
   from pygeode import timeutils
   from warnings import warn
+  import numpy as np
   import re
 
 #  dataset = asdataset(dataset, copy=True)
@@ -358,9 +371,12 @@ def decode_cf (dataset, ignore=[]):
 
     # Check specific standard names, and also units?
     #TODO: don't *pop* the standard_name, units, etc. until the end of this routine - in case we didn't end up mapping them to an axis
-    _ln = atts.get('long_name', a.name).lower()
-    _st = atts.get('standard_name',_ln).lower()
+    _ln = str(atts.get('long_name', a.name)).lower()
+    _st = str(atts.get('standard_name',_ln)).lower()
     _units = atts.pop('units','')
+    if not isinstance(_units, str):
+      atts['units'] = _units
+      _units = ''
     if _st == 'latitude' or _units == 'degrees_north': cls = Lat
     if _st == 'longitude' or _units == 'degrees_east': cls = Lon
     if _st == 'air_pressure' or _units in ('hPa','mbar'):
@@ -409,7 +425,7 @@ def decode_cf (dataset, ignore=[]):
       year, month, day, hour, minute, second = list(map(int, [year, month, day, hour, minute, float(second)]))
       # Create the time axis
       startdate={'year':year, 'month':month, 'day':day, 'hour':hour, 'minute':minute, 'second':second}
-      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts)
+      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts, **aux)
       # Special case: start year=0 implies a climatology
       #NOTE: 'climatology' attribute not used, since we don't currently keep
       #      track of the interval that was used for the climatology.
@@ -448,14 +464,14 @@ def decode_cf (dataset, ignore=[]):
 
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
-    varlist = [v for v in varlist if v.name not in aux]
+    varlist = [v for v in varlist if not any(v is dep for dep in dependencies)]
 
 
     # put the units back (if we didn't use them)?
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a):
+    if cls != type(a) or len(aux) > 0:
       axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
@@ -468,8 +484,8 @@ def decode_cf (dataset, ignore=[]):
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
     fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
-    fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
+    fillvalue = [x for _f in fillvalue if _f is not None and not isinstance(_f, str) for x in np.ravel(_f)]
+    if len(fillvalue) == 0: fillvalue = None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
     units = atts.get('units', None)
diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..750e053 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -341,7 +341,7 @@ class Multifile_Var (Var):
     from warnings import warn
 
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('nan')
+    if self.dtype.kind == 'f': out[()] = float('nan')
 
     # Get the times
     itime = view.index(Time)
diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 8ba1397..0ebd51e 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -20,9 +20,9 @@ NC_MAX_VAR_DIMS = NC_MAX_DIMS
 
 nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
-           'uint32':4, 'int64':6, 'uint64':6}
+           'uint32':6, 'int64':6, 'uint64':6}
 
-nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
+nc_type_v4 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
            'uint32':9, 'int64':10, 'uint64':11}
 
@@ -45,7 +45,7 @@ put_att_f = {1:lib.nc_put_att_schar, 2:lib.nc_put_att_text,
 # Read global/variable attributes, return a dictionary
 def get_attributes (fileid, varid):
 # {{{
-  from ctypes import create_string_buffer, c_int, c_long, byref
+  from ctypes import create_string_buffer, c_int, c_long, c_char_p, c_size_t, byref
   from pygeode.tools import point
   from numpy import empty
   natts = c_int()
@@ -80,6 +80,14 @@ def get_attributes (fileid, varid):
       ret = get_att_f[vtype.value](fileid, varid, name, valstr);
       assert ret == 0, lib.nc_strerror(ret)
       value = valstr.value.decode('utf-8')
+    # Array of (variable-length) strings?
+    elif vtype.value == 12:
+      strs = (c_char_p * size.value)()
+      ret = lib.nc_get_att_string(fileid, varid, name, strs)
+      assert ret == 0, lib.nc_strerror(ret)
+      value = [(s or b'').decode('utf-8') for s in strs]
+      lib.nc_free_string(c_size_t(size.value), strs)
+      if len(value) == 1: value = value[0]
     else:
       valnp = empty([size.value], numpy_type[vtype.value])
       ret = get_att_f[vtype.value](fileid, varid, name, point(valnp))
@@ -115,10 +123,10 @@ def put_attributes (fileid, varid, atts, version):
       # Drop unsupported data types
       if value.dtype.name.startswith('string'):
         warn ("no support for writing attributes containing an array of strings", stacklevel=3)
-        return
+        continue
       if value.dtype.name not in nc_type[version]:
         warn ("skipping attribute %s = %s  (unsupported type %s)"%(name,value,value.dtype.name), stacklevel=3)
-        return
+        continue
       # Scalar?
       if value.shape == (): value = value.reshape([1])
       vtype = nc_type[version][value.dtype.name]
@@ -479,7 +487,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
       ret = lib.nc_def_var (fileid, var.name.encode('ascii'), t, var.naxes, d, byref(varids[i]))
       assert ret == 0, lib.nc_strerror(ret)
       # Compress the data? (only works for netcdf4 or (higher?))
-      if compress:
+      if compress and var.naxes > 0:
         ret = lib.nc_def_var_deflate (fileid, varids[i], 1, 1, 2)
         assert ret == 0, lib.nc_strerror(ret)
 
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index e68a3e6..eb0ea87 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -78,7 +78,7 @@ def modify (taxis, resolution=None, exclude=[], include=[], uniquify=False):
   fields = dict([name,f] for name,f in zip(fnames,fields))
 
   kwargs = dict(taxis.auxatts, **fields)
-  return type(taxis)(**kwargs)
+  return type(taxis)(name=taxis.name, atts=taxis.atts, plotatts=taxis.plotatts, **kwargs)
 # }}}
 
 
-- 
2.43.0


From d29367a780a59287aad5271f553c3fdeaf31ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 26/63] fix: check_multi reported errors for rounded times and
 for files of missing values

---
 pygeode/formats/multifile.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 750e053..4cc2043 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -457,12 +457,13 @@ def check_multi (*args, **kwargs):
     return sorted(set(map(find_file,t_array)))
   # Loop over each file, and check the contents.
   all_ok = True
-  all_expected_times = set(full_taxis.values)
+  # (ignore differences from round-off)
+  all_expected_times = set(np.round(full_taxis.values, 6))
 
   # Check for uniformity in the data, and report any potential holes.
   dt = np.diff(full_taxis.values)
   expected_dt = min(dt[dt > 0])
-  gaps = full_taxis.values[np.where(dt > expected_dt)]
+  gaps = full_taxis.values[np.where(dt > expected_dt * (1 + 1e-6))]
   if len(gaps) > 0:
     print("ERROR: detected gaps on or after file(s):")
     for filename in find_files(gaps):
@@ -514,14 +515,12 @@ def check_multi (*args, **kwargs):
         print("  ERROR: different missing value masks found in multifile vs. direct access for '%s'"%var.name)
         all_ok = False
         continue
-      source_data = np.ma.masked_array(source_data, mask=source_mask)
-      multifile_data = np.ma.masked_array(multifile_data, mask=multifile_mask)
-      if not np.all(source_data == multifile_data):
+      if np.any(source_data[~source_mask] != multifile_data[~source_mask]):
         print("  ERROR: get different data from multifile vs. direct access for '%s'"%var.name)
         all_ok = False
         continue
 
-    covered_times.update(times)
+    covered_times.update(np.round(times, 6))
     if i < len(files)-1 and np.any(rtimes >= faxis[i+1]):
       print("  ERROR: found timesteps beyond the expected range of this file.")
       all_ok = False
-- 
2.43.0


From f25edc5ae18a8dff2b8f3bf37141b92a24fcaaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 27/63] fix: Dataset.map accepts callables without a code
 object

---
 pygeode/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/dataset.py b/pygeode/dataset.py
index d66723c..4457b13 100644
--- a/pygeode/dataset.py
+++ b/pygeode/dataset.py
@@ -521,7 +521,8 @@ class Dataset(object):
       assert hasattr(f,'__call__'), "Var.%s is not a function"%fname
       del fname
     # Allow the function to gracefully fail on vars it can't be applied to.
-    if 'ignore_mismatch' in f.__code__.co_varnames:
+    # (callables without a code object, e.g. functools.partial, take no such flag)
+    if 'ignore_mismatch' in getattr(getattr(f, '__code__', None), 'co_varnames', ()):
       kwargs['ignore_mismatch'] = True
     varlist = [f(v, *args, **kwargs) for v in self.vars]
     varlist = [v for v in varlist if v is not None]
-- 
2.43.0


From f2ef7fcee1049b24155828b5a9d7a509832b5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 28/63] fix: rotatelon duplicated the wrong longitude and
 dropped names and weights; gausslat(0) ended the interpreter

---
 pygeode/axis.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 80cfa89..1099baa 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -947,15 +947,18 @@ def rotatelon(v, origin, duplicate = False):
 
 	if not v.hasaxis('lon'): return v
 
-	lons = v.lon[:]
+	lon = v.getaxis('lon')
+	meta = dict(name=lon.name, atts=lon.atts, plotatts=lon.plotatts)
 	o = origin % 360
 	off = o - origin
-	lp = Lon(values=(lons - o) % 360 + o - off)
+	lp = Lon(values=(lon[:] - o) % 360 + o - off, **dict(lon.auxarrays, **meta))
 	v0 = v.replace_axes(lon=lp).sorted('lon')
 
 	if duplicate:
-		l360 = Lon(values = [origin + 360])
-		v0 = concatenate([v0, v0(lon=0).replace_axes(lon = l360)])
+		first = v0(i_lon=0)
+		l0 = first.getaxis('lon')
+		l360 = Lon(values=l0[:] + 360, **dict(l0.auxarrays, **meta))
+		v0 = concatenate([v0, first.replace_axes(lon = l360)])
 
 	return v0
 # }}}
@@ -1052,6 +1055,8 @@ def gausslat (n, order=1, axis_dict={}):
   import numpy as np
   from math import pi
   if (n,order) in axis_dict: return axis_dict[(n,order)]
+  # (the quadrature code would end the interpreter)
+  if n < 1: raise ValueError('a Gaussian axis needs at least one latitude')
   x, w = legendre_compute(n)
   x = np.arcsin(x) / pi * 180
 
-- 
2.43.0


From a8da1b70c9411567486f9c9f6417235b576cd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:59 +0000
Subject: [PATCH 29/63] fix: native time, EOF kernels overflowed buffers, stack
 and integers for repeated, non-finite or extreme input

---
 pygeode/eof.c       | 42 ++++++++++++----------
 pygeode/eof.py      |  3 ++
 pygeode/timeaxis.c  | 87 +++++++++++++++++++++++++--------------------
 pygeode/timeaxis.py |  3 +-
 4 files changed, 78 insertions(+), 57 deletions(-)

diff --git a/pygeode/eof.c b/pygeode/eof.c
index be694c5..5e94cab 100644
--- a/pygeode/eof.c
+++ b/pygeode/eof.c
@@ -30,9 +30,11 @@ int dsyev_pyg (int N, double *A, double *W) {
     assert (LWORK > 0);
   }
   // compute the eigenvectors
-  double WORK[LWORK];
+  // (the work arrays can be too large for the stack)
+  double *WORK = malloc(sizeof(double)*LWORK);
   dsyev_ (&JOBZ, &UPLO, &N, A, &LDA, W, WORK, &LWORK, &INFO);
 //  printf ("INFO from DSYEV: %d\n", INFO);
+  free (WORK);
 
   return 0;
 }
@@ -144,17 +146,18 @@ void transpose (int nx, int N, double *A, double *B) {
 // eig: m largest singular values
 // V: m columns of size n
 void svd (int nx, int N, int m, double *A, double *U, double *eig, double *V) {
-  double C[N][N];
-  double e[N];
+  double *C = malloc(sizeof(double)*N*N);
+  double *e = malloc(sizeof(double)*N);
   assert (m <= N);
   // Compute the inner covariance matrix
-  dot (N, nx, N, A, A, C[0]);
+  dot (N, nx, N, A, A, C);
   // Compute inner eigenvalue decomposition
-  dsyev_pyg (N, C[0], e);
+  dsyev_pyg (N, C, e);
   // Compute V and outer eigenvalues
   for (int i = 0; i < m; i++) {
-    memcpy (V+i*N, C[N-1-i], N*sizeof(double));
-    eig[i] = sqrt(e[N-1-i]);
+    memcpy (V+i*N, C+(N-1-i)*N, N*sizeof(double));
+    // (an eigenvalue of zero may be slightly negative, from rounding)
+    eig[i] = (e[N-1-i] < 0) ? 0 : sqrt(e[N-1-i]);
   }
   // Compute U
   transform (nx, N, m, A, V, U);
@@ -162,6 +165,7 @@ void svd (int nx, int N, int m, double *A, double *U, double *eig, double *V) {
   // Normalize
   diagunscale (nx, m, U, eig);
 
+  free (C); free (e);
 }
 
 
@@ -275,23 +279,23 @@ void merge_eof (Workspace *work) {
 
   // Compute the overall eigenvectors (no truncation yet)
   double *E_eof = malloc(sizeof(double)*N2*nx);
-  double E_eig[N2];
+  double *E_eig = malloc(sizeof(double)*N2);
   // Junk from the svd - we don't use this array here.
-  double V[N2][N2];
-  svd (nx, N2, N2, E, E_eof, E_eig, V[0]);
+  double *V = malloc(sizeof(double)*N2*N2);
+  svd (nx, N2, N2, E, E_eof, E_eig, V);
 
   double *E_pc = malloc(sizeof(double)*N2*nt);
 
   // Compute the timeseries (principal components)
-  double C[N2][N];
+  double *C = malloc(sizeof(double)*N2*N);
 
   diagscale (nt1, N, pc1, eig1);
-  dot (N, nx, N2, eof1, E_eof, C[0]);
-  transform (nt1, N, N2, pc1, C[0], new_pc1);
+  dot (N, nx, N2, eof1, E_eof, C);
+  transform (nt1, N, N2, pc1, C, new_pc1);
 
   diagscale (nt2, N, pc2, eig2);
-  dot (N, nx, N2, eof2, E_eof, C[0]);
-  transform (nt2, N, N2, pc2, C[0], new_pc2);
+  dot (N, nx, N2, eof2, E_eof, C);
+  transform (nt2, N, N2, pc2, C, new_pc2);
 
   for (int i = 0; i < N2; i++) {
     memcpy (E_pc + i*nt, new_pc1 + i*nt1, nt1*sizeof(double));
@@ -371,6 +375,7 @@ void merge_eof (Workspace *work) {
   // Free the temporary space
   free (new_pc1); free (new_pc2);
   free (E); free (E_eof); free (E_pc);
+  free (E_eig); free (V); free (C);
 
 
   // Push the new entry onto the stack
@@ -448,11 +453,12 @@ int process (Workspace *work, int NREC, double *data) {
     double *eof = malloc(sizeof(double)*N*nx);
     double *eig = malloc(sizeof(double)*N);
     int nt = n;
-    double PC[N][N];
+    double *PC = malloc(sizeof(double)*N*N);
     double *pc = malloc(sizeof(double)*N*nt);
 
-    svd (nx, N, N, _data, eof, eig, PC[0]);
-    for (int i = 0; i < N; i++) memcpy (pc+i*nt, PC[i], sizeof(double)*nt);
+    svd (nx, N, N, _data, eof, eig, PC);
+    for (int i = 0; i < N; i++) memcpy (pc+i*nt, PC+i*N, sizeof(double)*nt);
+    free (PC);
 //    printf ("pc check: ");
 //    for (int i = 0; i < nt; i++) printf ("%12.5g", pc[i]);
 //    printf ("\n");
diff --git a/pygeode/eof.py b/pygeode/eof.py
index 40c0ffd..99cd032 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -66,6 +66,7 @@ def prep (var, iaxis, weight, out):
 
   assert isinstance(var,Var)
   assert var.naxes >= 2, "need at least 2 axes"
+  assert var.size > 0, "no data"
 
   # Check the outputs
   out = whichout(out)
@@ -310,6 +311,8 @@ def EOF_guess (x, num=1, iaxis=None, weight=True, out=None):
   from pygeode.view import View
   from pygeode import eofcore as lib
 
+  assert num >= 1, "need at least one EOF"
+
   x, time, space = prep (x, iaxis, weight=weight, out=out)
   del iaxis
 
diff --git a/pygeode/timeaxis.c b/pygeode/timeaxis.c
index f6268bc..4d36723 100644
--- a/pygeode/timeaxis.c
+++ b/pygeode/timeaxis.c
@@ -155,8 +155,8 @@ int nearest_lower (int natts, int *sorted, int n_sorted, int *lookup, int n_look
 
 int cmpval (int natts, int *x, int *y) {
   for (int att = 0; att < natts; att++) {
-    int c = x[att] - y[att];
-    if (c != 0) return c;
+    if (x[att] < y[att]) return -1;
+    if (x[att] > y[att]) return 1;
   }
   return 0;
 }
@@ -172,7 +172,7 @@ int common_map (int natts, int na, int *a, int nb, int *b, int *nmap, int *a_map
     int cmp = CMP(a,ai,b,bi);
     // A match?
     if (cmp == 0) {
-      assert (m < na || m < nb);
+      assert (m < na + nb);
       a_map[m] = ai;
       b_map[m] = bi;
       m++;
@@ -217,7 +217,7 @@ int common_map (int natts, int na, int *a, int nb, int *b, int *nmap, int *a_map
 #define isleap(y) (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0))
 
 // Count the number of days in between two years
-int ndays (int year1, int year2) {
+long long int ndays (long long int year1, long long int year2) {
 //  // We need the years to be positive, for mod operator to work properly
 //  assert (year1 >= 0 && year2 >= 0);
 /*
@@ -231,7 +231,7 @@ int ndays (int year1, int year2) {
   year1--; year2--;
 
   // First, ignore leap years
-  int out = (year2-year1)*365;
+  long long int out = (year2-year1)*365;
 
   // Now, count how many years that are divisible by 4
   out += floor(year2/4.) - floor(year1/4.);
@@ -257,27 +257,27 @@ int date_as_val_std (int n, int iyear, int imonth, int iday,
                      int *hour, int *minute, int *second,
                      long long int *val) {
 
-  static const int month2doy[2][13] = {
+  static const long long int month2doy[2][13] = {
     {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334},
     {0, 0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335}
   };
 
   check_month(imonth);
-  long long int ref = ( month2doy[isleap(iyear)][imonth] + iday - 1) * 86400 + ihour*3600 + iminute*60 + isecond;
+  long long int ref = ( month2doy[isleap(iyear)][imonth] + iday - 1) * 86400 + ihour*3600LL + iminute*60LL + isecond;
 
   // Take the difference between the date array and the start date
   for (int i = 0; i < n; i++) {
 
-    int y = year[i];
+    long long int y = year[i];
 
     // Wrap month
-    int m = month[i];
-    int dy = (m < 1) ? (m-12)/12 : (m-1)/12;
+    long long int m = month[i];
+    long long int dy = (m < 1) ? (m-12)/12 : (m-1)/12;
     y += dy;
     m -= dy*12;
 
     long long int v = ( ndays(iyear,y) + month2doy[isleap(y)][m] + day[i] - 1) * 86400LL;
-    v += hour[i]*3600 + minute[i]*60 + second[i];
+    v += hour[i]*3600LL + minute[i]*60LL + second[i];
     v -= ref;
     val[i] = v;
   }
@@ -293,22 +293,22 @@ int val_as_date_std (int n, int iyear, int imonth, int iday,
                      int *year, int *month, int *day,
                      int *hour, int *minute, int *second) {
 
-  static const int month2doy[2][13] = {
+  static const long long int month2doy[2][13] = {
     {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334},
     {0, 0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335}
   };
 
   check_month(imonth);
-  long long int ref = ( month2doy[isleap(iyear)][imonth] + iday - 1) * 86400 + ihour*3600 + iminute*60 + isecond;
+  long long int ref = ( month2doy[isleap(iyear)][imonth] + iday - 1) * 86400 + ihour*3600LL + iminute*60LL + isecond;
 
   for (int i = 0; i < n; i++) {
     long long int s = val[i] + ref;  // Seconds since the beginning of the year of start date
-    int y = iyear;
+    long long int y = iyear;
     // Make sure s is positive
     // (estimate number of years to offset, ok so long as overestimate - just don't want a negative s)
 //    assert (s >= 0);  // remove this later
     while (s < 0LL) {
-      int y_back = y - 1 - (int) ((-s)/365LL/86400LL);
+      long long int y_back = y - 1 - (-s)/365LL/86400LL;
       //if (y_back < 0) y_back = 0;
       s += ndays(y_back, y) * 86400LL;
       y = y_back;
@@ -332,7 +332,7 @@ int val_as_date_std (int n, int iyear, int imonth, int iday,
     // Adjust the year, if the # of days is *way* off
     // Underestimate the year jump, so we don't go *too* far and make d negative
     {
-      int y_forward = y + d/366;
+      long long int y_forward = y + d/366;
       d -= ndays (y, y_forward);
       y = y_forward;
     }
@@ -384,24 +384,24 @@ int date_as_val_365 (int n, int iyear, int imonth, int iday,
                      int *hour, int *minute, int *second,
                      long long int *val) {
 
-  static const int month2doy[] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+  static const long long int month2doy[] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
 
   check_month(imonth);
-  long long int ref = ( month2doy[imonth] + iday - 1) * 86400 + ihour*3600 + iminute*60 + isecond;
+  long long int ref = ( month2doy[imonth] + iday - 1) * 86400 + ihour*3600LL + iminute*60LL + isecond;
 
   // Take the difference between the date array and the start date
   for (int i = 0; i < n; i++) {
 
-    int y = year[i];
+    long long int y = year[i];
 
     // Wrap month
-    int m = month[i];
-    int dy = (m < 1) ? (m-12)/12 : (m-1)/12;
+    long long int m = month[i];
+    long long int dy = (m < 1) ? (m-12)/12 : (m-1)/12;
     y += dy;
     m -= dy*12;
 
     long long int v = ( 365*(y-iyear) + month2doy[m] + day[i] - 1 ) * 86400LL;
-    v += hour[i]*3600 + minute[i]*60 + second[i];
+    v += hour[i]*3600LL + minute[i]*60LL + second[i];
     v -= ref;
     val[i] = v;
   }
@@ -418,13 +418,13 @@ int val_as_date_365 (int n, int iyear, int imonth, int iday,
                      int *year, int *month, int *day,
                      int *hour, int *minute, int *second) {
 
-  static const int month2doy[] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
+  static const long long int month2doy[] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
 
   check_month(imonth);
-  long long int ref = ( month2doy[imonth] + iday ) * 86400 + ihour*3600 + iminute*60 + isecond;
+  long long int ref = ( month2doy[imonth] + iday ) * 86400 + ihour*3600LL + iminute*60LL + isecond;
 
   for (int i = 0; i < n; i++) {
-    int y = iyear;
+    long long int y = iyear;
     long long int d;
     {
       long long int s = val[i] + ref;  // Seconds since the beginning of the year of start date
@@ -438,12 +438,12 @@ int val_as_date_365 (int n, int iyear, int imonth, int iday,
     }
     // Get year / day-of-year
     if (d <= 0) {
-      int ny = (365-d)/365;
+      long long int ny = (365-d)/365;
       d += 365*ny;
       y -= ny;
     }
     if (d > 365) {
-      int ny = (d-1)/365;
+      long long int ny = (d-1)/365;
       d -= 365*ny;
       y += ny;
     }
@@ -475,14 +475,14 @@ int date_as_val_360 (int n, int iyear, int imonth, int iday,
                      int *hour, int *minute, int *second,
                      long long int *val) {
 
-  long long int ref = ( (imonth-1)*30 + iday ) * 86400 + ihour*3600 + iminute*60 + isecond;
+  long long int ref = ( (imonth-1LL)*30 + iday ) * 86400 + ihour*3600LL + iminute*60LL + isecond;
 
   // Take the difference between the date array and the start date
   for (int i = 0; i < n; i++) {
 
-    int y = year[i];
-    long long int v = ( 360*(y-iyear) + (month[i]-1)*30 + day[i] ) * 86400LL;
-    v += hour[i]*3600 + minute[i]*60 + second[i];
+    long long int y = year[i];
+    long long int v = ( 360LL*(y-iyear) + (month[i]-1LL)*30 + day[i] ) * 86400LL;
+    v += hour[i]*3600LL + minute[i]*60LL + second[i];
     v -= ref;
     val[i] = v;
   }
@@ -497,10 +497,10 @@ int val_as_date_360 (int n, int iyear, int imonth, int iday,
                      int *year, int *month, int *day,
                      int *hour, int *minute, int *second) {
 
-  long long int ref = ( (imonth-1)*30 + iday ) * 86400 + ihour*3600 + iminute*60 + isecond;
+  long long int ref = ( (imonth-1LL)*30 + iday ) * 86400 + ihour*3600LL + iminute*60LL + isecond;
 
   for (int i = 0; i < n; i++) {
-    int y = iyear;
+    long long int y = iyear;
     long long int d;
     {
       long long int s = val[i] + ref;  // Seconds since the beginning of the year of start date
@@ -514,12 +514,12 @@ int val_as_date_360 (int n, int iyear, int imonth, int iday,
     }
     // Get year / day-of-year
     if (d <= 0) {
-      int ny = (360-d)/360;
+      long long int ny = (360-d)/360;
       d += 360*ny;
       y -= ny;
     }
     if (d > 360) {
-      int ny = (d-1)/360;
+      long long int ny = (d-1)/360;
       d -= 360*ny;
       y += ny;
     }
@@ -563,8 +563,8 @@ int date_as_val_yearless (int n, int iyear, int imonth, int iday,
   }
 
   for (int i = 0; i < n; i++) {
-    val[i] = (day[i] - iday) * 86400LL + (hour[i] - ihour) * 3600
-           + (minute[i]-iminute) * 60 + (second[i] - isecond);
+    val[i] = (day[i] - (long long int)iday) * 86400 + (hour[i] - (long long int)ihour) * 3600
+           + (minute[i] - (long long int)iminute) * 60 + (second[i] - (long long int)isecond);
   }
 
   return 0;
@@ -581,7 +581,7 @@ int val_as_date_yearless (int n, int iyear, int imonth, int iday,
   assert (iyear == 0);
   assert (imonth == 1);
 
-  long long int ref = iday * 86400LL + ihour*3600 + iminute*60 + isecond;
+  long long int ref = iday * 86400LL + ihour*3600LL + iminute*60LL + isecond;
 
   for (int i = 0; i < n; i++) {
     long long int x = val[i] + ref;
@@ -693,6 +693,9 @@ typedef int (val_as_date_func) (int n, int iyear, int imonth, int iday,
                      int *year, int *month, int *day,
                      int *hour, int *minute, int *second);
 
+// Largest relative time that can be converted to a date (seconds)
+#define MAX_SECONDS 100000000000000LL
+
 int checkArray(PyArrayObject *a, const char *name, int np_type)
 {
   if (a->descr->type_num != np_type) { 
@@ -735,7 +738,15 @@ static PyObject *val_as_date_wrapper (PyObject *args, val_as_date_func *f) {
   minute = (int*)(minute_array->data);
   second = (int*)(second_array->data);
 
+  // Only handle times that have a date (i.e., not NaNs)
+  for (int i = 0; i < n; i++) if (val[i] < -MAX_SECONDS || val[i] > MAX_SECONDS) {
+    PyErr_SetString (PyExc_ValueError, "time is out of range");
+    return NULL;
+  }
+
   ret = f (n, iyear, imonth, iday, ihour, iminute, isecond, val, year, month, day, hour, minute, second);
+  // Check if there was an internal problem
+  if (PyErr_Occurred()) return NULL;
   return Py_BuildValue("i", ret);
 
 }
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index a8d91df..50b76fc 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -257,7 +257,8 @@ class Time (TAxis):
     a = np.ascontiguousarray(a[a_ind,:],dtype='int32')
     b = np.ascontiguousarray(b[b_ind,:],dtype='int32')
     # Outputs
-    nmap = max(na,nb)
+    # (repeated times can match more often than either axis is long)
+    nmap = na + nb
     a_map = np.empty(nmap, 'int32')
     b_map = np.empty(nmap, 'int32')
 
-- 
2.43.0


From c811bc90d466a4bcdafb14be354a6b485c9c3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 30/63] fix: View.map_to shared its default 'order' list
 between threads

---
 pygeode/view.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index 1ea9a21..fd506b1 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -125,7 +125,7 @@ class View:
 
   # }}}
 
-  def map_to (self, axes, strict=True, order=[]):
+  def map_to (self, axes, strict=True, order=None):
   # {{{
     '''Map one view onto another.
         Modifies the slices to work with the new list of axes.
@@ -133,6 +133,8 @@ class View:
           (if not, the default behaviour is to include the entire axis if it's not mentioned in the input view)
         'order' returns the ordering of the output axes to get the original axes back (-1 for things that can't be mapped)'''
 
+    # (must not be shared between calls - they may be in different threads)
+    if order is None: order = []
     assert isinstance(order,list), "can't output order to a non-list"
 
     if hasattr(axes,'axes'): axes = axes.axes  # check if a var or view was passed
-- 
2.43.0


From e6ba0a4e3e85e174ada970ed52dd82155c368e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:52 +0000
Subject: [PATCH 31/63] fix: concurrent reads through the netCDF libraries gave
 wrong values or crashed

---
 pygeode/formats/netcdf.py  | 16 ++++---
 pygeode/formats/netcdf4.py | 85 +++++++++++++++++++++++++-------------
 pygeode/libhelper.py       | 22 ++++++++++
 3 files changed, 90 insertions(+), 33 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 0ebd51e..a6d9677 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -2,9 +2,11 @@
 # Pygeode interface for netCDF files
 
 from ctypes import c_char_p
-from pygeode.libhelper import load_lib
+from pygeode.libhelper import load_lib, SerialLib, netcdf_lock
 lib = load_lib('netcdf')
 lib.nc_strerror.restype = c_char_p
+# Don't let several threads in the library at the same time (it's not thread-safe)
+lib = SerialLib(lib, netcdf_lock)
 del c_char_p
 
 # Map netcdf types to numpy types
@@ -260,12 +262,16 @@ class NCVar(Var):
   def getvalues (self, start, count):
   # {{{
     import numpy as np
-    already_opened = self._f.opened()
-    if not already_opened: self._f.open()
     # allocate space for loading the data
     out = np.empty(count, numpy_type[self._vtype])
-    load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
-    if not already_opened: self._f.close()
+    # The file object may be shared with other threads
+    with netcdf_lock:
+      already_opened = self._f.opened()
+      if not already_opened: self._f.open()
+      try:
+        load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
+      finally:
+        if not already_opened: self._f.close()
 
     return out
   # }}}
diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 4600d26..d00c693 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -1,5 +1,8 @@
 # Pygeode interface for the netCDF4 Python module.
 
+# The underlying library is not thread-safe
+from pygeode.libhelper import netcdf_lock
+
 # A generic dimension (has no attributes except a name and a length)
 from pygeode.axis import DummyAxis
 class NCDim (DummyAxis): pass
@@ -28,38 +31,51 @@ def make_atts (v):
     atts[str(name)] = att
   return atts
 
+# Simple file object - keeps the file open for as long as there are variables
+# referring to it.
+class NCFile:
+# {{{
+  def __init__ (self, ncfile):
+    self._ncfile = ncfile
+    self._lock = netcdf_lock
+  def __del__ (self):
+    with self._lock: self._ncfile.close()
+# }}}
+
 # Wrapper for netcdf variables.
 # Delegates access to the arrays so they don't get loaded until needed.
 from pygeode.var import Var
 class NCVar(Var):
-  def __init__ (self, axes, name, ncvar, atts):
+  def __init__ (self, axes, name, ncvar, atts, ncfile):
     from pygeode.var import Var
+    self._f = ncfile
     self._ncvar = ncvar
     # Turn off netcdf4 masking and scaling algorithm so that they don't get applied twice
     ncvar.set_auto_maskandscale(False)
     Var.__init__(self, axes=axes, name=name, dtype=ncvar.dtype, atts=atts)
   def getvalues (self, start, count):
     sl = [slice(s,s+c) for s,c in zip(start,count)]
-    if len(sl) > 0:
-      return self._ncvar[sl]
-    else:
-      return self._ncvar[:]
+    with netcdf_lock:
+      if len(sl) > 0:
+        return self._ncvar[sl]
+      else:
+        return self._ncvar[:]
 del Var
 
 # A netcdf variable
-def make_var (ncvar):
+def make_var (ncvar, f):
 # {{{
   from pygeode.var import Var
   axes = [make_dim(str(name),size) for name,size in zip(ncvar.dimensions,ncvar.shape)]
-  return NCVar(axes=axes, name=str(ncvar.name), ncvar=ncvar, atts=make_atts(ncvar))
+  return NCVar(axes=axes, name=str(ncvar.name), ncvar=ncvar, atts=make_atts(ncvar), ncfile=f)
 # }}}
 
 # A netcdf variable
-def make_dataset (ncfile):
+def make_dataset (ncfile, f):
 # {{{
   from pygeode.dataset import asdataset
   # Construct all the variables, put in a list
-  vars = list(map(make_var, list(ncfile.variables.values())))
+  vars = [make_var(ncvar, f) for ncvar in ncfile.variables.values()]
   
   # Construct a dataset from these Vars
   dataset = asdataset(vars)
@@ -107,25 +123,28 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   vars = list(dataset.vars)
   axes = combine_axes(v.axes for v in vars)
 
-  # Define the dimensions
-  for a in axes:
-    ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
+  with netcdf_lock:
+    # Define the dimensions
+    for a in axes:
+      ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
+
+    # Define the variables (including axes)
+    for var in vars:
+      dimensions = [a.name for a in var.axes]
+      v = ncfile.createVariable(var.name, datatype=var.dtype, dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
+      v.set_auto_maskandscale(False)
+      v.setncatts(var.atts)
 
-  # Define the variables (including axes)
-  for var in vars:
-    dimensions = [a.name for a in var.axes]
-    v = ncfile.createVariable(var.name, datatype=var.dtype, dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
-    v.set_auto_maskandscale(False)
-    v.setncatts(var.atts)
+    # global attributes
+    ncfile.setncatts(dataset.atts)
 
-  # global attributes
-  ncfile.setncatts(dataset.atts)
+    filepath = ncfile.filepath()
 
   # Relative progress of each variable
   sizes = [v.size for v in vars]
   prog = np.cumsum([0.]+sizes) / np.sum(sizes) * 100
 
-  pbar = PBar(message="Saving '%s':"%ncfile.filepath())
+  pbar = PBar(message="Saving '%s':"%filepath)
 
   # number of actual variables (non-axes) for determining our progress
   N = len([v for v in vars if not isinstance(v,Axis)])
@@ -139,7 +158,8 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
 
     for j,v in enumerate(views):
       vpbar = varpbar.part(j, len(views))
-      ncvar[v.slices] = v.get(var, pbar=vpbar)
+      data = v.get(var, pbar=vpbar)
+      with netcdf_lock: ncvar[v.slices] = data
 
   pbar.update(100)
 # }}}
@@ -229,15 +249,20 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
 
   # Read the file
   try:
-    f = nc.Dataset(filename,"r")
+    with netcdf_lock:
+      f = nc.Dataset(filename,"r")
+      ncfile = NCFile(f)
+      if f.groups:
+        dataset =  {str(key): make_dataset(value, ncfile) for key, value in f.groups.items()}
+      else:
+        dataset = make_dataset(f, ncfile)
+
     if f.groups:
-      dataset =  {str(key): make_dataset(value) for key, value in f.groups.items()}
       dataset =  {str(key): dims2axes(value) for key, value in dataset.items()}
       
       return {str(key): finalize_open(value) for key, value in dataset.items()}
           
     else: 
-      dataset = make_dataset(f)
       # Add the object stuff from dimtypes to value_override, so we don't trigger a
       # load operation on those dims.
       # (We could use any values here, since they'll be overridden again later,
@@ -284,13 +309,14 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
 
   assert format in ('NETCDF3_CLASSIC','NETCDF4')
   
-  with nc.Dataset(filename,'w',format=format) as f:
-    
+  with netcdf_lock: f = nc.Dataset(filename,'w',format=format)
+
+  try:
     if isinstance(in_dataset, dict):
       dataset =  {key: finalize_save(asdataset(value), cfmeta, pack) for key, value in in_dataset.items()}
       dataset =  {key: tidy_axes(value, unlimited=unlimited) for key, value in dataset.items()}
       for key, value in dataset.items():
-        group = f.createGroup(key)
+        with netcdf_lock: group = f.createGroup(key)
         write_var(group, value, unlimited=unlimited, compress=compress)
         
     else:
@@ -299,4 +325,7 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
       dataset = finalize_save(in_dataset, cfmeta, pack)
       dataset = tidy_axes(dataset, unlimited=unlimited)
       write_var(f, dataset, unlimited=unlimited, compress=compress)
+
+  finally:
+    with netcdf_lock: f.close()
 # }}}
diff --git a/pygeode/libhelper.py b/pygeode/libhelper.py
index 5035b4c..c1eeb31 100644
--- a/pygeode/libhelper.py
+++ b/pygeode/libhelper.py
@@ -58,6 +58,28 @@ def find_library (name):
 #    if exists(libname): name = libname
 
 
+# The netCDF and HDF5 libraries are not thread-safe, but both ctypes and the
+# netCDF4 module release the global interpreter lock while they are being called.
+# Anything which calls these libraries has to hold this lock.
+from threading import RLock
+netcdf_lock = RLock()
+del RLock
+
+# Wrap a dynamic library, so that only one thread at a time can be calling it.
+class SerialLib (object):
+# {{{
+  def __init__ (self, lib, lock):
+    self._lib = lib
+    self._lock = lock
+  def __getattr__ (self, name):
+    f = getattr(self._lib, name)
+    lock = self._lock
+    def call (*args):
+      with lock: return f(*args)
+    setattr (self, name, call)
+    return call
+# }}}
+
 # Load a dynamic library
 # Global = Use a global name space so inter-library dependencies can be resolved
 def load_lib (name, Global=False):
-- 
2.43.0


From f2fd290fbe619c6833d6e978b905c70bec8dd8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 32/63] fix: errors while closing a saved netCDF file were
 ignored

---
 pygeode/formats/netcdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index a6d9677..93a60bd 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -565,7 +565,10 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
 
   finally:
     # Finished
-    lib.nc_close(fileid)
+    ret = lib.nc_close(fileid)
+
+  # Some errors only show up when the data is flushed to disk
+  if ret != 0: raise IOError(lib.nc_strerror(ret))
 
 #  # Return a function stub for reloading the saved data
 #  from pygeode.var import Var
-- 
2.43.0


From b41f35116a08aeab490e6e93964791cfed93add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:39 +0000
Subject: [PATCH 33/63] fix: GRIB reader crashed on every accessor (capsules
 were never unwrapped)

---
 pygeode/formats/grib.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index c05486b..01fd40a 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -1017,7 +1017,7 @@ static PyObject *gribcore_get_varcode (PyObject *self, PyObject *args) {
   int v;
   int center, table, varid, level_type;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int ret = get_varcode (index, v, &center, &table, &varid, &level_type);
   if (ret != 0) return NULL;
   return Py_BuildValue("(i,i,i,i)", center, table, varid, level_type);
@@ -1028,7 +1028,7 @@ static PyObject *gribcore_get_var_nt (PyObject *self, PyObject *args) {
   Index *index;
   int v, nt;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nt = get_var_nt (index, v);
   return Py_BuildValue("i", nt);
 }
@@ -1040,7 +1040,7 @@ static PyObject *gribcore_get_var_t (PyObject *self, PyObject *args) {
   npy_intp nt;
   PyArrayObject *y, *m, *d, *H, *M;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nt = get_var_nt (index, v);
   y = (PyArrayObject*)PyArray_SimpleNew(1,&nt,NPY_INT32);
   m = (PyArrayObject*)PyArray_SimpleNew(1,&nt,NPY_INT32);
@@ -1063,7 +1063,7 @@ static PyObject *gribcore_get_var_nz (PyObject *self, PyObject *args) {
   Index *index;
   int v, nz;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nz = get_var_nz (index, v);
   return Py_BuildValue("i", nz);
 }
@@ -1075,7 +1075,7 @@ static PyObject *gribcore_get_var_z (PyObject *self, PyObject *args) {
   npy_intp nz;
   PyArrayObject *l1, *l2;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   nz = get_var_nz (index, v);
   l1 = (PyArrayObject*)PyArray_SimpleNew(1,&nz,NPY_INT32);
   l2 = (PyArrayObject*)PyArray_SimpleNew(1,&nz,NPY_INT32);
@@ -1092,7 +1092,7 @@ static PyObject *gribcore_get_var_neta (PyObject *self, PyObject *args) {
   Index *index;
   int v, neta;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   neta = get_var_neta (index, v);
   return Py_BuildValue("i", neta);
 }
@@ -1104,7 +1104,7 @@ static PyObject *gribcore_get_var_eta (PyObject *self, PyObject *args) {
   npy_intp neta;
   PyArrayObject *a, *b;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   neta = get_var_neta (index, v);
   a = (PyArrayObject*)PyArray_SimpleNew(1,&neta,NPY_FLOAT32);
   b = (PyArrayObject*)PyArray_SimpleNew(1,&neta,NPY_FLOAT32);
@@ -1121,7 +1121,7 @@ static PyObject *gribcore_get_grid (PyObject *self, PyObject *args) {
   Index *index;
   int v, type, ni, nj, la1, lo1, la2, lo2;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int ret = get_grid (index, v, &type, &ni, &nj, &la1, &lo1, &la2, &lo2);
   if (ret != 0) return NULL;
   return Py_BuildValue("(i,i,i,i,i,i,i)", type, ni, nj, la1, lo1, la2, lo2);
@@ -1131,7 +1131,7 @@ static PyObject *gribcore_get_nvars (PyObject *self, PyObject *args) {
   PyObject *index_obj;
   Index *index;
   if (!PyArg_ParseTuple(args, "O!", &PyCapsule_Type, &index_obj)) return NULL;
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
   int nvars = get_nvars(index);
   return Py_BuildValue("i", nvars);
 }
@@ -1144,8 +1144,8 @@ static PyObject *gribcore_read_data_loop (PyObject *self, PyObject *args) {
   PyArrayObject *t, *z, *y, *x, *out;
   // Assuming the arrays are of the right type and contiguous
   if (!PyArg_ParseTuple(args, "O!O!iiO!iO!iO!iO!O!", &PyCapsule_Type, &f_obj, &PyCapsule_Type, &index_obj, &v, &nt, &PyArray_Type, &t, &nz, &PyArray_Type, &z, &ny, &PyArray_Type, &y, &nx, &PyArray_Type, &x, &PyArray_Type, &out)) return NULL;
-  f = (FILE*)PyCapsule_New(f_obj,NULL,NULL);
-  index = (Index*)PyCapsule_New(index_obj,NULL,NULL);
+  f = (FILE*)PyCapsule_GetPointer(f_obj,NULL);
+  index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
 
   int ret = read_data_loop (f, index, v, nt, (int*)t->data, 
     nz, (int*)z->data, ny, (int*)y->data, nx, (int*)x->data,
-- 
2.43.0


From 90d2a58be53bfc538ceed585a8f80bfd8d1afd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 34/63] fix: errors while decoding GRIB sections were ignored,
 and extended sections misread

---
 pygeode/formats/grib.c | 138 +++++++++++++++++++++--------------------
 1 file changed, 70 insertions(+), 68 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index 01fd40a..b2926d1 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <string.h>
 #include <assert.h>
+#include <stdarg.h>
 
 #ifdef WINDOWS
   #include <malloc.h>
@@ -31,6 +32,25 @@ float decode_float (unsigned char x[4]) {
   return y;
 }
 
+// Report an error (as a Python exception).
+static int grib_error (const char *fmt, ...) {
+  va_list args;
+  va_start (args, fmt);
+  PyErr_FormatV (PyExc_IOError, fmt, args);
+  va_end (args);
+  return 1;
+}
+static int truncated (void) {
+  return grib_error ("unexpected end of GRIB file");
+}
+
+// Skip the rest of a section, given its full length and the number of bytes already read.
+static int skip_rest (FILE *f, unsigned int length, unsigned int done) {
+  if (length < done) return grib_error ("bad section length (%u) in GRIB file", length);
+  if (length > done) if (fseeko (f, length - done, SEEK_CUR) != 0) return truncated();
+  return 0;
+}
+
 // Find the next record header.
 // Look for the work 'GRIB', ignore anything else before that.
 // (Some files contain some metadata before the record starts)
@@ -54,15 +74,14 @@ int decode_IS (IS_raw *raw, IS *is) {
   //strcpy (is->grib, "GRIB");
   is->length = (raw->length[0]<<16) + (raw->length[1]<<8) + raw->length[2];
   is->edition = raw->edition[0];
-  assert (is->edition == 1);
+  if (is->edition != 1) return grib_error ("can only read GRIB edition 1 (found edition %d)", is->edition);
   return 0;
 }
 int read_IS (FILE *f, IS *is) {
   IS_raw raw;
   int n = fread (&raw, sizeof(IS_raw), 1, f);
-  if (n != 1) return -1;
-  decode_IS (&raw, is);
-  return 0;
+  if (n != 1) return truncated();
+  return decode_IS (&raw, is);
 }
 void print_IS (IS *x) {
   printf ("Indicator section {\n");
@@ -73,7 +92,7 @@ void print_IS (IS *x) {
 }
 
 int decode_PDS (PDS_raw *raw, PDS *pds) {
-  pds->length = (raw->length[0]<<16) + (raw->length[1]<<8) + raw->length[0];
+  pds->length = (raw->length[0]<<16) + (raw->length[1]<<8) + raw->length[2];
   if (pds->length == 0) {
 //    fprintf (stderr, "Warning: length of product definition section is unset.  Setting default of 28.\n");
     pds->length = 28;
@@ -103,14 +122,8 @@ int decode_PDS (PDS_raw *raw, PDS *pds) {
   if (raw->scale_factor[0] & 128) pds->scale_factor = (pds->scale_factor^0x8000) * -1;
 
   // Check that GDS is set and BMS is unset
-  if ((!pds->gds_bms_flag) & 128) {
-    fprintf (stderr, "read_PDS: Error: GDS not available.\n");
-    return 1;
-  }
-  if (pds->gds_bms_flag & 64) {
-    fprintf (stderr, "read_PDS: Error: can't handle BMS yet.\n");
-    return 1;
-  }
+  if (!(pds->gds_bms_flag & 128)) return grib_error ("no grid description section in GRIB message");
+  if (pds->gds_bms_flag & 64) return grib_error ("can't handle GRIB bit map sections yet");
 
   //TODO: skip to end of section
   return 0;
@@ -118,9 +131,8 @@ int decode_PDS (PDS_raw *raw, PDS *pds) {
 int read_PDS (FILE *f, PDS *pds) {
   PDS_raw raw;
   int n = fread (&raw, sizeof(PDS_raw), 1, f);
-  if (n != 1) return -1;
-  decode_PDS (&raw, pds);
-  return 0;
+  if (n != 1) return truncated();
+  return decode_PDS (&raw, pds);
 }
 void print_PDS (PDS *x) {
   printf ("Product Definition Section {\n");
@@ -215,12 +227,8 @@ int decode_GDS (GDS_raw *raw, GDS *gds) {
 //  if (gds->la1 > 0) printf ("hacking dj to be positive (currently = %d)\n", gds->dj);
 //  if (gds->la1 > 0) gds->dj = -abs(gds->dj);
 
-  if (gds->grid_type != 0 && gds->grid_type != 4) {
-    fprintf (stderr, "Error: can only handle lat/lon grids right now.\n");
-    fprintf (stderr, "(expected data type 0 or 4, found type %i)\n", gds->grid_type);
-    return 1;
-
-  }
+  if (gds->grid_type != 0 && gds->grid_type != 4)
+    return grib_error ("can only handle lat/lon grids right now (expected data type 0 or 4, found type %d)", gds->grid_type);
   //for (int i = 0; i < gds->nv; i++) gds->v[i] = decode_float(raw->v[i]);
 
   return 0;
@@ -228,9 +236,8 @@ int decode_GDS (GDS_raw *raw, GDS *gds) {
 int read_GDS (FILE *f, GDS *gds) {
   GDS_raw raw;
   int n = fread (&raw, sizeof(GDS_raw), 1, f);
-  if (n != 1) return -1;
-  decode_GDS (&raw, gds);
-  return 0;
+  if (n != 1) return truncated();
+  return decode_GDS (&raw, gds);
 }
 void print_GDS (GDS *x) {
   printf ("Grid Description Section {\n");
@@ -317,18 +324,14 @@ int decode_BDS (BDS_raw *raw, BDS *bds) {
   bds->r = decode_float (raw->r);
   bds->nbits = raw->nbits[0];
 
-  if (bds->flag != 0) {
-    fprintf (stderr, "decode_BDS: Error: can't handle any special data flags yet.\n");
-    return 1;
-  }
+  if (bds->flag != 0) return grib_error ("can't handle any special data flags yet");
   return 0;
 }
 int read_BDS (FILE *f, BDS *bds) {
   BDS_raw raw;
   int n = fread (&raw, sizeof(BDS_raw), 1, f);
-  if (n != 1) return -1;
-  decode_BDS (&raw, bds);
-  return 0;
+  if (n != 1) return truncated();
+  return decode_BDS (&raw, bds);
 }
 
 /*
@@ -352,11 +355,8 @@ void print_BDS (BDS *x) {
 int read_EOR (FILE *f) {
   char data[4];
   int n = fread (data, sizeof(char)*4, 1, f);
-  if (n != 1) return -1;
-  if (strncmp(data, "7777", 4)!=0) {
-    fprintf (stderr, "read_EOR: Error: bad record terminator\n");
-    return 1;
-  }
+  if (n != 1) return truncated();
+  if (strncmp(data, "7777", 4)!=0) return grib_error ("bad GRIB record terminator");
   return 0;
 }
 
@@ -366,12 +366,10 @@ int read_EOR (FILE *f) {
 int skip_BDS (FILE *f) {
   BDS_raw raw;
   int n = fread (&raw, sizeof(BDS_raw), 1, f);
-  if (n != 1) return -1;
-  int length = (raw.length[0]<<16) + (raw.length[1]<<8) + raw.length[2];
+  if (n != 1) return truncated();
+  unsigned int length = (raw.length[0]<<16) + (raw.length[1]<<8) + raw.length[2];
   //printf ("BDS length = %d, nbits = %d\n", length, raw.nbits[0]);
-  fseeko (f, length - sizeof(BDS_raw), SEEK_CUR);
-  return 0;
-
+  return skip_rest (f, length, sizeof(BDS_raw));
 }
 
 #define o(x) ((long long)(o[x]))
@@ -411,8 +409,7 @@ int make_index (char *gribfile, char *indexfile) {
 
   FILE *f = fopen(gribfile, "rb");
   if (f == NULL) {
-    fprintf (stderr, "make_index: Error: can't open file '%s'\n", gribfile);
-    return 1;
+    return grib_error ("can't open file '%s'", gribfile);
   }
 
   // Linked list of times
@@ -444,18 +441,18 @@ int make_index (char *gribfile, char *indexfile) {
     PDS pds;
     GDS gds;
 
-    read_IS(f,&is);
-    read_PDS(f, &pds);
-    read_GDS(f, &gds);
+    if (read_IS(f,&is) || read_PDS(f, &pds)) goto failed;
+    if (skip_rest (f, pds.length, sizeof(PDS_raw))) goto failed;
+    if (read_GDS(f, &gds)) goto failed;
     //fseeko (f, 4*gds.nv[0], SEEK_CUR);
     unsigned char pv[2][MAX_LEVELS][4];
     int n;
     n = fread (&(pv[0][0][0]), 4, gds.nv/2, f);
-    if (n != gds.nv/2) return -1;
+    if (n != gds.nv/2) {truncated(); goto failed;}
     n = fread (&(pv[1][0][0]), 4, gds.nv/2, f);
-    if (n != gds.nv/2) return -1;
-    skip_BDS(f);
-    read_EOR(f);
+    if (n != gds.nv/2) {truncated(); goto failed;}
+    if (skip_rest (f, gds.length, sizeof(GDS_raw) + 4*(gds.nv/2*2))) goto failed;
+    if (skip_BDS(f) || read_EOR(f)) goto failed;
 
     // Get the variable code
     Code c = {pds.center_id, pds.table_version, pds.param, pds.level_type};
@@ -519,9 +516,15 @@ int make_index (char *gribfile, char *indexfile) {
 
     // Get the offset
     t->offset[zi] = offset;
+    continue;
+
+    failed:
+    fclose(f);
+    return 1;
   }
 
   fclose(f);
+  if (nvars == 0) return grib_error ("no GRIB messages in '%s'", gribfile);
 
 /*
   for (VarLL *v = first; v != NULL; v = v->next) {
@@ -543,8 +546,7 @@ int make_index (char *gribfile, char *indexfile) {
   ***********************************************/
   f = fopen (indexfile, "wb");
   if (f == NULL) {
-    fprintf (stderr, "make_index: Error: can't open file '%s'\n", indexfile);
-    return 1;
+    return grib_error ("can't open file '%s'", indexfile);
   }
 
   assert (nvars < 256);  // for simplicity
@@ -621,8 +623,7 @@ typedef struct {
 int read_Index (char *indexfile, Index **index) {
   FILE *f = fopen (indexfile, "rb");
   if (f == NULL) {
-    fprintf (stderr, "read_Index: Error: can't open file '%s'\n", indexfile);
-    return 1;
+    return grib_error ("can't open file '%s'", indexfile);
   }
 
   // Read variable info
@@ -652,8 +653,8 @@ int read_Index (char *indexfile, Index **index) {
     v->nv = getc (f);
     // Note: length is scaled by 2 here (since we're separating a and b)
     if (v->nv % 2 != 0) {
-      fprintf (stderr, "read_index: nv parity error\n");
-      return -1;
+      fclose (f);
+      return grib_error ("nv parity error in '%s'", indexfile);
     }
     //assert (v->nv % 2 == 0);
     v->nv /= 2;
@@ -789,6 +790,7 @@ int get_vars (Index *index, Var **var) {
 int open_grib (char *filename, FILE **f) {
   assert (f != NULL);
   *f = fopen(filename, "rb");
+  if (*f == NULL) return grib_error ("can't open file '%s'", filename);
   return 0;
 }
 // Close a file
@@ -905,20 +907,19 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
 
   long long offset = index->var[v].offset[t][z];
 
-  fseeko (f, offset, SEEK_SET);
-  read_head(f);
+  if (fseeko (f, offset, SEEK_SET) != 0 || !read_head(f)) return truncated();
   IS is;
   PDS pds;
   GDS gds;
   BDS bds;
 
-  read_IS(f,&is);
-  read_PDS(f, &pds);
+  if (read_IS(f,&is) || read_PDS(f, &pds)) return 1;
 //  print_PDS(&pds);
-  read_GDS(f, &gds);
-  fseeko (f, 4*gds.nv, SEEK_CUR);
+  if (skip_rest (f, pds.length, sizeof(PDS_raw))) return 1;
+  if (read_GDS(f, &gds)) return 1;
+  if (skip_rest (f, gds.length, sizeof(GDS_raw))) return 1;
 
-  read_BDS(f, &bds);
+  if (read_BDS(f, &bds)) return 1;
 
   double e = pow(2, bds.e);
   double r = bds.r;
@@ -943,12 +944,10 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
     out[i] = (r + d * e) * D;
   }
   free (packed);
-  
-  read_EOR(f);
 
 //  out += size*sizeof(double);
 
-  return 0;
+  return read_EOR(f);
 }
 
 // Extend the read_data routine to handle multiple timesteps and levels,
@@ -965,7 +964,10 @@ int read_data_loop (FILE *f, Index *index, int v, int nt, int *t,
   for (int ti = 0; ti < nt; ti++) {
     for (int zi = 0; zi < nz; zi++) {
       // Read the record
-      read_data (f, index, v, t[ti], z[zi], record);
+      if (read_data (f, index, v, t[ti], z[zi], record)) {
+        free (record);
+        return 1;
+      }
       // Put into the output
       for (int yi = 0; yi < ny; yi++) {
         int y_ = y[yi];
-- 
2.43.0


From 77507d5d4416d2eb6b7c79480e86b8dd70dc8db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 35/63] fix: GRIB values were unpacked wrongly (constant
 fields, more than 25 bits) and past the end of the data

---
 pygeode/formats/grib.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index b2926d1..94f62fe 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -903,7 +903,7 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
   assert (0 <= t && t < nt);
   assert (0 <= z && z < nz);
 
-  int size = index->var[v].gds.ni * index->var[v].gds.nj;
+  long long size = (long long)(index->var[v].gds.ni) * index->var[v].gds.nj;
 
   long long offset = index->var[v].offset[t][z];
 
@@ -927,20 +927,29 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
 
   //printf ("D = %d,  e = %g, r = %g\n", pds.scale_factor, e, r);
 
-  int pack_size = bds.length - sizeof(BDS_raw);
+  // Check that all of the values are there
+  int nbits = bds.nbits;
+  if (nbits > 32) return grib_error ("can't handle %d bits per value in GRIB file", nbits);
+  if (bds.length < sizeof(BDS_raw)) return grib_error ("bad section length (%u) in GRIB file", bds.length);
+  long long pack_size = bds.length - sizeof(BDS_raw);
+  if (pack_size*8 < size*nbits) return grib_error ("not enough data in GRIB message");
   // Allocate space for the temporary data
-  unsigned char *packed = malloc(pack_size);
-  fread (packed, 1, pack_size, f);
+  // (plus a bit of padding, since a value is always extracted from 5 bytes)
+  unsigned char *packed = calloc(pack_size + 5, 1);
+  if (packed == NULL) return grib_error ("out of memory");
+  if (fread (packed, 1, pack_size, f) != pack_size) {
+    free (packed);
+    return truncated();
+  }
   // Translate the packed values
-  char nbits = bds.nbits;
 //  printf ("nbits: %d\n", nbits);
-  for (int i = 0; i < size; i++) {
-    int p = (i*nbits)/8;
-    unsigned int d  = (packed[p]<<24) + (packed[p+1]<<16) + (packed[p+2]<<8) + packed[p+3];
-    char leftpad = (i*nbits)%8;
-    char rightpad = 32 - nbits - leftpad;
-    d <<= leftpad; d >>= leftpad;
-    d >>= rightpad;
+  unsigned long long mask = (1ULL << nbits) - 1;
+  for (long long i = 0; i < size; i++) {
+    long long p = (i*nbits)/8;
+    unsigned long long d = 0;
+    for (int k = 0; k < 5; k++) d = (d<<8) | packed[p+k];
+    int rightpad = 40 - nbits - (i*nbits)%8;
+    d = (d >> rightpad) & mask;
     out[i] = (r + d * e) * D;
   }
   free (packed);
@@ -958,6 +967,7 @@ int read_data_loop (FILE *f, Index *index, int v, int nt, int *t,
   int ni = gds->ni, nj = gds->nj;
   // Allocate space for a single, complete record
   double *record = malloc(sizeof(double) * ni * nj);
+  if (record == NULL) return grib_error ("out of memory");
   double *o = out;
   // Size of a (reduced) record
   int recsize = nx * ny;
-- 
2.43.0


From aa9fc916717b5c5715c375133533a483eff43cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 36/63] fix: negative decimal scale factors in GRIB files were
 read as huge positive ones

---
 pygeode/formats/grib.c | 5 ++---
 pygeode/formats/grib.h | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index 94f62fe..c396a75 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -118,8 +118,8 @@ int decode_PDS (PDS_raw *raw, PDS *pds) {
   pds->num_missing_avg = raw->num_missing_avg[0];
   pds->century       = raw->century[0];
   pds->subcenter_id  = raw->subcenter_id[0];
-  pds->scale_factor  = (raw->scale_factor[0]<<8) + raw->scale_factor[1];
-  if (raw->scale_factor[0] & 128) pds->scale_factor = (pds->scale_factor^0x8000) * -1;
+  pds->scale_factor  = ((raw->scale_factor[0]&127)<<8) + raw->scale_factor[1];
+  if (raw->scale_factor[0] & 128) pds->scale_factor *= -1;
 
   // Check that GDS is set and BMS is unset
   if (!(pds->gds_bms_flag & 128)) return grib_error ("no grid description section in GRIB message");
@@ -189,7 +189,6 @@ int encode_PDS (PDS *pds, PDS_raw *raw) {
   raw->century[0]       = pds->century;
   raw->subcenter_id[0]  = pds->subcenter_id;
   int scale_factor = pds->scale_factor;
-  if (scale_factor < 0) printf ("warning: untested negative scale factor\n");
   if (scale_factor < 0) scale_factor = (-scale_factor) ^ 0x8000;
   raw->scale_factor[0]  = scale_factor >> 8;
   raw->scale_factor[1]  = scale_factor;
diff --git a/pygeode/formats/grib.h b/pygeode/formats/grib.h
index 2efb7f0..30bb6e0 100644
--- a/pygeode/formats/grib.h
+++ b/pygeode/formats/grib.h
@@ -71,7 +71,7 @@ typedef struct {
   unsigned char num_missing_avg;
   unsigned char century;
   unsigned char subcenter_id;
-  unsigned short scale_factor;
+  signed short scale_factor;
 } PDS;
 
 typedef struct {
-- 
2.43.0


From af4c83b0c8e1f04d15d568e2130cae2eb91e0cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:23 +0000
Subject: [PATCH 37/63] fix: GRIB index files: stale or foreign indices, >255
 levels or times, and absent records gave wrong data

---
 pygeode/formats/grib.c  | 347 +++++++++++++++++++++-------------------
 pygeode/formats/grib.py |  18 ++-
 2 files changed, 198 insertions(+), 167 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index c396a75..25024b1 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -8,14 +8,13 @@
 #include <string.h>
 #include <assert.h>
 #include <stdarg.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 #ifdef WINDOWS
-  #include <malloc.h>
   // Note: this may cause issues with files > 2GB on Windows!
   #define fseeko fseek
   #define ftello ftell
-#else
-  #include <alloca.h>
 #endif
 
 // Decode a floating-point value from the special encoding used by GRIB.
@@ -371,7 +370,7 @@ int skip_BDS (FILE *f) {
   return skip_rest (f, length, sizeof(BDS_raw));
 }
 
-#define o(x) ((long long)(o[x]))
+#define o(x) ((unsigned long long)(o[x]))
 long long decode_offset(unsigned char *o) {
   return (o(0)<<56) | (o(1)<<48) | (o(2)<<40) | (o(3)<<32)
        | (o(4)<<24) | (o(5)<<16) | (o(6)<<8) | (o(7));
@@ -400,10 +399,50 @@ typedef unsigned char Time[13];
 #define splittime(x) (x[11]-1)*100+x[0], x[1], x[2], x[3], x[4]
 
 
+// Compare grids
+static int samegrid (GDS *x, GDS *y) {
+  return x->grid_type == y->grid_type && x->ni == y->ni && x->nj == y->nj
+      && x->la1 == y->la1 && x->lo1 == y->lo1 && x->la2 == y->la2 && x->lo2 == y->lo2
+      && x->dj == y->dj && x->scan_flag == y->scan_flag;
+}
+
 /*******************************************************
 /  make an index file
 *******************************************************/
-#define MAX_LEVELS 255
+
+// Write / read numbers
+static void put_int (unsigned int x, FILE *f) {
+  putc (x>>24, f); putc (x>>16, f); putc (x>>8, f); putc (x, f);
+}
+static int get_int (FILE *f, int *x) {
+  unsigned char c[4];
+  if (fread (c, 1, 4, f) != 4) return truncated();
+  *x = ((unsigned int)c[0]<<24) | (c[1]<<16) | (c[2]<<8) | c[3];
+  if (*x < 0) return grib_error ("bad GRIB index file");
+  return 0;
+}
+static void put_offset (long long o, FILE *f) {
+  for (int i = 56; i >= 0; i -= 8) putc ((o>>i)&255, f);
+}
+
+// The start of an index file: identifies the version of the index, and the
+// GRIB file it was made from (an index which doesn't match can't be used).
+#define SIGNATURE_SIZE 44
+static int get_signature (const char *gribfile, unsigned char *sig) {
+  struct stat st;
+  if (stat (gribfile, &st) != 0) return grib_error ("can't open file '%s'", gribfile);
+  long long x[5] = { st.st_dev, st.st_ino, st.st_size, st.st_mtime, 0 };
+  #ifdef __linux__
+  x[4] = st.st_mtim.tv_nsec;
+  #endif
+  memcpy (sig, "PGI2", 4);
+  for (int i = 0; i < 5; i++)
+    for (int j = 0; j < 8; j++) sig[4+i*8+j] = (x[i]>>(8*j)) & 255;
+  return 0;
+}
+
+// Maximum number of vertical coordinate parameters (a or b)
+#define MAX_NV 128
 int make_index (char *gribfile, char *indexfile) {
 
   FILE *f = fopen(gribfile, "rb");
@@ -414,7 +453,8 @@ int make_index (char *gribfile, char *indexfile) {
   // Linked list of times
   typedef struct TimeLL_ {
     Time time;
-    long long offset[MAX_LEVELS];
+    int nz;
+    long long *offset;
     struct TimeLL_ *next;
   } TimeLL;
 
@@ -423,8 +463,8 @@ int make_index (char *gribfile, char *indexfile) {
     Code code;
     int nt; int nz;
     TimeLL *t0, *tlast;
-    Level z[MAX_LEVELS];
-    unsigned char pv[2][MAX_LEVELS][4];
+    Level *z;
+    unsigned char pv[2][MAX_NV][4];
     PDS pds;
     GDS gds;
     struct VarLL_ *next;
@@ -432,6 +472,7 @@ int make_index (char *gribfile, char *indexfile) {
 
   VarLL *first = NULL, *last = NULL;
   int nvars = 0;
+  int ret = 1;
 
   // Get all variables
   while (read_head(f)) {
@@ -440,18 +481,18 @@ int make_index (char *gribfile, char *indexfile) {
     PDS pds;
     GDS gds;
 
-    if (read_IS(f,&is) || read_PDS(f, &pds)) goto failed;
-    if (skip_rest (f, pds.length, sizeof(PDS_raw))) goto failed;
-    if (read_GDS(f, &gds)) goto failed;
+    if (read_IS(f,&is) || read_PDS(f, &pds)) goto done;
+    if (skip_rest (f, pds.length, sizeof(PDS_raw))) goto done;
+    if (read_GDS(f, &gds)) goto done;
     //fseeko (f, 4*gds.nv[0], SEEK_CUR);
-    unsigned char pv[2][MAX_LEVELS][4];
+    unsigned char pv[2][MAX_NV][4];
     int n;
     n = fread (&(pv[0][0][0]), 4, gds.nv/2, f);
-    if (n != gds.nv/2) {truncated(); goto failed;}
+    if (n != gds.nv/2) {truncated(); goto done;}
     n = fread (&(pv[1][0][0]), 4, gds.nv/2, f);
-    if (n != gds.nv/2) {truncated(); goto failed;}
-    if (skip_rest (f, gds.length, sizeof(GDS_raw) + 4*(gds.nv/2*2))) goto failed;
-    if (skip_BDS(f) || read_EOR(f)) goto failed;
+    if (n != gds.nv/2) {truncated(); goto done;}
+    if (skip_rest (f, gds.length, sizeof(GDS_raw) + 4*(gds.nv/2*2))) goto done;
+    if (skip_BDS(f) || read_EOR(f)) goto done;
 
     // Get the variable code
     Code c = {pds.center_id, pds.table_version, pds.param, pds.level_type};
@@ -460,7 +501,8 @@ int make_index (char *gribfile, char *indexfile) {
     // New var?
     if (v == NULL) {
       nvars++;
-      v = alloca(sizeof(VarLL));
+      v = calloc(1, sizeof(VarLL));
+      if (v == NULL) {grib_error ("out of memory"); goto done;}
       setcode(v->code,c);
       // PDS & GDS (with levels & time info stripped out)
 //      memcpy(&(v->pds), &pds, sizeof(PDS));
@@ -477,27 +519,31 @@ int make_index (char *gribfile, char *indexfile) {
       v->nt = v->nz = 0;
       v->t0 = v->tlast = NULL;
       // Store pv values
-      memcpy(&(v->pv[0][0][0]), &(pv[0][0][0]), 4*gds.nv/2);
-      memcpy(&(v->pv[1][0][0]), &(pv[1][0][0]), 4*gds.nv/2);
+      memcpy(&(v->pv[0][0][0]), &(pv[0][0][0]), 4*(gds.nv/2));
+      memcpy(&(v->pv[1][0][0]), &(pv[1][0][0]), 4*(gds.nv/2));
       v->next = NULL;
       if (last != NULL) last->next = v;
       else first = v;
       last = v;      
     }
+    // All records of a variable are put on the grid of the first one
+    else if (!samegrid(&(v->gds), &gds)) {
+      grib_error ("can't handle GRIB variables with different grids");
+      goto done;
+    }
     // Get the time
     Time time = { pds.year, pds.month, pds.day, pds.hour,
                   pds.minute, pds.forecast_time_unit, pds.p1,
                   pds.p2, pds.time_range, pds.num_in_avg,
                   pds.num_missing_avg, pds.century };
     TimeLL *t;
-    for (t = v->t0; t != NULL; t = t->next) if (sametime(t,time)) break;
+    for (t = v->t0; t != NULL; t = t->next) if (sametime(t->time,time)) break;
     // New time?
     if (t == NULL) {
       v->nt++;
-      t = alloca(sizeof(TimeLL));
-      settime(t, time);
-      memset(t->offset, 0, sizeof(long long)*v->nz);
-      t->next = NULL;
+      t = calloc(1, sizeof(TimeLL));
+      if (t == NULL) {grib_error ("out of memory"); goto done;}
+      settime(t->time, time);
       if (v->tlast != NULL) v->tlast->next = t;
       else v->t0 = t;
       v->tlast = t;
@@ -509,21 +555,25 @@ int make_index (char *gribfile, char *indexfile) {
     for (zi = 0; zi < v->nz; zi++) if (samelevel(v->z[zi],l)) break;
     // New level?
     if (zi == v->nz) {
+      Level *z = realloc(v->z, sizeof(Level)*(v->nz+1));
+      if (z == NULL) {grib_error ("out of memory"); goto done;}
+      v->z = z;
       v->nz++;
       setlevel(v->z[zi],l);
     }
 
     // Get the offset
+    if (zi >= t->nz) {
+      long long *o = realloc(t->offset, sizeof(long long)*v->nz);
+      if (o == NULL) {grib_error ("out of memory"); goto done;}
+      t->offset = o;
+      // Nothing found (yet) for other levels
+      while (t->nz < v->nz) t->offset[t->nz++] = -1;
+    }
     t->offset[zi] = offset;
-    continue;
-
-    failed:
-    fclose(f);
-    return 1;
   }
 
-  fclose(f);
-  if (nvars == 0) return grib_error ("no GRIB messages in '%s'", gribfile);
+  if (nvars == 0) {grib_error ("no GRIB messages in '%s'", gribfile); goto done;}
 
 /*
   for (VarLL *v = first; v != NULL; v = v->next) {
@@ -543,13 +593,14 @@ int make_index (char *gribfile, char *indexfile) {
   /***********************************************
   / Now, we can collect this stuff into an index
   ***********************************************/
+  unsigned char sig[SIGNATURE_SIZE];
+  if (get_signature (gribfile, sig)) goto done;
+  fclose (f);
   f = fopen (indexfile, "wb");
-  if (f == NULL) {
-    return grib_error ("can't open file '%s'", indexfile);
-  }
+  if (f == NULL) {grib_error ("can't open file '%s'", indexfile); goto done;}
 
-  assert (nvars < 256);  // for simplicity
-  putc ((unsigned char)(nvars), f);
+  fwrite (sig, SIGNATURE_SIZE, 1, f);
+  put_int (nvars, f);
 
   // Write variable info
   for (VarLL *v = first; v != NULL; v = v->next) {
@@ -562,39 +613,43 @@ int make_index (char *gribfile, char *indexfile) {
 //    fwrite (&(v->gds), sizeof(GDS_raw), 1, f);
     write_GDS (&(v->gds), f);
     // nt / nz
-    assert (v->nt < 256);
-    assert (v->nz < 256);
-    putc (v->nt, f);
-    putc (v->nz, f);
+    put_int (v->nt, f);
+    put_int (v->nz, f);
     // Write the pv values
-    // nv is stored in the GDS above, but write it again just for the hell of it.
-    putc (v->gds.nv, f);
+    // (number of values is taken from the GDS above)
     fwrite (&(v->pv[0][0][0]), 4, v->gds.nv/2, f);
     fwrite (&(v->pv[1][0][0]), 4, v->gds.nv/2, f);
   }
   // Write levels, timesteps, and offsets
   for (VarLL *v = first; v != NULL; v = v->next) {
-    fwrite (v->z, 2, v->nz, f);
+    fwrite (v->z, sizeof(Level), v->nz, f);
     for (TimeLL *t = v->t0; t != NULL; t = t->next) {
       fwrite (t->time, sizeof(Time), 1, f);
       // Write offsets
-      for (int i = 0; i < v->nz; i++) {
-        long long o = t->offset[i];
-//        unsigned char c[8];
-//        c[0] = o>>56; c[1] = o>>48; c[2] = o>>40; c[3] = o>>32;
-//        c[4] = o>>24; c[5] = o>>16; c[6] = o>>8; c[7] = o;
-        putc(o>>56,f); putc(o>>48,f); putc(o>>40,f); putc(o>>32,f);
-        putc(o>>24,f); putc(o>>16,f); putc(o>>8,f); putc(o,f);
-//        fwrite (c, 8, 1, f);
-      }
+      for (int i = 0; i < v->nz; i++) put_offset (i < t->nz ? t->offset[i] : -1, f);
     }
   }
-  
-
-  fclose(f);
-
+  ret = ferror (f);
+  if (fclose (f) != 0) ret = 1;
+  f = NULL;
+  if (ret != 0) grib_error ("can't write to file '%s'", indexfile);
+
+  done:
+  if (f != NULL) fclose (f);
+  while (first != NULL) {
+    VarLL *v = first;
+    first = v->next;
+    while (v->t0 != NULL) {
+      TimeLL *t = v->t0;
+      v->t0 = t->next;
+      free (t->offset);
+      free (t);
+    }
+    free (v->z);
+    free (v);
+  }
 
-  return 0;
+  return ret;
 }
 
 // For easy storage of variables
@@ -619,147 +674,104 @@ typedef struct {
 /****************************************************************************
 / Read an index from a file
 ****************************************************************************/
-int read_Index (char *indexfile, Index **index) {
+int free_Index (Index **index);
+
+// (the index is set to NULL if it was not made from the current version of
+// the given GRIB file)
+int read_Index (char *gribfile, char *indexfile, Index **index) {
+  unsigned char sig[SIGNATURE_SIZE], filesig[SIGNATURE_SIZE];
+  *index = NULL;
+  if (get_signature (gribfile, sig)) return 1;
   FILE *f = fopen (indexfile, "rb");
   if (f == NULL) {
     return grib_error ("can't open file '%s'", indexfile);
   }
+  if (fread (filesig, SIGNATURE_SIZE, 1, f) != 1 || memcmp (sig, filesig, SIGNATURE_SIZE) != 0) {
+    fclose (f);
+    return 0;
+  }
 
   // Read variable info
-  unsigned char nvars = getc(f);
-  //printf ("nvars = %d\n", nvars);
-
-  int nrecs = 0, nt = 0, nz = 0;
+  int nvars;
+  Index *ind = calloc(1, sizeof(Index));
+  if (ind == NULL) {grib_error ("out of memory"); goto failed;}
+  if (get_int (f, &nvars)) goto failed;
+  ind->var = calloc(nvars, sizeof(Var));
+  if (ind->var == NULL) {grib_error ("out of memory"); goto failed;}
+  ind->nvars = nvars;
 
-  Var *var = malloc(sizeof(Var)*nvars);
   for (int i = 0; i < nvars; i++) {
-    Var *v = var+i;
+    Var *v = ind->var+i;
     // Read the code
-    fread (v->code, 4, 1, f);
+    if (fread (v->code, 4, 1, f) != 1) {truncated(); goto failed;}
     // Read the PDS
-    read_PDS (f, &(v->pds));
+    if (read_PDS (f, &(v->pds))) goto failed;
     // Read the GDS
-    read_GDS (f, &(v->gds));
+    if (read_GDS (f, &(v->gds))) goto failed;
     // nt / nz
-    v->nt = getc (f);
-    v->nz = getc (f);
-
-    nt += v->nt;
-    nz += v->nz;
-    nrecs += (v->nt * v->nz);
+    if (get_int (f, &(v->nt)) || get_int (f, &(v->nz))) goto failed;
 
     // Read the pv values
-    v->nv = getc (f);
     // Note: length is scaled by 2 here (since we're separating a and b)
-    if (v->nv % 2 != 0) {
-      fclose (f);
-      return grib_error ("nv parity error in '%s'", indexfile);
-    }
-    //assert (v->nv % 2 == 0);
-    v->nv /= 2;
-    if (v->nv > 0) {
-      int nv = v->nv;
-      unsigned char a[nv][4];
-      unsigned char b[nv][4];
-      fread (&(a[0][0]), 4, nv, f);
-      fread (&(b[0][0]), 4, nv, f);
+    int nv = v->gds.nv / 2;
+    unsigned char a[MAX_NV][4];
+    unsigned char b[MAX_NV][4];
+    if (fread (&(a[0][0]), 4, nv, f) != nv || fread (&(b[0][0]), 4, nv, f) != nv) {truncated(); goto failed;}
+    // (can't be a and b coefficients if there's an odd number of them)
+    if (v->gds.nv % 2 != 0) nv = 0;
+    v->nv = nv;
+    if (nv > 0) {
       v->a = malloc(sizeof(float)*nv);
       v->b = malloc(sizeof(float)*nv);
+      if (v->a == NULL || v->b == NULL) {grib_error ("out of memory"); goto failed;}
       for (int j = 0; j < nv; j++) {
         v->a[j] = decode_float(a[j]);
         v->b[j] = decode_float(b[j]);
       }
-      /*
-      if (i == 0) {
-        printf ("n\ta\tb\n");
-        for (int j = 0; j < k; j++) {
-          printf ("%d\t%f\t%f\n", j, v->a[j], v->b[j]);
-        }
-      }
-      */
-    } else {
-      v->a = NULL;
-      v->b = NULL;
     }
-
-
-/*
-    printf ("var = %d:\n", i);
-    print_PDS (&(v->pds));
-    print_GDS (&(v->gds));
-    printf ("nt = %d, nz = %d\n", v->nt, v->nz);
-*/
   }
 
-  //printf ("total nt = %d, nrecs = %d\n", nt, nrecs);
-
-  // Allocate space for the timesteps, levels, and offsets
-  Level *level = malloc(sizeof(Level)*nz);
-  Time *time = malloc(sizeof(Time)*nt);
-  long long **offset_ = malloc(sizeof(long long*) * nt);
-  long long *offset = malloc(sizeof(long long) * nrecs);
-//  float *a = malloc(sizeof(float) * nrecs);
-//  float *b = malloc(sizeof(float) * nrecs);
-
-  // Read in the data
+  // Read in the levels, timesteps, and offsets
   for (int i = 0; i < nvars; i++) {
-    Var *v = var+i;
-    // point to the allocated space
-    v->time = time;
-    v->level = level;
-    v->offset = offset_;
-    for (int j = 0; j < v->nt; j++) v->offset[j] = offset + j*v->nz;
-    // Load the data from file
-    fread (v->level, 2, v->nz, f);
+    Var *v = ind->var+i;
+    v->level = calloc(v->nz, sizeof(Level));
+    v->time = calloc(v->nt, sizeof(Time));
+    v->offset = calloc(v->nt, sizeof(long long*));
+    if (v->level == NULL || v->time == NULL || v->offset == NULL) {grib_error ("out of memory"); goto failed;}
+    if (fread (v->level, sizeof(Level), v->nz, f) != v->nz) {truncated(); goto failed;}
     for (int j = 0; j < v->nt; j++) {
-      fread (&(v->time[j]), sizeof(Time), 1, f);
-      unsigned char o[8*v->nz];
-      fread (o, 8, v->nz, f);
+      v->offset[j] = calloc(v->nz, sizeof(long long));
+      if (v->offset[j] == NULL) {grib_error ("out of memory"); goto failed;}
+      if (fread (v->time[j], sizeof(Time), 1, f) != 1) {truncated(); goto failed;}
       for (int k = 0; k < v->nz; k++) {
-        //printf ("offset: %d,%d,%d,%d,%d,%d,%d,%d\n", o[8*k], o[8*k+1], o[8*k+2], o[8*k+3], o[8*k+4], o[8*k+5], o[8*k+6], o[8*k+7]);
-        v->offset[j][k] = decode_offset(o+8*k);
+        unsigned char o[8];
+        if (fread (o, 8, 1, f) != 1) {truncated(); goto failed;}
+        v->offset[j][k] = decode_offset(o);
       }
     }
-    // move the global pointers to the next available space
-    level += v->nz;
-    time += v->nt;
-    offset_ += v->nt;
-    offset += v->nt * v->nz;
   }
-/*
-  for (int i = 0; i < nvars; i++) {
-    Var *v = var+i;
-    printf ("var %d (%03d+%03d+%03d+%03d):\n", i, splitcode(v->code));
-    for (int j = 0; j < v->nt; j++) {
-      printf (" %4d-%02d-%02d %02d:%02d:\n", splittime(v->time[j]));
-      for (int k = 0; k < v->nz; k++) {
-        printf ("  level %d: %lld\n", v->level[k][1], v->offset[j][k]);
-      }
-    }
-  }
-*/
   fclose(f);
-
-  *index = malloc(sizeof(Index));
-  (*index)->nvars = nvars;
-  (*index)->var = var;
-
+  *index = ind;
   return 0;
+
+  failed:
+  fclose(f);
+  if (ind != NULL) free_Index (&ind);
+  return 1;
 }
 
 int free_Index (Index **index) {
   assert (index != NULL);
   assert (*index != NULL);
-  free ((*index)->var[0].offset[0]);
-  free ((*index)->var[0].offset);
-  free ((*index)->var[0].time);
-  free ((*index)->var[0].level);
-
-  // free a & b coefficients
   for (int i = 0; i < (*index)->nvars; i++) {
-    if ((*index)->var[i].nv == 0) continue;
-    free ((*index)->var[i].a);
-    free ((*index)->var[i].b);
+    Var *v = (*index)->var+i;
+    if (v->offset != NULL) for (int j = 0; j < v->nt; j++) free (v->offset[j]);
+    free (v->offset);
+    free (v->time);
+    free (v->level);
+    // free a & b coefficients
+    free (v->a);
+    free (v->b);
   }
   free ((*index)->var);
   free (*index);
@@ -906,6 +918,12 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
 
   long long offset = index->var[v].offset[t][z];
 
+  // No such record?
+  if (offset < 0) {
+    for (long long i = 0; i < size; i++) out[i] = NAN;
+    return 0;
+  }
+
   if (fseeko (f, offset, SEEK_SET) != 0 || !read_head(f)) return truncated();
   IS is;
   PDS pds;
@@ -916,6 +934,7 @@ int read_data (FILE *f, Index *index, int v, int t, int z, double *out) {
 //  print_PDS(&pds);
   if (skip_rest (f, pds.length, sizeof(PDS_raw))) return 1;
   if (read_GDS(f, &gds)) return 1;
+  if (!samegrid(&gds, &(index->var[v].gds))) return grib_error ("GRIB file does not match its index");
   if (skip_rest (f, gds.length, sizeof(GDS_raw))) return 1;
 
   if (read_BDS(f, &bds)) return 1;
@@ -1005,11 +1024,13 @@ static PyObject *gribcore_make_index (PyObject *self, PyObject *args) {
 }
 
 static PyObject *gribcore_read_Index (PyObject *self, PyObject *args) {
-  char *indexfile;
+  char *gribfile, *indexfile;
   Index *index = NULL;
-  if (!PyArg_ParseTuple(args, "s", &indexfile)) return NULL;
-  int ret = read_Index (indexfile, &index);
+  if (!PyArg_ParseTuple(args, "ss", &gribfile, &indexfile)) return NULL;
+  int ret = read_Index (gribfile, indexfile, &index);
   if (ret != 0) return NULL;
+  // Not the index of this file
+  if (index == NULL) Py_RETURN_NONE;
   return PyCapsule_New(index, NULL, destroy_Index);
 }
 
diff --git a/pygeode/formats/grib.py b/pygeode/formats/grib.py
index 9d741b8..8417426 100644
--- a/pygeode/formats/grib.py
+++ b/pygeode/formats/grib.py
@@ -4,14 +4,24 @@ from pygeode.formats import gribcore as lib
 class GribFile:
   def __init__(self, filename):
     from os.path import exists, basename
+    from os import getpid, replace
+    from threading import get_ident
     indexname = filename + ".index"
     if not exists(indexname):
       indexname = basename(indexname)
-    if not exists(indexname):
-      print("GribFile: generating "+indexname)
-      lib.make_index(filename, indexname)
-    index = lib.read_Index(indexname)
     file = lib.open_grib(filename)
+    # Use an existing index, unless it was made from something else
+    # (i.e. the file was changed, or it's from another file with the same name)
+    index = None
+    if exists(indexname):
+      index = lib.read_Index(filename, indexname)
+    if index is None:
+      # (don't let anyone else see an incomplete index)
+      tempname = "%s.%d.%d" % (indexname, getpid(), get_ident())
+      lib.make_index(filename, tempname)
+      index = lib.read_Index(filename, tempname)
+      replace(tempname, indexname)
+      if index is None: raise IOError("file '%s' changed while it was read" % filename)
 
     self.index = index
     self.file = file
-- 
2.43.0


From 6ec7c310d602e98b6c6ebf58f787f47c219eacc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:52 +0000
Subject: [PATCH 38/63] fix: axes of GRIB variables: two-byte levels, surface
 fields with levels, single points, longitudes through the meridian, regional
 Gaussian grids

---
 pygeode/formats/grib.c  | 13 +++++++---
 pygeode/formats/grib.py | 54 +++++++++++++++++++++++------------------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/pygeode/formats/grib.c b/pygeode/formats/grib.c
index 25024b1..481c657 100644
--- a/pygeode/formats/grib.c
+++ b/pygeode/formats/grib.c
@@ -227,6 +227,9 @@ int decode_GDS (GDS_raw *raw, GDS *gds) {
 
   if (gds->grid_type != 0 && gds->grid_type != 4)
     return grib_error ("can only handle lat/lon grids right now (expected data type 0 or 4, found type %d)", gds->grid_type);
+  if (gds->ni == 0 || gds->nj == 0 || gds->ni == 0xFFFF || gds->nj == 0xFFFF)
+    return grib_error ("can only handle GRIB grids with the same number of points on each latitude");
+  if (gds->scan_flag & 32) return grib_error ("can't handle GRIB grids with adjacent points along a meridian");
   //for (int i = 0; i < gds->nv; i++) gds->v[i] = decode_float(raw->v[i]);
 
   return 0;
@@ -885,7 +888,7 @@ int get_var_eta (Index *index, int v, float *a, float *b) {
   return 0;
 }
 int get_grid (Index *index, int v, int *type, int *ni, int *nj, 
-              int *la1, int *lo1, int *la2, int *lo2) {
+              int *la1, int *lo1, int *la2, int *lo2, int *dj, int *scan_flag) {
   assert (index != NULL);
   assert (v >= 0 && v < index->nvars);
   assert (type!=NULL && ni!=NULL && nj!=NULL && la1!=NULL && lo1!=NULL && la2!=NULL && lo2!=NULL);
@@ -897,6 +900,8 @@ int get_grid (Index *index, int v, int *type, int *ni, int *nj,
   *lo1 = g->lo1;
   *la2 = g->la2;
   *lo2 = g->lo2;
+  *dj = g->dj & 0xFFFF;
+  *scan_flag = g->scan_flag;
   return 0;
 }
 
@@ -1151,12 +1156,12 @@ static PyObject *gribcore_get_var_eta (PyObject *self, PyObject *args) {
 static PyObject *gribcore_get_grid (PyObject *self, PyObject *args) {
   PyObject *index_obj;
   Index *index;
-  int v, type, ni, nj, la1, lo1, la2, lo2;
+  int v, type, ni, nj, la1, lo1, la2, lo2, dj, scan_flag;
   if (!PyArg_ParseTuple(args, "O!i", &PyCapsule_Type, &index_obj, &v)) return NULL;
   index = (Index*)PyCapsule_GetPointer(index_obj,NULL);
-  int ret = get_grid (index, v, &type, &ni, &nj, &la1, &lo1, &la2, &lo2);
+  int ret = get_grid (index, v, &type, &ni, &nj, &la1, &lo1, &la2, &lo2, &dj, &scan_flag);
   if (ret != 0) return NULL;
-  return Py_BuildValue("(i,i,i,i,i,i,i)", type, ni, nj, la1, lo1, la2, lo2);
+  return Py_BuildValue("(i,i,i,i,i,i,i,i,i)", type, ni, nj, la1, lo1, la2, lo2, dj, scan_flag);
 }
 
 static PyObject *gribcore_get_nvars (PyObject *self, PyObject *args) {
diff --git a/pygeode/formats/grib.py b/pygeode/formats/grib.py
index 8417426..701d56a 100644
--- a/pygeode/formats/grib.py
+++ b/pygeode/formats/grib.py
@@ -36,24 +36,25 @@ class GribVar(Var):
 
     # Get the variable code
     center, table, varid, level_type = lib.get_varcode (file.index, v)
-    print("varcode:", center, table, varid, level_type)
 
     # Get time axis
     y, m, d, H, M = lib.get_var_t(file.index, v)
-    print("time:", y, m, d, H, M)
     #TODO: proper time axis
     time = timeaxis.StandardTime(year=y, month=m, day=d, hour=H, minute=M)
 
     # Get vertical levels
     #TODO: check for z *range*, handle that as a separate axis type??
     lev1, lev2 = lib.get_var_z(file.index, v)
-    print("levels:", lev1, lev2)
-    zorder = lev2.tolist()
-    lev2.sort()
+    # Some levels are a single number (using both bytes)
+    if level_type in point_level_types:
+      lev1, lev2 = np.zeros_like(lev1), lev1*256 + lev2
+    # Sort the levels (the order of the records in the file could be anything)
+    zorder = np.lexsort((lev1, lev2))
+    lev1, lev2 = lev1[zorder], lev2[zorder]
 
     # Read a,b for hybrid coordinates
     neta = lib.get_var_neta (file.index, v)
-    if (neta > 0 and len(lev2) == neta-1):
+    if (level_type == 109 and neta > 0 and len(lev2) == neta-1):
       a, b = lib.get_var_eta(file.index, v)
       #TODO: specify linear (not logarithmic) axis
       zaxis = axis.Hybrid(lev2, a[1:], b[1:])
@@ -61,32 +62,42 @@ class GribVar(Var):
       zaxis = axis.ZAxis(lev2)
 
     # Strip z axis for surface fields
-    if (level_type <= 99 or level_type in (102,200,201)) or (
-        level_type == 109 and lev2.size == 1 and lev2[0] == 1):
+    if lev2.size == 1 and (level_type <= 99 or level_type in (102,200,201) or (
+        level_type == 109 and lev2[0] == 1)):
       zaxis = None
-      zorder = [1]
 
     # Get horizontal axes
-    grid_type, ni, nj, la1, lo1, la2, lo2 = lib.get_grid (file.index, v)
+    grid_type, ni, nj, la1, lo1, la2, lo2, dj, scan_flag = lib.get_grid (file.index, v)
     la1 /= 1000.
     la2 /= 1000.
     lo1 /= 1000.
     if lo1 < 0: lo1 += 360
     lo2 /= 1000.
     if lo2 < 0: lo2 += 360
-    print(ni, nj)
-    print(la1, la2, lo1, lo2)
+    # Longitudes go in the direction of the scan (may go through the meridian)
+    if ni > 1:
+      if scan_flag & 128:
+        if lo2 >= lo1: lo2 -= 360
+      else:
+        if lo2 <= lo1: lo2 += 360
     assert grid_type in (0,4), grid_type
 
     if grid_type == 0:  # regular lat/lon
-      lat = axis.Lat(la1 + np.arange(nj,dtype='d')/(nj-1)*(la2-la1))
+      lat = axis.Lat(np.linspace(la1, la2, nj))
     elif grid_type == 4: # gauss grid
+      # Number of latitudes on the globe (could have only a part of them here)
+      nlat = dj*2 if 0 < dj < 0xFFFF else nj
       if la1 < la2:
-        lat = axis.gausslat(nj, order = 1)
+        lat = axis.gausslat(nlat, order = 1)
       else:
-        lat = axis.gausslat(nj, order = -1)
+        lat = axis.gausslat(nlat, order = -1)
+      if nlat != nj:
+        start = np.argmin(abs(lat.values - la1))
+        lat = lat.slice[start:start+nj]
+        if len(lat) != nj or abs(lat.values[-1] - la2) > 0.01:
+          raise ValueError("unrecognized Gaussian grid")
 
-    lon = axis.Lon(lo1 + np.arange(ni,dtype='d')/(ni-1)*(lo2-lo1))
+    lon = axis.Lon(np.linspace(lo1, lo2, ni))
 
     axes = [a for a in (time, zaxis, lat, lon) if a is not None]
 
@@ -125,13 +136,8 @@ class GribVar(Var):
     t = np.ascontiguousarray(view.integer_indices[ti], 'int32')
     zi = view.index(ZAxis)
     if zi >= 0:
-      z = view.integer_indices[zi]
-      # Get the requested level numbers
-      outlevs = view.axes[zi].values[z]
-      # Figure out how to map these level numbers to the original (scrambled) order
-      zorder = np.array(self.zorder)
-      #TODO: more elegant solution?
-      z = [np.where(zorder==lev)[0][0] for lev in outlevs]
+      # Map the requested levels to the original (scrambled) order
+      z = self.zorder[view.integer_indices[zi]]
     else: z = [0]
 
     # Get the levels
@@ -195,7 +201,7 @@ layer_level_types = {
   106:	("layer between two specified height levels above ground",	"HTGY"),
   108:	("layer between two sigma levels",	"SIGY"),
   110:	("layer between two hybrid levels",	"HYBY"),
-  112:	("layer between two depths below land surface"	"DBLY"),
+  112:	("layer between two depths below land surface",	"DBLY"),
   114:	("layer between two isentropic levels",	"THEY"),
   116:	("layer between two levels at specified pressure difference from ground to level",	"SPDY"),
   120:	("layer between two NAM levels",	"NAMY"),
-- 
2.43.0


From cbc095f0f301404afe9b2062edcfdc77d73eced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 39/63] fix: plotting integer variables with a scale factor or
 offset raised a casting error

---
 pygeode/plot/plot_v1.py     | 4 ++--
 pygeode/plot/pyg_helpers.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index d37c72d..ab00dfa 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -54,8 +54,8 @@ def _buildvartitle(axes = None, name = '', plotname = '', plottitle = '', plotun
 
 def _scalevalues(a, scalefactor = None, offset = None, **dummy):
 # {{{
-  if scalefactor is not None: a *= scalefactor
-  if offset is not None: a += offset
+  if scalefactor is not None: a = a * scalefactor
+  if offset is not None: a = a + offset
   return a
 # }}}
 
diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 96600c0..6732de3 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -49,8 +49,8 @@ def scalevalues(var):
    sf = var.plotatts.get('scalefactor', None)
    of = var.plotatts.get('offset', None)
    v = var.get().copy()
-   if sf is not None: v *= sf
-   if of is not None: v += of
+   if sf is not None: v = v * sf
+   if of is not None: v = v + of
    return v
 # }}}
 
-- 
2.43.0


From 84beb2e7789b9fbf826adc7b94bd74242e8a6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 40/63] fix: significance masks failed with current matplotlib,
 and their minor levels were out of order

---
 pygeode/plot/plot_v1.py     | 14 ++++++++------
 pygeode/plot/pyg_helpers.py |  2 +-
 pygeode/plot/wrappers.py    | 30 +++++++++++++++++++++++++++++-
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index ab00dfa..7e94301 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -424,6 +424,7 @@ def plotsigmask (var, ax, **kwargs):
   from numpy import meshgrid
   from matplotlib.pyplot import contourf, xlim, ylim, xlabel, ylabel, gca
   from pygeode.axis import Lat, Lon, ZAxis, Pres, Hybrid, SpectralM, SpectralN
+  from pygeode.plot.wrappers import contour_layers
 
   # Get # of dimensions - can only do 1D or 2D
   nd = len([s for s in var.shape if s > 1])
@@ -455,15 +456,16 @@ def plotsigmask (var, ax, **kwargs):
   #sigc = ['1.', '1.', '1.', '1.', '1.']
   sigc = ['0.', '0.7', '1.', '0.7', '0.']
   sigl = [-1.1, -shi, -slo, slo, shi, 1.1]
-  ct = ax.contourf(meshx, meshy, values, sigl, colors=sigc, hold=True, zorder=-1)
-  setp([ct.collections[0], ct.collections[4]], visible=False)
-  setp([ct.collections[1], ct.collections[3]], alpha=alphm, edgecolor='none')
-  for c in [ct.collections[1], ct.collections[3]]:
+  ct = ax.contourf(meshx, meshy, values, sigl, colors=sigc, zorder=-1)
+  layers = contour_layers(ct)
+  setp([layers[0], layers[4]], visible=False)
+  setp([layers[1], layers[3]], alpha=alphm, edgecolor='none')
+  for c in [layers[1], layers[3]]:
     for p in c.get_paths(): 
       ax.add_patch(PathPatch(p, hatch='xx', fc='none', ec='0.5', lw=0., zorder=-1))#, clip_path=(p, ax.transAxes)))
 
-  setp(ct.collections[2], alpha=alph, edgecolor='none')
-  for p in ct.collections[2].get_paths(): 
+  setp(layers[2], alpha=alph, edgecolor='none')
+  for p in layers[2].get_paths(): 
     ax.add_patch(PathPatch(p, hatch='xx', fc='none', ec='0.5', lw=0., zorder=-1))#, clip_path=(p, ax.transAxes)))
   #ax.set_rasterization_zorder(0)
 
diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 6732de3..2de415a 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -648,7 +648,7 @@ def vsigmask(pval, axes, mjsig=0.95, mnsig=None, mjsigp = None, mnsigp = None, n
     axes.modifycontours(cnt, ind=[0, 2], **mjsigp)
     axes.modifycontours(cnt, ind=[1],    **nsigp)
   else:
-    cl = [-1.1, -mnsig,-mjsig, mjsig, mnsig, 1.1]
+    cl = [-1.1, -mjsig, -mnsig, mnsig, mjsig, 1.1]
     axes.contourf(x, y, z, cl, colors='w')
     cnt = axes.plots[-1]
     axes.modifycontours(cnt, ind=[0, 4], **mjsigp)
diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index d4593f6..a96ac87 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -307,6 +307,34 @@ class Contourf(PlotOp):
 # }}}
 
 # Op to modify contours
+# The artists drawing each level of a contour set. Recent versions of matplotlib
+# draw all levels with a single artist, in which case one is made for each level
+# so that their properties can be set separately.
+def contour_layers(cnt):
+# {{{
+  if not hasattr(cnt, 'get_paths'): return cnt.collections
+
+  if not hasattr(cnt, '_pyg_layers'):
+    from matplotlib.collections import PathCollection
+    cyc = lambda seq, i: seq[i % len(seq)]
+    fcs, ecs = cnt.get_facecolor(), cnt.get_edgecolor()
+    lws, lss = cnt.get_linewidth(), cnt.get_linestyle()
+    cnt._pyg_layers = []
+    for i, path in enumerate(cnt.get_paths()):
+      pc = PathCollection([path] if len(path.vertices) > 0 else [],
+              alpha = cnt.get_alpha(), transform = cnt.get_transform(),
+              zorder = cnt.get_zorder(), label = '_nolegend_',
+              facecolor = cyc(fcs, i) if len(fcs) > 0 else 'none',
+              edgecolor = cyc(ecs, i) if len(ecs) > 0 else 'none',
+              linewidths = [cyc(lws, i)], linestyles = [cyc(lss, i)])
+      if cnt.filled: pc.set_hatch(cyc(cnt.hatches, i))
+      cnt.axes.add_collection(pc, autolim = False)
+      cnt._pyg_layers.append(pc)
+    cnt.set_visible(False)
+
+  return cnt._pyg_layers
+# }}}
+
 class ModifyContours(PlotOp):
 # {{{
   def __init__(self, cnt, ind=None, **kwargs):
@@ -315,7 +343,7 @@ class ModifyContours(PlotOp):
     PlotOp.__init__(self, **kwargs)
 
   def render (self, axes):
-    coll = self.cnt._cnt.collections
+    coll = contour_layers(self.cnt._cnt)
     if self.ind is None: pyl.setp(coll, **self.plot_kwargs)
     else: pyl.setp([coll[i] for i in self.ind], **self.plot_kwargs)
 # }}}
-- 
2.43.0


From 8791b3e1b19cc88a2ee6184137e2c1ddf6f049db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:41 +0000
Subject: [PATCH 41/63] fix: add_plot(order=) failed, and inner grids rendered
 by themselves were misplaced

---
 pygeode/plot/wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index a96ac87..1221890 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -57,7 +57,7 @@ class AxesWrapper:
     if order is None:
       self.plots.append(plot)
     else:
-      self.plots.insert(plot, order)
+      self.plots.insert(order, plot)
     if make_axes: self.make_axis = True
     self.nplots = len(self.plots)
 # }}}
@@ -108,7 +108,7 @@ class AxesWrapper:
     rect = self.parent.ax_boxes[ia]
     box = mpl.transforms.Bbox.from_extents(rect)
     t_self = mpl.transforms.BboxTransformTo(box)
-    t_parent = self.parent.get_transform()
+    t_parent = self.parent.get_transform(root)
     return mpl.transforms.CompositeAffine2D(t_self, t_parent)
 # }}}
 
-- 
2.43.0


From 2eb4c53689d3e17a5a5492e51668802e8f19bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 42/63] fix: automatic contour settings failed or were wrong
 with current numpy and matplotlib (two-sided logarithms, colour maps of many
 divisions, contours without zero)

---
 pygeode/plot/cm.py          |  4 +++-
 pygeode/plot/cnt_helpers.py | 19 ++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/pygeode/plot/cm.py b/pygeode/plot/cm.py
index 5b08e9a..e64196d 100644
--- a/pygeode/plot/cm.py
+++ b/pygeode/plot/cm.py
@@ -122,6 +122,7 @@ def cmap_from_cdict(cdict, colorspace='rgb'):
   import math
   import numpy as np
 
+  cdict = dict(cdict)
   over = cdict.pop('over', None)
   under = cdict.pop('under', None)
 
@@ -267,7 +268,8 @@ def get_cm(style, ndiv):
   elif isinstance(cm, Colormap):
     return cm
   else:
-    return mpl_cm.get_cmap(cm)
+    from matplotlib.pyplot import get_cmap
+    return get_cmap(cm)
 # }}}
 
 def read_config():
diff --git a/pygeode/plot/cnt_helpers.py b/pygeode/plot/cnt_helpers.py
index 8bd3af9..bf53bde 100644
--- a/pygeode/plot/cnt_helpers.py
+++ b/pygeode/plot/cnt_helpers.py
@@ -25,10 +25,10 @@ class LogNorm2Sided(Normalize):
 
     if np.iterable(value):
       vtype = 'array'
-      val = ma.asarray(value).astype(np.float)
+      val = ma.asarray(value).astype(float)
     else:
       vtype = 'scalar'
-      val = ma.array([value]).astype(np.float)
+      val = ma.array([value]).astype(float)
 
     self.autoscale_None(val)
     vmin, vmax = self.vmin, self.vmax
@@ -76,9 +76,9 @@ class LogNorm2Sided(Normalize):
       result = ma.empty_like(val)
       result[izero] = (val[izero] - 0.5) * vin/cin
       result[ipos] = vin * pow((vmax/vin), (val[ipos] - (0.5 + cin))/(0.5 - cin)) 
-      result[ineg] = -vin * pow((-vmin/vin), ((0.5 - cin) - val[min])/(0.5 - cin))
+      result[ineg] = -vin * pow((-vmin/vin), ((0.5 - cin) - val[ineg])/(0.5 - cin))
                     
-      r = vmin * ma.power((vmax/vmin), val)
+      r = result
     else:
       if value > 0.5 + cin: r = vin * pow((vmax/vin), (value - (0.5 + cin))/(0.5 - cin))
       elif value < 0.5 - cin: r = -vin * pow((-vmin/vin), ((0.5 - cin) - value)/(0.5 - cin))
@@ -232,8 +232,10 @@ def cldict(cdelt, range=None, min=None, mid=0, cidelt=0., nozero=False, **kwargs
   if range is None: range = 10*cdelt
 
   if cidelt > 0.:
-    cl = np.concatenate([np.arange(-range, -cdelt, cdelt),
-                         np.arange(-cdelt, cdelt, cidelt),
+    # (the ends are left out, rounding or not)
+    eps = 1e-6 * cdelt
+    cl = np.concatenate([np.arange(-range, -cdelt - eps, cdelt),
+                         np.arange(-cdelt, cdelt - eps, cidelt),
                          np.arange(cdelt, range + cdelt/2., cdelt)])
   elif min is None:
     cl = np.arange(mid - range, mid + range + cdelt/2, cdelt)
@@ -307,8 +309,8 @@ def clfdict(cdelt, min=None, mid=0., nf=6, nl=2, ndiv=3, nozero=False, style=Non
     cf = np.concatenate([np.linspace(cmin, mid, nf * ndiv + 1)[:-1],
                          np.linspace(mid, cmax, nf * ndiv + 1)[1:]])
     if nozero:
-      cl = np.concatenate([np.linspace(cmin, 0, nl * ndiv + 1)[:-1],
-                           np.linspace(0, cmax, nl * ndiv + 1)[1:]])
+      cl = np.concatenate([np.linspace(cmin, mid, nl * ndiv + 1)[:-1],
+                           np.linspace(mid, cmax, nl * ndiv + 1)[1:]])
     else:
       cl = np.linspace(cmin, cmax, 2 * nl * ndiv + 1)
   else:
@@ -423,7 +425,6 @@ def log2sdict(cmin, cdelt = 10, nf=6, nl=2, ndiv=3, nozero=False, **kwargs):
 
   kwcb = kwargs.pop('colorbar', {})
   cb = dict(ticks=tks, width=1.4, rl=0.01, rr=0.16, ticklabels = [lfmt(x) for x in tks])
-  cb.update(kwcb)
   if kwcb is False:
     cb = False
   else:
-- 
2.43.0


From 9a412c292e69f1fd6c3926203d76340e4f60785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 43/63] fix: showcol, showgrid and showlines: profiles, missing
 values, colorbar=False, lines only, a single format for all lines

---
 pygeode/plot/pyg_helpers.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index 2de415a..b49ca81 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -859,7 +859,7 @@ def showvar(var, *args, **kwargs):
     cf = ax.find_plot(wr.Contourf)
     cl = ax.find_plot(wr.Contour)
     if cbar and cf is not None:
-      if cl is not None: cbar['lcnt'] = cl
+      if cl is not None: cbar = dict(cbar, lcnt=cl)
       ax = wr.colorbar(ax, cf, **cbar)
 
   import pylab as pyl
@@ -886,7 +886,7 @@ def showcol(vs, size=(4.1,2), **kwargs):
 
   Z = [v.squeeze() for v in vs]
 
-  assert Z[0].naxes in [1, 2], 'Variables %s has %d non-generate axes; must have 1 or 2.' % (Z.name, Z.naxes)
+  assert Z[0].naxes in [1, 2], 'Variables %s has %d non-generate axes; must have 1 or 2.' % (Z[0].name, Z[0].naxes)
 
   for z in Z[1:]:
     assert Z[0].naxes == z.naxes, 'All variables must have the same number of non-generate dimensions'
@@ -895,20 +895,25 @@ def showcol(vs, size=(4.1,2), **kwargs):
   fig = kwargs.pop('fig', None)
 
   if Z[0].naxes == 1:
+    from pygeode.axis import ZAxis
+    # The values lie along the horizontal axis if the coordinate is vertical
+    vert = isinstance(Z[0].axes[0], ZAxis) != bool(kwargs.get('transpose', False))
     axs = []
-    ydat = []
+    dat = []
     for v in vs:
       lblx = (v is vs[-1])
       ax = vplot(v, lblx = lblx, **kwargs)
       ax.size = size
       axs.append([ax])
-      ydat.append(ax.find_plot(wr.Plot).plot_args[1])
+      dat.append(ax.find_plot(wr.Plot).plot_args[0 if vert else 1])
 
     Ax = wr.grid(axs)
-    ylim = (np.min([np.min(y) for y in ydat]), np.max([np.max(y) for y in ydat]))
-    Ax.setp(ylim = ylim, children=True)
+    dlim = (np.nanmin([np.nanmin(d) for d in dat]), np.nanmax([np.nanmax(d) for d in dat]))
+    if vert: Ax.setp(xlim = dlim, children=True)
+    else: Ax.setp(ylim = dlim, children=True)
 
   elif Z[0].naxes == 2:
+    cbar = kwargs.pop('colorbar', dict(orientation='vertical'))
     axs = []
     for v in vs:
       lblx = (v is vs[-1])
@@ -918,7 +923,6 @@ def showcol(vs, size=(4.1,2), **kwargs):
 
     Ax = wr.grid(axs)
 
-    cbar = kwargs.pop('colorbar', dict(orientation='vertical'))
     cf = Ax.axes[0].find_plot(wr.Contourf)
     if cbar and cf is not None:
       Ax = wr.colorbar(Ax, cf, **cbar)
@@ -955,7 +959,8 @@ def showgrid(vf, vl=[], ncol=1, size=(3.5,1.5), lbl=True, **kwargs):
 
   fig = kwargs.pop('fig', None)
 
-  kwargs = _parse_autofmt_kwargs(vf[0], kwargs)
+  if nVf > 0 or 'type' in kwargs:
+    kwargs = _parse_autofmt_kwargs((list(vf) + list(vl))[0], kwargs)
 
   cbar = kwargs.pop('colorbar', dict(orientation='vertical'))
   xpad = 0.
@@ -1072,14 +1077,14 @@ def showlines(vs, fmts=None, labels=None, size=(4.1,2), lblx=True, lbly=True, **
   for i, v in enumerate(vs):
     if fmts is None:
       fmt = ''
-    elif hasattr(fmts, '__len__'):
+    elif hasattr(fmts, '__len__') and not isinstance(fmts, str):
       fmt = fmts[i]
     else:
       fmt = fmts
 
     if labels is None:
       lbl = v.name
-    elif hasattr(labels, '__len__'):
+    elif hasattr(labels, '__len__') and not isinstance(labels, str):
       lbl = labels[i]
     else:
       lbl = labels
-- 
2.43.0


From 136c6063b31f40693b6174939a7e618b79702dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 44/63] fix: plotvar: lblx, lbly and perx failed in two
 dimensions

---
 pygeode/plot/plot_v1.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygeode/plot/plot_v1.py b/pygeode/plot/plot_v1.py
index 7e94301..e985690 100644
--- a/pygeode/plot/plot_v1.py
+++ b/pygeode/plot/plot_v1.py
@@ -244,10 +244,13 @@ def plotvar (var, **kwargs):
       xaxis, yaxis = yaxis, xaxis
 
 
+    lblx = kwargs.pop('lblx', True)
+    lbly = kwargs.pop('lbly', True)
     perx = kwargs.pop('perx', False)
     if perx:
       xvals = concatenate([xaxis.values, [xaxis.values[-1] + (xaxis.values[1] - xaxis.values[0])]])
       yvals = yaxis.values
+      values = ma.concatenate([values, values[:, 0:1]], axis=1)
       meshx, meshy = meshgrid (xvals, yvals)
     else:
       xvals = xaxis.values
@@ -274,8 +277,6 @@ def plotvar (var, **kwargs):
     mask = kwargs.pop('mask', None)
     if mask is not None:
       values = ma.masked_where(mask(values), values)
-    if perx: 
-      concatenate([values, values[0:1, :]], axis=0)
 
     #
     # Map?
@@ -386,14 +387,14 @@ def plotvar (var, **kwargs):
       ax.set_ylim(ylims[::yaxis.plotatts['plotorder']])
 
       # Set x and y labels and formatters     
-      if kwargs.pop('lblx', True):
+      if lblx:
         ax.set_xlabel(_buildaxistitle(**xaxis.plotatts))
         ax.xaxis.set_major_formatter(xaxis.formatter())
         loc = xaxis.locator()
         if loc is not None: ax.xaxis.set_major_locator(loc)
       else:
         ax.set_xticklabels('')      
-      if kwargs.pop('lbly', True):
+      if lbly:
         ax.set_ylabel(_buildaxistitle(**yaxis.plotatts))
         ax.yaxis.set_major_formatter(yaxis.formatter())
         loc = yaxis.locator()
-- 
2.43.0


From 996115fa708f2c807cff2aae0d787c805edc5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 45/63] fix: plots with a pressure axis failed with current
 matplotlib (LogLocator has no numdecs)

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1099baa..b815d62 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -1167,7 +1167,7 @@ class Pres (ZAxis):
     if numdecs < 1.2: subs = [1., 2., 4., 7.]
     elif numdecs < 3.: subs = [1., 3.]
     else: subs = [1.]
-    return pyl.LogLocator(subs = subs, numdecs = numdecs)
+    return pyl.LogLocator(subs = subs)
 # }}}
 
   def formatvalue(self, value, fmt=None, units=True, unitstr=None):
-- 
2.43.0


From 87ad071325988923592f1dd0f719b5eec8406201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 46/63] fix: horizontal colour bars of logarithmic contours
 failed

---
 pygeode/plot/wrappers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index 1221890..936efd9 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -421,9 +421,11 @@ def colorbar(axes, cnt, cax=None, rect=None, *args, **kwargs):
     if pos in ['r', 'l']: orient = kwargs.get('orientation', 'vertical')
     if pos in ['b', 't']: orient = kwargs.get('orientation', 'horizontal')
     kwargs['orientation'] = orient
+    # (settings may give both)
+    height = kwargs.pop('height', 0.4)
+    width = kwargs.pop('width', 0.8)
 
     if orient == 'horizontal': 
-      height = kwargs.pop('height', 0.4)
       size = axes.size[0], height
 
       if rect is None:
@@ -433,7 +435,6 @@ def colorbar(axes, cnt, cax=None, rect=None, *args, **kwargs):
         t = kwargs.pop('rt', 0.4)
         rect = [l, b, r, t]
     else: 
-      width = kwargs.pop('width', 0.8)
       size = width, axes.size[1]
       if rect is None:
         l = kwargs.pop('rl', 0.1)
-- 
2.43.0


From c72190e6e8f2b1b1559ce7d8ed7c0dada0e51237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:29 +0000
Subject: [PATCH 47/63] fix: showgrid with more columns than variables failed

---
 pygeode/plot/pyg_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/plot/pyg_helpers.py b/pygeode/plot/pyg_helpers.py
index b49ca81..b504cd4 100644
--- a/pygeode/plot/pyg_helpers.py
+++ b/pygeode/plot/pyg_helpers.py
@@ -988,6 +988,7 @@ def showgrid(vf, vl=[], ncol=1, size=(3.5,1.5), lbl=True, **kwargs):
   kwcb = {}
 
   nV = max(nVl, nVf)
+  ncol = min(ncol, nV)
   nrow = np.ceil(nV / float(ncol))
 
   axpad = kwargs.pop('axpad', 0.2)
-- 
2.43.0


From e34a91951fc1767e8e1ffb5c86b224bd573c6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 48/63] fix: formatvalue of longitudes, latitudes and pressures
 ignored unitstr

---
 pygeode/axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index b815d62..7164087 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -880,7 +880,8 @@ class Lon (XAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
@@ -1036,7 +1037,8 @@ class Lat (YAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
@@ -1221,7 +1223,8 @@ class Pres (ZAxis):
       strval = fmt % value
 
     if units:
-      strval += ' ' + self.units
+      if unitstr is None: unitstr = self.units
+      strval += ' ' + unitstr
 
     return strval
 # }}}
-- 
2.43.0


From 3dc45e5cfa89c8ca2fba17017210f4d990849ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:45 +0000
Subject: [PATCH 49/63] fix: reading variables found by scanning files failed,
 or misplaced descending axes

---
 pygeode/formats/data_scanner.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 32bf1e3..5cf2f20 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -697,40 +697,34 @@ class _DataVar(Var):
   def getview (self, view, pbar):
 
     import numpy as np
-    from pygeode.view import View, simplify
+    from pygeode.view import View
     out = np.empty(view.shape, dtype=self.dtype)
     out[()] = float('nan')
     out_axes = view.clip().axes
     # Loop over all available files.
     N = 0  # Number of points covered so far
     for filename, opener, axes in self._table:
-      subaxes = [self._axis_manager._get_axis_intersection([a1,a2]) for a1,a2 in zip(out_axes,axes)]
+      # Match the axes by name (the order could be different in this file)
+      axes = dict((a.name, a) for a in axes)
+      if set(axes.keys()) != set(a.name for a in out_axes): continue
+      subaxes = [self._axis_manager._get_axis_intersection([a,axes[a.name]]) for a in out_axes]
       reorder = []
       mask = []
       if any(len(a)==0 for a in subaxes): continue
       for a1,a2 in zip(out_axes,subaxes):
         # Figure out where the input chunk fits into the output
-        re = np.searchsorted(a2.values, a1.values)
+        # (the axes could be in any order)
+        order = np.argsort(a2.values)
+        re = np.searchsorted(a2.values, a1.values, sorter=order)
+        re = order[np.minimum(re, len(a2)-1)]
         # Mask out elements that we don't actually have in the chunk
-        m = [r<len(a2.values) and a2.values[r]==v for r,v in zip(re,a1.values)]
-        m = np.array(m)
-        # Convert mask to integer indices
-        m = np.arange(len(m))[m]
-        # and then to a slice (where possible)
-        m = simplify(m)
-        re = re[m]
-        # Try to simplify the re-ordering array
-        if np.all(re == np.sort(re)):
-          re = simplify(re)
-        reorder.append(re)
+        m = np.flatnonzero(a2.values[re] == a1.values)
+        reorder.append(re[m])
         mask.append(m)
       var = [v for v in opener(filename) if v.name == self._varname][0]
       v = View(subaxes)
       chunk = v.get(var)
-      # Note: this may break if there is more than one axis with integer indices.
-      assert len([r for r in reorder if isinstance(r,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      assert len([m for m in mask if isinstance(m,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      out[mask] = chunk[reorder]
+      out[np.ix_(*mask)] = chunk[np.ix_(*reorder)]
       N = N + chunk.size
       pbar.update(100.*N/out.size)
 
-- 
2.43.0


From 7c209e31b37736305fac00aab7f8fc266495a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:51 +0000
Subject: [PATCH 50/63] fix: scanning files given by non-normalized names
 failed

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 5cf2f20..e991f63 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -89,13 +89,13 @@ class _Manifest(object):
     # Special case: no files given
     if len(files) == 0: return
 
-    self.selected_files.extend(files)
-
     # Strip out extra separators, etc. from the filenames.
     # Otherwise, if the files are scanned a second time with different
     # separators, it may cause the same file to be included more than once.
     files = [normpath(f) for f in files]
 
+    self.selected_files.extend(files)
+
     if self.filename is not None:
       pbar = PBar (message = "Scanning files for %s"%self.filename)
     else:
-- 
2.43.0


From 1e68528abb03a18ca1622ddc46f48bb971853857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 51/63] fix: changed files were skipped when scanned again with
 a manifest

---
 pygeode/formats/data_scanner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index e991f63..12bf771 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -101,12 +101,15 @@ class _Manifest(object):
     else:
       pbar = PBar (message = "Scanning files")
 
+    # (the time is updated below, as files are added)
+    last_mtime = self.mtime
+
     # Construct / add to the table
     for i,f in enumerate(files):
       pbar.update(i*100./len(files))
       if f in table:
         # File has changed since last time?
-        if int(getmtime(f)) > self.mtime:
+        if int(getmtime(f)) > last_mtime:
           # Remove existing info
           del table[f]
         else:
-- 
2.43.0


From d4b2643206751f7388c917cb35e40ed74f988b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 52/63] fix: scanned axes of one type with different names or
 references were mixed up

---
 pygeode/formats/data_scanner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 12bf771..78a4c87 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -295,13 +295,15 @@ class AxisManager (object):
   def _unsettify_axis (self, sample, values):
     import numpy as np
     # Check if we can already get one
-    key = values
+    # Detect reverse-ordered axes
+    reverse = len(sample) > 1 and sample.values[0] > sample.values[1]
+    # (axes of the same type can have different names, or time references)
+    key = (sample.name, reverse, repr(sorted(getattr(sample,'auxatts',{}).items(), key=str)), values)
     axis = self._unsettified_axes.setdefault(type(sample),dict()).get(key,None)
     if axis is not None: return axis
 
     values = sorted(values)
-    # Detect reverse-ordered axes
-    if len(sample) > 1 and sample.values[0] > sample.values[1]:
+    if reverse:
       values = values[::-1]
 
     # Check if the axis is degenerate
-- 
2.43.0


From 55dc4f3376241be3d36911c88424131bfeeed89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:57 +0000
Subject: [PATCH 53/63] fix: scanning files with hybrid axes failed

---
 pygeode/formats/data_scanner.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 78a4c87..8fc7d93 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -308,7 +308,7 @@ class AxisManager (object):
 
     # Check if the axis is degenerate
     if len(values) == 0:
-      axis = sample.withnewvalues(values)
+      axis = sample.slice[:0]
     # Do we have aux array pairs to deal with?
     elif isinstance(values[0],tuple):
       x = list(zip(*values))
@@ -317,11 +317,8 @@ class AxisManager (object):
       for aux in x[1:]:
         name, arr = list(zip(*aux))
         auxarrays[name[0]] = np.array(arr)
-      axis = sample.withnewvalues(values)
-      # Only update the auxarrays if we have something to put
-      # For empty axes, we don't want to erase the (empty) auxarrays already
-      # created e.g. for the time axis.
-      if len(auxarrays) > 0: axis.auxarrays = auxarrays
+      # (the auxiliary arrays may be required for creating the axis)
+      axis = type(sample)(values, name=sample.name, atts=sample.atts, **dict(sample.auxatts, **auxarrays))
 
     # Do we have a Varlist pseudo-axis?
     elif isinstance(sample,_Varlist):
-- 
2.43.0


From 5570de2f8464fc7ad6e9a0f5697f6d8b19813893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 54/63] fix: find_best did not accept lists of criteria

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 8fc7d93..7f2d1b1 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -842,7 +842,7 @@ class DataInterface (object):
       return sorted((v.name,v.shape) for v in varlist)
     candidates = sorted(candidates, key=domain_size, reverse=True)
 
-    if isinstance(maximize,tuple):
+    if isinstance(maximize,(list,tuple)):
       # Will be sorted by increasing order, so need to reverse the cost
       # functions here.
       maximize = lambda x,F=maximize: [-f(x) for f in F]
@@ -850,7 +850,7 @@ class DataInterface (object):
       # Always need to invert the sign to get the maximum value first.
       maximize = lambda x,f=maximize: -f(x)
 
-    if isinstance(minimize,tuple):
+    if isinstance(minimize,(list,tuple)):
       minimize = lambda x,F=minimize: [f(x) for f in F]
 
 
-- 
2.43.0


From f3e6fadf52c66e53182bd65c4e792ff65de92e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 55/63] fix: check_multi reported the wrong files for times in
 other units than days

---
 pygeode/formats/multifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index 4cc2043..f92ce99 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -449,6 +449,8 @@ def check_multi (*args, **kwargs):
   del sample_var
   # Helper method - associate a time axis value with a particular file.
   def find_file (t):
+    # (the units and reference date of the files could be different)
+    t = reltime(full_taxis.withnewvalues([t]), startdate=faxis.startdate, units=faxis.units)[0]
     i = np.searchsorted(faxis.values, t, side='right') - 1
     if i == -1:  return '(some missing file?)'
     return files[i]
-- 
2.43.0


From 9b055f09afef71ef3b59e621da9d441749d780c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 56/63] fix: check_multi compared files without variables with
 the times of the previous file

---
 pygeode/formats/multifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index f92ce99..74a0daf 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -482,6 +482,8 @@ def check_multi (*args, **kwargs):
       print("  ERROR: Can't even open the file.  Reason: %s"%str(e))
       all_ok = False
       continue
+    # (in case there is no variable to get the times from)
+    times = rtimes = np.array([])
     for var in current_file:
       if var.name not in full_dataset:
         print("  ERROR: unexpected variable '%s'"%var.name)
-- 
2.43.0


From e86b9e96db4d0c51b6b7539ab8818d696cf1e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 57/63] fix: the S-transform could not be evaluated

---
 pygeode/s_trans2.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pygeode/s_trans2.py b/pygeode/s_trans2.py
index e660c18..fdad65a 100644
--- a/pygeode/s_trans2.py
+++ b/pygeode/s_trans2.py
@@ -28,10 +28,8 @@ class Strans(Var):
     F = np.arange(F2, F1-1, -stride)[::-1]
 
     if 0 in F:
-      from pygeode.progress import PBar
-      print('Calculating mean')
       # constant s-transform value for n = 0
-      self.const = x.mean(Time).get(pbar=True)
+      self.const = x.mean(Time)
     
     f = F / (T * dt)
     self.faxis = faxis = Freq(f, units)
@@ -61,7 +59,8 @@ class Strans(Var):
     ti = self.x.whichaxis(Time)
 
     # Use entire time axis, and loop over memory-friendly chunks of data
-    loop = list(view.modify_slice(Time,slice(None)).loop_mem())
+    fullview = view.modify_slice(Time,slice(None))
+    loop = list(fullview.loop_mem())
     # Can't subset over time, because we need the whole timeseries to compute FFT
     assert len(loop[0].integer_indices[-1]) == T, "not enough memory"
     for iloop,v in enumerate(loop):
@@ -72,24 +71,24 @@ class Strans(Var):
       X = np.concatenate((X,X), axis=-1)
 
       F = v.get(self.faxis) * self.dt * T
-      F = np.asarray(np.round(F.squeeze()),int)
+      F = np.asarray(np.round(F.ravel()),int)
 
-      #TODO
-      outsl = list(v.slices) # what part of the output we're looking at
+      # what part of the output we're looking at
+      outsl = list(v.map_to(fullview.clip()).slices)
+      chunk = out[tuple(outsl[:-1])]
       # Loop over each frequency
       for i in np.arange(len(F)):
-        outsl[-2] = [i] # this particular frequency
         if F[i] == 0:
-          out[outsl] = self.const
+          chunk[...,i,:] = v.get(self.const)[...,0,:]
           continue
         # create Fourier Transform of Gaussian Window
         M = np.arange(T)
-        M[T//2:] -= T  # T/2 or T/2 + 1??
+        M[(T+1)//2:] -= T
         W = np.exp(-2 * (pi*M/F[i])**2 )
 
         # compute S-transform
-        sample = X[...,F[i]:F[i]+T]
-        out[outsl] = ifft(sample * W, axis=-1)[...,timeslice]
+        sample = X[...,0,F[i]:F[i]+T]
+        chunk[...,i,:] = ifft(sample * W, axis=-1)[...,timeslice]
 
     return out
 
-- 
2.43.0


From 04f02248c6cc6bca2c2493a50d9b6d07caafe4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 58/63] fix: single numpy integers reduce out their dimension
 in v[...] as plain ones do

---
 pygeode/var.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/var.py b/pygeode/var.py
index 5ff1104..7735b34 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -296,10 +296,11 @@ class Var(object):
     array = self._getitem_asvar(slices).get()
     # If any single integer indices were passed, then reduce out those
     # dimensions.  This is consistent with what would happen with numpy slicing.
+    import numpy as np
     if isinstance(slices,tuple):
-      extra_slicing = tuple(0 if isinstance(sl,int) else Ellipsis if sl is Ellipsis else slice(None) for sl in slices)
+      extra_slicing = tuple(0 if isinstance(sl,(int,np.integer)) else Ellipsis if sl is Ellipsis else slice(None) for sl in slices)
       array = array[extra_slicing]
-    elif isinstance(slices,int):
+    elif isinstance(slices,(int,np.integer)):
       array = array[0]
     return array
 # }}}
-- 
2.43.0


From 7520b7ff20fa0f0e6fb879a7e1c49298146a83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:37 +0000
Subject: [PATCH 59/63] fix: Var.get(pbar=True) shows a progress bar as
 documented

---
 pygeode/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index fd506b1..09f48d9 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -207,8 +207,9 @@ class View:
     import numpy as np
     from warnings import warn
 
-    from pygeode.progress import FakePBar
+    from pygeode.progress import FakePBar, PBar
     if pbar is False or pbar is None: pbar = FakePBar()
+    elif pbar is True: pbar = PBar()
 
     assert strict in (True, False)
     assert conform in (True, False)
-- 
2.43.0


From 55de6b34ccebcb448f11b5ec708f02929f2d1626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:10 +0000
Subject: [PATCH 60/63] fix: configured plot settings of an axis class do not
 leak into the others

---
 pygeode/axis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 7164087..ca57c7c 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -193,14 +193,18 @@ class Axis(Var):
       if _config.has_option('Axes',  nm + '.' + p):
         setattr(ax, p, _config.getfloat('Axes', nm + '.' + p))
 
-    # Set plot attributes
+    # Set plot attributes (as defaults of this class, which must not share them with others)
+    def set_plotatt(p, value):
+      if 'plotatts' not in type(ax).__dict__: type(ax).plotatts = type(ax).plotatts.copy()
+      type(ax).plotatts[p] = value
+
     for p in ['plottitle', 'plotfmt', 'plotscale']:
       if _config.has_option('Axes',  nm + '.' + p):
-        ax.plotatts[p] = _config.get('Axes', nm + '.' + p)
+        set_plotatt(p, _config.get('Axes', nm + '.' + p))
 
     for p in ['plotorder']:
       if _config.has_option('Axes',  nm + '.' + p):
-        ax.plotatts[p] = int(_config.getfloat('Axes', nm + '.' + p))
+        set_plotatt(p, int(_config.getfloat('Axes', nm + '.' + p)))
   # }}}
 
   #TODO: fix inconsistency between Axis and Var, for == and !=
-- 
2.43.0


From 2045ff99824586346a1d374ef70beae6e88aeb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:42 +0000
Subject: [PATCH 61/63] fix: add the key of a quiver plot to the axes it was
 asked for

---
 pygeode/plot/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/plot/wrappers.py b/pygeode/plot/wrappers.py
index 936efd9..27fec7c 100644
--- a/pygeode/plot/wrappers.py
+++ b/pygeode/plot/wrappers.py
@@ -389,7 +389,7 @@ class QuiverKey(PlotOp):
     PlotOp.__init__(self, *args, **kwargs)
 
   def render (self, axes):
-    pyl.quiverkey(self.cnt._cnt, *self.plot_args, **self.plot_kwargs)
+    axes.quiverkey(self.cnt._cnt, *self.plot_args, **self.plot_kwargs)
 # }}}
 
 # imshow
-- 
2.43.0


From 507fa237e2d7fda78854ecdd0018fc47a07e5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:00 +0000
Subject: [PATCH 62/63] fix: let the contour, pcolor and quiver functions draw
 on ordinary axes when cartopy is installed

---
 pygeode/plot/cartopy.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pygeode/plot/cartopy.py b/pygeode/plot/cartopy.py
index d408f6f..eea25f3 100644
--- a/pygeode/plot/cartopy.py
+++ b/pygeode/plot/cartopy.py
@@ -53,35 +53,41 @@ class CartopyAxes(AxesWrapper):
       self.ax.set_global()
 # }}}
 
+# The axes may be ordinary ones if the plot was made by one of the functions below
+def transform_arg(axes):
+# {{{
+  return dict(transform = axes.transform) if isinstance(axes, CartopyAxes) else {}
+# }}}
+
 # Contour
 class CRTContour(Contour):
 # {{{
   def render (self, axes):
-    self._cnt = axes.contour (*self.plot_args, transform = self.axes.transform, **self.plot_kwargs)
+    self._cnt = axes.contour (*self.plot_args, **transform_arg(self.axes), **self.plot_kwargs)
 # }}}
 
 class CRTContourf(Contourf):
 # {{{
   def render (self, axes):
-    self._cnt = axes.contourf (*self.plot_args, transform = self.axes.transform, **self.plot_kwargs)
+    self._cnt = axes.contourf (*self.plot_args, **transform_arg(self.axes), **self.plot_kwargs)
 # }}}
 
 class CRTPColor(PColor):
 # {{{
   def render (self, axes):
-    self._cnt = axes.pcolor (*self.plot_args, transform = self.axes.transform, **self.plot_kwargs)
+    self._cnt = axes.pcolor (*self.plot_args, **transform_arg(self.axes), **self.plot_kwargs)
 # }}}
 
 class CRTStreamplot(Streamplot):
 # {{{
   def render (self, axes):
-    self._cnt = axes.streamplot (*self.plot_args, transform = self.axes.transform, **self.plot_kwargs)
+    self._cnt = axes.streamplot (*self.plot_args, **transform_arg(self.axes), **self.plot_kwargs)
 # }}}
 
 class CRTQuiver(Quiver):
 # {{{
   def render (self, axes):
-    self._cnt = axes.quiver (*self.plot_args, transform = self.axes.transform, **self.plot_kwargs)
+    self._cnt = axes.quiver (*self.plot_args, **transform_arg(self.axes), **self.plot_kwargs)
 # }}}
 
 class CRTCoastlines(PlotOp):
-- 
2.43.0


From 40031c166122a1b3f4b4625409923e381071ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:12 +0000
Subject: [PATCH 63/63] fix: keep the weights of climatological time axes when
 reading files

---
 pygeode/formats/cfmeta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index b80d8d7..1aa4deb 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -435,6 +435,8 @@ def decode_cf (dataset, ignore=[]):
           warn ("cfmeta: data starts at year 0 (which usually indicates a climatology), but there's more than one year's worth of data!  Keeping it on a regular calendar.", stacklevel=3)
           continue
         axisdict[name] = timeutils.modify(axisdict[name], exclude='year')
+        # Keep any arrays which aren't part of the date (i.e. weights)
+        axisdict[name].auxarrays.update(aux)
       continue  # we've constructed the time axis, so move onto the next axis
 
     # Check for a match from the custom axes (from add-ons).
-- 
2.43.0

