From 85ef26a8341a00989ac58a582b0e0d886870c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 001/111] fix: PD.redim() used a non-existent attribute name
 and always raised

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..db6a8a0 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -309,7 +309,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i]:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From 95ec6c0fb7d5ac16de0bf287c405506284bb96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:07 +0000
Subject: [PATCH 002/111] fix: PD.marginalise() mis-numbered remaining
 dimensions unless axes followed key order

---
 probayes/pd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index db6a8a0..461704c 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,7 +145,6 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     sum_axes = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -153,10 +152,11 @@ class PD (Distribution):
             "Cannot marginalise along scalar for key {}".format(key)
         sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
-      else:
+    for i, key in enumerate(self._keylist):
+      if key not in keys:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in sum_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
-- 
2.43.0


From 91c801533c2ab3e44e1412bdaf1446e211fce9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 003/111] fix: PD.conditionalise() mis-numbered dimensions for
 inner, multiple or already conditional axes

---
 probayes/pd.py | 47 ++++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 461704c..2aa3552 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -224,46 +224,27 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
+    cond_keys = []
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key: marg.pop(key)})
-      if self._aresingleton[i]:
-        dims.update({key: None})
-        if key in keys:
-          normalise = True
-      elif key in self._marg.keys():
+        cond_keys.append(key)
         if self._aresingleton[i]:
-          marg_scalars.add(key)
-        if key in keys:
-          delta += 1 # Don't add to dim just yet
-        else:
-          dim = self._dims[key]
-          dims.update({key: dim})
+          normalise = True
       else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
-      dim = self._dims[key]
+        if self._aresingleton[i] and key in self._marg.keys():
+          marg_scalars.add(key)
+        dims.update({key: self._dims[key]})
+
+    # Order remaining dimensions first, followed by those conditionalised
+    old_order = sorted(set([dim for dim in dims.values() if dim is not None]))
+    dims.update({key: self._dims[key] for key in cond_keys})
+    old_order += sorted(set([self._dims[key] for key in cond_keys
+                             if self._dims[key] is not None]) - set(old_order))
+    for key, dim in dims.items():
       if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+        dims.update({key: old_order.index(dim)})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
-- 
2.43.0


From f5d57cd42621e90db83eff23ed7d9ab01e872fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 004/111] fix: PD.prod() mis-numbered remaining dimensions
 unless axes followed key order

---
 probayes/pd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 2aa3552..7d196a4 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -322,20 +322,20 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     prod_axes = []
+    for key in keys:
+      if self._dims[key] is not None and self._dims[key] not in prod_axes:
+        prod_axes.append(self._dims[key])
     for i, key in enumerate(self._keylist):
       if key in keys:
         assert not self._aresingleton[i], \
             "Cannot apply product along scalar for key {}".format(key)
-        if self._dims[key] not in prod_axes:
-          prod_axes.append(self.dims[key])
-          dim_delta += 1
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dim = self._dims[key]
+          dims.update({key: dim - sum([axis < dim for axis in prod_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
     pscale = self._pscale
-- 
2.43.0


From 299e7f2ac7402688df59f713835ef035cb3a131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 005/111] fix: PD.prod() raised the probability scale to one
 power too many

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 7d196a4..f527f87 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -343,9 +343,9 @@ class PD (Distribution):
     if pscale_product not in [0., 1.]:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
+        pscale_product = pscale*pscale_scaling
       else:
-        pscale_product *= pscale**pscale_scaling 
+        pscale_product = pscale**pscale_scaling
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 472899983afb629565837af1d1780319d5387605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 006/111] fix: PD division ignored divisor axis order and
 failed for non-scalar conditionals

---
 probayes/pd.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index f527f87..7cbee6e 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -575,12 +575,9 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict(self._cond)
-    re_shape = np.ones(self._ndim, dtype=int)
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
 
@@ -591,7 +588,16 @@ class PD (Distribution):
 
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
+    divp = other.prob
+    if not divs: # align axes of divisor with those of the dividend
+      re_shape = np.ones(self._ndim, dtype=int)
+      axes = {}
+      for key, dim in other.dims.items():
+        if dim is not None:
+          axes.update({self._dims[key]: dim})
+          re_shape[self._dims[key]] = other[key].size
+      divp = np.transpose(divp, [axes[dim] for dim in sorted(axes)])
+      divp = divp.reshape(re_shape)
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From 6557382567fefe45c36eba73b2d4827998eca780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 007/111] fix: PD slicing mishandled repeated matches, kept
 dimensions and shared axes

---
 probayes/pd.py | 83 ++++++++++++++++++++++++++------------------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 7cbee6e..891a066 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -493,52 +493,55 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
-    slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+    slices = [slice(None) for _ in range(self.ndim or 0)]
+
+    # Evaluate matches for each dimension (which may be shared)
+    matches = {}
     for i, key in enumerate(self._keylist):
-      check_dims = False
-      if not self._aresingleton[i]:
-        dim = self.dims[key]
-        if key in keyset:
-          assert np.isscalar(values[key]), \
-              "Values must contain scalars but found {} for {}".\
-              format(values[key], key)
-          match = np.ravel(self[key]) == values[key]
-          n_matches = match.sum()
-          post_eq = '{}'.format(values[key])
-          if n_matches == 0:
-            slices[dim] = slice(0, 0)
-            vals[key] = np.array([])
-          elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
-            vals[key] = values[key]
-            dims[key] = None
-          else:
-            post_eq = '[]'
-            slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
-            check_dims = True
-          update_keys = [key]
-          if check_dims:
-            for k, v in self.items():
-              if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
-          for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+      if key in keyset and not self._aresingleton[i]:
+        assert np.isscalar(values[key]), \
+            "Values must contain scalars but found {} for {}".\
+            format(values[key], key)
+        dim = self._dims[key]
+        match = np.ravel(self[key]) == values[key]
+        matches[dim] = np.logical_and(matches.get(dim, True), match)
+    matches = {dim: np.nonzero(match)[0] for dim, match in matches.items()}
+
+    # Only dimensions with unique matches are dropped
+    drop_dims = [] if keepdims else \
+                [dim for dim, match in matches.items() if len(match) == 1]
+    for i, key in enumerate(self._keylist):
+      if self._aresingleton[i]:
+        continue
+      dim = self._dims[key]
+      dims[key] = dim - sum([drop_dim < dim for drop_dim in drop_dims])
+      if dim not in matches:
+        continue
+      if dim in drop_dims:
+        slices[dim] = int(matches[dim][0])
+        vals[key] = values[key] if key in keyset else \
+                    np.ravel(self[key])[slices[dim]]
+        dims[key] = None
+        post_eq = '{}'.format(vals[key])
+      else:
+        slices[dim] = slice(0, 0) if not len(matches[dim]) else matches[dim]
+        vals[key] = np.ravel(self[key])[matches[dim]]
+        post_eq = '[]' if len(matches[dim]) or key not in keyset else \
+                  '{}'.format(values[key])
+      if key in marg.keys():
+        marg[key] = "{}={}".format(key, post_eq)
+      elif key in cond.keys():
+        cond[key] = "{}={}".format(key, post_eq)
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
+    prob = self._prob
+    if slices:
+      for dim in sorted(range(len(slices)), reverse=True):
+        prob = prob[tuple([slice(None)] * dim + [slices[dim]])]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From a1784160480db2f44fedf46d96e1e4427da92f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 008/111] fix: product() duplicated conditions shared by its
 factors

---
 probayes/pd_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..3ee08e3 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -198,8 +198,10 @@ def product(*args, **kwds):
                           for name in dist_cond_names]
   cond2marg = [cond_name for cond_name in flat_cond_names \
                          if cond_name in prod_marg]
-  prod_cond = [cond_name for cond_name in flat_cond_names \
-                         if cond_name not in cond2marg]
+  prod_cond = []
+  for cond_name in flat_cond_names:
+    if cond_name not in cond2marg and cond_name not in prod_cond:
+      prod_cond.append(cond_name)
   cond2marg_set = set(cond2marg)
 
   # Check conditionals compatible
-- 
2.43.0


From 96e17b0490a3ce222f490a272937621295ab792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:08 +0000
Subject: [PATCH 009/111] fix: product() gave variables sharing an axis the
 wrong dimension

---
 probayes/pd_utils.py | 44 ++++++++++++++------------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 3ee08e3..cb4a9c2 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -252,31 +252,20 @@ def product(*args, **kwds):
             assert isunitsetint(val[key]), "Mismatch in variables {} vs {}".\
                 format(prod_vals, val)
             prod_vals.update({key: {list(prod_vals[key])[0] + list(val[key])[0]}})
-  prod_newdims = np.array(np.logical_not(prod_aresingleton))
-  dims_shared = False
-  for arg in args:
-    argdims = [dim for dim in arg.dims.values() if dim is not None]
-    if len(argdims) != len(set(argdims)):
-      dims_shared = True
 
   # Shared dimensions limit product dimensionality
-  if dims_shared:
-    seen_keys = set()
-    for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
-
-  prod_cdims = np.cumsum(prod_newdims)
-  prod_ndims = prod_cdims[-1]
+  prod_dims = collections.OrderedDict()
+  prod_ndims = 0
+  for i, key in enumerate(prod_keys):
+    if not prod_aresingleton[i]:
+      prod_dims.update({key: prod_ndims})
+      for arg in args:
+        if key in arg.dims:
+          for argkey, argdim in arg.dims.items():
+            if argkey != key and argkey in prod_dims and \
+                argdim == arg.dims[key]:
+              prod_dims.update({key: prod_dims[argkey]})
+      prod_ndims = max(prod_ndims, prod_dims[key] + 1)
 
   # Fast-track scalar products
   if maybe_fasttrack and prod_ndims == 0:
@@ -286,16 +275,11 @@ def product(*args, **kwds):
   # Reshape values - they require no axes swapping
   ones_ndims = np.ones(prod_ndims, dtype=int)
   prod_shape = np.ones(prod_ndims, dtype=int)
-  scalarset = set()
-  prod_dims = collections.OrderedDict()
   for i, key in enumerate(prod_keys):
-    if prod_aresingleton[i]:
-      scalarset.add(key)
-    else:
+    if not prod_aresingleton[i]:
       values = prod_vals[key]
       re_shape = np.copy(ones_ndims)
-      dim = prod_cdims[i]-1
-      prod_dims.update({key: dim})
+      dim = prod_dims[key]
       re_shape[dim] = values.size
       prod_shape[dim] = values.size
       prod_vals.update({key: values.reshape(re_shape)})
-- 
2.43.0


From cffbe3f83f4c4aafe7f1ad32fd16ec7b864fb2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 010/111] fix: prod_pscale() took the logarithm of the summed
 log offsets

---
 probayes/pscales.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..8aa5c8e 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -150,10 +150,7 @@ def prod_pscale(pscales, use_logp=None):
   if use_logp:
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
-    elif rtype > 0:
-      return complex(np.log(rtype), 0.)
-    else:
-      return complex(np.log(-rtype), np.pi)
+    return complex(rtype, 0.)
   return rtype
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From fa327f2dc4ba478e32901706ae1f237e4a4d21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 011/111] fix: prod_rule() returned products on a scale other
 than the one it reported

---
 probayes/pscales.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 8aa5c8e..b368102 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -207,10 +207,7 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
-
-  return prob, pscale
+  return rescale(prob, ppscale, pscale), pscale
 
 #-------------------------------------------------------------------------------
 def div_prob(dividend, divisor, *args, pscale=None):
-- 
2.43.0


From 2e422b3f5dc7f3c5996aa554b371678e19ed5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 012/111] fix: div_prob() ignored a requested plain log output
 scale

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index b368102..f53e479 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -223,7 +223,7 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From 3db4a6a82d9414d587bf4dbf85a7d8c0b033fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 013/111] fix: product() ignored or mishandled the log scale
 given as keyword

---
 probayes/pd_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index cb4a9c2..3f4dc36 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -7,7 +7,7 @@ import functools
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
-from probayes.pscales import prod_pscale, prod_rule, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, prod_rule, iscomplex
 
 #-------------------------------------------------------------------------------
 def str2key(string):
@@ -95,7 +95,8 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
-- 
2.43.0


From 076f59942f715b9a94d15d7b57f4d09c0d3766db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 014/111] fix: joint probability of independent variables
 ignored a requested plain log scale

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From 99e6cd4eee35f717c8aa9c769440f663a6300274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 015/111] fix: set_prob() ignored a plain log scale given as a
 number

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..1f3f980 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
-- 
2.43.0


From 368e8be36fbde4ceda5a962c1d8e8e3c4d9b4b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 016/111] fix: evaluating a probability with a pscale keyword
 always raised

---
 probayes/prob.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 1f3f980..046e525 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -375,8 +375,8 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
-      return self.rescale(prob, kwds['pscale'])
+    if pscale is not None:
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From f33a13ccdeb4900f6f2caee7534b2202b2f2cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 017/111] fix: writing a distribution with scalars replaced its
 None dimensions by strings

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 3f4dc36..069e4af 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -465,7 +465,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = dist_dict['attrs'].copy()
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From a9fe69515071391838975f17a895d6a54d2a401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 018/111] fix: SP.walk() drew and discarded an extra sample
 when given a number of steps

---
 probayes/sp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..fd8fe67 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -288,10 +288,11 @@ class SP (SD):
     if stop is None: 
       return collections.deque([sample for sample in sampler])
     steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
+    while len(steps) < stop:
+      try:
+        steps.append(next(sampler))
+      except StopIteration:
         break
-      steps.append(sample)
     return steps
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 319aa30f388438e581eda65b077cb0eff059a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 019/111] fix: bounded scalar steps could land on an excluded
 limit

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..2923738 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -715,12 +715,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From 9beb9e6566be05f04ec4bab76148a643e9499d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 020/111] fix: Distribution.singleton() used non-existent
 attributes and always raised for keys

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From ca216f1caca0e2aa96ae4ded03c4679442a4fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 021/111] fix: renaming one variable to the name of another
 silently dropped one of them

---
 probayes/distribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..402580f 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -268,6 +268,9 @@ class Distribution (NamedDict):
     """
     assert isinstance(keymap, dict), \
         "Input keymap must a dictionary in the form {old_key: new_key}"
+    map_keys = [keymap.get(key, key) for key in self._keylist]
+    assert len(set(map_keys)) == len(map_keys), \
+        "Key map results in duplicate keys: {}".format(map_keys)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
     for key in self._keylist:
@@ -276,8 +279,6 @@ class Distribution (NamedDict):
         dims.update({key: self.dims[key]})
       else:
         map_key = keymap[key]
-        assert map_key not in vals, \
-            "Key map results in duplicate for key: {}".format(map_key)
         vals.update({map_key: self[key]})
         dims.update({map_key: self.dims[key]})
     return Distribution(self._name, vals, dims=dims)
-- 
2.43.0


From 25c8534fd5c45b873fdcc7e8519d62825844d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 022/111] fix: PD.redim() always raised for variables sharing
 an axis

---
 probayes/pd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 891a066..4cf2d2c 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -290,7 +290,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingleton[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From c4d3a4e0aef50bc28419461f3d42805507409a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:45 +0000
Subject: [PATCH 023/111] fix: variables sharing an axis were accepted with
 different numbers of values

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 402580f..2262324 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -181,6 +181,9 @@ class Distribution (NamedDict):
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
+        assert self._shape[self._dims[key]] in [None, val_size], \
+            "Values for key {} incommensurate with size {} of dimension {}".\
+            format(key, self._shape[self._dims[key]], self._dims[key])
         self._sizes.append(val_size)
         self._shape[self._dims[key]] = val_size
         vals_shape = np.copy(ones_ndim)
-- 
2.43.0


From ede23ea1f4e2beb36c6520548fcbd15d6fe077cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:02 +0000
Subject: [PATCH 024/111] fix: product() matched conditions by label rather
 than variable and multiplied conditions with different values

---
 probayes/pd_utils.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 069e4af..daeb74f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -197,32 +197,29 @@ def product(*args, **kwds):
   prod_marg_name = ','.join(prod_marg)
   flat_cond_names = [name for dist_cond_names in cond_names \
                           for name in dist_cond_names]
-  cond2marg = [cond_name for cond_name in flat_cond_names \
-                         if cond_name in prod_marg]
   prod_cond = []
   for cond_name in flat_cond_names:
-    if cond_name not in cond2marg and cond_name not in prod_cond:
+    if str2key(cond_name) not in all_marg_keys and \
+        str2key(cond_name) not in str2key(prod_cond):
       prod_cond.append(cond_name)
-  cond2marg_set = set(cond2marg)
 
   # Check conditionals compatible
-  prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
+  prod_cond_set = set(str2key(prod_cond))
+  cond_dict = {key: None for key in str2key(flat_cond_names)}
   for i, arg in enumerate(args):
-    cond_set = set(cond_names[i]) - cond2marg_set
+    cond_set = set(arg.cond.keys()) - set(all_marg_keys)
     if cond_set:
       assert prod_cond_set == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
               prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
-        values = arg[name]
-        if not isscalar(values):
-          values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
-          raise ValueError("Mismatch in values for condition {}".format(name))
+    for key in cond_dict:
+      if key in arg.keys() and not isunitsetint(arg[key]):
+        values = np.ravel(arg[key])
+        if cond_dict[key] is None:
+          cond_dict[key] = values
+        elif len(cond_dict[key]) != len(values) or \
+            not np.allclose(cond_dict[key], values):
+          raise ValueError("Mismatch in values for condition {}".format(key))
 
   # Establish product name, values, and dimensions
   prod_keys = str2key(prod_marg + prod_cond)
-- 
2.43.0


From a9e9fd78434f6a888c3ae2cd7802db05403a9b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:33 +0000
Subject: [PATCH 025/111] fix: quantiles could decrease with increasing level
 and depended on total mass

---
 probayes/pd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 4cf2d2c..0efb0e8 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -407,6 +407,7 @@ class PD (Distribution):
     # Evaluate quantiles from cumulative probability
     ravprob = rescale(np.ravel(self.prob), self._pscale, 1.)
     cumprob = np.cumsum(ravprob)
+    ravprob = div_prob(ravprob, cumprob[-1])
     cumprob = div_prob(cumprob, cumprob[-1])
     cum_idx = np.maximum(0, np.digitize(np.array(quants), cumprob)-1).tolist()
 
@@ -430,7 +431,7 @@ class PD (Distribution):
           else:
             vals = val[idx:idx+2]
             ravp = ravprob[rav_idx:rav_idx+2]
-            if np.abs(np.diff(ravp)) < min(quants[j], 1. - quants[j]):
+            if np.abs(np.diff(ravp)) < 0.5: # must not depend on quants[j]
               cump = cumprob[rav_idx:rav_idx+2]
               interp_val = np.interp(quants[j], cump, vals)
               quantiles[j].update({key: interp_val})
-- 
2.43.0


From b6c6842ee33f07bd181a48c90a478d23176e4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:55 +0000
Subject: [PATCH 026/111] fix: remarginalise() always raised for conditional
 distributions

---
 probayes/pd.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 0efb0e8..a1fb09d 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -648,9 +648,17 @@ class PD (Distribution):
         indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \
                                      np.digitize(rav_vals, edges)-1))
 
+    # Append indices for conditional dimensions
+    shape = list(shape)
+    cond_dims = [self._dims[key] for key in self._cond.keys()]
+    cond_dims = sorted(set([dim for dim in cond_dims if dim is not None]))
+    for dim in cond_dims:
+      indices.append(np.ravel(np.indices(self._shape)[dim]))
+      shape.append(self._shape[dim])
+
     # Iterate through every self.prob value
     rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
-    rem_prob = np.zeros(distribution.shape, dtype=float)
+    rem_prob = np.zeros(shape, dtype=float)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
       rem_prob[rem_idx] += rav_prob[i]
@@ -668,12 +676,14 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
+      rem_name += '|' + self._name.split('|')[1]
     cond_keys = list(self._cond.keys())
     if cond_keys:
       for key in cond_keys:
         rem_vals.update({key: self[key]})
-        rem_dims.update({key: self._dims[key]})
+        dim = self._dims[key]
+        rem_dims.update({key: None if dim is None else 
+                              distribution.ndim + cond_dims.index(dim)})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
               prob=rescale(rem_prob, 1., self._pscale),
-- 
2.43.0


From a2ee5dd159890cd28b0c62dc727910bcce5c7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:24 +0000
Subject: [PATCH 027/111] fix: adding distributions along an axis always raised
 or mislabelled the axis

---
 probayes/pd_utils.py | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index daeb74f..f1a9684 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -367,31 +367,27 @@ def summate(*args):
     return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
   # 2. all identical but in one dimension: concatenate in that dimension
-  # TODO: fix the remaining code of this function below
   sum_vals = collections.OrderedDict(args[0])
-  sum_dims = [None] * (len(args) - 1)
-  for i, arg in enumerate(args):
-    if i == 0:
-      continue
-    for key in marg_keys:
-      if sum_dims[i-1] is not None:
-        continue
-      elif not arg.singleton(key):
-        key_vals = arg[key]
-        if key_vals.size == sum_vals[key].size:
-          if np.allclose(key_vals, sum_vals[key]):
-            continue
-        sum_dims[i-1] = arg.dims[key]
-  assert len(set(sum_dims)) > 1, "Cannot find unique concatenation axis"
-  sum_dim = sum_dims[0]
   sum_dims = args[0].dims
-  key = marg_keys[sum_dim]
-  sum_prob = np.copy(probs[0])
-  for i, val in enumerate(vals):
-    if i == 0:
-      continue
-    sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
-    sum_prob = np.concatenate([sum_prob, probs[i]], axis=sum_dim)
+  sum_axes = set()
+  for arg in args[1:]:
+    assert dict(arg.dims) == dict(sum_dims), \
+        "Dimensions not identical across distributions: {}, {}".\
+        format(arg.dims, sum_dims)
+    for key in sum_keys:
+      if sum_dims[key] is None:
+        assert arg[key] == sum_vals[key], \
+            "Scalar values not identical across distributions for: {}".format(key)
+      elif not np.array_equal(arg[key], sum_vals[key]):
+        sum_axes.add(sum_dims[key])
+  if not sum_axes and args[0].ndim == 1:
+    sum_axes = {0}
+  assert len(sum_axes) == 1, "Cannot find unique concatenation axis"
+  sum_dim = list(sum_axes)[0]
+  for key in sum_keys:
+    if sum_dims[key] == sum_dim:
+      sum_vals[key] = np.concatenate([val[key] for val in vals], axis=sum_dim)
+  sum_prob = np.concatenate(probs, axis=sum_dim)
   return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From ece479d638bb2fad40d7870df9758d7b3904da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:56 +0000
Subject: [PATCH 028/111] fix: arrays of one value were not considered
 monotonic, losing their quantiles

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index f1a9684..cfed07a 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -396,7 +396,7 @@ def ismonotonic(vals):
     return True
   vals = np.ravel(vals)
   is_ge = vals[1:] >= vals[:-1]
-  if len(np.unique(is_ge)) == 1:
+  if len(np.unique(is_ge)) <= 1:
     return True
   return False
 
-- 
2.43.0


From 005e393bbe254e7bfa4f2d7f5f64070eab713aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 029/111] fix: a log probability offset of exactly one was
 taken for the linear scale

---
 probayes/pd.py       | 2 +-
 probayes/pd_utils.py | 2 +-
 probayes/pscales.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index a1fb09d..54103d2 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -340,7 +340,7 @@ class PD (Distribution):
     name = margcond_str(marg, cond)
     pscale = self._pscale
     pscale_product = pscale
-    if pscale_product not in [0., 1.]:
+    if pscale_product != 0. and (iscomplex(pscale) or pscale != 1.):
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
         pscale_product = pscale*pscale_scaling
diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index cfed07a..5aa7335 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -100,7 +100,7 @@ def product(*args, **kwds):
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
-                    pscale in [0, 1.]
+                    (pscale == 0. or (pscale == 1. and not iscomplex(pscale)))
 
 
   # Collate vals, probs, marg_names, and cond_names as lists
diff --git a/probayes/pscales.py b/probayes/pscales.py
index f53e479..b4b82a6 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,7 +26,7 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
-  if pscale == 1:
+  if not iscomplex(pscale) and pscale == 1:
     return 1.
   if pscale in ['log', 'ln', 0]:
     return COMPLEX_ZERO
-- 
2.43.0


From 286641dc9d5ff3cd47dad42b2f1d7f163d10a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 030/111] fix: domains given as arrays or single values were
 refused, and lists given as domains were modified

---
 probayes/variable.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 2923738..dd97bdd 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,11 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    has_vset = vset is not None and (np.isscalar(vset) or len(vset) > 0)
+    if vtype or has_vset:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if has_vset:
         self.vset = vset
     else:
       self.vtype = vtype
@@ -174,8 +175,8 @@ class Variable (Icon):
       vset = DEFAULT_VSETS[self._vtype]
     elif isinstance(vset, (set, range)):
       vset = sorted(vset)
-    elif np.isscalar(self._vset):
-      vset = [self._vset]
+    elif np.isscalar(vset):
+      vset = [vset]
     elif isinstance(vset, tuple):
       assert len(vset) == 2, \
           "Tuple vsets contain pairs of values, not {}".format(vset)
@@ -188,6 +189,7 @@ class Variable (Icon):
           "Unrecognised vset specification: {}".format(vset)
 
     # At this point, vset can only be a list, but may contain tuples
+    vset = list(vset) # never modify the list given
     vtype = self._vtype
     for i, value in enumerate(vset):
       if isinstance(value, tuple):
-- 
2.43.0


From 665e5f1f886e645821b9140a0bfdaddde7ce2629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 031/111] fix: Variable.inside() was wrong for repeated values

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index dd97bdd..86ddb6d 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -327,7 +327,7 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
       self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
       self._lhv = log_prob(self._length)
-- 
2.43.0


From 594262a075b01e560c7ebb3a8f58a7f21dccf880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 032/111] fix: boolean variables with a single value could not
 be evaluated

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 86ddb6d..97f0a31 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -329,7 +329,7 @@ class Variable (Icon):
     if self._vtype not in VTYPES[float]:
       self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
-      self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
+      self._length = len(self._vset)
       self._lhv = log_prob(self._length)
       self._nlhv = -self._lhv
       self._isfinite = False
-- 
2.43.0


From ac6a7252ab6f3d07caa6b3379e96a04cabef97a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 033/111] fix: removing a transformation left the limits
 transformed

---
 probayes/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 97f0a31..0988d3f 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -478,6 +478,8 @@ class Variable (Icon):
     """
     self._ufun = ufun
     if self._ufun is None:
+      self.__no_ucov = None
+      self._eval_ulims()
       return
     self.__no_ucov = False if 'no_ucov' not in kwds else kwds.pop('no_ucov')
 
-- 
2.43.0


From b8bdf6afa85a8e851c104bd98418cd2897ac23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 034/111] fix: explicit steps of zero were replaced by the
 default step, default steps were not scaled when applied or randomised

---
 probayes/variable.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 0988d3f..9405cea 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -610,25 +610,28 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    scale = delta is None and self._delta_kwds.get('scale', False)
+    delta = self._delta if delta is None else delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
       delta = delta[0]
     orand = isinstance(delta, tuple)
     urand = isinstance(delta, list)
-    if orand:
-      assert len(delta) == 1, "Tuple delta must contain one element"
+    if orand or urand:
+      assert len(delta) == 1, "Tuple/list delta must contain one element"
       delta = delta[0]
+    if scale:
+      assert np.isfinite(self._length), "Cannot scale by infinite length"
+      delta = delta * self._length
+    if orand:
       if self._vtype not in VTYPES[bool]:
         delta = delta if np.random.uniform() > 0.5 else -delta
     elif urand:
-      assert len(delta) == 1, "List delta must contain one element"
-      delta = delta[0]
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
@@ -636,9 +639,6 @@ class Variable (Icon):
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-    if delta == self._delta and self._delta_kwds['scale']:
-      assert np.isfinite(self._length), "Cannot scale by infinite length"
-      delta *= self._length
     return self._Delta(delta)
 
 #------------------------------------------------------------------------------- 
@@ -664,13 +664,16 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
+    if delta is None and self._vtype not in VTYPES[bool] and \
+        not isinstance(self._delta, Expression):
+      delta = self.eval_delta()
+    delta = self._delta if delta is None else delta
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta(values)
       delta = delta()
     elif self._vtype not in VTYPES[bool]:
-      if isinstance(delta, (list, tuple)):
+      if isinstance(delta, (list, tuple)) and not isinstance(delta, self._Delta):
         delta = self.eval_delta(delta)
     if isinstance(delta, self._Delta):
       delta = delta[0]
-- 
2.43.0


From 7f64a4064f806680762bbbaf4e2db3a7335497d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 035/111] fix: uniformly randomised integer steps never took
 their largest value

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9405cea..c56e3d8 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -635,7 +635,7 @@ class Variable (Icon):
       if self._vtype in VTYPES[bool]:
         pass
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-delta, delta + 1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-- 
2.43.0


From 704dbfb4dcd634eeef76e60a467789c578d4dd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 036/111] fix: randomised steps of single boolean values
 flipped with the wrong probability, and never when evaluated beforehand

---
 probayes/variable.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index c56e3d8..a98d6f6 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -629,11 +629,13 @@ class Variable (Icon):
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta = delta * self._length
     if orand:
-      if self._vtype not in VTYPES[bool]:
+      if self._vtype in VTYPES[bool]:
+        delta = bool(delta) and np.random.uniform() > 0.5
+      else:
         delta = delta if np.random.uniform() > 0.5 else -delta
     elif urand:
       if self._vtype in VTYPES[bool]:
-        pass
+        delta = delta > np.random.uniform()
       elif self._vtype in VTYPES[int]:
         delta = np.random.randint(-delta, delta + 1)
       else:
@@ -682,19 +684,14 @@ class Variable (Icon):
 
     # Apply the delta, treating bool as a special case
     if self._vtype in VTYPES[bool]:
-      orand = isinstance(delta, tuple)
-      urand = isinstance(delta, list)
-      if orand or urand:
-        assert len(delta) == 1, "Tuple/list delta must contain one element"
-        delta = delta[0]
-        if isscalar(values) or orand:
-          vals = values if delta > np.random.uniform() > 0.5 \
-                 else np.logical_not(values)
-        else:
-          flip = delta > np.random.uniform(size=values.shape)
-          vals = np.copy(values)
-          vals[flip] = np.logical_not(vals[flip])
+      if isinstance(delta, list) and not isscalar(values):
+        assert len(delta) == 1, "List delta must contain one element"
+        flip = delta[0] > np.random.uniform(size=values.shape)
+        vals = np.copy(values)
+        vals[flip] = np.logical_not(vals[flip])
       else:
+        if isinstance(delta, (list, tuple)):
+          delta = self.eval_delta(delta)[0]
         vals = np.array(values, dtype=int) + np.array(delta, dtype=int)
         vals = np.array(np.mod(vals, 2), dtype=bool)
     elif self._ufun is None or self.__no_ucov:
-- 
2.43.0


From 61d0feb0a5678c3cc060e6b5e7b5bcc6626ca4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:36 +0000
Subject: [PATCH 037/111] fix: bounded steps of integer variables could leave
 sets with gaps

---
 probayes/variable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index a98d6f6..d2b78e2 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -711,7 +711,11 @@ class Variable (Icon):
                    [isinstance(self._vset[0], tuple), 
                     isinstance(self._vset[1], tuple)]
     if not any(maybe_bounce):
-      return np.maximum(self._vlims[0], np.minimum(self._vlims[1], vals))
+      vals = np.maximum(self._vlims[0], np.minimum(self._vlims[1], vals))
+      if self._vtype in VTYPES[float]:
+        return vals
+      inside = self._inside(vals)
+      return vals if np.all(inside) else np.where(inside, vals, values)[()]
 
     # Bouncing scalars and arrays without and with boolean indexing respectively
     if isscalar(vals):
-- 
2.43.0


From 931adfa6527027f860a53ea724f549d53291585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:35 +0000
Subject: [PATCH 038/111] fix: RV(name, vtype=...) without a domain always
 raised

---
 probayes/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index d2b78e2..0eff183 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -105,7 +105,8 @@ class Variable (Icon):
     self.name = name
 
     # Allow positions of vtype and vset to be swapped
-    if isinstance(vtype, (list, tuple, set, range, np.ndarray)):
+    if isinstance(vtype, (list, tuple, set, range, np.ndarray)) or \
+        isinstance(vset, type):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-- 
2.43.0


From 85fcebe95420c59aac91aebb46d812d9359f0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:35 +0000
Subject: [PATCH 039/111] fix: fields could not evaluate given steps, ignored
 steps set by a dictionary or by their only variable, and exceptions of
 spherical steps

---
 probayes/field.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..80a44b2 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -266,7 +266,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
@@ -473,7 +473,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._delta is None:
         variables = list(self._varlist)
         if len(variables) == 1 and variables[0]._delta is not None:
-          return variables[0]._delta
+          return self._delta_type(variables[0].eval_delta())
         return None
       elif isinstance(self._delta, Expression):
         delta = self._delta()
@@ -489,7 +489,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
@@ -502,14 +502,13 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Rule out possibility of all variables contained in unscaling argument
     assert isinstance(delta, tuple), \
         "Unknown delta type: {}".format(delta)
-    unscale = {} if not self._delta_args else self._delta_args
+    unscale = {} if not self._delta_args else self._delta_args[0]
     if not len(self._spherise):
       return self._delta_type(**unscale)
 
     # Spherical version
     delta = delta[0]
     spherise = self._spherise
-    keys = self._spherise.keys()
     rss = real_sqrt(np.sum(np.array(list(spherise.values()))**2))
     if self._delta_kwds['scale']:
       delta *= rss
@@ -518,7 +517,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     deltas = (deltas * delta) / rss_deltas
     delta_dict = collections.OrderedDict()
     idx = 0
-    for i, key in enumerate(keys):
+    for i, key in enumerate(self._keylist):
       if key in unscale:
         val = unscale[key]
       else:
@@ -537,12 +536,11 @@ class Field (NX_UNDIRECTED_GRAPH):
       return values
     if not isinstance(delta, self._delta_type):
       variables = self._varlist
-      if len(variables) == 1 and isinstance(delta, variables[0].delta):
+      if len(variables) == 1 and isinstance(delta, variables[0].Delta):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = False if 'bound' not in self._delta_kwds \
-           else self._delta_kwds['bound']
+    bound = self._delta_kwds.get('bound', None) # defaults to that of Variable
     vals = collections.OrderedDict(values)
     keys = delta._fields
     for i, key in enumerate(keys):
@@ -614,7 +612,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += vertex.varlist
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
-- 
2.43.0


From d08616d8767ea6ca8ff97382788d7ccb0c4655ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 040/111] fix: random variables declared with a table of
 probabilities could not be evaluated

---
 probayes/rv.py       |  9 +++++++--
 probayes/rv_utils.py | 13 +++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..1681f50 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -12,7 +12,7 @@ from probayes.vtypes import uniform, VTYPES, isscalar, \
 from probayes.pscales import rescale
 from probayes.expression import Expression
 from probayes.sympy_prob import bernoulli_prob, bernoulli_sfun
-from probayes.rv_utils import uniform_prob, matrix_cond_sample, \
+from probayes.rv_utils import uniform_prob, table_prob, matrix_cond_sample, \
                           lookup_square_matrix
 from probayes.distribution import Distribution
 from probayes.pd import PD
@@ -313,7 +313,12 @@ class RV (Variable, Prob):
     """
     values = values[self.name] if isinstance(values, dict) else values
     if not self.isscalar:
-      return super().eval_prob(values)
+      if self.callable or values is None:
+        return super().eval_prob(*(() if values is None else (values,)))
+      return table_prob(values,
+                        prob=self._prob,
+                        vset=self._vset,
+                        pscale=self._pscale)
     return uniform_prob(values, 
                         prob=float(self._prob), 
                         inside=self._inside,
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..79cfdf2 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -46,6 +46,19 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
         prob = prob * uniform_prob(arg, inside=inside)
   return prob
 
+#-------------------------------------------------------------------------------
+def table_prob(vals, prob, vset, pscale=1.):
+  """ Probability of each of vals given the probabilities prob of each element
+  of vset, being zero for values that do not belong to vset. """
+  p_zero = NEARLY_NEGATIVE_INF if iscomplex(eval_pscale(pscale)) else 0.
+  prob = np.append(np.array(prob, dtype=float), p_zero)
+  vset = list(vset)
+  find = lambda val: vset.index(val) if val in vset else -1
+  if isscalar(vals):
+    return float(prob[find(vals)])
+  idx = [find(val) for val in np.ravel(vals)]
+  return prob[np.array(idx, dtype=int)].reshape(np.shape(vals))
+
 #-------------------------------------------------------------------------------
 def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   """ Returns succ_vals with sampling """
-- 
2.43.0


From e51f6ffa05c37636bace305856ca34284f3579bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 041/111] fix: probabilities of boolean variables were wrong on
 scales other than the linear one

---
 probayes/rv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 1681f50..964aeb0 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -144,10 +144,14 @@ class RV (Variable, Prob):
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
     if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
-      if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
-        super().set_sfun(bernoulli_sfun, bias=prob)
+      bias = float(rescale(float(self._prob), self._pscale, 1.))
+      if not np.isclose(bias, 0.5):
+        prob = bernoulli_prob(self.icon, bias=bias)
+        if self._logp or self._pscale != 1.:
+          prob = lambda vals: rescale(bernoulli_prob(vals, bias=bias),
+                                      1., self._pscale)
+        super().set_prob(prob)
+        super().set_sfun(bernoulli_sfun, bias=bias)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
-- 
2.43.0


From 116b371bbff8c495c5057d7f0fad6dd57b1bed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 042/111] fix: replacing a probability kept sampling from the
 previous one

---
 probayes/prob.py | 2 ++
 probayes/rv.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index 046e525..b0aaafc 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -134,6 +134,8 @@ class Prob (Expression, SympyProb):
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
     self.pscale = self._pscale if pscale is None else pscale
+    if self.__isscipy or self.__issympy: # discard functions of previous object
+      self._pfun, self._sfun = None, None
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
diff --git a/probayes/rv.py b/probayes/rv.py
index 964aeb0..f31209d 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -129,6 +129,8 @@ class RV (Variable, Prob):
     'pscale' is a reserved keyword. See Prob.pscale for explanation of how 
     pscale is used.
     """
+    if hasattr(self._sfun, 'expr') and self._sfun.expr == bernoulli_sfun:
+      self.set_sfun(None)
     super().set_prob(prob, *args, **kwds)
     if self._prob is None:
       self._default_prob()
-- 
2.43.0


From 1f08b8a332cfa8fa3480c58b73e8252736a98e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 043/111] fix: removing a transformation left the default
 probability transformed

---
 probayes/rv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/rv.py b/probayes/rv.py
index f31209d..53ffd4d 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -203,6 +203,8 @@ class RV (Variable, Prob):
     """
     super().set_ufun(ufun, *args, **kwds)
     if self._ufun is None:
+      if self.__def_prob and self._vtype in VTYPES[float]:
+        self._default_prob()
       return
 
     # Recalibrate defaulted probabilities for floating point vtypes
-- 
2.43.0


From 41febe793a662c9861d709d9f067ef5438032471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 044/111] fix: redefining the domain or its transformation
 replaced a specified transition by the default

---
 probayes/rv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 53ffd4d..ade013f 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -50,6 +50,7 @@ class RV (Variable, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
+  __def_tran = None   # Flag to denote tran is defaulted
   __sym_tran = None   # Flag to denote symmetric transitional
   __prime_key = None  # Modified-string to denote prime key for variable
 
@@ -168,7 +169,9 @@ class RV (Variable, Prob):
       prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
              prob * self._ufun.derinv.expr
     super().set_prob(prob)
-    self.set_tran(prob)
+    if self._tran is None or self.__def_tran:
+      self.set_tran(prob)
+      self.__def_tran = True
     self.__def_prob = True
 
 #-------------------------------------------------------------------------------
@@ -237,6 +240,7 @@ class RV (Variable, Prob):
     function, the corresponding (CDF, ICDF) must be set using set_tfun().
     """
     self._tran = tran
+    self.__def_tran = False
     self.__sym_tran = None
     if self._tran is None:
       return
-- 
2.43.0


From bc822f6b8d36333a5dafd6046b46a6722feec20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 045/111] fix: impossible transitions of uniform variables had
 probability one on the log scale

---
 probayes/rv.py       | 4 ++--
 probayes/rv_utils.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index ade013f..b54476a 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -483,8 +483,8 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
-                  
+                          inside=self._inside,
+                          pscale=self._pscale)
 
     # Handle discrete non-callables
     elif not self._tran.callable:
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index 79cfdf2..505235f 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -41,7 +41,10 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
   if len(args) > 1:
     for arg in args[1:]:
       if use_logs:
-        prob = prob + uniform_prob(arg, inside=inside, pscale=0.j)
+        logp = uniform_prob(arg, inside=inside, pscale=0.j)
+        zero = np.minimum(prob, logp) <= NEARLY_NEGATIVE_INF
+        prob = np.where(zero, NEARLY_NEGATIVE_INF, 
+                        np.where(zero, 0., prob) + np.where(zero, 0., logp))[()]
       else:
         prob = prob * uniform_prob(arg, inside=inside)
   return prob
-- 
2.43.0


From 706879365d1da7068c8c48c23ba7d894ce21ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 046/111] fix: successors could not be sampled for given
 cumulative probabilities

---
 probayes/rv.py       | 8 ++++----
 probayes/rv_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index b54476a..5fa54cd 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -408,10 +408,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
         if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
@@ -440,7 +440,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index 505235f..f580221 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -87,7 +87,7 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
   succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  return np.array(vset)[succ_idx], pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From deee5ec982045d76826c9601040f42c4bfccaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:15 +0000
Subject: [PATCH 047/111] fix: sampled transitions could reach impossible
 states, and ignored the log scale

---
 probayes/rv.py       | 3 ++-
 probayes/rv_utils.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 5fa54cd..755b57f 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -425,7 +425,8 @@ class RV (Variable, Prob):
       if isunitset(succ_vals):
         succ_vals, pred_idx, succ_idx = matrix_cond_sample(pred_vals, 
                                                            succ_vals, 
-                                                           prob=prob, 
+                                                           prob=rescale(
+                                                                prob, self._pscale, 1.),
                                                            vset=self._vset) 
         kwargs.update({'pred_idx': pred_idx, 'succ_idx': succ_idx})
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index f580221..2b9c453 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -86,7 +86,8 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
     succ_cmf = uniform(0., 1., succ_cmf)
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
-  succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
+  last_idx = np.max(np.nonzero(prob[:, pred_idx] > 0.)) # last possible state
+  succ_idx = np.minimum(last_idx, np.digitize(succ_cmf, cmf))
   return np.array(vset)[succ_idx], pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From f331d343f82cfbbce3410e80bd2ca27a266f1247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 048/111] fix: symbolic probabilities and expressions could not
 be evaluated for numpy booleans

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..b217d70 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -186,7 +186,7 @@ class Expr:
     isarray = [None] * len(keys)
     vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
-      if isinstance(values[key], bool): # Sympy doesn't like bool types
+      if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
       ekeys[i] = self._symbols[key]
       evalues[i] = values[key]
-- 
2.43.0


From d720ea7112ee2cf8d6931e086a985c3d1dceb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:24 +0000
Subject: [PATCH 049/111] fix: cumulative levels of uniform transitions were
 reversed by decreasing transformations

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 755b57f..3f4b590 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -408,7 +408,7 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._ulims), max(self._ulims)
+        lo, hi = self._ulims
         succ_vals = lo*(1.-cdf_val) + hi*cdf_val
         if self._ufun is not None:
           succ_vals = self.ufun[-1](succ_vals)
-- 
2.43.0


From 4e1c692e7b51dcd4bb76e37a7772feec99fb0d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:01 +0000
Subject: [PATCH 050/111] fix: log probabilities of symbolic distributions
 could not be evaluated outside their support

---
 probayes/sympy_prob.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..89cab85 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -151,7 +151,8 @@ class SympyProb:
       self._exprs.update({'prob': Expr(self._probj.pdf(self._cterm))})
       prob_expr = self._exprs['prob']
       log_prob = sympy.log(prob_expr.subre(prob_expr.expr)).simplify()
-      log_prob= prob_expr.resub(log_prob)
+      log_prob = prob_expr.resub(log_prob)
+      log_prob = sympy.piecewise_fold(log_prob).subs(sympy.zoo, -sympy.oo)
       self._exprs.update({'logp': Expr(log_prob)})
     if hasattr(self._probj, '_cdf'):
       try:
-- 
2.43.0


From 19f3b5279e77e61eebf1c2624554e183ffe9b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 051/111] fix: lambdas with keyword or variable arguments
 receive them

---
 probayes/expression.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..dd30b62 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -7,6 +7,7 @@ not all expressions are functions.
 import types
 import collections
 import functools
+import inspect
 import sympy
 from probayes.vtypes import isscalar
 from probayes.icon import isiconic
@@ -399,7 +400,11 @@ class Expression:
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
       if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+          not expr.__code__.co_argcount and \
+          not expr.__code__.co_kwonlyargcount and \
+          not expr.__code__.co_flags & (inspect.CO_VARARGS | \
+                                        inspect.CO_VARKEYWORDS):
+        # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From eb1b937f21357072c52cb4615ef0c15765bef0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:56 +0000
Subject: [PATCH 052/111] fix: acceptance scores inverted the proposal ratio,
 and ignored each scale

---
 probayes/sp_utils.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..da17805 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -2,7 +2,8 @@
 
 import numpy as np
 from probayes.vtypes import isscalar
-from probayes.pscales import rescale, div_prob
+from probayes.constants import NEARLY_NEGATIVE_INF
+from probayes.pscales import iscomplex, rescale, div_prob
 
 #-------------------------------------------------------------------------------
 def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
@@ -15,6 +16,28 @@ def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
     else:
       sp.reset(sampler_id)
 
+#-------------------------------------------------------------------------------
+def score_ratio(numer, denom):
+  """ Evaluates the ratio, bounded by one, of the probability products of the
+  distributions in numer and denom, respecting the pscale of each. If any is
+  logarithmic, the ratio is evaluated in log space to avoid underflow. """
+  scores = [None, None]
+  use_logs = any([iscomplex(dist.pscale) for dist in numer + denom])
+  pscale = 0.j if use_logs else 1.
+  for i, dists in enumerate([numer, denom]):
+    probs = [rescale(dist.prob, dist.pscale, pscale) for dist in dists]
+    if use_logs:
+      scores[i] = np.sum([float(prob) for prob in probs]) \
+                  if np.min(probs) > 0.5 * NEARLY_NEGATIVE_INF \
+                  else NEARLY_NEGATIVE_INF
+    else:
+      scores[i] = float(np.prod(probs))
+  if not use_logs:
+    return min(1., div_prob(scores[0], scores[1], 1., 1., pscale=1.))
+  if scores[0] <= NEARLY_NEGATIVE_INF:
+    return 0.
+  return float(np.exp(min(0., scores[0] - scores[1])))
+
 #-------------------------------------------------------------------------------
 def metropolis_scores(opqr, pscale=None):
   pred, succ = opqr.o, opqr.p
@@ -24,7 +47,7 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+  return score_ratio([succ], [pred])
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -49,19 +72,13 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
-    if prop <= 0.:
+    if rescale(prop.prob, prop.pscale, 0.j) <= NEARLY_NEGATIVE_INF:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+      return score_ratio([succ], [pred])
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
-      if revp <= 0.:
-        return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      return score_ratio([succ, revp], [pred, prop])
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From 76fef41e272cf38a5f0bd40e96c17e15e8e66b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:10 +0000
Subject: [PATCH 053/111] fix: reverse transition functions were not used to
 evaluate reverse proposals

---
 probayes/rf.py | 8 +++-----
 probayes/sd.py | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..0c45a6c 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -528,12 +528,10 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
-    prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
     prob = dist.prob
+    if self._tran is not None and self._tran.ismulti and \
+        self._tran.callable and not self._tran.isscipy:
+      prob = self._tran[1](vals)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..4e79f92 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -102,6 +102,7 @@ class SD (Dependence, RF):
     self._tran_obj = _tran
     self.set_prop_obj(self._tran_obj)
     self._tran = _tran.tran
+    self._sym_tran = _tran._sym_tran
     return self._tran
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From c2e48a00b0df4e3a9bb5543bdcc7421657ed5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:41 +0000
Subject: [PATCH 054/111] fix: slices of tables ignored the order of the
 requested dimensions

---
 probayes/rf_utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1737a1d..a3b0b47 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -76,7 +76,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
 
   If vals_dims and/or spec_dims are not entered, they are 'guessed' from vals
   and spec respectively, but correct guessing is not assured. Non-none dimensions
-  for vals_dims and spec_dims must be mutually ordered monotically by key.
+  for vals_dims and spec_dims must each be ordered monotically by key.
   """
 
   # Check for consistent keys
@@ -93,12 +93,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
-            "Multiple non-singleton dimensions: {}".format(val.size)
+        assert val.size == np.max(val.shape), \
+            "Multiple non-singleton dimensions: {}".format(val.shape)
         if val.size > 1:
           run_dim = np.argmax(val.shape)
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
@@ -124,7 +125,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
     if dim:
       spec_ndim = max(spec_ndim, dim)
     if not isscalar(spec[key]):
-      spec_ndim = max(spec[key].ndim, dim)
+      spec_ndim = max(spec_ndim, spec[key].ndim, dim + 1)
 
   # Check for monotonic ordering of dimensions
   dims = [dim for dim in vals_dims.values() if dim is not None]
@@ -161,6 +162,12 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
           "Ambiguous specification with values mismatch"
       dim = spec_dims[key]
       reshape[dim] = vals[key].size
-  return prob[tuple(slices)].reshape(reshape)
+
+  # Reorder dimensions as specified
+  spec_keys = [key for key in keys if spec_dims[key] is not None \
+                                   and vals_dims[key] is not None]
+  order = [vals_dims[key] for key in sorted(spec_keys, key=spec_dims.get)]
+  order += [dim for dim in range(vals_ndim+1) if dim not in order]
+  return np.transpose(prob[tuple(slices)], order).reshape(reshape)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 9b5cba54374131d746e852b450cf836fdd8b5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:41 +0000
Subject: [PATCH 055/111] fix: baseline frequencies of boolean counts were
 ignored

---
 probayes/likelihoods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..78087e5 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -68,6 +68,8 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
   sequences = bool_2d.astype(int).tolist()
   for sequence in sequences:
     counts[tuple(sequence)] += 1
+  if base_freq:
+    counts = counts + base_freq
   if col_labels is None:
     return counts
   assert len(col_labels) == cols, \
@@ -81,9 +83,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     reshape[dim] = 2
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
-  if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+  rel_freq = counts / np.sum(counts)
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From a29519cfdc562bab2f0f86d3178f3cf7f694e12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:13 +0000
Subject: [PATCH 056/111] fix: fully specified values were evaluated without
 their dimensions

---
 probayes/field.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 80a44b2..7afd584 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -397,7 +397,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     Keep args and kwds since could be called externally. This ignores self._prob.
     """
     values = self.parse_args(*args, **kwds) if not _skip_parsing else args[0]
-    dims = collections.OrderedDict()
+    dims = collections.OrderedDict({key: None for key in self._keylist})
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
@@ -413,7 +413,6 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     # Share dimensions for joint variables and do not dimensionalise scalars
     ndim = min_dim
-    dims = collections.OrderedDict({key: None for key in self._keylist})
     seen_keys = set()
     for i, key in enumerate(self._keylist):
       new_dim = False
-- 
2.43.0


From 89a210b71f40e9a4f52e0ed25ea2da7f4e015d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:39 +0000
Subject: [PATCH 057/111] fix: tables could not be sliced by fully specified
 values

---
 probayes/rf_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index a3b0b47..90285cf 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -154,7 +154,8 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if n_matches == 0:
         slices[dim] = slice(0, 0)
       elif n_matches == 1:
-        slices[dim] = np.nonzero(match)[0]
+        index = int(np.nonzero(match)[0][0])
+        slices[dim] = slice(index, index+1)
       else:
         raise ValueError("Non-unique matches found")
     else:
@@ -168,6 +169,7 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
                                    and vals_dims[key] is not None]
   order = [vals_dims[key] for key in sorted(spec_keys, key=spec_dims.get)]
   order += [dim for dim in range(vals_ndim+1) if dim not in order]
-  return np.transpose(prob[tuple(slices)], order).reshape(reshape)
+  prob = np.transpose(prob[tuple(slices)], order).reshape(reshape)
+  return prob if len(reshape) else float(prob)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 093629447b10b4985911247bca44f8936d848127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:39 +0000
Subject: [PATCH 058/111] fix: binary codes of more than 62 bits overflowed

---
 probayes/likelihoods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index 78087e5..4b61162 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -33,12 +33,12 @@ def bin_to_int(arr, _multiple=None):
     arr = np.array(arr, dtype=int)
   assert isinstance(arr, np.ndarray) and arr.ndim and arr.ndim < 3, \
     "Input must be array type of not more than two dimensions"
+  if _multiple is None:
+    size = arr.shape[-1]
+    dtype = int if size < 63 else object # to avoid integer overflow
+    _multiple = np.array([1 << i for i in range(size)][::-1], dtype=dtype)
   if arr.ndim == 2:
-    if _multiple is None:
-      _multiple = 1 << np.arange(arr.shape[1])[::-1]
     return np.hstack([bin_to_int(row, _multiple) for row in arr])
-  if _multiple is None:
-    _multiple = 1 << np.arange(arr.size)[::-1]
   return arr.dot(_multiple)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 874b25e8532fff7bc46ae9030830a4e3cd1b6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:55 +0000
Subject: [PATCH 059/111] fix: transitions a few variables at a time followed
 the order of the values given

---
 probayes/rf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 0c45a6c..6a232eb 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -178,6 +178,7 @@ class RF (Field, Prob):
     self._tran = tran
     self._sym_tran = False
     self._tsteps = None
+    self.__cond_mod = None
     if self._tran is None:
       return
     assert self._anystoch, \
@@ -256,6 +257,7 @@ class RF (Field, Prob):
     """
     scipyobj = None if 'scipyobj' not in kwds else kwds['scipyobj']
     self._tfun = tfun 
+    self.__cond_mod = None
     if self._tfun is None:
       return
     if 'tsteps' in kwds:
@@ -442,13 +444,15 @@ class RF (Field, Prob):
 
     # Determine keys distinguishing between default and custom specifications
     inp = self._tfun.ret_inp() # ?
-    keys = list(succ_vals.keys()) if not inp else list(inp.keys())
+    keys = [key for key in self._keylist if key in succ_vals.keys()] \
+           if not inp else list(inp.keys())
     if self._tsteps:
-      if self.__cond_mod is None:
+      n_keys = len(keys)
+      if self.__cond_mod is None or self.__cond_mod >= n_keys:
         self.__cond_mod = 0
       keys = keys[self.__cond_mod:(self.__cond_mod+self._tsteps)]
       self.__cond_mod += self._tsteps
-      if self.__cond_mod >= len(succ_vals):
+      if self.__cond_mod >= n_keys:
         self.__cond_mod = 0
 
     # Handle unspecified input key handling separately
-- 
2.43.0


From 66f9d2ad44cc90d7febf4e62264c079fe7eacc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:55 +0000
Subject: [PATCH 060/111] fix: explicit conditional groups of variables could
 not be specified nor sampled

---
 probayes/cf.py | 4 ++--
 probayes/rf.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 5f212ec..a4ca90d 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -96,7 +96,7 @@ class CF (Func):
     self.__inpdict = isinstance(inp, (tuple, list, dict))
     if self.__inpdict:
       if isinstance(inp, (tuple, list)):
-        inp = {key: '' for key in inp}
+        inp = collections.OrderedDict({key: '' for key in inp})
     self.__unknown = None
 
     # Handle inp is a random field first
@@ -117,7 +117,7 @@ class CF (Func):
       all_inp_keys = [] 
       for key, val in inp.items():
         inp_keys = key.split(',')
-        val_keys = val.split(',')
+        val_keys = val.split(',') if val else []
         for val_key in val_keys:
           if len(inp) > 1:
             assert val_key not in inp_keys, \
diff --git a/probayes/rf.py b/probayes/rf.py
index 6a232eb..cdb1895 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -468,18 +468,18 @@ class RF (Field, Prob):
     # Explicit conditionals require more sophisticated handling
     assert not reverse, \
         "Reverse-direction sampling not supported for explicit conditionals"
-    assert self._tfun.ismulti, \
-        "Transitional sampling function not specified as a multiple sampler"
+    assert not self._tfun.ismulti, \
+        "Explicit conditionals require a single transitional sampling function"
     for key in keys:
       values = self._tfun[key](succ_vals, *args, **kwds)
-      rv_names = [key] if ',' not in keys else key.split(',')
+      rv_names = key.split(',')
       if len(rv_names) > 1:
         assert isinstance(values, dict), \
             "Ambiguous output from CF {} for RV {}".format(self._tfun, key)
         for rv_key, rv_val in values.items():
           assert rv_key in succ_vals.keys(), \
               "Key {} not found in {}".format(rv_key, succ_vals.keys())
-          succ_vals[key] = rv_val
+          succ_vals[rv_key] = rv_val
       else:
         rv_name = rv_names[0]
         if isinstance(values, dict):
-- 
2.43.0


From 015da39ad3c0b618420d80c3fddc45e82c5562b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:55 +0000
Subject: [PATCH 061/111] fix: reverse steps used the forward transition
 sampling function

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index cdb1895..a657c7b 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -380,7 +380,7 @@ class RF (Field, Prob):
       return super().eval_step(pred_vals, succ_vals, reverse=reverse)
 
     if self._tfun is not None and self._tfun.callable:
-      succ_vals = self.eval_tfun(pred_vals)
+      succ_vals = self.eval_tfun(pred_vals, reverse=reverse)
     elif self._nvars == 1:
       var = self._varlist[0]
       tran = var.tran
-- 
2.43.0


From 9cdc0494fefafa513bacae308aaf41fb79fda69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:29 +0000
Subject: [PATCH 062/111] fix: variables given together were partly unchecked,
 and dropped from steps

---
 probayes/field.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 7afd584..53e6d0d 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -343,9 +343,10 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         seen_keys.append(key)
       if not pass_all:
-        assert seen_keys[-1] in self._keyset, \
-            "Unrecognised key {} among available Variables {}".format(
-                seen_keys[-1], self._keyset)
+        for sub_key in key.split(','):
+          assert sub_key in self._keyset, \
+              "Unrecognised key {} among available Variables {}".format(
+                  sub_key, self._keyset)
 
     # Default values
     def_val = None
@@ -364,8 +365,12 @@ class Field (NX_UNDIRECTED_GRAPH):
     if pass_all:
       list_keys = list(values.keys())
       for key in list_keys:
-        if key not in self._keylist:
-          values.pop(key)
+        sub_keys = key.split(',')
+        if not all([sub_key in self._keyset for sub_key in sub_keys]):
+          val = values.pop(key)
+          if len(sub_keys) > 1:
+            values.update({sub_key: sub_val for sub_key, sub_val in
+                           zip(sub_keys, val) if sub_key in self._keyset})
 
     return values
 
-- 
2.43.0


From 3018531690bd69623f62041b5e58885345f0eff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:29 +0000
Subject: [PATCH 063/111] fix: predecessor arrays without successors were
 mistaken for scalars

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index a657c7b..eda7265 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -372,7 +372,7 @@ class RF (Field, Prob):
     """ Returns adjusted succ_vals """
     if succ_vals is None:
       if self._delta is None:
-        if all([isscalar(pred_value) for pred_value in pred_vals]):
+        if all([isscalar(pred_value) for pred_value in pred_vals.values()]):
           succ_vals = {0}
 
     # If not sampling succeeding values, use deterministic call
-- 
2.43.0


From 48abff124a74a413ffa610b9636c86169a62de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:24 +0000
Subject: [PATCH 064/111] fix: refused reverse transitions advanced the
 schedule of variables

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index eda7265..76cd8f1 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -446,6 +446,8 @@ class RF (Field, Prob):
     inp = self._tfun.ret_inp() # ?
     keys = [key for key in self._keylist if key in succ_vals.keys()] \
            if not inp else list(inp.keys())
+    assert not inp or not reverse, \
+        "Reverse-direction sampling not supported for explicit conditionals"
     if self._tsteps:
       n_keys = len(keys)
       if self.__cond_mod is None or self.__cond_mod >= n_keys:
@@ -466,8 +468,6 @@ class RF (Field, Prob):
       return succ_vals
 
     # Explicit conditionals require more sophisticated handling
-    assert not reverse, \
-        "Reverse-direction sampling not supported for explicit conditionals"
     assert not self._tfun.ismulti, \
         "Explicit conditionals require a single transitional sampling function"
     for key in keys:
-- 
2.43.0


From 3b3c32e1b4ee0982771a555f672e2de69a1aa501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:20 +0000
Subject: [PATCH 065/111] fix: pairs of transition sampling functions could not
 be set

---
 probayes/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 76cd8f1..6f01686 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -286,7 +286,8 @@ class RF (Field, Prob):
       return
 
     # Non-callables are treated as LUD matrices
-    elif not callable(self._tfun): 
+    elif not callable(self._tfun) and not (isinstance(self._tfun, tuple) and \
+        all([callable(func) for func in self._tfun])):
         self._tfun = Prob(self._tfun, *args, **kwds)
         message = "Non-callable tran objects must be a triangular 2D Numpy array " + \
                   "of size corresponding to number of variables {}".format(self._nvars)
-- 
2.43.0


From 5ace72fb0fe3f0a14a811d3aa31f90bf215d0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 066/111] fix: fields accepted several variables of one name
 and refused lists of further ones

---
 probayes/field.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 53e6d0d..4d99af5 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -102,7 +102,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     """
     self._leafs, self._stems, self._roots = self, None, None
-    if len(args) == 1 and isinstance(args[0], (Variable, set, tuple, list)):
+    if len(args) == 1 and \
+        isinstance(args[0], (Variable, Field, dict, set, tuple, list)):
       args = args[0]
     else:
       args = tuple(args)
@@ -114,26 +115,22 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     :param var: a Variable or Field instance, or a list/tuple of Variable instances.
     """
-    variables = []
-    if isinstance(var, (Field, dict, set, tuple, list)):
-      variables = var
-      if isinstance(variables, Field):
-        variables = variables.varlist
-      elif isinstance(variables, dict):
-        variables = list(variables.values())
+    variables = [var]
+    if isinstance(var, Field):
+      variables = list(var.varlist)
+    elif isinstance(var, dict):
+      variables = list(var.values())
+    elif isinstance(var, (set, tuple, list)):
+      variables = list(var)
+    assert variables, "No variable input"
+    names = set(self._keylist or [])
     for var in variables:
       assert isinstance(var, Variable), \
           "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
-      super().add_node(var)
-    else:
-      assert isinstance(var, Variable), \
-          "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
+      assert var.name not in names, \
+          "Existing variable {} already present in collection".format(var)
+      names.add(var.name)
+    for var in variables:
       super().add_node(var)
     self._refresh()
 
-- 
2.43.0


From 6059ceeaf955e8bba781a4edcbe0c6bb3395d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 067/111] fix: models of more than two fields corrupted their
 first field and failed

---
 probayes/dependence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..d5bb6c0 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,8 +94,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
-      roots_vars = fields[-1].varlist
+      leafs_vars = list(fields[0].varlist)
+      roots_vars = list(fields[-1].varlist)
       if len(fields) > 2:
         for field in fields[1:-1]:
           leafs_vars += list(field.varlist)
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From 2facd59f3756662b05d58d88dd6fe12346a6133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 068/111] fix: variables could be made conditional on
 themselves

---
 probayes/dependence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index d5bb6c0..06c119e 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -101,6 +101,9 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           leafs_vars += list(field.varlist)
 
       # Add leafs then roots
+      names = [var.name for var in leafs_vars + roots_vars]
+      assert len(set(names)) == len(names), \
+          "Variables repeated among {}".format(names)
       for var in leafs_vars:
         NX_DIRECTED_GRAPH.add_node(self, var)
       for var in roots_vars:
-- 
2.43.0


From d28673c50b267480c804d5a330d7d8d498b5fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:00 +0000
Subject: [PATCH 069/111] fix: models combining models lost their intermediate
 variables and failed without conditions

---
 probayes/dependence.py | 43 ++++++++----------------------------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 06c119e..c6c2586 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -129,6 +129,9 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       variables = list(arg.nodes)
       for var in variables:
         NX_DIRECTED_GRAPH.add_node(self, var)
+    names = [var.name for var in self.nodes]
+    assert len(set(names)) == len(names), \
+        "Different variables share a name among {}".format(names)
 
     # Adding all edges in reverse order
     for arg in args[::-1]:
@@ -141,14 +144,12 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       [self.add_deps(dep) for dep in deps]
       return self._refresh()
 
-    # Implicit dependences may either be in parallel or in series, but not both
-
     # Iterate args, add RV vertices, detect running roots/leafs and explicit
     run_leafs = [None] * len(args)
     run_roots = [None] * len(args)
     for i, arg in enumerate(args):
       run_leafs[i] = list(arg.leafs.varlist)
-      run_roots[i] = list(arg.roots.varlist)
+      run_roots[i] = list(arg.roots.varlist) if arg.roots else []
 
     # Detect for implicit serial dependences
     serial = len(args) > 1
@@ -156,35 +157,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       if run_roots[i] is None or set(run_roots[i]) != set(run_leafs[i+1]):
         serial = False
         break
-    if serial:
-      self._arch = list(args[::-1])
-      leafs, roots = None, None
-      for i, arg in enumerate(args):
-        if i == 0:
-          leafs = arg.leafs
-          roots = arg.roots
-        elif i == len(args) - 1:
-          roots = arg.roots
-      return self._refresh(leafs, roots)
-
-    # Detect for implicit parallel dependences
-    parallel = len(args) > 1 
-    leafs = set()
-    roots = []
-    if parallel:
-      for i, arg in enumerate(args):
-        roots += run_roots[i]
-        if not leafs:
-          leafs = run_leafs[i]
-        elif not len(run_roots[i]) or leafs != run_leafs[i]:
-          parallel = False
-          break
-    if parallel:
-      self._arch = tuple(args[::-1])
-      leafs = args[0].leafs
-      roots = self._field_cls(*tuple(roots))
-      return self._refresh(leafs, roots)
-
+    # All other implicit dependences, including parallel, are taken together
+    self._arch = list(args[::-1]) if serial else tuple(args[::-1])
     return self._refresh()
 
 #-------------------------------------------------------------------------------
@@ -239,9 +213,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     if not self._stems:
       self._preds = None if not self._roots else self._roots
     else:
-      preds = set()
-      for leaf_var in self._leafs.varlist:
-        [preds.add(pred_var) for pred_var in self.predecessors(leaf_var)]
+      preds = [var for var in self.nodes if any(self.has_edge(var, leaf_var) \
+                                              for leaf_var in self._leafs.varlist)]
       self._preds = self._field_cls(*tuple(preds))
 
     # Default functions for implicit architectures
-- 
2.43.0


From 0da5275dd8511d2936e6ed943da037b518a8489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:00 +0000
Subject: [PATCH 070/111] fix: explicit dependencies could not be added to
 models

---
 probayes/dependence.py | 42 +++++++++++++++++++++++-------------------
 probayes/sd.py         |  5 +++++
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index c6c2586..ca5b2af 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -141,7 +141,9 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     deps = [arg.deps for arg in args[::-1]]
     if any(deps):
       self._arch = None
-      [self.add_deps(dep) for dep in deps]
+      self._deps = collections.OrderedDict()
+      for dep in deps:
+        self._deps.update(dep or {})
       return self._refresh()
 
     # Iterate args, add RV vertices, detect running roots/leafs and explicit
@@ -253,27 +255,29 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     """ Adds a conditional dependence that conditions conditioning with respect
     to out being conditioned by inp by function func with *args and **kwds.
     """
-    if self._arch:
-      self.remove_edges_from(self.edges)
+    assert self._prob is None, \
+        "Cannot assign conditional dependencies alongside specified probability"
+    deps = collections.OrderedDict()
+    if inp is None and func is None:
+      deps.update(out)
+    else:
+      dep = CF(out, inp, func, *args, **kwds)
+      deps.update({dep.ret_name(): dep})
+    edges = [(inp_var, out_var) for dep in deps.values() \
+                                for out_var in dep.ret_out().varlist \
+                                for inp_var in dep.ret_inp().varlist]
+    for edge in edges:
+      assert edge[0] is not edge[1] and all([var in self for var in edge]), \
+          "Invalid dependence between {} and {}".format(*edge)
+    if self._arch is not None:
+      self.remove_edges_from(list(self.edges))
       self._arch = None
     if self._deps is None:
       self._deps = collections.OrderedDict()
-    assert not self._prob, \
-        "Cannot assign conditional dependencies alongside specified probability"
-    if inp is None and func is None:
-      for key, val in out.items():
-        self._deps.update({key: val})
-        self.add_edges_from(val)
-
-    dep = CF(out, inp, func, *args, **kwds)
-    dep_key = dep.ret_name()
-    self._deps.update({dep_key: dep})
-    out_keys = list(dep.ret_out().ret_keys(as_list=True))
-    inp_keys = list(dep.ret_inp().ret_keys(as_list=True))
-    for out_key in out_keys:
-      for inp_key in inp_keys:
-        self.add_edge(inp_key, out_key)
-    return collections.OrderedDict({dep_key: self._deps[dep_key]})
+    self._deps.update(deps)
+    self.add_edges_from(edges)
+    self._refresh()
+    return deps
 
 #-------------------------------------------------------------------------------
   @property
diff --git a/probayes/sd.py b/probayes/sd.py
index 4e79f92..837d681 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -84,6 +84,11 @@ class SD (Dependence, RF):
       return prob
     return super().set_prob(arch_prob, arch=self._arch, passdims=True)
 
+#-------------------------------------------------------------------------------
+  def _default_prob(self):
+    if self._deps is None:
+      super()._default_prob()
+
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
     _prop = self.leafs_roots(prop)
-- 
2.43.0


From 4875877d28c420afb0de9ea491300c4681e78916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:00 +0000
Subject: [PATCH 071/111] fix: processes of models and conditions between
 unconditional models failed or were lost

---
 probayes/dependence.py | 2 +-
 probayes/ops.py        | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index ca5b2af..489f68e 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -73,7 +73,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     self._arch = None
     if not args:
       return
-    arg_aredep = [isinstance(arg, type(self)) for arg in args]
+    arg_aredep = [isinstance(arg, Dependence) for arg in args]
 
     # Absence of Dependence instances means at most a single direct dependency
     if not any(arg_aredep):
diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..37602da 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -90,6 +90,12 @@ def or_op(self, other):
   if isinstance(self, Dependence) and isinstance(other, Dependence):
     if self.roots and other.roots:
       raise ValueError("Cannot cross-conditionalise dependencies")
+
+  # Without conditions, dependences are conditionalised as fields
+  if isinstance(self, Dependence) and not self.roots:
+    self = self.leafs
+  if isinstance(other, Dependence) and not other.roots:
+    other = other.leafs
   return dep(self, other)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 15fbd4da9be137f3b80649e076b800aabd2d3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:00 +0000
Subject: [PATCH 072/111] fix: variables could not be united with models

---
 probayes/dependence.py | 2 +-
 probayes/ops.py        | 6 +++---
 probayes/rv.py         | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 489f68e..3b69013 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -255,7 +255,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     """ Adds a conditional dependence that conditions conditioning with respect
     to out being conditioned by inp by function func with *args and **kwds.
     """
-    assert self._prob is None, \
+    assert self._prob is None or self.def_prob, \
         "Cannot assign conditional dependencies alongside specified probability"
     deps = collections.OrderedDict()
     if inp is None and func is None:
diff --git a/probayes/ops.py b/probayes/ops.py
index 37602da..2c94fe3 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -54,12 +54,12 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return dep(*args)
+        args += [roots]
+      return dep(*tuple(args))
 
     if isinstance(other, Field):
       var = [self] + list(other.vars.values())
diff --git a/probayes/rv.py b/probayes/rv.py
index 3f4b590..284104f 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -565,12 +565,12 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return SD(*args)
+        args += [roots]
+      return SD(*tuple(args))
 
     if isinstance(other, RF):
       rvs = [self] + list(other.vars.values())
-- 
2.43.0


From d5307905cfcc9dc1c904394570ab6afcc2085201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:43 +0000
Subject: [PATCH 073/111] fix: random variables could not be conditioned on
 unconditional models

---
 probayes/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 284104f..98d18e1 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -12,6 +12,7 @@ from probayes.vtypes import uniform, VTYPES, isscalar, \
 from probayes.pscales import rescale
 from probayes.expression import Expression
 from probayes.sympy_prob import bernoulli_prob, bernoulli_sfun
+from probayes.ops import or_op
 from probayes.rv_utils import uniform_prob, table_prob, matrix_cond_sample, \
                           lookup_square_matrix
 from probayes.distribution import Distribution
@@ -584,8 +585,7 @@ class RV (Variable, Prob):
 #-------------------------------------------------------------------------------
   def __or__(self, other):
     """ Conditional operator between RV and another RV, RF, or SD. """
-    from probayes.sd import SD
-    return SD(self, other)
+    return or_op(self, other)
 
 #-------------------------------------------------------------------------------
   def __getitem__(self, arg):
-- 
2.43.0


From a825147dba68a1f910acd310ad0c8f12483b5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:28 +0000
Subject: [PATCH 074/111] fix: multivariate SciPy distributions without a fit
 method could not be set

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index b0aaafc..86001a7 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -212,7 +212,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From 50dc9d7a41b2410ecc358cb7daa1acb31be6d056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:07 +0000
Subject: [PATCH 075/111] fix: variables supplied together with a scalar shared
 their dimension with the next variable

---
 probayes/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 4d99af5..c0388a7 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -429,8 +429,8 @@ class Field (NX_UNDIRECTED_GRAPH):
         for subkey in subkeys:
           dims[subkey] = ndim
           seen_keys.add(subkey)
-        if not isdimensionless(values[val_ref[0]][val_ref[1]]):
-          new_dim = True
+          if not isdimensionless(values[val_ref[0]][values_ref[subkey][1]]):
+            new_dim = True
       if new_dim:
         ndim += 1
 
-- 
2.43.0


From ef98e1e7a14e0b65039c107c1c6e9b56da3fdc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:07 +0000
Subject: [PATCH 076/111] fix: multivariate probabilities received the values
 of their variables swapped

---
 probayes/field.py |  1 +
 probayes/prob.py  | 11 ++---------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index c0388a7..31b23bb 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -403,6 +403,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
+      values = collections.OrderedDict({key: values[key] for key in self._keylist})
       return values, dims
 
     # Create reference mapping for shared keys across vars
diff --git a/probayes/prob.py b/probayes/prob.py
index 86001a7..c107f35 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -349,15 +349,8 @@ class Prob (Expression, SympyProb):
       if self.__isscipy:
         prob = self._partials['logp'] if self._logp else self._partials['prob']
         if self.issmvar: # for mvar, convert dictionaries to arrays
-          vals = list(args[0].values())
-          if len(vals) == 1:
-            vals = np.array(vals)
-          else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
-          prob = prob(vals)
+          vals = np.broadcast_arrays(*tuple(args[0].values()))
+          prob = prob(np.stack(vals, axis=-1))
         else:
           prob = prob(*args)
 
-- 
2.43.0


From d58fef67398ea1abab0a07d211458f78a3831c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:27 +0000
Subject: [PATCH 077/111] fix: conditional models without a joint function
 included the probabilities of their conditions

---
 probayes/rf.py | 17 ++++++++++++-----
 probayes/sd.py | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 6f01686..5aaeea7 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -10,7 +10,7 @@ from probayes.prob import Prob
 from probayes.pd import PD
 from probayes.pd_utils import margcond_str
 from probayes.vtypes import isscalar, isunitsetint
-from probayes.pscales import iscomplex, prod_pscale
+from probayes.pscales import iscomplex, rescale, prod_pscale
 from probayes.rf_utils import rv_prod_rule, sample_cond_cov
 from probayes.expr import Expr
 from probayes.expression import Expression
@@ -116,9 +116,10 @@ class RF (Field, Prob):
   def _default_prob(self):
     if not self._anystoch or (self._prob is not None and not self.__def_prob):
       return
-    if all([var.isiconic for var in self._varlist]):
+    variables = self._prob_vars()
+    if all([var.isiconic for var in variables]):
       prob = None
-      for var in self._varlist:
+      for var in variables:
         if var.is_stochastic:
           var_prob = var.prob
           mul = var_prob if not isinstance(var_prob, Expr) else var_prob._expr
@@ -129,6 +130,11 @@ class RF (Field, Prob):
       self.set_prob(prob, pscale=self._pscale)
       self.__def_prob = True
 
+#-------------------------------------------------------------------------------
+  def _prob_vars(self):
+    """ Returns the list of variables described by the probability """
+    return self._varlist
+
 #-------------------------------------------------------------------------------
   def eval_length(self):
     """ Evaluates and returns the joint length of the field. """
@@ -319,9 +325,10 @@ class RF (Field, Prob):
 
     # If not specified, treat as independent variables
     if self._prob is None or self.__def_prob:
-      rvs = self._varlist
+      rvs = self._prob_vars()
       if len(rvs) == 1 and rvs[0]._prob is not None:
-        prob = rvs[0].eval_prob(values[rvs[0].name])
+        prob = rescale(rvs[0].eval_prob(values[rvs[0].name]), 
+                       rvs[0].pscale, self._pscale)
       else:
         prob, _ = rv_prod_rule(values, rvs=rvs, pscale=self._pscale)
       return prob
diff --git a/probayes/sd.py b/probayes/sd.py
index 837d681..b6a91cf 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -7,6 +7,7 @@ from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
 from probayes.pd_utils import product
+from probayes.vtypes import isscalar
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
 #-------------------------------------------------------------------------------
@@ -89,6 +90,25 @@ class SD (Dependence, RF):
     if self._deps is None:
       super()._default_prob()
 
+#-------------------------------------------------------------------------------
+  def _prob_vars(self):
+    if not self._roots:
+      return self._varlist
+    return [var for var in self._varlist if var not in self._roots]
+
+#-------------------------------------------------------------------------------
+  def eval_prob(self, values=None, dims=None):
+    prob = super().eval_prob(values, dims)
+    if not values or not self._roots or \
+        (self._prob is not None and not self.def_prob):
+      return prob
+
+    # Independent probabilities are the same for all values of the roots
+    roots_vals = [values[key] for key in self._roots.keylist]
+    shape = np.broadcast_shapes(*(np.shape(val) for val in [prob] + roots_vals))
+    return prob if shape == np.shape(prob) else np.tile(prob, shape) \
+           if isscalar(prob) else np.array(np.broadcast_to(prob, shape))
+
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
     _prop = self.leafs_roots(prop)
-- 
2.43.0


From f0f23c8a6d3481ff53a54a41b4a336e025f28e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 078/111] fix: probabilities set for models of models were
 replaced by the product of their parts

---
 probayes/sd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index b6a91cf..2f24069 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -80,9 +80,8 @@ class SD (Dependence, RF):
     if prob is not None:
       assert self._deps is None, \
           "Cannot specify probabilities alongside deps conditional dependencies"
-    prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
-      return prob
+      return super().set_prob(prob, *args, **kwds)
     return super().set_prob(arch_prob, arch=self._arch, passdims=True)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From e96c514eedada967dd1c3126179db86afe1ed277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 079/111] fix: models of models evaluated in series returned
 only one of their conditionals

---
 probayes/sd.py       |  6 +++++-
 probayes/sd_utils.py | 10 ++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 2f24069..55f2ed9 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -3,11 +3,13 @@ provided in sd_utils.py """
 #-------------------------------------------------------------------------------
 import numpy as np
 import collections
+import functools
 from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
 from probayes.pd_utils import product
 from probayes.vtypes import isscalar
+from probayes.pscales import prod_pscale
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
 #-------------------------------------------------------------------------------
@@ -82,7 +84,9 @@ class SD (Dependence, RF):
           "Cannot specify probabilities alongside deps conditional dependencies"
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return super().set_prob(prob, *args, **kwds)
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    pscale = prod_pscale([subarch.pscale for subarch in self._arch])
+    return super().set_prob(functools.partial(arch_prob, pscale=pscale), 
+                            arch=self._arch, passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..63691cd 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -1,7 +1,7 @@
 # Utility module for SD objects
 
 import collections
-from probayes.pscales import prod_rule
+from probayes.pscales import prod_pscale, prod_rule
 
 #-------------------------------------------------------------------------------
 def desuffix(values, suffix="'"):
@@ -30,23 +30,21 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
   return vals
 
 #-------------------------------------------------------------------------------
-def arch_prob(arch, dims, **kwds):
+def arch_prob(arch, dims, pscale=None, **kwds):
   """ Returns the combined probability of for arch given values """
  
   values = dict(kwds)
   dimkeys = list(dims.keys())
   assert isinstance(arch, (tuple, list)), "Archictecture must be tuple or list"
-  serial = isinstance(arch, list)
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
     vals = {key: values[key] for key in dimkeys if key in keyset}
     subdims = {key: dims[key] for key in dimkeys if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
-  if serial:
-    return probs[-1]
   pscales = [subarch.pscale for subarch in arch]
-  prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
+  prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
   return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 714236f591c62d6f481cf5e552f434709bd891fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 080/111] fix: probability arrays of parts of models were not
 aligned with the values of the model

---
 probayes/sd_utils.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 63691cd..ddfa562 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -1,6 +1,7 @@
 # Utility module for SD objects
 
 import collections
+import numpy as np
 from probayes.pscales import prod_pscale, prod_rule
 
 #-------------------------------------------------------------------------------
@@ -29,6 +30,21 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
       vals.update({vals_key: val})
   return vals
 
+#-------------------------------------------------------------------------------
+def align_prob(prob, keys, vals, dims):
+  """ Returns array prob, having one axis for each of keys with a dimension, with
+  its axes moved to the dimensions dims of the model providing values vals. """
+  keys = [key for key in keys if dims[key] is not None]
+  dims = [dims[key] for key in keys]
+  sizes = tuple([np.size(vals[key]) for key in keys])
+  assert prob.shape == sizes and len(set(dims)) == len(dims), \
+      "Probability array of shape {} incommensurate with values of sizes {}".\
+      format(prob.shape, sizes)
+  shape = [1] * max([np.ndim(val) for val in vals.values()])
+  for dim, size in zip(dims, sizes):
+    shape[dim] = size
+  return np.transpose(prob, np.argsort(dims)).reshape(shape)
+
 #-------------------------------------------------------------------------------
 def arch_prob(arch, dims, pscale=None, **kwds):
   """ Returns the combined probability of for arch given values """
@@ -42,6 +58,8 @@ def arch_prob(arch, dims, pscale=None, **kwds):
     vals = {key: values[key] for key in dimkeys if key in keyset}
     subdims = {key: dims[key] for key in dimkeys if key in keyset}
     probs[i] = subarch.eval_prob(vals, subdims)
+    if isinstance(subarch.prob, np.ndarray):
+      probs[i] = align_prob(probs[i], subarch.keylist, vals, subdims)
   pscales = [subarch.pscale for subarch in arch]
   pscale = prod_pscale(pscales) if pscale is None else pscale
   prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
-- 
2.43.0


From 3e222c24f32a34782a7674a1dc578ba78a7d80fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 081/111] fix: models with variables between leaves and roots
 could not be called

---
 probayes/dependence.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 3b69013..f159ac0 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -324,8 +324,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       return super().eval_dist_name(values, suffix)
     keys = self._keylist 
     vals = collections.OrderedDict()
-    if not isinstance(vals, dict):
-      vals.update({key: vals for key in keys})
+    if not isinstance(values, dict):
+      vals.update({key: values for key in keys})
     else:
       for key, val in values.items():
         if ',' in key:
@@ -337,20 +337,13 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       for key in self._keylist:
         if key not in vals.keys():
           vals.update({key: None})
-    marg_vals = collections.OrderedDict()
-    if self._leafs:
-      for key in self._leafs.keylist:
-        if key in keys:
-          marg_vals.update({key: vals[key]})
-    cond_vals = collections.OrderedDict()
-    if self._roots:
-      for key in self._roots.keylist:
-        if key in keys:
-          cond_vals.update({key: vals[key]})
-    marg_dist_name = self._leafs.eval_dist_name(marg_vals)
-    cond_dist_name = '' if not self._roots else \
-                     self._roots.eval_dist_name(cond_vals)
-    dist_name = marg_dist_name
+    roots_keys = [] if not self._roots else self._roots.keylist
+    marg_names = [var.eval_dist_name(vals[var.name]) \
+                  for var in self._varlist if var.name not in roots_keys]
+    cond_names = [self._vars[key].eval_dist_name(vals[key]) \
+                  for key in roots_keys]
+    cond_dist_name = ','.join(cond_names)
+    dist_name = ','.join(marg_names)
     if len(cond_dist_name):
       dist_name += "|{}".format(cond_dist_name)
     return dist_name
-- 
2.43.0


From 7d56eb97560fd8a17e42b50dfbc034ecb05a4e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 082/111] fix: joint evaluation of models without conditions
 failed

---
 probayes/sd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 55f2ed9..320d9b4 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -182,7 +182,7 @@ class SD (Dependence, RF):
       return None
     joint = False if 'joint' not in kwds else kwds.pop('joint')
     dist = super().__call__(*args, **kwds)
-    if not joint:
+    if not joint or not self._roots:
       return dist
     vals = dist('cond')
     cond_dist = self._roots(vals)
-- 
2.43.0


From 361c2a7663c14f082d678a252bd7fb631b5f024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 083/111] fix: asking a field whether dimensions are passed to
 its probability never ended

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 5aaeea7..15a5c83 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -82,7 +82,7 @@ class RF (Field, Prob):
 
   @property
   def passdims(self):
-    return self.passdims
+    return self._passdims
 
   @property
   def def_prob(self):
-- 
2.43.0


From 2f4d08ab9832ef905c4df27fc18d426cbf9361d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 084/111] fix: proposals could not be declared with
 dependencies

---
 probayes/rf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 15a5c83..cdc4a81 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -157,7 +157,8 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if prop is callable.
     """
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop['deps']
+    kwds = dict(kwds)
+    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
     if self._prop is None:
       return
     assert self._anystoch, \
-- 
2.43.0


From 61ba3a943b40166613d0b9233ea4a5529c876878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 085/111] fix: pairs of scalar transition functions called the
 values they multiply

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index cdc4a81..923aed7 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -429,7 +429,7 @@ class RF (Field, Prob):
       return None
     if self._tfun.isscalar:
       if self._tfun.ismulti:
-        return self._tfun[int(reverse)]() * values()
+        return self._tfun[int(reverse)]() * values
       else:
         return self._tfun() * values
     if not self._tfun.callable:
-- 
2.43.0


From e877902322088c3ec1ced2a8871343f3321598a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 086/111] fix: values without suffixed keys could not be
 desuffixed

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index ddfa562..f0010c8 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -11,7 +11,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 38fe9d5bfebb07fec85c4c000d1208064276ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:21 +0000
Subject: [PATCH 087/111] fix: constant and partial expressions for field
 probabilities failed for arrays of values

---
 probayes/rf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/probayes/rf.py b/probayes/rf.py
index 923aed7..89da3a1 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -342,6 +342,15 @@ class RF (Field, Prob):
              self._partials['prob'](values)
       return prob
 
+    # Symbolic expressions may depend on only some of the variables
+    if self._isiconic:
+      prob = super().eval_prob({key: values[key] for key in self._symbols \
+                                if key in values})
+      shape = np.broadcast_shapes(*(np.shape(val) for val in values.values()))
+      if np.shape(prob) != shape:
+        prob = np.array(np.broadcast_to(prob, shape), dtype=float)
+      return prob
+
     # Pass-dims is to replaced when passing Distributions()
     if self._passdims:
       return super().eval_prob(values, dims=dims)
-- 
2.43.0


From f776787cdbd93229315baadc1bcda9e3d0260a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:36 +0000
Subject: [PATCH 088/111] fix: models of models multiplied their conditional by
 models of the conditions

---
 probayes/sd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 320d9b4..010cc2c 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -84,9 +84,12 @@ class SD (Dependence, RF):
           "Cannot specify probabilities alongside deps conditional dependencies"
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return super().set_prob(prob, *args, **kwds)
-    pscale = prod_pscale([subarch.pscale for subarch in self._arch])
+    # Models that only describe roots do not contribute to the conditional
+    arch = [subarch for subarch in self._arch if not self._roots or \
+            not subarch.leafs.keyset <= self._roots.keyset]
+    pscale = prod_pscale([subarch.pscale for subarch in arch])
     return super().set_prob(functools.partial(arch_prob, pscale=pscale), 
-                            arch=self._arch, passdims=True, pscale=pscale)
+                            arch=arch, passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def _default_prob(self):
-- 
2.43.0


From eea0de988da012d4fce10c7cdeecc925d1b01338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:49 +0000
Subject: [PATCH 089/111] fix: scalars supplied together added a dimension

---
 probayes/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 31b23bb..e28d807 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -428,10 +428,12 @@ class Field (NX_UNDIRECTED_GRAPH):
         val_ref = values_ref[key]
         subkeys = val_ref[0].split(',')
         for subkey in subkeys:
-          dims[subkey] = ndim
           seen_keys.add(subkey)
           if not isdimensionless(values[val_ref[0]][values_ref[subkey][1]]):
             new_dim = True
+        if new_dim:
+          for subkey in subkeys:
+            dims[subkey] = ndim
       if new_dim:
         ndim += 1
 
-- 
2.43.0


From ad12ccd0173bc844c3221984bf397a627236913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 090/111] fix: expressions passed dictionaries of values after
 fixed arguments as one argument

---
 probayes/expression.py | 22 +++++++++++-----------
 probayes/prob.py       |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index dd30b62..058b562 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -352,14 +352,14 @@ class Expression:
         self._partials.update({None: call})
       else:
         call = functools.partial(Expression._partial_call, self, self._expr, 
-                                 *self._args, **self._kwds)
+                                 self._args, self._kwds)
         self._partials.update({None: call})
 
     # Tuples are keyed by index
     elif isinstance(self._expr, tuple):
       for i, expr in enumerate(self._expr):
         call = functools.partial(Expression._partial_call, self, expr, 
-                                 *self._args, **self._kwds)
+                                 self._args, self._kwds)
         self._partials.update({i: call})
       self._partials.update({-1: call})
 
@@ -367,14 +367,14 @@ class Expression:
     elif isinstance(self._expr, dict):
       for key, val in self._expr.items():
         call = functools.partial(Expression._partial_call, self, val, 
-                                 *self._args, **self._kwds)
+                                 self._args, self._kwds)
         self._partials.update({key: call})
     else:
       raise TypeError("Unknown expression type: {}".format(type(self._expr)))
     self._keys = list(self._partials.keys())
 
 #-------------------------------------------------------------------------------
-  def _call(self, expr=None, *args, **kwds):
+  def _call(self, expr=None, args=(), kwds={}):
     """ Private call used by the wrapped Func interface that is _ismulti-blind.
     (see __call__ and __getitem__).
     """
@@ -392,11 +392,6 @@ class Expression:
         expr = self._expr
       return expr
 
-    # Allow first argument to denote kwds
-    if len(args) == 1 and isinstance(args[0], dict):
-      args, kwds = (), {**kwds, **dict(args[0])}
-    #argsmid = args; kwdsmid = kwds; import pdb; pdb.set_trace() # debugging
-
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
       if self._islambda and hasattr(expr, '__code__') and \
@@ -422,6 +417,7 @@ class Expression:
     args = list(args)
     while len(args) < n_args:
       args.append(None)
+    kwds = dict(kwds)
 
     # Callables with order wrapper
     if self.__order:
@@ -457,8 +453,12 @@ class Expression:
     return expr(*tuple(args), **kwds)
 
 #-------------------------------------------------------------------------------
-  def _partial_call(self, *args, **kwds):
-    return self._call(*args, **kwds)
+  def _partial_call(self, _expr, _args, _kwds, *args, **kwds):
+    """ Calls _expr with fixed _args and _kwds and those of the call, for which
+    a dictionary as the only argument denotes keywords. """
+    if self._callable and len(args) == 1 and isinstance(args[0], dict):
+      args, kwds = (), {**kwds, **args[0]}
+    return self._call(_expr, (*_args, *args), {**_kwds, **kwds})
 
 #-------------------------------------------------------------------------------
   def __call__(self, *args, **kwds):
diff --git a/probayes/prob.py b/probayes/prob.py
index c107f35..ddf89a2 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -215,7 +215,7 @@ class Prob (Expression, SympyProb):
         if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
-                                   *self._args, **self._kwds)
+                                   self._args, self._kwds)
           self._partials.update({method: call})
 
       # Provide a common interface for PDF/PMF and LOGPDF/LOGPMF
-- 
2.43.0


From bd24e78dfda633f944500784806be8603aed106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 091/111] fix: mappings of values replaced those they had yet
 to map

---
 probayes/expression.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 058b562..9b3765d 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -420,6 +420,7 @@ class Expression:
     kwds = dict(kwds)
 
     # Callables with order wrapper
+    mapped = {}
     if self.__order:
       for key, val in self.__order.items():
         if type(val) is int:
@@ -427,11 +428,11 @@ class Expression:
         elif val is None:
           kwds.pop(key)
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          mapped.update({val: kwds.pop(key)})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
-      return expr(*tuple(args), **kwds)
+      return expr(*tuple(args), **{**kwds, **mapped})
 
     # Callables with delta wrapper
     for key, val in self.__delta.items():
@@ -444,13 +445,13 @@ class Expression:
       elif val is None:
         pass
       elif isinstance(val, str):
-        kwds.update({val: value})
+        mapped.update({val: value})
       else:
         raise TypeError("Unrecognised delta key: val type: {}:{}".\
                         format(key, val))
 
     #argsout = args; kwdsout = kwds; import pdb; pdb.set_trace() # debugging
-    return expr(*tuple(args), **kwds)
+    return expr(*tuple(args), **{**kwds, **mapped})
 
 #-------------------------------------------------------------------------------
   def _partial_call(self, _expr, _args, _kwds, *args, **kwds):
-- 
2.43.0


From 631fc0ab3517551ab49345478f14c2d6ee08baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:17 +0000
Subject: [PATCH 092/111] fix: expressions counted the last of several
 functions twice

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 9b3765d..b3e1d8d 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -492,7 +492,7 @@ class Expression:
     """ Returns the number of expressions in the tuple set by set_expr() """
     if not self._ismulti:
       return None
-    return len(self._partials)
+    return len(self._expr) if isinstance(self._expr, (dict, tuple)) else 2
 
 #-------------------------------------------------------------------------------
   def __repr__(self):
-- 
2.43.0


From 610d1f8da7f8b89ae11a2634b55fbee8ba49313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 093/111] fix: conditional functions selected called the one
 last selected

---
 probayes/cf.py   | 10 ++++++++--
 probayes/func.py | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index a4ca90d..ccdb439 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -4,6 +4,7 @@ dependence of an about output RF with respect to an input RF or the
 by the dependence of a subgroup of RVs with respect to the others. 
 '''
 import collections
+import functools
 from probayes.rv import RV
 from probayes.func import Func
 
@@ -205,8 +206,13 @@ class CF (Func):
      return super().__getitem__(spec)
    assert self.__inpdict, \
        "Input spec as a string only supported with a OrderedDict inp"
-   self.__unknown = spec
-   return self._call
+   return functools.partial(CF._select_unknown, self, spec)
+
+#-------------------------------------------------------------------------------
+  def _select_unknown(self, _spec, *args, **kwds):
+   """ Calls the function for the unknown variables of _spec """
+   self.__unknown = _spec
+   return self._call(*args, **kwds)
 
 #-------------------------------------------------------------------------------
   def _call(self, *args, **kwds):
diff --git a/probayes/func.py b/probayes/func.py
index b299ede..5348a3a 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -10,6 +10,7 @@ Func may be a tuple of callable/uncallable functions
 import numpy as np
 import scipy.stats
 import collections
+import functools
 from probayes.vtypes import isscalar, isunitary
 
 #-------------------------------------------------------------------------------
@@ -361,8 +362,13 @@ class Func:
      return self._func
    assert self.__ismulti or self.__isscipy, \
      "Cannot index without single func, use Func()"
-   self.__index = spec
-   return self._call
+   return functools.partial(Func._select, self, spec)
+
+#-------------------------------------------------------------------------------
+  def _select(self, _spec, *args, **kwds):
+   """ Calls the function of the Func tuple with index _spec """
+   self.__index = _spec
+   return self._call(*args, **kwds)
 
 #-------------------------------------------------------------------------------
   def __len__(self):
-- 
2.43.0


From 3f0df0eda35173859cbd08a232265e2f8eb86cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:06 +0000
Subject: [PATCH 094/111] fix: mappings of values replaced those conditional
 functions had yet to map

---
 probayes/func.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/probayes/func.py b/probayes/func.py
index 5348a3a..4b80915 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -292,6 +292,7 @@ class Func:
       args.append(None)
 
     # Callables with order wrapper
+    mapped = {}
     if self.__order:
       for key, val in self.__order.items():
         if type(val) is int:
@@ -299,11 +300,11 @@ class Func:
         elif val is None:
           kwds.pop(key)
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          mapped.update({val: kwds.pop(key)})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
-      return func(*tuple(args), **kwds)
+      return func(*tuple(args), **{**kwds, **mapped})
 
     # Callables with delta wrapper
     for key, val in self.__delta.items():
@@ -316,11 +317,11 @@ class Func:
       elif val is None:
         pass
       elif isinstance(val, str):
-        kwds.update({val: value})
+        mapped.update({val: value})
       else:
         raise TypeError("Unrecognised delta key: val type: {}:{}".\
                         format(key, val))
-    return func(*tuple(args), **kwds)
+    return func(*tuple(args), **{**kwds, **mapped})
 
 #-------------------------------------------------------------------------------
   def _call_scipy(self, *args, **kwds):
-- 
2.43.0


From 29c326ed3ee798d628056fb52158d255afd5cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:13 +0000
Subject: [PATCH 095/111] fix: mappings refused were kept

---
 probayes/expression.py | 18 ++++++++----------
 probayes/func.py       | 24 +++++++++++-------------
 2 files changed, 19 insertions(+), 23 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index b3e1d8d..d8a90ae 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -251,23 +251,21 @@ class Expression:
     """ Sets an order remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
+    if order is not None:
+      assert self.__delta is None, "Cannot set both order and delta"
+      self._check_mapping(order)
     self.__order = order
-    if self.__order is None:
-      return
-    assert self.__delta is None, "Cannot set both order and delta"
-    self._check_mapping(self.__order)
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None):
     """ Sets a difference remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
+    if delta is not None:
+      assert self.__order is None, "Cannot set both order and delta"
+      assert not self.isiconic, "Cannot set delta when using symbols"
+      self._check_mapping(delta)
     self.__delta = delta
-    if self.__delta is None:
-      return
-    assert self.__order is None, "Cannot set both order and delta"
-    assert not self.isiconic, "Cannot set delta when using symbols"
-    self._check_mapping(self.__delta)
 
 #-------------------------------------------------------------------------------
   def _check_mapping(self, mapping=None):
@@ -291,7 +289,7 @@ class Expression:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
diff --git a/probayes/func.py b/probayes/func.py
index 4b80915..fb20d10 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -140,26 +140,24 @@ class Func:
     """ Sets an order remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
+    if order is not None:
+      assert self.__delta is None, "Cannot set both order and delta"
+      assert self.__scipyobj is None, \
+          "Optional 'order' keyword prohibited for scipy objectts"
+      self._check_mapping(order)
     self.__order = order
-    if self.__order is None:
-      return
-    assert self.__delta is None, "Cannot set both order and delta"
-    assert self.__scipyobj is None, \
-        "Optional 'order' keyword prohibited for scipy objectts"
-    self._check_mapping(self.__order)
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None):
     """ Sets a difference remapping dictionary for functional calls in which
     keyword arguments are mapped to position (in numeric) or rekeyed (if str).
     """
+    if delta is not None:
+      assert self.__order is None, "Cannot set both order and delta"
+      assert self.__scipyobj is None, \
+          "Optional 'delta' keyword prohibited for scipy objectts"
+      self._check_mapping(delta)
     self.__delta = delta
-    if self.__delta is None:
-      return
-    assert self.__order is None, "Cannot set both order and delta"
-    assert self.__scipyobj is None, \
-        "Optional 'delta' keyword prohibited for scipy objectts"
-    self._check_mapping(self.__delta)
 
 #-------------------------------------------------------------------------------
   def _check_mapping(self, mapping=None):
@@ -180,7 +178,7 @@ class Func:
       elif ind is None:
         pass
       elif not isinstance(ind, str):
-        raise TypeError("Cannot interpret index specification value: {}".ind)
+        raise TypeError("Cannot interpret index specification value: {}".format(ind))
     indset = set(inds)
     if len(indset):
       assert indset == set(range(min(indset), max(indset)+1)), \
-- 
2.43.0


From 06bbce8fc1c04c3e817f94c5ae877ccb7419c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:13 +0000
Subject: [PATCH 096/111] fix: calling multiple expressions failed to say which
 there are

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index d8a90ae..92c4798 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -465,7 +465,7 @@ class Expression:
    args and kwds. """
    assert not self._ismulti, \
        "Cannot call with multiple expression, use Expression[{}]()".format(
-           list(self._keys()))
+           list(self._keys))
    return self._partials[None](*args, **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From a62b3fef5c106556df2cbe0cac24602406b803a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:25 +0000
Subject: [PATCH 097/111] fix: parameters of SciPy distributions given by
 position were taken as values

---
 probayes/prob.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index ddf89a2..d6b507c 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -26,6 +26,14 @@ SCIPY_DIST_METHODS = ['pdf', 'logpdf', 'pmf', 'logpmf', 'cdf', 'logcdf', 'ppf',
                       'rvs', 'sf', 'logsf', 'isf', 'moment', 'stats', 'expect', 
                       'entropy', 'fit', 'median', 'mean', 'var', 'std', 'interval']
 
+SCIPY_VALUE_METHODS = ['pdf', 'logpdf', 'pmf', 'logpmf', 'cdf', 'logcdf', 'ppf', 
+                       'sf', 'logsf', 'isf', 'moment', 'interval']
+
+#-------------------------------------------------------------------------------
+def scipy_call(_call, _args, *args, **kwds):
+  """ Calls a SciPy distribution method with parameters _args after values """
+  return _call(*args, *_args, **kwds)
+
 #-------------------------------------------------------------------------------
 def is_scipy_stats_cont(arg, scipy_stats_cont=SCIPY_STATS_CONT):
   """ Returns if arg belongs to scipy.stats.continuous """
@@ -175,7 +183,9 @@ class Prob (Expression, SympyProb):
       self._prob = self._partials['logp'] if self._logp \
                    else self._partials['prob']
       if 'cdf' in self._keys and 'ppf' in self._keys:
-        self.set_pfun((self._expr.cdf, self._expr.ppf), *self._args, **self._kwds)
+        pfun = tuple([functools.partial(scipy_call, call, self._args) \
+                      for call in (self._expr.cdf, self._expr.ppf)])
+        self.set_pfun(pfun, **self._kwds)
       if 'rvs' in self._keys and hasattr(self._expr, 'rvs'):
         self.set_sfun(self._expr.rvs, *self._args, **self._kwds)
 
@@ -213,9 +223,11 @@ class Prob (Expression, SympyProb):
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
         if hasattr(self._expr, method):
-          call = functools.partial(Expression._partial_call, self, 
-                                   getattr(self._expr, method),
-                                   self._args, self._kwds)
+          call, args = getattr(self._expr, method), self._args
+          if method in SCIPY_VALUE_METHODS: # parameters follow values
+            call, args = functools.partial(scipy_call, call, args), ()
+          call = functools.partial(Expression._partial_call, self, call, 
+                                   args, self._kwds)
           self._partials.update({method: call})
 
       # Provide a common interface for PDF/PMF and LOGPDF/LOGPMF
-- 
2.43.0


From 5111b01c7336df9ad57d4c15afb1222ecba9d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 098/111] fix: expressions of symbols with assumptions were not
 evaluated for scalars

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index b217d70..bd4e05a 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -207,7 +207,7 @@ class Expr:
     # If supported efun found or not array, then use it
     if not(any(isarray)) or np.ndarray in self._efun:
       efun = self._efun[etype]
-      vals = efun(*evalues) if etype else efun(values)
+      vals = efun(*evalues) if etype else efun(dict(zip(ekeys, evalues)))
       if isinstance(vals, np.ndarray):
         return vals
       elif isinstance(vals, sympy.Integer):
-- 
2.43.0


From b599926aced7989a2bc4c8a1038bed00dce4d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 099/111] fix: the last of several iconic expressions could not
 be selected by -1

---
 probayes/expression.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 92c4798..91ae040 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -333,15 +333,11 @@ class Expression:
           self._partials.update({1: call})
           self._partials.update({-1: call})
       else:
-        if isinstance(self._exprs, tuple):
-          for i, expr in enumerate(self._exprs):
-            call = functools.partial(Expr.__call__, expr)
-            self._partials.update({i: call})
+        for key, val in self._exprs.items():
+          call = functools.partial(Expr.__call__, val)
+          self._partials.update({key: call})
+        if isinstance(self._expr, tuple):
           self._partials.update({-1: call})
-        elif isinstance(self._exprs, dict):
-          for key, val in self._exprs.items():
-            call = functools.partial(Expr.__call__, val)
-            self._partials.update({key: call})
 
     # Non-multiples are keyed by: None
     elif not self._ismulti:
-- 
2.43.0


From 8c98d9dbc4a29f721dcfd44f6576444c563425a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 100/111] fix: functionals failed to say whether they are
 iconic

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 28735ba..561892c 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -105,7 +105,7 @@ class Functional:
   @property
   def isiconic(self):
     """ Iconic flag """
-    return self._iconic
+    return self._isiconic
 
   def add_func(self, spec, func, *args, **kwds):
     """ Adds an function dependency for a specificied inp/out relationship where
-- 
2.43.0


From 6c1b3ad6da6dfa5eedec2846eed9ebe5ebbf38ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 101/111] fix: deterministic expressions of variables were read
 as their names

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 0eff183..eba79a9 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -767,7 +767,7 @@ class Variable (Icon):
     """ Sets iconic deterministic expression, substituting for icon in [:] """
     return self._dexpr
 
-  @name.setter
+  @dexpr.setter
   def dexpr(self, dexpr=None):
     self._dexpr = None if self._is_stochastic else dexpr
 
-- 
2.43.0


From 787012894c29fc245bf26daeec6a8b605331fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 102/111] fix: functions mapping values to nothing required
 them

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 91ae040..210d362 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -420,7 +420,7 @@ class Expression:
         if type(val) is int:
           args[val] = kwds.pop(key)
         elif val is None:
-          kwds.pop(key)
+          kwds.pop(key, None)
         elif isinstance(val, str):
           mapped.update({val: kwds.pop(key)})
         else:
-- 
2.43.0


From 57daf3ef6f8191888d61b14619f98ad4643dd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:11 +0000
Subject: [PATCH 103/111] fix: functionals could not specify several inputs for
 a function

---
 probayes/functional_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/functional_utils.py b/probayes/functional_utils.py
index 9a0359e..213999f 100644
--- a/probayes/functional_utils.py
+++ b/probayes/functional_utils.py
@@ -33,7 +33,10 @@ def parse_identifiers(identifiers):
     return frozenset(identifiers.split(','))
   if not isinstance(identifiers, (list, tuple, set)):
     identifiers = identifiers,
-  keys = list(identifiers)
+  keys = []
+  for key in identifiers:
+    keys.extend(parse_identifiers(key) if isinstance(key, (list, tuple, set)) \
+                else key.split(',') if isinstance(key, str) else [key])
   for i, key in enumerate(keys):
     if not isinstance(key, str):
       assert hasattr(key, 'name'), \
-- 
2.43.0


From 2de262be22b00f9724f882031cb6d2bd7d760974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 104/111] fix: functions refused by functionals were kept

---
 probayes/functional.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 561892c..3b90b8f 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -132,19 +132,15 @@ class Functional:
     if self._deps:
       assert spec_out not in self._deps.keys(), \
           "Output dependence for {} already previously set".format(spec_out)
-    self._deps.update({spec_out: spec_inp})
-    self._ndeps = len(self._deps)
 
-    # Update funcs and set isiconic flag if not previously set
-    self._funcs.update({spec_out: Expression(func, *args, **kwds)})
-    if self._isiconic is None:
-      self._isiconic = self._funcs[spec_out].isiconic
-    else:
-       assert self._isiconic == self._funcs[spec_out].isiconic, \
+    # Check consistency with isiconic flag if previously set
+    expr = Expression(func, *args, **kwds)
+    if self._isiconic is not None:
+       assert self._isiconic == expr.isiconic, \
            "Cannot mix iconic and non-iconic expressions within functional"
 
-    # If iconic, check for single spec_out and update dexpr if available
-    if self._isiconic:
+    # If iconic, check for single spec_out
+    if expr.isiconic:
       assert not len(args) and not len(kwds), \
           "No optional arguments or keywords supported for iconic functions"
       assert len(spec_out) == 1, \
@@ -152,17 +148,13 @@ class Functional:
       key = list(spec_out)[0]
       assert key in self._out_set, \
           "Key {} not found in amount output set {}".format(key, self._out_set)
-      var = self._out_dict[key]
-      if hasattr(var, 'dexpr'):
-        var.dexpr = func
 
     # Detect inputs for iconics if not specified
     if spec_inp is None:
-      assert self._isiconic, \
+      assert expr.isiconic, \
           "Input specification mandatory for non-iconic functionals"
-      spec_inp = tuple(self._funcs[spec_out].symbols.keys())
+      spec_inp = tuple(expr.symbols.keys())
       spec_inp = parse_identifiers(spec_inp)
-      self._deps[spec_out] = spec_inp
 
     # Detect subsets are covered
     assert spec_out.issubset(self._out_set), \
@@ -170,6 +162,16 @@ class Functional:
     assert spec_inp.issubset(self._inp_set), \
         "Specification input must be a subset of input graph"
 
+    # Update deps, funcs, and (if iconic) dexpr if available
+    self._deps.update({spec_out: spec_inp})
+    self._ndeps = len(self._deps)
+    self._funcs.update({spec_out: expr})
+    self._isiconic = expr.isiconic
+    if self._isiconic:
+      var = self._out_dict[key]
+      if hasattr(var, 'dexpr'):
+        var.dexpr = func
+
     self._set_partials()
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 0c88b7b8b06bda7a79e473bea3f7def7e1c82b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:15 +0000
Subject: [PATCH 105/111] fix: conditional normal samples exceeded the limits
 of their variables

---
 probayes/cond_cov.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..3a3d9ce 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -16,7 +16,6 @@ class CondCov:
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
   _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
@@ -35,8 +34,6 @@ class CondCov:
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
       self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,12 +51,14 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
+    offs = float(self._coef[idx].dot(dmu))
+    mean = self._mean[idx] + offs
+    stdv = self._stdv[idx]
+    lims = scipy.stats.norm.cdf(self._lims[idx], loc=offs, scale=stdv)
     number = list(args[idx])[0]
     cdf = uniform(lims[0], lims[1], number)
-    mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
-    stdv = self._stdv[idx]
     vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
+    vals = np.clip(vals, *(self._mean[idx] + self._lims[idx]))
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
-- 
2.43.0


From 2decab5475547d5163ced27087a13c2c4e848d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:50 +0000
Subject: [PATCH 106/111] fix: multivariate SciPy densities dropped dimensions
 of single values

---
 probayes/prob.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index d6b507c..f3dd1ee 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -363,6 +363,8 @@ class Prob (Expression, SympyProb):
         if self.issmvar: # for mvar, convert dictionaries to arrays
           vals = np.broadcast_arrays(*tuple(args[0].values()))
           prob = prob(np.stack(vals, axis=-1))
+          if np.ndim(vals[0]): # SciPy squeezes singleton dimensions
+            prob = np.reshape(prob, np.shape(vals[0]))
         else:
           prob = prob(*args)
 
-- 
2.43.0


From 78d99db2c02a784abb8a29b27cb516a22315cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 107/111] fix: product rule added linear probabilities when
 asked for logs, and misread plain log scales

---
 probayes/pscales.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index b4b82a6..5da151d 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -165,10 +165,11 @@ def prod_rule(*args, **kwds):
   :return: joint_probility, pscale (two element tuple)
   """
   kwds = dict(kwds)
-  pscales = kwds.get('pscales', [1.] * len(args))
+  pscales = [eval_pscale(_pscale) \
+             for _pscale in kwds.get('pscales', [1.] * len(args))]
   use_logp = kwds.get('use_logp', any([iscomplex(_pscale) for _pscale in pscales]))
   ppscale = prod_pscale(pscales, use_logp)
-  pscale = kwds.get('pscale', ppscale)
+  pscale = eval_pscale(kwds.get('pscale', ppscale))
   n_args = len(args)
   assert len(pscales) == n_args, \
       "Input pscales length {} incommensurate with number of arguments {}".\
@@ -191,7 +192,7 @@ def prod_rule(*args, **kwds):
   if use_logp != iscomplex(ppscale):
     ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
   elif use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      all([iscomplex(_pscale) == use_logp for _pscale in pscales]):
     prob = _apply_prod(list(args))
     return prob, pscale
 
-- 
2.43.0


From 407999551593bf1eea28382a4fd5fac9aab31c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:56 +0000
Subject: [PATCH 108/111] fix: moving axes dropped fixed variables left out of
 the requested dimensions

---
 probayes/distribution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 2262324..41a75aa 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -262,6 +262,7 @@ class Distribution (NamedDict):
             "Dimension {} requested for singleton with key {}".\
             format(dims[key], key)
     vals = {key: self[key] for key in dims.keys()}
+    vals.update({key: self[key] for key in self._keylist if key not in dims})
     return Distribution(self._name, vals, dims=dims)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 89e92c3cba2b59fabec9b35688ebac99f129278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:56 +0000
Subject: [PATCH 109/111] fix: serialising silently lost distributions that
 share a name

---
 probayes/pd_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 5aa7335..2815fd9 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -417,7 +417,10 @@ def serialise(*args):
   for arg in args:
     if not isinstance(arg, (PD, Distribution)):
       raise TypeError(f"Unrecogised type to serialise: {type(arg)}")
-    serialised.update(arg.serialise())
+    for name, dist_dict in arg.serialise().items():
+      assert name not in serialised, \
+          "Cannot serialise more than one distribution named {}".format(name)
+      serialised.update({name: dist_dict})
   return serialised
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From c0f27d2ab92234ba9ea570348c3d258cb499c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:11 +0000
Subject: [PATCH 110/111] fix: default densities of transformed variables were
 negative for decreasing transformations and not zero outside the domain

---
 probayes/rv.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 98d18e1..ea7da70 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -167,8 +167,12 @@ class RV (Variable, Prob):
       return
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
-      prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
-             prob * self._ufun.derinv.expr
+      lims = self.ufun[0](self._vlims)
+      derinv = self._ufun.derinv.expr if lims[1] >= lims[0] else \
+               -self._ufun.derinv.expr
+      prob = prob + sympy.log(derinv) if self._logp else prob * derinv
+      if prob.is_number: # linear transformations have a constant density
+        prob = float(prob)
     super().set_prob(prob)
     if self._tran is None or self.__def_tran:
       self.set_tran(prob)
@@ -327,7 +331,13 @@ class RV (Variable, Prob):
     values = values[self.name] if isinstance(values, dict) else values
     if not self.isscalar:
       if self.callable or values is None:
-        return super().eval_prob(*(() if values is None else (values,)))
+        prob = super().eval_prob(*(() if values is None else (values,)))
+        if values is None or not self.__def_prob:
+          return prob
+        inside, p_zero = self._inside(values), rescale(0., 1., self._pscale)
+        if isscalar(values):
+          return prob if inside else p_zero
+        return np.where(inside, prob, p_zero)
       return table_prob(values,
                         prob=self._prob,
                         vset=self._vset,
-- 
2.43.0


From 50a64bfcfb4180b13635b68044d18d3fe2a5a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:30 +0000
Subject: [PATCH 111/111] fix: log probabilities far from zero under- or
 overflowed when summed, conditioned, divided, averaged or re-binned

---
 probayes/pd.py      | 22 +++++++++++++++-------
 probayes/pscales.py | 16 ++++++++++++++++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 54103d2..0b505c4 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -8,7 +8,7 @@ from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
 from probayes.vtypes import isscalar
 from probayes.pscales import eval_pscale, rescale, iscomplex
-from probayes.pscales import div_prob
+from probayes.pscales import div_prob, logp_peak
 from probayes.distribution import Distribution
 
 #-------------------------------------------------------------------------------
@@ -159,9 +159,11 @@ class PD (Distribution):
           dims.update({key: dim - sum([axis < dim for axis in sum_axes])})
         vals.update({key:self[key]})
     name = margcond_str(marg, cond)
-    prob = rescale(self._prob, self._pscale, 1.)
+    peak = logp_peak(self._prob, self._pscale, tuple(sum_axes))
+    prob = rescale(self._prob - peak, self._pscale, 1.)
     sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)
     prob = rescale(sum_prob, 1., self._pscale)
+    prob = prob + np.sum(peak, axis=tuple(sum_axes), keepdims=False)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
@@ -265,7 +267,9 @@ class PD (Distribution):
           sum_axes.add(dims[key])
     prob = np.moveaxis(self._prob, old_dims, new_dims)
     if normalise and iscomplex(self._pscale): 
-      prob = prob - prob.max()
+      prob = prob - logp_peak(prob, self._pscale)
+    if len(sum_axes):
+      prob = prob - logp_peak(prob, self._pscale, tuple(sum_axes))
     prob = rescale(prob, self._pscale, 1.)
     if normalise:
       prob = div_prob(prob, np.sum(prob))
@@ -366,7 +370,8 @@ class PD (Distribution):
         if self._dims[key] is not None:
           sum_axes.append(self._dims[key])
         dims[key] = None
-    prob = rescale(self._prob, self._pscale, 1.)
+    peak = logp_peak(self._prob, self._pscale, tuple(set(sum_axes)) or None)
+    prob = rescale(self._prob - peak, self._pscale, 1.)
     if sum_axes:
       sum_prob = np.sum(prob, axis=tuple(set(sum_axes)), keepdims=False)
     else:
@@ -405,7 +410,9 @@ class PD (Distribution):
           unsorted.add(key)
 
     # Evaluate quantiles from cumulative probability
-    ravprob = rescale(np.ravel(self.prob), self._pscale, 1.)
+    ravprob = np.ravel(self.prob)
+    ravprob = rescale(ravprob - logp_peak(ravprob, self._pscale), 
+                      self._pscale, 1.)
     cumprob = np.cumsum(ravprob)
     ravprob = div_prob(ravprob, cumprob[-1])
     cumprob = div_prob(cumprob, cumprob[-1])
@@ -657,7 +664,8 @@ class PD (Distribution):
       shape.append(self._shape[dim])
 
     # Iterate through every self.prob value
-    rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
+    peak = logp_peak(self._prob, self._pscale).item()
+    rav_prob = np.ravel(rescale(self._prob - peak, self._pscale, 1.))
     rem_prob = np.zeros(shape, dtype=float)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
@@ -686,7 +694,7 @@ class PD (Distribution):
                               distribution.ndim + cond_dims.index(dim)})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
-              prob=rescale(rem_prob, 1., self._pscale),
+              prob=rescale(rem_prob, 1., self._pscale) + peak,
               pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/pscales.py b/probayes/pscales.py
index 5da151d..3cab051 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -210,6 +210,17 @@ def prod_rule(*args, **kwds):
   prob = _apply_prod(probs)
   return rescale(prob, ppscale, pscale), pscale
 
+#-------------------------------------------------------------------------------
+def logp_peak(prob, pscale=None, axis=None):
+  """ Returns peaks along axis of log probabilities, to be subtracted before 
+  exponentiating in order to avoid underflow and overflow, or zeros if pscale is
+  not logarithmic or where probabilities are all zero. Axes are not dropped.
+  """
+  if not iscomplex(eval_pscale(pscale)):
+    return np.zeros_like(np.sum(prob, axis=axis, keepdims=True))
+  peak = np.max(prob, axis=axis, keepdims=True, initial=NEARLY_NEGATIVE_INF)
+  return np.where(peak > NEARLY_NEGATIVE_INF, peak, 0.)
+
 #-------------------------------------------------------------------------------
 def div_prob(dividend, divisor, *args, pscale=None):
   """ Safely divides two probability arrays.
@@ -225,6 +236,11 @@ def div_prob(dividend, divisor, *args, pscale=None):
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
     pscale = pscales[0] if pscale is None else pscale
+    if all([iscomplex(_pscale) for _pscale in pscales + [eval_pscale(pscale)]]):
+      divisor = np.where(divisor > NEARLY_NEGATIVE_INF, divisor, 
+                         np.log(NEARLY_POSITIVE_ZERO) - logp_offs(pscales[1]))
+      offs = logp_offs(pscales[0]) - logp_offs(pscales[1])
+      return rescale(dividend - divisor, complex(offs, 0.), pscale)
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0

