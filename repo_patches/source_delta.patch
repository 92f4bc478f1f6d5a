From 49f34ee56e9c09889fd064dd641599485c2c589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:52 +0000
Subject: [PATCH 01/99] fix: multi-key ismember against empty keys returns no
 matches instead of raising

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..109de30 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1312,6 +1312,9 @@ def ismember(
         is_multikey = True
         if all(len(x) == 0 for x in a):
             return ismember([], [])
+        if all(len(x) == 0 for x in b):
+            # nothing to match against
+            return ismember(a[0], [])
 
     # different number of key columns
     if is_multikey:
-- 
2.43.0


From c1a154f290964d6297f7ed01ad960a068b48da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:52 +0000
Subject: [PATCH 02/99] fix: merge2 raises when left and right specify
 different numbers of key columns

---
 riptable/rt_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..d7300b1 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2625,7 +2625,7 @@ def merge2(
     #       if it's specified (but not left_on/right_on) or we construct the new-style 'on' form directly there
     #       while validating so it doesn't need to be done as an extra step.
     if len(left_on) != len(right_on):
-        ValueError(
+        raise ValueError(
             f"Differing numbers of columns used as join-keys for the left ({len(left_on)}) and right ({len(right_on)}) Datasets."
         )
     normalized_on = list(zip(left_on, right_on))
-- 
2.43.0


From a3507eb0d2febaa1d3cf6e1ea6b04a844d83b4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:33 +0000
Subject: [PATCH 03/99] fix: Dataset.duplicated(keep='last') marks the last row
 of the last group and leaves the grouping unmodified

---
 riptable/rt_dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..3ea01bc 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3613,12 +3613,11 @@ class Dataset(Struct):
             lastindex = ifirstgroup[-1] + ncountgroup[-1] - 1
 
             # skip invalid and shift everything
-            ilast = ifirstgroup[2:]
-            ilast -= 1
+            ilast = ifirstgroup[2:] - 1
             result[igroup[ilast]] = False
 
             # set the last one
-            result[lastindex] = False
+            result[igroup[lastindex]] = False
 
         # only return rows that occur once
         elif keep is False:
-- 
2.43.0


From 8335face8d59be1224a880fdcc6385e5f3bd5199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:33 +0000
Subject: [PATCH 04/99] fix: Dataset.tail(0) returns no rows

---
 riptable/rt_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 3ea01bc..cdbb68d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3041,6 +3041,8 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
+        if rows == 0:
+            return self[:0, :]
         return self[-rows:, :]
 
     def dhead(self, n: int = 0) -> None:
-- 
2.43.0


From 3039c7eb7d0bbe6976ac385bec98acb93172d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:27 +0000
Subject: [PATCH 05/99] fix: GroupBy.as_categorical and get_group map rows to
 the right keys when sorted keys differ from first-appearance order

---
 riptable/rt_groupby.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index ae01641..61bb3e9 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -424,7 +424,8 @@ class GroupBy(GroupByOps):
         """
 
         idx = self.grouping.ikey
-        gbkeys = self.gbkeys
+        # ikey refers to the unique keys in grouping order; gbkeys may have been sorted for display
+        gbkeys = self.grouping.uniquedict
 
         return TypeRegister.Categorical(idx, _from_categorical=gbkeys, sort_gb=self._sort_display)
 
-- 
2.43.0


From cb7ec6b89138757e26c344c7cd236508ebb32903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:40 +0000
Subject: [PATCH 06/99] fix: integer cummin/cummax(skipna=False) stay invalid
 after the first invalid value

---
 riptable/rt_fastarraynumba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index 7a1b9be..69e4930 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -346,7 +346,7 @@ def nb_cummin_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_min = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val < running_min:
+            if running_min != inv and (val == inv or val < running_min):
                 running_min = val
             ret[i] = running_min
 
@@ -394,7 +394,7 @@ def nb_cummax_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_max = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val > running_max:
+            if running_max != inv and (val == inv or val > running_max):
                 running_max = val
             ret[i] = running_max
 
-- 
2.43.0


From 4cbda4c91baac8296494b31bc1a4e4d44ceaece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:12 +0000
Subject: [PATCH 07/99] fix: FastArray.nunique counts False in a boolean array

---
 riptable/rt_fastarray.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..23ad2b1 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3989,8 +3989,8 @@ class FastArray(np.ndarray):
             elif self.dtype.char in NumpyCharTypes.UnsignedInteger:
                 if un[count - 1] == inv:
                     count -= 1
-            # all other sentinels are lowest number
-            else:
+            # all other sentinels are lowest number (bool has no sentinel)
+            elif self.dtype.char != "?":
                 if un[0] == inv:
                     count -= 1
         return count
-- 
2.43.0


From 452c1b1f72bd6100a36e18e5a6a7b8bd91d252af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:47 +0000
Subject: [PATCH 08/99] fix: grouped fill_forward/fill_backward and nb_ema no
 longer return uninitialised memory for rows in no group

---
 riptable/rt_groupbynumba.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_groupbynumba.py b/riptable/rt_groupbynumba.py
index b569908..8b76563 100644
--- a/riptable/rt_groupbynumba.py
+++ b/riptable/rt_groupbynumba.py
@@ -125,6 +125,8 @@ class GroupbyNumba(GroupByOps):
             if not inplace:
                 # allocate for numba
                 ret = empty(len(inputdata), dtype=dtype)
+                # rows that belong to no group are never visited
+                ret.fill(INVALID_DICT.get(ret.dtype.num, 0))
 
             nbfunc(iGroup, iFirstGroup, nCountGroup, binLowList[0], binHighList[0], inputdata, ret, *func_param)
 
@@ -417,6 +419,9 @@ class GroupbyNumba(GroupByOps):
         if ret is None:
             # inplace, just pass data as ret itself
             ret = data
+        else:
+            # rows that belong to no group (filtered out) keep their value, as they do inplace
+            ret[:] = data
 
         if limit is None:
             limit = 0
-- 
2.43.0


From e3b0b5dfbe6e3fbec9df5433be663a16eba38e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:07 +0000
Subject: [PATCH 09/99] fix: ema_weighted works on a Categorical

---
 riptable/rt_groupbyops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..97db394 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -3485,7 +3485,7 @@ class GroupByOps(ABC):
             raise ValueError("ema_weighted function requires a decay_rate floating point value")
 
         # put in fake time array
-        time_array = np.arange(self._dataset.shape[0])
+        time_array = np.arange(len(self.grouping.ikey))
         return self._ema_op(
             GB_FUNCTIONS.GB_EMAWEIGHTED,
             *args,
-- 
2.43.0


From 2cb0011d141921dc4706bc33d88f6eedf7f3c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:42 +0000
Subject: [PATCH 10/99] fix: transform=True on a base_index 0 categorical maps
 rows to their own group

---
 riptable/rt_groupbyops.py | 3 ++-
 riptable/rt_grouping.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 97db394..9df07ff 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,7 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
+            if not showfilter:
+                # ikey is always base 1
                 ikey = ikey - 1
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..b11d355 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3540,7 +3540,8 @@ class Grouping:
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
+            if not showfilter:
+                # ikey is always base 1
                 countcol = countcol[self.ikey - 1]
             else:
                 countcol = countcol[ikey]
-- 
2.43.0


From ac1044f1241e22b26777c32bfbce0c30174a618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:42 +0000
Subject: [PATCH 11/99] fix: Grouping.isin does not match rows in no group

---
 riptable/rt_grouping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index b11d355..31b8116 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1372,7 +1372,10 @@ class Grouping:
             if self.base_index == 0:
                 return found[self.catinstance]
             else:
-                return found[self.catinstance - 1]
+                result = found[self.catinstance - 1]
+                # rows in no group match nothing
+                result[self.catinstance == 0] = False
+                return result
 
         # mask = None
         # result_len = len(self.catinstance)
-- 
2.43.0


From 0b6ef767cedf9f1d9ef90a942dd509f5632464e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 12/99] fix: editing or auto-adding categories keeps a
 Categorical's grouping in step and filtered rows filtered

---
 riptable/rt_categorical.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..2780bb7 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1163,7 +1163,8 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        # new array: the new value may be wider and other categoricals may share the old one
+                        self._list = hstack([self._list[:replace_idx], new_value, self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
                 else:
@@ -3864,6 +3865,18 @@ class Categorical(GroupByOps, FastArray):
             raise ValueError(f"Cannot replace mapping dictionary in a locked Categorical. Call unlock() first.")
         self.groupby_reset()
 
+    # -------------------------------------------------------
+    def _category_array_edited(self):
+        """
+        Called after the category array was edited: the grouping has to use the new one.
+        """
+        newcats = self._categories_wrap._list
+        grouping = self._grouping.copy(deep=False)
+        grouping._grouping_unique_dict = {name: newcats for name in grouping.uniquedict}
+        grouping._unique_count = len(newcats)
+        self._grouping = grouping
+        self._categories_wrap._grouping = grouping
+
     # -------------------------------------------------------
     def category_add(self, value):
         """
@@ -3873,6 +3886,7 @@ class Categorical(GroupByOps, FastArray):
             self._categories_wrap._array_edit(value, how="add")
             self._ordered = False
             self._sorted = False
+            self._category_array_edited()
         else:
             raise ValueError(f"Cannot add category to locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3908,6 +3922,7 @@ class Categorical(GroupByOps, FastArray):
             else:
                 self._ordered = False
                 self._sorted = False
+                self._category_array_edited()
         else:
             raise ValueError(f"Cannot remove category from locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -4341,7 +4356,10 @@ class Categorical(GroupByOps, FastArray):
                 fix_index = self._categories_wrap._possibly_add_categories(value)
                 if fix_index is not None:
                     # must be inplace to change self
+                    filtered = self.isfiltered()
                     self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                    self._fa[filtered] = 0
+                    self._category_array_edited()
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
-- 
2.43.0


From 4cf6c668835a41b1c8be74dd74038947c201b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 13/99] fix: expand_dict and as_singlekey of a base_index 0
 categorical give each row its own key

---
 riptable/rt_categorical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 2780bb7..fa29fd3 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5494,7 +5494,7 @@ class Categorical(GroupByOps, FastArray):
         elif self.ismultikey:
             # use onedict
             name, arr = self.grouping.onedict(invalid=False, sep=sep)
-            return Categorical(self._fa, arr, ordered=ordered)
+            return Categorical(self._fa, arr, ordered=ordered, base_index=self.base_index)
         else:
             if self.base_index == 0:
                 return Categorical(self._fa + 1, self.categories())
@@ -6177,7 +6177,7 @@ class Categorical(GroupByOps, FastArray):
         else:
             xdict = {}
             for i, col in self.category_dict.items():
-                xdict[i] = self._expand_array(col, index=self._fa)
+                xdict[i] = self._expand_array(col)
         return xdict
 
     @property
-- 
2.43.0


From 1602086b54beb016b7502634e962d46f92a752ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 14/99] fix: comparing two categoricals with different base
 indices or categories compares the values

---
 riptable/rt_categorical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index fa29fd3..73c58c1 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4780,9 +4780,10 @@ class Categorical(GroupByOps, FastArray):
                     raise ValueError(f"Could not compare categoricals because of conflicting items in dictionaries.")
 
             else:
-                oldidx = [self._fa, other._fa]
+                # merge_cats expects 1-based indices
+                oldidx = [c._fa + 1 if c.base_index == 0 else c._fa for c in (self, other)]
                 oldcats = [[self.category_array, other.category_array]]
-                newidx, _ = merge_cats(oldidx, oldcats)
+                newidx, _ = merge_cats(oldidx, oldcats, ordered=True)
                 # print('***newidx', newidx)
                 # merge index returns stacked
                 newidx_self = newidx[: len(self)]
-- 
2.43.0


From 8d1d45fe91fcfafe989d16948ba5b1b47444f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 15/99] fix: copying a base_index 0 categorical keeps its base
 index

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 73c58c1..d53f897 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1760,6 +1760,7 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                base_index=base_index,
                                 categorical=True,
                                 dtype=dtype,
                                 _trusted=True,
-- 
2.43.0


From dea040d7da676548305a330c937c360666b4e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:55 +0000
Subject: [PATCH 16/99] fix: Categorical.shrink with misc points at the misc
 category when new categories are unused

---
 riptable/rt_grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 31b8116..25afa90 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2012,7 +2012,8 @@ class Grouping:
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                maxvalue = len(newcats[0]) + 1
+                idx = idx.astype(int_dtype_from_len(maxvalue), copy=False)
                 # everything filtered out gets MISC
                 idx[~mask] = maxvalue
                 idx = hstack([0, idx, maxvalue])
-- 
2.43.0


From 29517fad6d1cafb65f4a69ce5b4a4c446f9f39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:58 +0000
Subject: [PATCH 17/99] fix: expanding a filtered numeric categorical keeps the
 dtype, so filtered rows are invalid

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index d53f897..3cb44fc 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6232,7 +6232,7 @@ class Categorical(GroupByOps, FastArray):
         # This is because the 'hstack' function will return an array of the same type as
         # the first/leftmost argument it's given, and we want this function to return
         # an array of the same type as 'arr' so the type information is preserved.
-        invarr = np.array([inv])
+        invarr = np.array([inv], dtype=None if arr.dtype.char in "US" else arr.dtype)
         invarr = TypeRegister.newclassfrominstance(invarr, arr)
 
         # TODO: Revisit after upgrading to numpy 1.17+ -- this might be a better approach compared to
-- 
2.43.0


From 536f457a25522efdfe31d39edfe5f4f5189bdb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:27 +0000
Subject: [PATCH 18/99] fix: set_valid with a filter on a mapped categorical
 does not modify the source

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 3cb44fc..bd2e7ed 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3274,6 +3274,7 @@ class Categorical(GroupByOps, FastArray):
         if self.isenum:
             ikey = self._fa
             if filter is not None:
+                ikey = ikey.copy()
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
                     ikey[~filter] = ikey.inv
-- 
2.43.0


From d703207d368a08e1e80f8be8a6b9207858f17063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 19/99] fix: single-element dates and timestamps propagate
 invalid operands, keep dtype and broadcast like longer arrays

---
 riptable/rt_datetime.py | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..fb32ac2 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -547,33 +547,28 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # apply the invalid mask from both operands
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
-- 
2.43.0


From c54d7cb409e3dcdb716f79c3eb8b8bc836bc637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:27 +0000
Subject: [PATCH 20/99] fix: Date.seconds_since_epoch does not overflow for
 dates after 2038-01-18

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index fb32ac2..7ad2362 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2089,7 +2089,7 @@ class Date(DateBase, TimeStampBase):
         Many existing python datetime routines expect seconds since epoch.
         This call is to eliminate "magic numbers" like 3600 from code.
         """
-        return _apply_inv_mask(self, self._fa * SECONDS_PER_DAY)
+        return _apply_inv_mask(self, self._fa.astype(np.int64) * SECONDS_PER_DAY)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From 44730fedfff0ef5754b87cc0d010753c9298cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:37 +0000
Subject: [PATCH 21/99] fix: DateTimeNano.day_of_month is the day in the
 display timezone

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 7ad2362..8af81a6 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3456,8 +3456,8 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr, fix_dst=False)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
-- 
2.43.0


From d0ab66f6a4349e64ba1fb1d07cef0fa3d0562b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:04 +0000
Subject: [PATCH 22/99] fix: DateTimeNano.date() gives local midnight in zones
 without DST and keeps invalids invalid

---
 riptable/rt_datetime.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 8af81a6..91b45e8 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -572,7 +572,7 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     else:
         # scalar path
         if arr1 <= 0:
-            return INVALID_DICT[arr2.dtype.num]
+            return INVALID_DICT[arr2.dtype.num] if fillval is None else fillval
         return arr2
 
 
@@ -3275,12 +3275,9 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        arr = self._timezone.fix_dst(self._fa)
+        arr = arr - (arr % NANOS_PER_DAY)
+        arr = _apply_inv_mask(self, arr, fillval=DateTimeBase.NAN_TIME)
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
         result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
-- 
2.43.0


From 2ffea1c0893936319e58e1f0ad8633fdeff39a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:04 +0000
Subject: [PATCH 23/99] fix: DateTimeNano.minute is the local minute in zones
 with a half-hour offset

---
 riptable/rt_datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 91b45e8..5cb525e 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3726,10 +3726,10 @@ class DateTimeCommon:
     def _time_fraction(self, modulo, divisor, span=False):
         """
         Internal routine for minute, second, millisecond, microsecond, nanosecond (+span) properties.
-        None of these need to account for timezone.
+        Only the minutes depend on the timezone (for offsets that are not whole hours).
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = self._timezone.fix_dst(self._fa) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
-- 
2.43.0


From 28a4f279dc0bfd6813e717b61fe4f64128b2123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:28 +0000
Subject: [PATCH 24/99] fix: calendar fields of an invalid DateTimeNano are
 invalid instead of ordinary numbers

---
 riptable/rt_datetime.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 5cb525e..4a841bc 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -572,7 +572,7 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     else:
         # scalar path
         if arr1 <= 0:
-            return INVALID_DICT[arr2.dtype.num] if fillval is None else fillval
+            return arr2.dtype.type(INVALID_DICT[arr2.dtype.num] if fillval is None else fillval)
         return arr2
 
 
@@ -3334,6 +3334,7 @@ class DateTimeCommon:
         # add month and day values to final
         final += monthnum.astype(np.int32) * 100
         final += (monthtime // NANOS_PER_DAY) + 1
+        final = _apply_inv_mask(self, final)
 
         return final
 
@@ -3432,7 +3433,7 @@ class DateTimeCommon:
             result = result // NANOS_PER_DAY
         result += 1
 
-        return result
+        return _apply_inv_mask(self, result)
 
     # ------------------------------------------------------------
     @property
@@ -3475,7 +3476,7 @@ class DateTimeCommon:
             monthtime = monthtime // NANOS_PER_DAY
         monthtime += 1
 
-        return monthtime
+        return _apply_inv_mask(self, monthtime)
 
     # ------------------------------------------------------------
     @property
@@ -3505,7 +3506,7 @@ class DateTimeCommon:
             np.mod(arr, 7, out=arr)
         else:
             arr = arr % 7
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     @property
@@ -3520,7 +3521,7 @@ class DateTimeCommon:
         arr -= adjust
         arr -= EPOCH_DAY_OF_WEEK
 
-        result = Date(arr)
+        result = Date(_apply_inv_mask(self, arr, fillval=Date.NAN_DATE))
         if not isinstance(arr, np.ndarray):
             return result[0]
         return result
@@ -3973,7 +3974,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         year = self._year(arr, fix_dst=False)
         arr = arr - self._year_splits[year - 1970]
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     def time_since_start_of_year(self):
-- 
2.43.0


From 46561a3bff0c0c437f421392b1994a32fd1c5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:35 +0000
Subject: [PATCH 25/99] fix: the DST change instant itself belongs to the new
 offset (and local 02:00 after the change is standard time)

---
 riptable/rt_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..325e3c8 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1191,7 +1191,7 @@ class TimeZone:
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
-- 
2.43.0


From 8dcfc213dc43d4e6e194f88045c9c80e34f44065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:35 +0000
Subject: [PATCH 26/99] fix: DateTimeNano.is_dst is False in zones without DST
 whatever zone the strings were given in

---
 riptable/rt_timezone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 325e3c8..0802422 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1196,6 +1196,9 @@ class TimeZone:
 
     # ------------------------------------------------------------
     def _is_dst(self, arr):
+        if self._dst_reverse is None:
+            # the displayed timezone has no daylight savings time
+            return zeros(len(arr), dtype=bool)
         return self._mask_dst(arr, self._dst_reverse)
 
     # ------------------------------------------------------------
-- 
2.43.0


From 7c4f5a1ff2b7a17205e8f59fbb6438be27515e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 27/99] fix: TimeSpan - DateSpan subtracts days, and an invalid
 single DateSpan operand gives an invalid result

---
 riptable/rt_datetime.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 4a841bc..4d7e55b 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6789,7 +6789,11 @@ class TimeSpanBase:
     def __sub__(self, value):
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
             return value.__rsub__(self)
-        return self._fix_binary_ops(value, "__sub__")
+        other_inv_mask = None
+        if isinstance(value, DateSpan):
+            other_inv_mask = isnan(value)
+            value = value._fa * NANOS_PER_DAY
+        return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
@@ -6870,7 +6874,7 @@ class TimeSpanBase:
             else:
                 # possible nan fill
                 if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
+                    if other_inv_mask[0]:
                         result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
                 else:
                     result[other_inv_mask] = np.nan
-- 
2.43.0


From d7db359f17ff8b529ce844dff3abd9f397a1218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 28/99] fix: subtracting an invalid TimeSpan scalar from a
 DateTimeNano gives invalid times

---
 riptable/rt_datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 4d7e55b..1062a28 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -5833,6 +5833,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             elif isinstance(other, (TimeSpan, TimeSpanScalar)):
                 # apply our own mask during this track
                 return_type = DateTimeNano
+                # need to get mask before upcasting
+                other_inv_mask = isnan(other)
                 # upcast TimeSpan to preserve precision
                 other = other.astype(np.int64)
                 call_super = True
-- 
2.43.0


From 672dfb1ace7d352cb4afe72a3b3cc0705ebe45d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:17 +0000
Subject: [PATCH 29/99] fix: differences next to an invalid Date or
 DateTimeNano are invalid

---
 riptable/rt_datetime.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1062a28..e1c68ef 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1388,8 +1388,7 @@ class Date(DateBase, TimeStampBase):
         -------
         DateSpan
         """
-        result = self._fa.diff(periods=periods)
-        return DateSpan(result)
+        return self - self.shift(periods=periods)
 
     # ------------------------------------------------------------
     @classmethod
@@ -5723,7 +5722,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         >>> dtn.diff(periods=6)
         TimeSpan(['Inv', 'Inv', 'Inv', 'Inv', 'Inv', 'Inv'])
         """
-        return TimeSpan(self._fa.diff(periods=periods).astype(np.float64))
+        return self - self.shift(periods=periods)
 
     # -------------------------------------------------------------
     def __radd__(self, other):
-- 
2.43.0


From 4e1dd7f7acade56255246d47cc5f99426959abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:21 +0000
Subject: [PATCH 30/99] fix: time_since_start_of_year of an invalid
 DateTimeNano is invalid

---
 riptable/rt_datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e1c68ef..1d8581c 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4000,6 +4000,8 @@ class DateTimeCommon:
         """
 
         result = TimeSpan(self.nanos_since_start_of_year())
+        if np.any(self.isnan()):
+            result[self.isnan()] = np.nan
 
         if isinstance(self, DateTimeNano):
             return result
-- 
2.43.0


From c3613f14fdb85daa6703c92b2119ce4a9e1c8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:42 +0000
Subject: [PATCH 31/99] fix: ordering comparisons with an invalid Date or
 DateTimeNano on the right are False, as on the left

---
 riptable/rt_datetime.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1d8581c..4dd60b8 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -821,11 +821,17 @@ class TimeStampBase:
         Both of their compare checks need to preserve nans in the result the same way.
         """
         func = getattr(caller, funcname)
+        inv_masks = [self.isnan()]
+        if isinstance(other, TimeStampBase):
+            # an invalid on either side compares the same way
+            inv_masks.append(other.isnan())
+            other = other._fa
         result = func(other)
-        if funcname == "__ne__":
-            result += self.isnan()
-        else:
-            result *= self.isnotnan()
+        for inv_mask in inv_masks:
+            if funcname == "__ne__":
+                result += inv_mask
+            else:
+                result *= np.logical_not(inv_mask)
         return result
 
 
@@ -2244,11 +2250,11 @@ class Date(DateBase, TimeStampBase):
             caller = self._fa * NANOS_PER_DAY
             to_tz = other._timezone._to_tz
             # fix the timezone to match the display of the DateTimeNano
-            caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=to_tz, to_tz=to_tz)
+            caller = DateTimeNano(self._fa * NANOS_PER_DAY, from_tz=to_tz, to_tz=to_tz)._fa
 
         # looks weird now, saving explicit branchesfor if any forbidden types appear
         elif isinstance(other, Date):
-            other = other._fa
+            pass
 
         elif isinstance(other, (str, bytes)):
             other = Date(other)
-- 
2.43.0


From c9260476c00577f58378c9e0ccc6f1ac88d73213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:06 +0000
Subject: [PATCH 32/99] fix: DateSpan with a DateTimeNano or TimeSpan operand
 keeps invalid rows invalid

---
 riptable/rt_datetime.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 4dd60b8..dc9d20c 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1067,9 +1067,15 @@ class DateBase(FastArray):
         # print('other_inv_mask',other_inv_mask)
         # print('return type',return_type)
 
-        result = _apply_inv_mask(
-            self, result, fillval=self.NAN_DATE, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask
-        )
+        # the invalid value depends on the type of the result, not of this operand
+        if return_type is TimeSpan:
+            fillval = np.nan
+        elif return_type is DateTimeNano:
+            fillval = DateTimeNano.NAN_TIME
+        else:
+            fillval = self.NAN_DATE
+
+        result = _apply_inv_mask(self, result, fillval=fillval, arr1_inv_mask=inv_mask, arr2_inv_mask=other_inv_mask)
 
         if not isinstance(result, return_type):
             if return_type == DateTimeNano:
-- 
2.43.0


From d17e85a1dc046d271b1b050cf9501a2012ae1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 33/99] fix: slicing a categorical's strings to the end uses
 each category's own length

---
 riptable/rt_str.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..963fb5b 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1431,7 +1431,8 @@ class _SubStrAccessor:
             if y.step is not None:
                 raise NotImplementedError("slicing with step in substr is not supported")
             if y.stop is None:
-                stop = self.fastring.strlen
+                # the bound is clipped to the length of each string
+                stop = np.iinfo(np.int64).max
             else:
                 stop = y.stop
             return self.fastring._substr(y.start, stop)
-- 
2.43.0


From 1b55271cf3295ab0de5e6ab00f9d8565fab58ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 34/99] fix: substr_char_stop(inclusive=True) includes the
 whole stop string

---
 riptable/rt_str.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 963fb5b..9fe6e22 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1253,7 +1253,7 @@ class FAString(FastArray):
         int_stop = self.index(stop)
         int_stop[int_stop == -1] = self._itemsize  # return full string if stop not found
         if inclusive:
-            int_stop += 1
+            int_stop += len(stop)
         return self.substr(int_stop)
 
     def _nb_char(src, position, itemsize, strlen, out):
-- 
2.43.0


From 6013481b7a259b6bd50cb15686da32b2fba3f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 35/99] fix: extract works without a capture group on unicode
 arrays, and fills groups that did not take part in the match

---
 riptable/rt_str.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 9fe6e22..3b45038 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -1122,7 +1122,8 @@ class FAString(FastArray):
         ngroups = compiled.groups
         if ngroups == 0:
             # convenience where we treat the entire pattern as a capture group
-            return self.extract(f"({regex.decode()})", **kwargs)
+            pattern = regex.decode() if isinstance(regex, bytes) else regex
+            return self.extract(f"({pattern})", **kwargs)
 
         # expand defaults to False if we have one capture group and do not specify names
         if expand is None:
@@ -1146,7 +1147,7 @@ class FAString(FastArray):
         for i, s in enumerate(strings):
             result = compiled.search(s)
             if result is not None:
-                result = result.groups()
+                result = result.groups(fillna)
                 for s, arr in zip(result, out_arrs):
                     arr[i] = s
 
-- 
2.43.0


From 53ee29fb82f180b760f406886cf69083b72ed5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:30 +0000
Subject: [PATCH 36/99] fix: col_str_replace works after sort_view

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..63f8d57 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3789,7 +3789,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From 610c48b5532932d59adcb1146b5ece2baf156493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:25 +0000
Subject: [PATCH 37/99] fix: replacing text in column names never merges two
 columns into one

---
 riptable/rt_itemcontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..607f872 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -561,7 +561,7 @@ class ItemContainer:
             if r != item:
                 replace_count += 1
                 # prevent name conflict from overwriting existing column
-                if r in self._items:
+                if r in self._items or r in new_names:
                     raise ValueError(f"Item {r} already existed, cannot make replacement in item name {item}.")
             new_names.append(r)
 
-- 
2.43.0


From ece5eadcc3811f068d5260e8c43fb4b54f2b2de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:13 +0000
Subject: [PATCH 38/99] fix: selecting from or copying a dataset after
 sort_view works

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index cdbb68d..f1f166e 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -709,7 +709,7 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
                 new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
                 if len(new_sort) > 0:
-- 
2.43.0


From 7b3089537b7b1adb4ef0e08daa594f4b11da7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:50 +0000
Subject: [PATCH 39/99] fix: stacking mapped categoricals rejects mappings that
 contradict each other instead of renaming rows

---
 riptable/rt_grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 25afa90..d6c1337 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -246,8 +246,10 @@ def merge_cats(
         # listcats is two arrays:
         # the first is the combined uniques of codes
         # the second is the combined uniques of names
-        codes, uidx = unique(listcats[0], return_index=True, sorted=False)
+        codes, uidx, inverse = unique(listcats[0], return_index=True, return_inverse=True, sorted=False)
         names = listcats[1][uidx].astype("U", copy=False)
+        if not np.all(names[inverse] == listcats[1].astype("U", copy=False)):
+            raise ValueError("Cannot stack categoricals whose mappings give different names to the same code.")
         newcats = [codes, names]
         if verbose:
             print("**from_mapping does NOT match exactly", names)
-- 
2.43.0


From aaeaf42e0c949fdc0b2d0517b9058890eece5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:50 +0000
Subject: [PATCH 40/99] fix: stacking mapped categoricals keeps every code when
 two codes share a name

---
 riptable/rt_hstack.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..4fe8c5d 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -669,7 +669,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
 
         underlying = hstack([[*g._grouping_dict.values()][0] for g in glist])
         # stack all unique string arrays
-        listnames = hstack([g._enum.category_array for g in glist])
+        listnames = hstack([g._enum.unique_categories(g._enum.code_array) for g in glist])
 
         # collect, measure, stack integer arrays
         listcodes = [g._enum.code_array for g in glist]
@@ -684,13 +684,8 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
         indices, listcats = merge_cats(
             indices, listcats, unique_cutoffs=unique_cutoffs, from_mapping=True, ordered=ordered, verbose=verbose
         )
-        # TJD added check
-        code = listcats[0][0]
-        if isinstance(code, (int, np.integer)):
-            # EXCEPT first value is string, and second is int
-            newcats = dict(zip(listcats[1], listcats[0]))
-        else:
-            newcats = dict(zip(listcats[0], listcats[1]))
+        # keyed on the codes, since two codes may share a name
+        newcats = dict(zip(listcats[0], listcats[1]))
 
     else:
         category_dict = {}
-- 
2.43.0


From ff2192ab8366e217439b7435af483a07e321c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:14 +0000
Subject: [PATCH 41/99] fix: reductions of stepped or reversed arrays use the
 values instead of treating the array as empty

---
 riptable/rt_fastarray.py | 3 +++
 riptable/rt_ledger.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 23ad2b1..5a48da9 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4565,6 +4565,9 @@ class FastArray(np.ndarray):
         # kwargs of 'axis': None  'out': None should be accepted
 
         if reduceFunc is not None and len(kwargs) == 0:
+            if isinstance(args[0], FastArray) and args[0].ndim == 1 and not args[0].flags.c_contiguous:
+                # rc.Reduce only handles contiguous arrays
+                args = (args[0].copy(),) + tuple(args[1:])
             # speed path (todo add call to ledger)
             # default to ddof=0 when no kwargs passed
             result = rc.Reduce(args[0], reduceFunc, 0)
diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index dc9687f..f740cdb 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -224,6 +224,9 @@ class MathLedger(Struct):
         if cls.Verbose > 1:
             print(f"reduce ledger {arg1} {reduceFunc}")
             # if cls.Verbose > 2:   cls._TRACEBACK(rc.Reduce)
+        if isinstance(arg1, np.ndarray) and arg1.ndim == 1 and not arg1.flags.c_contiguous:
+            # rc.Reduce only handles contiguous arrays
+            arg1 = arg1.copy()
         return cls._FUNNEL_ALL(rc.Reduce, arg1, reduceFunc)
 
     @classmethod
-- 
2.43.0


From 40476f30677bdc7f6c7bc89d4ccb02615e8ea9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:14 +0000
Subject: [PATCH 42/99] fix: variance and standard deviation with an explicit
 ddof treat integer invalids as invalid

---
 riptable/rt_fastarray.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 5a48da9..e8ac642 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2140,16 +2140,21 @@ class FastArray(np.ndarray):
         """
         if npFunc is not None and (self._kwarg_check(*args, **kwargs) or len(self.shape) != 1):
             # TODO: add to math ledger
-            # set ddof=1 if NOT set which is FastArray default to match matlab/pandas
-            if "ddof" not in kwargs and reduceFunc in [
+            arr = self._np
+            if reduceFunc in [
                 REDUCE_FUNCTIONS.REDUCE_VAR,
                 REDUCE_FUNCTIONS.REDUCE_NANVAR,
                 REDUCE_FUNCTIONS.REDUCE_STD,
                 REDUCE_FUNCTIONS.REDUCE_NANSTD,
             ]:
-                kwargs["ddof"] = 1
-
-            result = npFunc(self._np, *args, **kwargs)
+                # set ddof=1 if NOT set which is FastArray default to match matlab/pandas
+                if "ddof" not in kwargs:
+                    kwargs["ddof"] = 1
+                if self.dtype.kind in "iu":
+                    # numpy does not know the integer invalids, which become nan here
+                    arr = self.astype(np.float64)._np
+
+            result = npFunc(arr, *args, **kwargs)
             return result
 
         result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
-- 
2.43.0


From bf4a21acf1b722dfe86216f9233876d6efc747de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:53 +0000
Subject: [PATCH 43/99] fix: filling a dataset in place works when some columns
 are not numeric

---
 riptable/rt_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index f1f166e..dc4a80c 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -2435,7 +2435,8 @@ class Dataset(Struct):
             return ret_array
 
         od = {}
-        for colname, array in self.items():
+        columns = dict(self.items())
+        for colname, array in columns.items():
             # not all arrays are computable, such as *= for a string array
 
             if colname in self.label_get_names() and not labels:
@@ -2450,7 +2451,8 @@ class Dataset(Struct):
                 else:
                     fval = fill_value
                 od[colname] = _operate_on_array(array, func_or_method_name, *args, **kwargs)
-        if all(_x is None for _x in od.values()):
+        # columns that were left alone do not turn an in-place operation into one with a result
+        if all(_x is None for _k, _x in od.items() if _x is not columns[_k]) and any(_x is None for _x in od.values()):
             return None
 
         try:
-- 
2.43.0


From cae926876c5c888d1db160a9106cf9ed99e6df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:53 +0000
Subject: [PATCH 44/99] fix: from_tagged_rows rejects rows with different keys
 even when the keys are equally frequent

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index dc4a80c..2e12773 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7519,7 +7519,7 @@ class Dataset(Struct):
             rows.append(row)
         if len(rows) == 0 or len(keys) == 0:
             return cls({})
-        if len(set(keys.values())) != 1:
+        if any(_n != len(rows) for _n in keys.values()):
             raise NotImplementedError(f"{cls.__name__}.from_tagged_rows(): All rows must have same keys.")
         retval = {_k: [] for _k in sorted(keys)}  # no reason to priv. the key order of any one row
         if n_have_getitem == 0:
-- 
2.43.0


From 1a87f8d07ee19967e3000a1831f8618d5fbdb76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:21 +0000
Subject: [PATCH 45/99] fix: from_jagged_rows handles unicode rows and any fill
 value, and leaves the caller's list alone

---
 riptable/rt_dataset.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 2e12773..286d09e 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7595,6 +7595,7 @@ class Dataset(Struct):
 
         # get final dataset dims, flip all input to array
         nrows = len(rows)
+        rows = list(rows)
 
         # always favor bytestrings
         dt = "S"
@@ -7620,27 +7621,23 @@ class Dataset(Struct):
                 dt = "U"
 
         ncols = len(max(rows, key=len))
-        # get the string itemsize so the max string fits
-        width = max(rows, key=lambda x: x.itemsize).itemsize
+        # get the number of characters so the max string fits
+        width = max(r.itemsize // 4 if r.dtype.char == "U" else r.itemsize for r in rows)
 
         # set fill value
         if fill_value is not None:
             # match to dtype
-            if isinstance(fill_value, str):
-                if dt == "S":
-                    inv = fill_value.encode()
-            elif isinstance(fill_value, bytes):
-                if dt == "U":
-                    inv = fill_value.decode()
-            else:
-                inv = str(fill_value)
+            inv = fill_value if isinstance(fill_value, (str, bytes)) else str(fill_value)
+            if dt == "S" and isinstance(inv, str):
+                inv = inv.encode()
+            elif dt == "U" and isinstance(inv, bytes):
+                inv = inv.decode()
+            # make sure final array itemsize can fit the fill value
+            width = max(width, len(inv))
         else:
             # use default
             inv = INVALID_DICT[np.dtype(dt).num]
 
-        # make sure final array itemsize can fit all strings
-        if dt == "U":
-            width /= 4
         final_dt = dt + str(width)
 
         # build final dict, column by column
-- 
2.43.0


From 712f094f40d1f77b697c5d1f456a4dae4b3a703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:37 +0000
Subject: [PATCH 46/99] fix: from_jagged_dict(stacked=True) pairs the right
 values when some lists are empty

---
 riptable/rt_dataset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 286d09e..91767f8 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7754,9 +7754,13 @@ class Dataset(Struct):
             # Allocate the output columns, as necessary
             cols = [0] * len(type_cols)
             col_done = [0] * len(type_cols)
+            # a row with an empty list has no output rows
+            no_empty = bool((num_rows_ar > 0).all())
             for j, type_col in enumerate(type_cols):
                 (cols[j], col_done[j]) = (
-                    (type_col, True) if len(type_col) == num_rows else (np.zeros(num_rows, type_col.dtype), False)
+                    (type_col, True)
+                    if no_empty and len(type_col) == num_rows
+                    else (np.zeros(num_rows, type_col.dtype), False)
                 )
 
             # Fill the output columns, as necessary
@@ -7765,6 +7769,8 @@ class Dataset(Struct):
             for in_row_num in range(num_in_rows):
                 num_repeats = 1
                 num_out_rows = num_rows_ar[in_row_num]
+                if num_out_rows == 0:
+                    continue
                 for j, vals in enumerate(dct.values()):
                     if col_done[j]:
                         continue
-- 
2.43.0


From 98b74d635daf3385411aea756b4647e7fb099650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:23 +0000
Subject: [PATCH 47/99] fix: sum, min and max of stepped or reversed integer
 arrays respect invalids

---
 riptable/rt_fastarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e8ac642..25608f0 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4757,6 +4757,9 @@ class FastArray(np.ndarray):
         args: List[Any] = []
         for input in inputs:
             if isinstance(input, np.ndarray):
+                if method == "reduce" and input.ndim == 1 and not input.flags.c_contiguous:
+                    # make it contiguous
+                    input = input.copy()
                 is_not_supported = self._is_not_supported(input)
                 if is_not_supported:
                     # TODO enable this warning in a future minor release
-- 
2.43.0


From 1e02fbf2df2ac39b251ba4ffabb7c843af66b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:23 +0000
Subject: [PATCH 48/99] fix: pivot does not take filtered out rows for
 duplicates

---
 riptable/rt_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 91767f8..998cf5d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8094,7 +8094,9 @@ class Dataset(Struct):
         row_len = len(ds_crd) + 1
 
         # check for duplicates
-        ncountgroup = g.ncountgroup
+        ncountgroup = g.ncountgroup.copy()
+        # the first bin holds the rows that are filtered out
+        ncountgroup[0] = 0
         pos = ncountgroup.argmax()
         if ncountgroup[pos] > 1:
             # find out where a duplicate is
-- 
2.43.0


From b77555dcf06b672cfd5af5e00c7f48559360b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:11 +0000
Subject: [PATCH 49/99] fix: astype of a stepped or reversed array preserves
 invalids

---
 riptable/rt_fastarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 25608f0..ee6b3bf 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1416,10 +1416,12 @@ class FastArray(np.ndarray):
         to_num = np.dtype(dtype).num
 
         # check for contiguous in one or two dimensions
-        if self.flags.f_contiguous or self.flags.c_contiguous:
+        contiguous = self.flags.f_contiguous or self.flags.c_contiguous
+        if contiguous or self.ndim == 1:
             if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
                 # perform a safe conversion understanding sentinels
-                return TypeRegister.MathLedger._AS_FA_TYPE(self, to_num)
+                arr = self if contiguous else self.copy()
+                return TypeRegister.MathLedger._AS_FA_TYPE(arr, to_num)
 
         # punt to numpy
         result = TypeRegister.MathLedger._ASTYPE(super(FastArray, self), dtype, order, casting, subok, copy)
-- 
2.43.0


From 0773c15e5766b4eac6bb133d9400383ab895fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 50/99] fix: cut of an integer array compares fractional and
 out of range edges as given

---
 riptable/rt_bin.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 637e0d2..aee1971 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -366,9 +366,12 @@ def _bins_to_cuts_new(
         ids = rc.BinsToCutsSorted(x, bins, lsort, counts, mode)
         # print("bins sorted",ids, x, bins)
     else:
-        # check for int compaing to inf, if so force upcast
-        if bins[0] == -np.inf or bins[-1] == np.inf:
-            x = x.astype(np.float64)
+        # the edges are compared in the type of x: an integer type holds neither inf, fractions nor
+        # edges outside its range, if so force upcast
+        if x.dtype.kind in "iu":
+            info = np.iinfo(x.dtype)
+            if bins[0] <= info.min or bins[-1] >= info.max or np.any(bins != np.floor(bins)):
+                x = x.astype(np.float64)
         ids = rc.BinsToCutsBSearch(x, bins, mode)
         # print("bins bsearch",ids, x, bins)
 
-- 
2.43.0


From 05d9fcfead23dbaa4fb3947c9bfd9ce2a3b87470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 51/99] fix: quantile of small integers interpolates without
 overflow

---
 riptable/rt_bin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index aee1971..2eeba66 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -101,7 +101,8 @@ def quantile(x, q, interpolation_method: str = "fraction"):
 
     def _interpolate(a, b, fraction):
         """Return the point at the given fraction between a and b, where 'fraction' must be between 0 and 1."""
-        return a + (b - a) * fraction
+        # the difference of two small integers may not fit their type
+        return a + (float(b) - float(a)) * fraction
 
     def _get_score(at):
         if datalen == 0:
-- 
2.43.0


From 4e677fad9844d1302518466fb79b96f5a3e990c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 52/99] fix: quantile with interpolation_method lower or higher
 raised IndexError

---
 riptable/rt_bin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 2eeba66..d0a70a7 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -116,9 +116,9 @@ def quantile(x, q, interpolation_method: str = "fraction"):
             if interpolation_method == "fraction":
                 score = _interpolate(_val(int(idx)), _val(int(idx) + 1), idx % 1)
             elif interpolation_method == "lower":
-                score = _val(np.floor(idx))
+                score = _val(int(np.floor(idx)))
             elif interpolation_method == "higher":
-                score = _val(np.ceil(idx))
+                score = _val(int(np.ceil(idx)))
             else:
                 raise ValueError("interpolation_method can only be 'fraction', 'lower' or 'higher'")
 
-- 
2.43.0


From 8b360091b5b50ebcd48a87979d8ae4779397ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 53/99] fix: Dataset.quantile of an integer column with
 invalids keeps every valid value

---
 riptable/rt_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index ff89ee1..846cc4d 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -831,8 +831,9 @@ def quantile(arr: Optional[np.ndarray], q: List[float] = None):
         else:
             # pick a subset removing the invalid
             notvalid = count - cvalid
-            if arr_sort.dtype.char in NumpyCharTypes.Integer:
-                valid = arr_sort[notvalid:-1]
+            # (unsigned integer sentinels are at the end)
+            if arr_sort.dtype.char in NumpyCharTypes.Integer and arr_sort.dtype.kind != "u":
+                valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
 
-- 
2.43.0


From ff983925759270c44e8e6ef35e54fe65b525ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:31 +0000
Subject: [PATCH 54/99] fix: describe of unsigned columns with invalids keeps
 every valid value

---
 riptable/rt_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index 846cc4d..14ad7c3 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -895,7 +895,8 @@ def describe_helper(arr: Optional[np.ndarray], q: Optional[List[float]] = None)
         else:
             # pick a subset removing the invalid
             notvalid = count - cvalid
-            if arr_sort.dtype.char in NumpyCharTypes.Integer:
+            # (unsigned integer sentinels are at the end)
+            if arr_sort.dtype.char in NumpyCharTypes.Integer and arr_sort.dtype.kind != "u":
                 valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
-- 
2.43.0


From 0fab6650b36329ff9c08aaecf3f497d28c1800e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 55/99] fix: Accum2 multi-pass margins leave out rows filtered
 on either axis

---
 riptable/rt_accum2.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c0b2183..b55ef01 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -700,6 +700,14 @@ class Accum2(GroupByOps, FastArray):
             name = str.capitalize(func.__name__)
 
         # get a negative boolean filter
+        # the margins describe the displayed cells: without showfilter, a row whose
+        # category is filtered out on either axis is in none of them
+        if not showfilter:
+            for cat in (cat_rows, cat_cols):
+                filtered = cat.isfiltered()
+                if filtered.any():
+                    filter = ~filtered if filter is None else filter & ~filtered
+
         newfilterX = cls._calc_badslots(cat_cols, badcols, filter, False)
         newfilterY = cls._calc_badslots(cat_rows, badrows, filter, False)
 
-- 
2.43.0


From a1e21dd83512773404c49e5abe5917968f948c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 56/99] fix: Accum2 grand total of a table whose rows are all
 filtered out is nan instead of an error

---
 riptable/rt_accum2.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index b55ef01..5727039 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -750,19 +750,19 @@ class Accum2(GroupByOps, FastArray):
         if func is not None:
             # we can have common filters, row filters, and col filters
 
-            try:
-                if newfilter is not None:
-                    totalOfTotals = func(origarr[newfilter])
-                else:
+            if newfilter is not None:
+                origarr = origarr[newfilter]
+
+            if len(origarr) == 0:
+                # every row is filtered out
+                totalOfTotals = np.nan
+            else:
+                try:
                     totalOfTotals = func(origarr)
-            except:
-                if "func_param" not in kwargs:
-                    raise ValueError(f"Function {name} requires an extra parameter.")
-                func_param = kwargs["func_param"]
-                if newfilter is not None:
-                    totalOfTotals = func(origarr[newfilter], func_param)
-                else:
-                    totalOfTotals = func(origarr, func_param)
+                except:
+                    if "func_param" not in kwargs:
+                        raise ValueError(f"Function {name} requires an extra parameter.")
+                    totalOfTotals = func(origarr, kwargs["func_param"])
         else:
             # todo, get invalid
             totalOfTotals = 0
-- 
2.43.0


From 857a34ca98153ed76c2e348f07fa4f0a9969355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 57/99] fix: Accum2 margins and filtered column follow the
 sorted order of the rows and columns

---
 riptable/rt_accum2.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 5727039..d6f6cbb 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -402,7 +402,7 @@ class Accum2(GroupByOps, FastArray):
 
         # add showfilter column first if we have to
         if showfilter:
-            newds[FILTERED_LONG_NAME] = arr[0:offsety]
+            newds[FILTERED_LONG_NAME] = arr[0:offsety][sort_idx] if row_keys.sort_gb_data else arr[0:offsety]
 
         # skip showfilter row for loop below (already added or not added above)
         offset = offsety
@@ -767,8 +767,26 @@ class Accum2(GroupByOps, FastArray):
             # todo, get invalid
             totalOfTotals = 0
 
+        totalsX, totalsY = cls._sort_totals(cat_cols, cat_rows, totalsX, totalsY, showfilter)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
+    # ---------------------------------------------------------------
+    @classmethod
+    def _sort_totals(cls, cat_cols, cat_rows, totalsX, totalsY, showfilter):
+        """Put the totals in the order in which the rows and columns are displayed."""
+        if cat_rows.gb_keychain.sort_gb_data:
+            sort_idx = cat_rows.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totalsY = totalsY[sort_idx]
+
+        if cat_cols.gb_keychain.sort_gb_data:
+            sort_idx = cat_cols.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totalsX = totalsX[sort_idx]
+        return totalsX, totalsY
+
     # ---------------------------------------------------------------
     @classmethod
     def _calc_onepass(
@@ -908,17 +926,7 @@ class Accum2(GroupByOps, FastArray):
             # calc totals with both rows and cols removed
             totalOfTotals = func(im)
 
-        if cat_rows.gb_keychain.sort_gb_data:
-            sort_idx = cat_rows.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsY = totalsY[sort_idx]
-
-        if cat_cols.gb_keychain.sort_gb_data:
-            sort_idx = cat_cols.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsX = totalsX[sort_idx]
+        totalsX, totalsY = cls._sort_totals(cat_cols, cat_rows, totalsX, totalsY, showfilter)
         # push calculations to dataset (newds)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
-- 
2.43.0


From 846dd96e36aaa763d670301126a05d7f54dd2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 58/99] fix: Accum2 grand total of var and std is the sample
 statistic like its cells and margins

---
 riptable/rt_accum2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index d6f6cbb..ed6a95b 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -28,7 +28,11 @@ from .rt_numpy import (
     full,
     groupbypack,
     ismember,
+    nanstd,
+    nanvar,
     ones,
+    std,
+    var,
     where,
     zeros,
 )
@@ -1309,10 +1313,10 @@ apply_dict_total = {
     GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_onepass),
     GB_FUNCTIONS.GB_MEAN: ("Mean", np.mean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANMEAN: ("Nanmean", np.nanmean, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_VAR: ("Var", np.var, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_NANVAR: ("Nanvar", np.nanvar, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_STD: ("Std", np.std, Accum2._calc_multipass),
-    GB_FUNCTIONS.GB_NANSTD: ("Nanstd", np.nanstd, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_VAR: ("Var", var, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANVAR: ("Nanvar", nanvar, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_STD: ("Std", std, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANSTD: ("Nanstd", nanstd, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEDIAN: ("Median", np.nanmedian, Accum2._calc_multipass),
     # Didn't change name of Median to Nanmedian in GroupByOps.quantile_name_from_param to avoid breaking existing things
     # quantile functions take an argument with 1e9 multiplier, so use simple wrappers in GroupByOps
-- 
2.43.0


From b87a45a27a91826b9b216a616eea481bfca4e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 59/99] fix: accum_ratio no longer renames the caller's
 categories

---
 riptable/rt_accumtable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_accumtable.py b/riptable/rt_accumtable.py
index 8dedb1f..f4da471 100644
--- a/riptable/rt_accumtable.py
+++ b/riptable/rt_accumtable.py
@@ -997,8 +997,11 @@ def accum_ratio(
         cat2 = Categorical(full(val1.shape[0], 1, dtype=np.int8), ["NotGrouped"])
 
     # Handle name collisions
-    for key in ["Numer", "Denom", "Ratio"]:
-        if key in cat2.categories():
+    reserved = [key for key in ["Numer", "Denom", "Ratio"] if key in cat2.categories()]
+    if reserved:
+        # leave the caller's categorical alone
+        cat2 = cat2.copy()
+        for key in reserved:
             cat2.category_replace(key, key + "_")
 
     # Compute accum
-- 
2.43.0


From e5dd7451dd96c46e859a90bd9c939c925a926e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:56 +0000
Subject: [PATCH 60/99] fix: inner join keeping one row per key is empty, not
 an error, when every left key is invalid

---
 riptable/rt_merge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index d7300b1..72eb453 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1152,7 +1152,7 @@ def _build_left_fancyindex(
     left_repeats = right_group_multiplicity_as_left[left_ikey]
     assert all(isnotnan(left_repeats)), "Invalid entries found in 'left_repeats'."
     # assert not hasanynan(left_repeats), "Invalid entries found in 'left_repeats'."
-    assert min(left_repeats) >= 0, "Negative entries found in 'left_repeats'."
+    assert all(left_repeats >= 0), "Negative entries found in 'left_repeats'."
 
     # EXPERIMENTAL :: For support of outer merge with keep='first'/'last' for left side.
     # left_ikey_with_null = _get_keep_ikey_with_null(left_keygroup, keep_left)
@@ -1175,7 +1175,7 @@ def _build_left_fancyindex(
     left_repeats_cumsum = cumsum(left_repeats, dtype=left_repeats_cumsum_dtype)
     assert np.all(isnotnan(left_repeats_cumsum)), "Invalid entries found in 'left_repeats_cumsum'."
     # assert not hasanynan(left_repeats_cumsum), "Invalid entries found in 'left_repeats_cumsum'."
-    assert np.min(left_repeats_cumsum) >= 0, "Negative entries found in 'left_repeats_cumsum'."
+    assert np.all(left_repeats_cumsum >= 0), "Negative entries found in 'left_repeats_cumsum'."
 
     # Allocate the array which'll hold our fancy index for the 'left' Dataset.
     # Derive the dtype to use from the length of the 'left' Dataset; that's because
@@ -1185,7 +1185,7 @@ def _build_left_fancyindex(
         len(left_keygroup.ikey)
     )  # Yes, use the full, real ikey here -- it's a proxy for the number of rows in the left Dataset.
     left_fancyindex = empty(
-        left_repeats_cumsum[-1], dtype=left_fancyindex_dtype
+        left_repeats_cumsum[-1] if len(left_repeats_cumsum) > 0 else 0, dtype=left_fancyindex_dtype
     )  # TODO: Just replace with dtype=left_keygroup.ikey.dtype if we can trust this to be the most-compact possible dtype.
 
     # Create the fancy index for columns of the 'left' Dataset; when used to index into the columns,
-- 
2.43.0


From 42f43dfad3f5761ae703b511e1a3bb2ae8fe7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:56 +0000
Subject: [PATCH 61/99] fix: outer join with keep picks the right row for
 partly invalid composite keys

---
 riptable/rt_merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 72eb453..99dd7a2 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1472,6 +1472,9 @@ def _create_merge_fancy_indices(
 
                 # Get the first/last row for each group.
                 keep_ifirstlastkey = _get_keep_ifirstlastkey_with_null(right_groupby_keygroup, keep[1])
+                if right_groupby_keygroup.ncountgroup[0] == 0:
+                    # There's no entry for the NA/invalid group, so the entry for group 1 is the first one.
+                    join_invalid_groupby_groups = join_invalid_groupby_groups - 1
                 join_invalid_groupby_rows = keep_ifirstlastkey[join_invalid_groupby_groups]
 
                 # Get the other right-only rows (those with valid join keys).
-- 
2.43.0


From f6c437d3456fa2622ae6354736add31242f7d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 62/99] fix: merge_asof2 accepts a TimeSpan tolerance for
 DateTimeNano keys

---
 riptable/rt_merge_asof.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 1b19f6c..008e900 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1166,7 +1166,24 @@ def _validate_and_normalize_tolerance(
     # If 'tolerance' is a value of a signed type, don't allow negative values;
     # the 'as-of' logic won't work correctly if given a negative value.
     negative_tol_errmsg = "Negative tolerance values not supported for as-of merges."
-    if isinstance(tolerance, float) or (
+    # (A TimeSpanScalar is also a float, so it has to be recognized first.)
+    if isinstance(tolerance, TimeSpanScalar):
+        if tolerance < TimeSpanScalar(0):
+            raise ValueError(negative_tol_errmsg)
+
+        if isinstance(left_on, DateTimeNano):
+            # Convert to a DateTimeNanoScalar; this is a bit weird (since we'd usually want
+            # the difference of two DateTimeNano values to be a TimeSpanScalar), but due to
+            # the internal representation of these types we need a DateTimeNanoScalar for the
+            # JIT-compiled code to work correctly.
+            return DateTimeNanoScalar(tolerance.nanoseconds)
+
+        else:
+            raise ValueError(
+                f"Can't determine how to use a `{type(tolerance).__qualname__}`-type tolerance value with an 'on' column of type '{type(left_on).__name__}' and dtype '{left_on.dtype}'."
+            )
+
+    elif isinstance(tolerance, float) or (
         isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating)
     ):
         if tolerance < 0 or isnan(tolerance):
@@ -1206,22 +1223,6 @@ def _validate_and_normalize_tolerance(
         unified_on_type: np.dtype = np.promote_types(left_on.dtype, right_on.dtype)
         return np.array(tolerance, dtype=unified_on_type)[()]
 
-    elif isinstance(tolerance, TimeSpanScalar):
-        if tolerance < TimeSpanScalar(0):
-            raise ValueError(negative_tol_errmsg)
-
-        if isinstance(left_on, DateTimeNano):
-            # Convert to a DateTimeNanoScalar; this is a bit weird (since we'd usually want
-            # the difference of two DateTimeNano values to be a TimeSpanScalar), but due to
-            # the internal representation of these types we need a DateTimeNanoScalar for the
-            # JIT-compiled code to work correctly.
-            return DateTimeNanoScalar(tolerance.nanoseconds)
-
-        else:
-            raise ValueError(
-                f"Can't determine how to use a `{type(tolerance).__qualname__}`-type tolerance value with an 'on' column of type '{type(left_on).__name__}' and dtype '{left_on.dtype}'."
-            )
-
     elif isinstance(tolerance, timedelta):
         if tolerance < timedelta(0):
             raise ValueError(negative_tol_errmsg)
-- 
2.43.0


From a90565e6f832acf57343dde3dabd118bd2582550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 63/99] fix: apply_reduce(transform=True) through a sorted
 groupby returns each row its own group's value

---
 riptable/rt_groupbyops.py |  1 +
 riptable/rt_grouping.py   | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9df07ff..c976b9d 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -451,6 +451,7 @@ class GroupByOps(ABC):
             label_keys=label_keys,
             func_param=func_param,
             dtype=dtype,
+            transform=transform,
             **kwargs,
         )
         if transform:
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index d6c1337..ccbea2f 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2539,6 +2539,7 @@ class Grouping:
         badrows=None,
         badcols=None,
         computable=True,
+        transform=False,
         **kwargs,
     ):
         """
@@ -2592,6 +2593,8 @@ class Grouping:
             not used, may be passed from Acccum2
         badcols
             not used
+        transform : bool
+            Set to True when the caller will re-expand the results: they are left in group order. Defaults to False.
 
         Notes
         -----
@@ -2941,7 +2944,13 @@ class Grouping:
         # reattach keys
         if label_keys is not None and isreduce:
             return_ds = self._finalize_dataset(
-                return_ds, label_keys, label_keys.gbkeys, showfilter=showfilter, addkeys=True, **kwargs
+                return_ds,
+                label_keys,
+                label_keys.gbkeys,
+                transform=transform,
+                showfilter=showfilter,
+                addkeys=True,
+                **kwargs,
             )
 
         return return_ds
-- 
2.43.0


From 5fb45087d6380d6257c38c582aac3e5900922ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 64/99] fix: apply_reduce gives every column its own dtype and
 keeps longer text results

---
 riptable/rt_grouping.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index ccbea2f..9061999 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2753,10 +2753,12 @@ class Grouping:
                         return_ds[colname] = arr[base_bin:]
 
                 else:
+                    # each column determines its own dtype
+                    return_arr = None
                     if dtype is not None:
                         # if they specified a single dtype, allocate the array
                         return_arr = empty((return_rows,), dtype=dtype)
-                        invalid = INVALID_DICT[dtype.num]
+                        invalid = INVALID_DICT[return_arr.dtype.num]
 
                     # loop over all groups
                     # TODO: consider c++ loop? (i.e. vectorize this)
@@ -2783,11 +2785,14 @@ class Grouping:
                                 else:
                                     # first time we got back data -- we can determine the dtype now
                                     if hasattr(result, "dtype"):
-                                        dtype = result.dtype
+                                        return_arr = empty((return_rows,), dtype=result.dtype)
                                     else:
-                                        dtype = np.dtype(type(result))
-                                    return_arr = empty((return_rows,), dtype=dtype)
-                                    invalid = INVALID_DICT[dtype.num]
+                                        return_arr = empty((return_rows,), dtype=np.dtype(type(result)))
+                                    invalid = INVALID_DICT[return_arr.dtype.num]
+
+                            elif dtype is None and return_arr.dtype.char in "SU":
+                                # a later group may return a longer string than the first one
+                                return_arr = return_arr.astype(np.promote_types(return_arr.dtype, np.asarray(result).dtype))
 
                             return_arr[i] = result
                         else:
-- 
2.43.0


From f50ff14c9cae389958db2b82f164980dcbe94c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:15 +0000
Subject: [PATCH 65/99] fix: Categorical.apply labels one-row-per-group results
 with their own key when every row is a group

---
 riptable/rt_categorical.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bd2e7ed..221b54f 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5125,7 +5125,13 @@ class Categorical(GroupByOps, FastArray):
         )
         # result is the same size as original, attach categorical (the key column) to result
         if result.shape[0] == len(clean_c):
-            self._attach_self_as_key_column(result)
+            keys = self
+            if result.label_get_names():
+                # every row is its own group: the result has one row per group, in group order
+                keychain = clean_c.gb_keychain
+                rows = clean_c.grouping.ifirstkey
+                keys = self[rows[keychain.isortrows] if keychain.sort_gb_data else rows]
+            keys._attach_self_as_key_column(result)
         return result
 
     # ------------------------------------------------------------
-- 
2.43.0


From 781895b29fa242164da6428104cc37644855715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:36 +0000
Subject: [PATCH 66/99] fix: copies and selections of a sorted view keep each
 sort column's direction

---
 riptable/rt_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 998cf5d..a164798 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -711,10 +711,11 @@ class Dataset(Struct):
                     ds._col_sortlist = new_sortlist
                     ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # the directions are kept in the reverse order of the columns, see _sort_values
+                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ds._sort_ascending = TypeRegister.FastArray([x[1] for x in new_sort[::-1]])
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From 9e19c1fc20f799c1d955f9105035c197b8101f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:36 +0000
Subject: [PATCH 67/99] fix: sort_copy of a table with footers no longer raises

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index a164798..1031503 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -4126,7 +4126,7 @@ class Dataset(Struct):
                 if hasattr(self, "_footers"):
                     footers = {}
                     for f, item in self._footers.items():
-                        footers[f] = item.copy()
+                        footers[f] = item.copy() if item is not None else None
                     newds._footers = footers
 
                 return newds
-- 
2.43.0


From 523d769c2df1f0f9d8efa6e4f825217268c6150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:36 +0000
Subject: [PATCH 68/99] fix: stacking tables saved with onefile=True

---
 riptable/rt_sds.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 9c0670e..d0dea67 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -1359,9 +1359,8 @@ def _multistack_onefile(arrays, nameflag_tup, cutoffs, meta, sep="/"):
         if flag & SDSFlag.OriginalContainer:
             # find sep char to get name
             pos = colname.rfind(sep)
-            if pos >= 0:
-                purename = colname[pos + 1 :]
-                data_cutoffs[purename] = cutoffs[i]
+            purename = colname[pos + 1 :]
+            data_cutoffs[purename] = cutoffs[i]
 
     startname = ""
     # the root meta
-- 
2.43.0


From ccfc552c08ec7072429e0dda68ab39da1dc55f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:37 +0000
Subject: [PATCH 69/99] fix: a sorted view saved to SDS loads with its own sort
 order; loading it with include no longer crashes

---
 riptable/rt_struct.py | 38 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 63f8d57..01e745a 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -1182,6 +1182,7 @@ class Struct:
                 "item_meta": [],  # list of special fastarray metadata strings
                 "labels": self.label_get_names(),
                 "_col_sortlist": self._col_sortlist,
+                "_sort_ascending": np.asarray(self._sort_ascending).tolist(),
                 "footers": [],
             }
         )
@@ -1295,18 +1296,9 @@ class Struct:
                 meta_tups.append(t)
                 all_tups.append(t)
 
-        # get sorted row index (Dataset only)
-        if hasattr(self, "get_row_sort_info"):
-            sort_id = self.get_row_sort_info()
-            sort_idx = TypeRegister.SortCache.get_sorted_row_index(*sort_id)
-            if sort_idx is not None:
-                items.append(sort_idx)
-
         # get footers (currently only implemented for Accum2 result)
         if hasattr(self, "_footers"):
-            for k, v in self._footers.items():
-                meta["footers"].append(k)
-                items.append(v)
+            meta["footers"].extend(self._footers)
 
         # test for loading items in order with tuples only
         # TJD remove this by July 2019 since it is no longer checked
@@ -1615,27 +1607,19 @@ class Struct:
         # TODO: check possible include list - will tuples still be returned for excluded items?
         # currently getting removed from root struct only
 
-        def load_class_meta(data, arrays, meta):
-            arr_idx = 0
+        def load_class_meta(data, meta):
             data.label_set_names(meta["labels"])
 
-            # send the sort index to the SortCache
-            data._col_sortlist = meta.get("_col_sortlist", None)
-            if data._col_sortlist is not None:
-                # if a sorted index exists, it's the last array in the list
-                uid = data._uniqueid
-                sortlist = [data[col] for col in data._col_sortlist]
-                sortidx = arrays[arr_idx]
-                TypeRegister.SortCache.store_sort(uid, sortlist, sortidx, data._sort_ascending)
-                arr_idx += 1
+            # the sorted row index is rebuilt by the SortCache when needed
+            sortlist = meta.get("_col_sortlist", None)
+            if sortlist is not None and all(col in data for col in sortlist):
+                ascending = meta.get("_sort_ascending", True)
+                data._col_sortlist = sortlist
+                data._sort_ascending = TypeRegister.FastArray(ascending) if isinstance(ascending, list) else ascending
 
             # attach footers (accum2 operation results)
             if len(meta["footers"]) > 0:
-                footers = {}
-                for f in meta["footers"]:
-                    footers[f] = arrays[arr_idx]
-                    arr_idx += 1
-                data._footers = footers
+                data._footers = {f: None for f in meta["footers"]}
 
         # ---- start of method below ------------------------
         if not isinstance(meta, MetaData):
@@ -1727,7 +1711,7 @@ class Struct:
 
             # only python has labels, sort index, footers
             try:
-                load_class_meta(data, arrays, meta)
+                load_class_meta(data, meta)
             except:
                 pass
         else:
-- 
2.43.0


From a06f2197c568dcef10f05472993e5b688caca89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:53 +0000
Subject: [PATCH 70/99] fix: merge_asof2 with by-columns accepts empty tables

---
 riptable/rt_merge_asof.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 008e900..80b7564 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1001,6 +1001,12 @@ def _create_merge_asof_grouped_fancy_indices(
           as the number of groups (or keys?) in the ``left`` dataset. That allows a per-group tolerance to be specified
           if needed.
     """
+    # An empty Dataset has no groups, so there's nothing to match.
+    if len(left_on) == 0 or len(right_on) == 0:
+        right_fancyindex = empty(left_on.shape, dtype=np.int32)
+        right_fancyindex[:] = right_fancyindex.inv
+        return JoinIndices(None, right_fancyindex)
+
     # Get the unique values from the Groupings.
     # TODO: If any of the keys in the tuples below are Categorical, need to expand them back;
     #       current rt.ismember() won't handle it correctly, at least if they are one of
-- 
2.43.0


From 2b766312ecec3999065ac10245a756533367a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 71/99] fix: a filtered group operation no longer leaves its
 filter in the grouping's row lists and counts

---
 riptable/rt_categorical.py |  3 +--
 riptable/rt_groupbyops.py  |  8 ++++----
 riptable/rt_grouping.py    | 17 ++++++++++++++---
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 221b54f..4d40ed7 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6530,8 +6530,7 @@ class Categorical(GroupByOps, FastArray):
         if len(args) != 1:
             raise NotImplementedError("numba_apply does not accept more than one argument for userfunc")
 
-        grp = self.grouping
-        grp.pack_by_group(filter=filter, mustrepack=True)
+        grp = self.grouping._pack_with(filter)
 
         iGroup, iFirstGroup, nCountGroup = (
             grp.iGroup,
diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index c976b9d..01222c8 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -225,11 +225,11 @@ class GroupByOps(ABC):
             iFirstGroup - first index for each group in the igroup array. the first index is invalid
             nCountGroup - count for each unique group. the first count in this array is the invalid count.
         """
-        self.grouping.pack_by_group(filter=filter, mustrepack=True)
+        grouping = self.grouping._pack_with(filter)
         return_dict = {
-            "iGroup": self.grouping.iGroup,
-            "iFirstGroup": self.grouping.iFirstGroup,
-            "nCountGroup": self.grouping.nCountGroup,
+            "iGroup": grouping.iGroup,
+            "iFirstGroup": grouping.iFirstGroup,
+            "nCountGroup": grouping.nCountGroup,
         }
         return return_dict
 
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 9061999..30064dc 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -10,6 +10,7 @@ __all__ = [
 
 # TODO: Enable this and use it in code below to replace print() calls;
 #       can remove 'verbose' parameters too since logging can be turned on externally.
+import copy
 import logging
 import warnings
 from enum import EnumMeta, IntEnum
@@ -2430,6 +2431,16 @@ class Grouping:
                 self.nCountGroup.dtype,
             )
 
+    # ---------------------------------------------------------------
+    def _pack_with(self, filter=None) -> "Grouping":
+        """
+        Return this grouping packed for one operation. With a filter a shallow copy is packed, so that the
+        rows the filter removed are back for the next operation.
+        """
+        grouping = self if filter is None else copy.copy(self)
+        grouping.pack_by_group(filter, mustrepack=True)
+        return grouping
+
     # ---------------------------------------------------------------
     def _get_calculate_dict(
         self, origdict, funcNum, func=None, return_all=False, computable=True, func_param=0, **kwargs
@@ -2642,7 +2653,7 @@ class Grouping:
 
         # ALWAYS force this to clear out any previous filter
         self._packed = False
-        self.pack_by_group(filter)
+        self = self._pack_with(filter)
 
         base_bin = 1
         if showfilter:
@@ -3079,7 +3090,7 @@ class Grouping:
         if not callable(userfunc):
             raise TypeError(f"userfunc {userfunc!r} is not callable and cannot be applied to the dataset.")
 
-        self.pack_by_group(filter, mustrepack=True)
+        self = self._pack_with(filter)
 
         # pass in all columns including strings, datetime, etc
         npdict, values = self._get_calculate_dict(
@@ -3372,7 +3383,7 @@ class Grouping:
 
         # check if we have to pack the data
         if mustpack:
-            self.pack_by_group(filter, mustrepack=True)
+            self = self._pack_with(filter)
         else:
             if filter is not None:
                 ikey = combine_filter(ikey, filter)
-- 
2.43.0


From ebf629689682c853ed858bca43e477c09aa62590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:34 +0000
Subject: [PATCH 72/99] fix: numba_apply labels its results with their own keys
 when the keys are display-sorted

---
 riptable/rt_categorical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 4d40ed7..b1c4bf4 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6551,7 +6551,10 @@ class Categorical(GroupByOps, FastArray):
         if np.isscalar(example_res) and not transform:  # userfunc is a scalar function
             res = self._scalar_compiled_numba_apply(iGroup, iFirstGroup, nCountGroup, userfunc, args)
 
-            res_ds = TypeRegister.Dataset(self.gb_keychain.gbkeys)
+            keychain = self.gb_keychain
+            if keychain.sort_gb_data:
+                res = res[keychain.isortrows]
+            res_ds = TypeRegister.Dataset(keychain.gbkeys)
             res_ds.label_set_names(res_ds.keys())
             value = column_name(args[0])
             res_ds[value] = res
-- 
2.43.0


From 1b26f196f664cfb6c4735113625bbb51b1291c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:35 +0000
Subject: [PATCH 73/99] fix: timewindow_sum/prod of stepped or reversed views
 read the right elements

---
 riptable/rt_fastarray.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ee6b3bf..63a5dab 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2633,6 +2633,13 @@ class FastArray(np.ndarray):
     #############################################
     # TimeWindow section (cannot handle strides), time_array must be INT64
     #############################################
+    def _timewindow(self, time_array, func, time_dist):
+        # the kernel reads both arrays contiguously
+        data = self if self.flags.c_contiguous else self.copy()
+        if isinstance(time_array, np.ndarray) and not time_array.flags.c_contiguous:
+            time_array = time_array.copy()
+        return rc.TimeWindow(data, time_array, func, time_dist)
+
     def timewindow_sum(self, time_array, time_dist):
         """
         The input array must be int64 and sorted with ever increasing values.
@@ -2650,7 +2657,7 @@ class FastArray(np.ndarray):
         FastArray([ 0,  1,  3,  6, 10, 15, 21, 27, 33, 39], dtype=int64)
 
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
+        return self._timewindow(time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
 
     def timewindow_prod(self, time_array, time_dist):
         """
@@ -2668,7 +2675,7 @@ class FastArray(np.ndarray):
         >>> a.timewindow_prod(a,5)
         FastArray([    0,     0,     0,     0,     0,     0,   720,  5040, 20160, 60480], dtype=int64)
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
+        return self._timewindow(time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
 
     #############################################
     # Bottleneck section (only handles int32/int64/float32/float64)
-- 
2.43.0


From fa4b2781dd3affb522452544ea04687da6a2c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:35 +0000
Subject: [PATCH 74/99] fix: apply_reduce with showfilter=True no longer raises

---
 riptable/rt_grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 30064dc..dad5840 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2962,7 +2962,7 @@ class Grouping:
             return_ds = self._finalize_dataset(
                 return_ds,
                 label_keys,
-                label_keys.gbkeys,
+                label_keys.gbkeys_filtered if showfilter else label_keys.gbkeys,
                 transform=transform,
                 showfilter=showfilter,
                 addkeys=True,
-- 
2.43.0


From 3090a040eef723d347d55cd65869885c4deab01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:35 +0000
Subject: [PATCH 75/99] fix: apply with a filter that empties groups labels the
 rest when keys are display-sorted

---
 riptable/rt_grouping.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index dad5840..f40b81c 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3216,12 +3216,20 @@ class Grouping:
                     print("reduce with a filter", f)
                 # if a reduce function was used, and some rows were filtered out
                 # filter out the gbkeys the same way
+                if label_keys.sort_gb_data:
+                    # the gbkeys are display-sorted, the results are still in group order
+                    isortrows = label_keys.isortrows
+                    rows = (f.cumsum() - 1)[isortrows]
+                    f = f[isortrows]
+                    result = result[rows[f], :]
+
                 for k, v in label_keys.gbkeys.items():
                     if Grouping.DebugMode:
                         print("adding column", k, "value", v, "filter", f)
                     result[k] = v[f]
-
-            result = self._finalize_dataset(result, label_keys, label_keys.gbkeys, addkeys=(inv_delta <= 0), **kwargs)
+                result.label_set_names(list(label_keys.gbkeys))
+            else:
+                result = self._finalize_dataset(result, label_keys, label_keys.gbkeys, addkeys=True, **kwargs)
         else:
             if self.nCountGroup[0] > 0:
                 # this group was probably filtered out, pass the user a row full of invalids
-- 
2.43.0


From 0d499dda1586d69d286c5e2cd8c8d5b0a1337c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 76/99] fix: ismember, isin and map of stepped or reversed
 views look at the right elements

---
 riptable/rt_numpy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 109de30..40cf1a3 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -171,6 +171,16 @@ if TYPE_CHECKING:
 ArraysOrDataset = Union[np.ndarray, List[np.ndarray], TypeRegister.Dataset]
 
 
+def _contiguous(arg):
+    """
+    Copy a stepped or reversed view (e.g. ``a[::2]``); anything else is returned as is.
+    Used in front of the riptide_cpp routines which walk the buffer of an array without looking at its strides.
+    """
+    if isinstance(arg, np.ndarray) and not (arg.flags.c_contiguous or arg.flags.f_contiguous):
+        return arg.copy()
+    return arg
+
+
 def _is_array_container(arg):
     return isinstance(arg, (tuple, list)) and len(arg) and not np.isscalar(arg[0])
 
@@ -1300,7 +1310,12 @@ def ismember(
         # arg5 - a base index
         # arg6 - b base index
         b, f = rc.IsMemberCategoricalFixup(
-            a._fa, b._fa, on_unique.astype(np.int32), int(num_unique_b), a.base_index, b.base_index
+            _contiguous(a._fa),
+            _contiguous(b._fa),
+            on_unique.astype(np.int32),
+            int(num_unique_b),
+            a.base_index,
+            b.base_index,
         )
         return b, f
 
@@ -1325,6 +1340,8 @@ def ismember(
 
             a, b = _ismember_align_multikey(a, b)
 
+            a = [_contiguous(x) for x in a]
+            b = [_contiguous(x) for x in b]
             return rc.MultiKeyIsMember32((a,), (b,), hint_size)
         else:
             raise ValueError(
@@ -1388,6 +1405,7 @@ def ismember(
                 b = b.astype(common_type)
 
     # send to fastmath
+    a, b = _contiguous(a), _contiguous(b)
     if base_index == 1:
         return rc.IsMemberCategorical(a, b, h, hint_size)
     elif base_index is None or base_index == 0:
-- 
2.43.0


From 23a3a2a63f38f96e782e301b9d381ab729181f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 77/99] fix: grouping with a stepped or reversed filter or key
 selects the right rows

---
 riptable/rt_numpy.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 40cf1a3..d69e504 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1503,7 +1503,7 @@ def unique32(list_keys: List[np.ndarray], hintSize: int = 0, filter: Optional[np
         the array contains the INDEX to the first occurence of the unique value.
         the second array contains the INDEX to the last occurence of the unique value.
     """
-    return rc.MultiKeyUnique32(list_keys, hintSize, filter)
+    return rc.MultiKeyUnique32(list_keys, hintSize, _contiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1526,7 +1526,7 @@ def combine_filter(key, filter) -> FastArray:
     -----
     This routine can run in parallel.
     """
-    return rc.CombineFilter(key, filter)
+    return rc.CombineFilter(_contiguous(key), _contiguous(filter))
 
 
 # -------------------------------------------------------
@@ -1561,7 +1561,9 @@ def combine_accum1_filter(key1, unique_count1: int, filter=None):
      'unique_count': 5}
 
     """
-    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(key1, unique_count1, filter)
+    iKey, iFirstKey, unique_count = rc.CombineAccum1Filter(
+        _contiguous(key1), unique_count1, _contiguous(filter)
+    )
     mkdict = {"iKey": iKey, "iFirstKey": iFirstKey, "unique_count": unique_count}
     return mkdict
 
@@ -1588,7 +1590,9 @@ def combine_accum2_filter(key1, key2, unique_count1: int, unique_count2: int, fi
     bin is a 1 based index array with each False value setting the index to 0
     nCountGroup is INT32 array with size = to (unique_count1 + 1)*(unique_count2 + 1)
     """
-    return rc.CombineAccum2Filter(key1, key2, unique_count1, unique_count2, filter)
+    return rc.CombineAccum2Filter(
+        _contiguous(key1), _contiguous(key2), unique_count1, unique_count2, _contiguous(filter)
+    )
 
 
 # -------------------------------------------------------
@@ -1613,7 +1617,9 @@ def combine2keys(key1, key2, unique_count1: int, unique_count2: int, filter=None
     bin is a 1 based index array with each False value setting the index to 0
     nCountGroup is INT32 array with size = to (unique_count1 + 1)*(unique_count2 + 1)
     """
-    iKey, nCountGroup = rc.CombineAccum2Filter(key1, key2, unique_count1, unique_count2, filter)
+    iKey, nCountGroup = rc.CombineAccum2Filter(
+        _contiguous(key1), _contiguous(key2), unique_count1, unique_count2, _contiguous(filter)
+    )
     mkdict = {"iKey": iKey, "nCountGroup": nCountGroup}
     return mkdict
 
@@ -1809,7 +1815,7 @@ def makeifirst(key, unique_count: int, filter=None) -> np.ndarray:
     If an invalid is used as a riptable fancy index, it will pull in another invalid, for example '' empty string
     """
 
-    return rc.MakeiFirst(key, unique_count, filter, 0)
+    return rc.MakeiFirst(_contiguous(key), unique_count, _contiguous(filter), 0)
 
 
 # -------------------------------------------------------
@@ -1837,7 +1843,7 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
     If an invalid is used as a riptable fancy index, it will pull in another invalid, for example '' empty string
     """
 
-    return rc.MakeiFirst(key, unique_count, filter, 1)
+    return rc.MakeiFirst(_contiguous(key), unique_count, _contiguous(filter), 1)
 
 
 # -------------------------------------------------------
@@ -1855,7 +1861,7 @@ def makeinext(key, unique_count: int) -> np.ndarray:
     An index array of the same dtype and length of the next row
     The index array will have -MAX_INT set to any locations it could not find a next
     """
-    return rc.MakeiNext(key, unique_count, 0)
+    return rc.MakeiNext(_contiguous(key), unique_count, 0)
 
 
 # -------------------------------------------------------
@@ -1872,7 +1878,7 @@ def makeiprev(key, unique_count: int) -> np.ndarray:
     -------
     The index array will have -MAX_INT set to any locations it could not find a previous
     """
-    return rc.MakeiNext(key, unique_count, 1)
+    return rc.MakeiNext(_contiguous(key), unique_count, 1)
 
 
 # -------------------------------------------------------
@@ -1963,6 +1969,7 @@ def groupbypack(ikey, ncountgroup, unique_count=None, cutoffs=None) -> dict:
     if dnum not in [1, 3, 5, 7, 9]:
         raise ValueError("ikey must be int8, int16, int32, or int64")
 
+    ikey = _contiguous(ikey)
     if cutoffs is None:
         #
         # new routine written Oct, 2019
@@ -2092,7 +2099,7 @@ def groupbyhash(
             common_len = common_len.pop()
             if common_len != 0:
                 iKey, iFirstKey, unique_count = rc.MultiKeyGroupBy32(
-                    list_arrays, hint_size, filter, hash_mode, cutoffs=cutoffs
+                    list_arrays, hint_size, _contiguous(filter), hash_mode, cutoffs=cutoffs
                 )
             else:
                 iKey = TypeRegister.FastArray([], dtype=np.int32)
@@ -2202,7 +2209,7 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
                 list_arrays = list_arrays[::-1]
         else:
             # just one array (no need to make a record array)
-            value_array = list_arrays[0]
+            value_array = _contiguous(list_arrays[0])
 
         index = None
 
-- 
2.43.0


From e9eff24d6fde3f3a91c5ca2e13d76c8a729cb6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 78/99] fix: group operations on stepped or reversed slices of
 a Categorical use the right codes

---
 riptable/rt_grouping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index f40b81c..7c4a0e6 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -40,6 +40,7 @@ from .rt_enum import (
 )
 from .rt_misc import _use_autocomplete_placeholder
 from .rt_numpy import (
+    _contiguous,
     _groupbycalculateall,
     _groupbycalculateallpack,
     arange,
@@ -1544,7 +1545,8 @@ class Grouping:
                 raise ValueError("Internal error generating ikey")
 
             # enum path needs to go through hash, lazy-eval here
-        return self._iKey
+        # the codes of a stepped or reversed slice are a view, the group operations walk the buffer
+        return _contiguous(self._iKey)
 
     # ---------------------------------------------------------------
     @property
@@ -3466,6 +3468,8 @@ class Grouping:
             elif funcNum >= GB_FUNCTIONS.GB_CUMSUM:
                 # NOTE: filter is the third argument of the func_param tuple
                 # TODO: do you want to merge with iKey?
+                if isinstance(func_param, tuple):
+                    func_param = tuple(_contiguous(param) for param in func_param)
                 accum = rc.EmaAll32(values, ikey, unique_rows, funcNum, func_param)
 
             # basic not packed
-- 
2.43.0


From aa6f8aa08a54a86cb2b1df07b7b64517c463437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 79/99] fix: bool_to_fancy and the mask functions accept
 stepped or reversed views

---
 riptable/rt_numpy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d69e504..d705d00 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5519,7 +5519,7 @@ def bool_to_fancy(arr: np.ndarray, both: bool = False) -> FastArray:
     """
     if isinstance(arr, np.ndarray):
         if arr.dtype.char == "?":
-            return rc.BooleanToFancy(arr, both=both)
+            return rc.BooleanToFancy(_contiguous(arr), both=both)
         else:
             raise TypeError(f"Input array must be boolean. Got {arr.dtype}")
     else:
@@ -5598,6 +5598,9 @@ def _mask_op(bool_list, funcNum, inplace=False):
     if dtype != 0:
         raise TypeError(f"Must all be boolean types")
 
+    # the first array receives the result of the inplace versions
+    bool_list = [*bool_list[:1], *map(_contiguous, bool_list[1:])] if inplace else [*map(_contiguous, bool_list)]
+
     # we have at least two items
     # grabbing the func pointer speeds things up in testing
     ledgerFunc = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
-- 
2.43.0


From 6bd207f43c78fb13e62c4e3afff788eaa1e1b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 80/99] fix: searchsorted and issorted accept stepped or
 reversed views

---
 riptable/rt_numpy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d705d00..d8de40a 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -690,11 +690,11 @@ def _searchsorted(array, v, side="left", sorter=None):
         try:
             res = None
             if side == "leftplus":
-                res = rc.BinsToCutsBSearch(v, array, 0)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 0)
             elif side == "left":
-                res = rc.BinsToCutsBSearch(v, array, 1)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 1)
             else:
-                res = rc.BinsToCutsBSearch(v, array, 2)
+                res = rc.BinsToCutsBSearch(_contiguous(v), _contiguous(array), 2)
 
             if is_scalar and not np.isscalar(res):
                 res = res[0]
@@ -758,7 +758,7 @@ def issorted(*args) -> bool:
     >>> rt.issorted(dtn)
     False
     """
-    return LedgerFunction(rc.IsSorted, *args)
+    return LedgerFunction(rc.IsSorted, *(_contiguous(arg) for arg in args))
 
 
 # -------------------------------------------------------
-- 
2.43.0


From b37ab832da2594c0547f930462fafa6a12126238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 81/99] fix: transitions and differs of stepped or reversed
 views compare the right elements

---
 riptable/rt_fastarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 63a5dab..ecb71b6 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4146,15 +4146,17 @@ class FastArray(np.ndarray):
         if periods == 0:
             raise ValueError("periods of 0 is invalid for transitions")
 
+        # the comparison walks the buffer
+        arr = self if self.flags.c_contiguous else self.copy()
         if periods > 0:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
-                (self[periods:], self[:-periods], result[periods:]), math_op, 0
+                (arr[periods:], arr[:-periods], result[periods:]), math_op, 0
             )
             # fill upfront with invalids
             result[:periods] = False
         else:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
-                (self[:periods], self[-periods:], result[:periods]), math_op, 0
+                (arr[:periods], arr[-periods:], result[:periods]), math_op, 0
             )
             # fill back with invalids (periods is negative)
             result[periods:] = False
-- 
2.43.0


From 19b20b88cc2d815ec68003c3da7ec52fd4335413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 82/99] fix: indexing a stepped or reversed view with an index
 holding invalids no longer raises

---
 riptable/rt_fastarray.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ecb71b6..2f56290 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1321,9 +1321,10 @@ class FastArray(np.ndarray):
 
             # if we have fancy indexing and we support the array type, make sure we do not have stride problem
             if fld.dtype.char in NumpyCharTypes.AllInteger and self.dtype.char in NumpyCharTypes.SupportedAlternate:
-                if self.flags.f_contiguous and fld.flags.f_contiguous:
-                    if len(self.shape) == 1:
-                        return TypeRegister.MathLedger._MBGET(self, fld)
+                if len(self.shape) == 1 and (fld.ndim == 1 or fld.flags.f_contiguous):
+                    arr = self if self.flags.f_contiguous else self.copy()
+                    fld = fld if fld.flags.f_contiguous else fld.copy()
+                    return TypeRegister.MathLedger._MBGET(arr, fld)
 
             # Workaround for indexing a 2d FastArray with invalid indices (eg produced by merge functions)
             # At each invalid index, give a row of NaN's / Inv's
-- 
2.43.0


From c5abf74d82b5a6132d88d12807ef9a6c3e47b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 83/99] fix: string methods and concatenation accept stepped or
 reversed views

---
 riptable/rt_fastarray.py | 10 ++++++++--
 riptable/rt_str.py       |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 2f56290..2ce92fa 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2274,7 +2274,9 @@ class FastArray(np.ndarray):
     def str_append(self, other):
         if self.dtype.num == other.dtype.num:
             func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
-            return func((self, other), MATH_OPERATION.ADD, self.dtype.num)
+            arr = self if self.flags.c_contiguous else self.copy()
+            other = other if other.flags.c_contiguous else other.copy()
+            return func((arr, other), MATH_OPERATION.ADD, self.dtype.num)
         raise TypeError("cannot concat")
 
     # ---------------------------------------------------------------------------
@@ -4769,7 +4771,11 @@ class FastArray(np.ndarray):
         args: List[Any] = []
         for input in inputs:
             if isinstance(input, np.ndarray):
-                if method == "reduce" and input.ndim == 1 and not input.flags.c_contiguous:
+                if (
+                    (method == "reduce" or input.dtype.char in "SU")
+                    and input.ndim == 1
+                    and not input.flags.c_contiguous
+                ):
                     # make it contiguous
                     input = input.copy()
                 is_not_supported = self._is_not_supported(input)
diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index 3b45038..806a896 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -141,6 +141,10 @@ class FAString(FastArray):
             arr = arr.astype("U")
             intype = arr.dtype.char
 
+        if not arr.flags.c_contiguous:
+            # the characters are viewed as one flat array
+            arr = arr.copy()
+
         itemsize = np.int64(arr.itemsize)
 
         if intype == "S":
-- 
2.43.0


From 58a35f93cdda083c088d0a02b19fd9d9f0f973e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:51 +0000
Subject: [PATCH 84/99] fix: subtracting stepped or reversed views of dates and
 times no longer raises

---
 riptable/rt_datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index dc9d20c..9141eb2 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -46,6 +46,7 @@ from .rt_enum import (
 from .rt_fastarray import FastArray
 from .rt_hstack import hstack_any
 from .rt_numpy import (
+    _contiguous,
     arange,
     empty,
     full,
@@ -2331,7 +2332,7 @@ class Date(DateBase, TimeStampBase):
             # right now, using the double return, gets recasted in the constructor
             op = MATH_OPERATION.SUBDATETIMES
 
-            functup = (self, value)
+            functup = (_contiguous(self), _contiguous(value))
             result = func(functup, op, 0)
             return DateSpan(result)
 
@@ -4096,7 +4097,7 @@ class DateTimeCommon:
             if inplace:
                 functup = (input1, other, input1)
             else:
-                functup = (input1, other)
+                functup = (_contiguous(input1), _contiguous(other))
 
             result = func(functup, op, 0)
             if result is None:
-- 
2.43.0


From 1459cba20c6f2c884a1449a91d9c4f88f7d726f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 85/99] fix: load_sds with a stepped or reversed boolean filter
 loads the right rows

---
 riptable/rt_sds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index d0dea67..aca92bf 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -55,7 +55,7 @@ from .rt_enum import (
     TypeRegister,
 )
 from .rt_grouping import merge_cats
-from .rt_numpy import arange, empty, ismember, zeros
+from .rt_numpy import _contiguous, arange, empty, ismember, zeros
 from .rt_timers import utcnow
 from .rt_utils import h5io_to_struct
 from .Utils.rt_metadata import MetaData
@@ -1516,7 +1516,7 @@ def _convert_to_mask(filter):
         if filter.dtype.char == "?" and len(filter) != 0:
             # no more bool to fancy
             # filter = bool_to_fancy(filter)
-            return filter
+            return _contiguous(filter)
         else:
             if filter.dtype.num > 10:
                 raise TypeError(f"The filter must be a numpy array of booleans or integers not {filter.dtype}.")
-- 
2.43.0


From fc55c51b9f5e2d6467af4adf9bac5e2133fded96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 86/99] fix: legacy merge_asof accepts stepped or reversed
 views

---
 riptable/rt_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index 14ad7c3..d2f02d6 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -31,7 +31,7 @@ import numpy as np
 import riptide_cpp as rc
 
 from .rt_enum import INVALID_DICT, NumpyCharTypes, TypeRegister
-from .rt_numpy import arange, bool_to_fancy, crc32c, empty, get_common_dtype, tile
+from .rt_numpy import _contiguous, arange, bool_to_fancy, crc32c, empty, get_common_dtype, tile
 
 # Type-checking-only imports.
 if TYPE_CHECKING:
@@ -581,7 +581,11 @@ def alignmk(
             raise ValueError("unsupported direction in alignmk")
 
         # TODO: Update C++ code to take a list
-        result = rc.MultiKeyAlign32((key1,), (key2,), time1, time2, isForward, allow_exact_matches)
+        key1 = [_contiguous(key) for key in key1]
+        key2 = [_contiguous(key) for key in key2]
+        result = rc.MultiKeyAlign32(
+            (key1,), (key2,), _contiguous(time1), _contiguous(time2), isForward, allow_exact_matches
+        )
     if verbose:
         print("result", result)
     return result
-- 
2.43.0


From 6022cb9d953edf339b62489c32b14b3196b1c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 87/99] fix: putmask and interp accept stepped or reversed
 views

---
 riptable/rt_numpy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d8de40a..0c6a24c 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -4748,7 +4748,7 @@ def putmask(a, mask, values) -> FastArray:
         return a.putmask(mask, values)
     except:
         # false is returned on failure
-        if not rc.PutMask(a, mask, values):
+        if not rc.PutMask(a, _contiguous(mask), _contiguous(values)):
             # final attempt use numpy
             return np.putmask(a, mask, values)
 
@@ -5408,7 +5408,7 @@ def interp(x, xp, fp):
         warnings.warn("rt.interp is downcasting to a float32 to match first array", stacklevel=2)
         xp = xp.astype(np.float32)
         fp = fp.astype(np.float32)
-    return rc.InterpExtrap2d(x, xp, fp, 1)
+    return rc.InterpExtrap2d(_contiguous(x), _contiguous(xp), _contiguous(fp), 1)
 
 
 # -------------------------------------------------------
@@ -5430,7 +5430,7 @@ def interp_extrap(x, xp, fp):
     * riptable version handles floats or doubles, wheras np is always a double
     * 2d mode is auto-detected based on `xp`/`fp`
     """
-    return rc.InterpExtrap2d(x, xp, fp, 0)
+    return rc.InterpExtrap2d(_contiguous(x), _contiguous(xp), _contiguous(fp), 0)
 
 
 # -------------------------------------------------------
-- 
2.43.0


From 3ae6f994b5b96c901f042bfe915a2ed2565046ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:15 +0000
Subject: [PATCH 88/99] fix: where with a stepped or reversed condition picks
 from the right rows

---
 riptable/rt_numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 0c6a24c..d33e9b7 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3160,7 +3160,7 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
 
         # call down into C++ version of where.
         # result will be None if operation is not supported.
-        result = rc.Where(condition, (x, y), common_dtype.num, common_dtype.itemsize)
+        result = rc.Where(_contiguous(condition), (x, y), common_dtype.num, common_dtype.itemsize)
         if result is not None:
             return result
 
-- 
2.43.0


From 08d0b1747c1c9111aa6c3a73a67cf13f5a268786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 89/99] fix: one-row slices with a step work with every routine

---
 riptable/rt_fastarray.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 2ce92fa..d3b8c24 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1346,7 +1346,12 @@ class FastArray(np.ndarray):
 
             # This assumes that FastArray has a sole parent, np.ndarray
             # If this changes, the super() call needs to be used
-            return np.ndarray.__getitem__(self, fld)
+            result = np.ndarray.__getitem__(self, fld)
+            if isinstance(fld, slice) and result.ndim == 1 and len(result) == 1:
+                # numpy calls a view of one element contiguous whatever its stride, riptide_cpp does not;
+                # ravel returns the same view with the stride of its dtype
+                return np.ndarray.ravel(result)
+            return result
             # return super(FastArray, self).__getitem__(fld)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From cf1512baa15229461dfdd06ec5628bfbba3c07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:21 +0000
Subject: [PATCH 90/99] fix: stacking stepped views of mixed types keeps
 invalids

---
 riptable/rt_hstack.py | 10 +++++-----
 riptable/rt_numpy.py  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index 4fe8c5d..6eb1a03 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -9,7 +9,7 @@ import riptide_cpp as rc
 
 from .rt_enum import CategoryMode, NumpyCharTypes, TypeRegister, int_dtype_from_len
 from .rt_grouping import hstack_groupings, merge_cats
-from .rt_numpy import arange, empty, hstack
+from .rt_numpy import _contiguous, arange, empty, hstack
 
 
 def hstack_any(
@@ -658,7 +658,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
     # todo: see _multistack_categoricals int rt_sds.py
     # stack indices
     # this will stack the fastarrays
-    indices = rc.HStack(cats)
+    indices = rc.HStack([_contiguous(c._fa) for c in cats])
     idx_cutoffs = TypeRegister.FastArray([len(c._fa) for c in cats], dtype=np.int64).cumsum()
 
     # ------------------------- start rebuild here
@@ -743,7 +743,7 @@ def _hstack_datetimenano(dtlist, destroy=False):
         return dtlist
 
     # hstack int64 utc nano arrays
-    arr = rc.HStack(dtlist)
+    arr = rc.HStack([_contiguous(dt._fa) for dt in dtlist])
 
     # reconstruct with first item
     return TypeRegister.DateTimeNano.newclassfrominstance(arr, dtlist[0])
@@ -756,7 +756,7 @@ def _hstack_timespan(tspans, destroy=False):
     This is a very simple class, rewrap the hstack result in class.
     NOTE: destroy ignored
     """
-    ts = rc.HStack(tspans)
+    ts = rc.HStack([_contiguous(ts) for ts in tspans])
     return TypeRegister.TimeSpan(ts)
 
 
@@ -803,7 +803,7 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
     if len(dates) == 1:
         return dates
 
-    stacked = rc.HStack(dates)
+    stacked = rc.HStack([_contiguous(d) for d in dates])
     return subclass.newclassfrominstance(stacked, dates[0])
 
 
diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d33e9b7..307796b 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5680,7 +5680,7 @@ def hstack(tup: Sequence[np.ndarray], dtype: Optional[Union[str, type, np.dtype]
             dtypenum = np.dtype(dtype).num
 
     try:
-        hstack_result = rc.HStack(tup, dtypenum)
+        hstack_result = rc.HStack(tuple(map(_contiguous, tup)), dtypenum)
     except:
         hstack_result = np.hstack(tup)
 
-- 
2.43.0


From 2f7638a25bbaf8b62bb0776485e51804a8f0c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 91/99] fix: row masks of stepped views respect integer
 invalids

---
 riptable/rt_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 1031503..89ffd0a 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -65,6 +65,7 @@ from .rt_imatrix import IMatrix
 from .rt_itemcontainer import ItemContainer
 from .rt_mlutils import normalize_minmax, normalize_zscore
 from .rt_numpy import (
+    _contiguous,
     arange,
     argmax,
     argmin,
@@ -4534,7 +4535,7 @@ class Dataset(Struct):
         cols = self.computable()
 
         for col in cols.values():
-            bool_mask = func(col)
+            bool_mask = func(_contiguous(col))
             if mask is None:
                 mask = bool_mask
             else:
-- 
2.43.0


From e97c8ab5e703449596b342a697b161f2601f315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 92/99] fix: grouped running minimum and maximum leave no value
 in rows of no group

---
 riptable/rt_grouping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 7c4a0e6..f4d7f55 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3471,6 +3471,12 @@ class Grouping:
                 if isinstance(func_param, tuple):
                     func_param = tuple(_contiguous(param) for param in func_param)
                 accum = rc.EmaAll32(values, ikey, unique_rows, funcNum, func_param)
+                if funcNum >= GB_FUNCTIONS.GB_CUMNANMAX:
+                    # the running extremes of riptide_cpp do not set the rows which belong to no group
+                    no_group = ikey == 0
+                    for arr in accum:
+                        if arr is not None:
+                            arr[no_group] = INVALID_DICT[arr.dtype.num]
 
             # basic not packed
             elif funcNum >= GB_FUNCTIONS.GB_SUM and funcNum < GB_FUNCTIONS.GB_FIRST:
-- 
2.43.0


From 26bf9022ddb1f2d315976d1b3af63477b874fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 93/99] fix: labels of copies and selections are independent of
 their source

---
 riptable/rt_itemcontainer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 607f872..3124844 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -184,6 +184,14 @@ class ItemContainer:
             v[0] = arr
 
     # -----------------------------------------
+    @staticmethod
+    def _copy_item(item):
+        """Copy an item so that its attributes (labels, footers, ...) belong to the copy."""
+        item = item.copy()
+        if item[1] is not None:
+            item[1] = item[1].copy()
+        return item
+
     def copy(self, cols=None, deep=False):
         """
         Returns a shallow copy of the item container.
@@ -194,10 +202,10 @@ class ItemContainer:
         if cols is None:
             newcontainer._items = self._items.copy()
             for k, v in newcontainer._items.items():
-                newcontainer._items[k] = v.copy()
+                newcontainer._items[k] = self._copy_item(v)
         else:
             for k in cols:
-                newcontainer._items[k] = self._items[k].copy()
+                newcontainer._items[k] = self._copy_item(self._items[k])
         return newcontainer
 
     # -----------------------------------------
@@ -212,13 +220,13 @@ class ItemContainer:
         if cols is None:
             for k, v in self._items.items():
                 # tuple copy
-                v = v.copy()
+                v = self._copy_item(v)
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
         else:
             for k in cols:
                 # tuple copy
-                v = self._items[k].copy()
+                v = self._copy_item(self._items[k])
                 newcontainer._items[k] = v
                 v[0] = func(v[0], *args)
 
-- 
2.43.0


From e4aa002812c5efce11c63d149392fcb394e61297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:50 +0000
Subject: [PATCH 94/99] fix: renaming columns does not change the caller's list
 of sort columns

---
 riptable/rt_struct.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 01e745a..8ba4ac6 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3477,9 +3477,7 @@ class Struct:
         # going to go away when we do attributes
         # update column sort list if nec.
         if self._col_sortlist is not None:
-            for i, col in enumerate(self._col_sortlist):
-                if col == old:
-                    self._col_sortlist[i] = new
+            self._col_sortlist = [new if col == old else col for col in self._col_sortlist]
 
     # --------------------------------------------------------
     def _ensure_atomic(self, colnames, func):
@@ -3773,10 +3771,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in enumerate(self._col_sortlist):
-                r = name.replace(old, new, max)
-                if r != name:
-                    self._col_sortlist[i] = r
+            self._col_sortlist = [name.replace(old, new, max) for name in self._col_sortlist]
 
     # ------------------------------------------------------------
     def _as_dictionary(self, copy=False, rows=None, cols=None):
-- 
2.43.0


From e6f62431f43e50cb505483c0c591a3287b700e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:09 +0000
Subject: [PATCH 95/99] fix: sorted views and struct comparison work with
 stepped columns

---
 riptable/rt_numpy.py  | 2 +-
 riptable/rt_struct.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 307796b..dfcee76 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2535,7 +2535,7 @@ def crc32c(arr: np.ndarray) -> int:
     TODO: Warn when the array has non-default striding, as that is not currently respected by
         the implementation of this function.
     """
-    return rc.CalculateCRC(arr)
+    return rc.CalculateCRC(_contiguous(arr))
 
 
 # -------------------------------------------------------
diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 8ba4ac6..f2e7660 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -51,7 +51,7 @@ from .rt_itemcontainer import (
     ItemContainer,
 )
 from .rt_misc import build_header_tuples
-from .rt_numpy import arange, hstack, mask_andi, mask_ori
+from .rt_numpy import arange, crc32c, hstack, mask_andi, mask_ori
 from .rt_sds import _load_sds, _multistack_categoricals, _rebuild_rootfile, save_sds
 from .rt_timers import GetTSC
 from .rt_utils import bytes_to_str, h5io_to_struct, is_list_like
@@ -3862,7 +3862,7 @@ class Struct:
                 v2 = other[c2]
                 if isinstance(v1, np.ndarray):
                     if isinstance(v2, np.ndarray):
-                        if rc.CalculateCRC(v2) != rc.CalculateCRC(v1):
+                        if crc32c(v2) != crc32c(v1):
                             print(f"The columns {c1!r} and {c2!r} do not crc check")
                             return False
                     else:
-- 
2.43.0


From 289e94a1145d983c90f215f1162c0dc667b1d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:08 +0000
Subject: [PATCH 96/99] fix: two-way means of categoricals numbered from zero
 have the right margins

---
 riptable/rt_accum2.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index ed6a95b..4edd958 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -512,10 +512,6 @@ class Accum2(GroupByOps, FastArray):
         else:
             ikey = cat.grouping.ikey
 
-            # if zero base, we need 1 base for these calculations
-            if cat.grouping.base_index == 0:
-                ikey = ikey + 1
-
             # Optimization: combine_filter was previously called
             if filter is not None:
                 # N.B. We are going to change ikey, make a copy instead of changing the input. The input
-- 
2.43.0


From 0231d0cc99cbf9ebb29b2676fd49f7af172519e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:28 +0000
Subject: [PATCH 97/99] fix: adding to and subtracting from a TimeSpan in place
 keeps its type and units

---
 riptable/rt_datetime.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 9141eb2..f188b66 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6811,6 +6811,20 @@ class TimeSpanBase:
             value = value._fa * NANOS_PER_DAY
         return self._fix_binary_ops(value, "__sub__", other_inv_mask=other_inv_mask)
 
+    # -------------------------------------------------------------
+    def _inplace_result(self, result):
+        """Store the result of an operation into this array if it is a TimeSpan of the same shape."""
+        if isinstance(result, TimeSpan) and result.shape == self.shape:
+            self._fa[:] = result._fa
+            return self
+        return result
+
+    def __iadd__(self, value):
+        return self._inplace_result(self.__add__(value))
+
+    def __isub__(self, value):
+        return self._inplace_result(self.__sub__(value))
+
     # -------------------------------------------------------------
     def __rsub__(self, value):
         if not isinstance(value, np.ndarray):
-- 
2.43.0


From d34803930a040b0f3a747b5a7857d356c766c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:24 +0000
Subject: [PATCH 98/99] fix: the transform property of sorted groupings gives
 each row its own group's value

---
 riptable/rt_categorical.py | 4 ++++
 riptable/rt_groupby.py     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index b1c4bf4..03d1ee6 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5095,6 +5095,10 @@ class Categorical(GroupByOps, FastArray):
         self._locked = True
         keychain = self.gb_keychain
 
+        if getattr(self, "_transform", False):
+            # the rows of a result about to be expanded must not be sorted
+            kwargs["transform"] = True
+
         result_ds = self.grouping._calculate_all(
             origdict, funcNum, func_param=func_param, keychain=keychain, user_args=user_args, tups=tups, **kwargs
         )
diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index 61bb3e9..3af6a2a 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -327,6 +327,9 @@ class GroupBy(GroupByOps):
         keychain = self.gb_keychain
         kwargs.setdefault("dataset", self._dataset)
         return_all = kwargs.pop("return_all", self._return_all)
+        if getattr(self, "_transform", False):
+            # the rows of a result about to be expanded must not be sorted
+            kwargs["transform"] = True
 
         origdict, user_args, tups = self._prepare_gb_data("GroupBy", funcNum, *args, **kwargs)
         gb_ds = self.grouping._calculate_all(
-- 
2.43.0


From 465bcf0f196561a60799c21dee4304cccdbeec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:24 +0000
Subject: [PATCH 99/99] fix: renamed partitions show in the partition
 categorical

---
 riptable/rt_pdataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_pdataset.py b/riptable/rt_pdataset.py
index 66fbb25..a7bf85a 100644
--- a/riptable/rt_pdataset.py
+++ b/riptable/rt_pdataset.py
@@ -437,6 +437,7 @@ class PDataset(Dataset):
 
                 if len(newpnames) == len(self._pnames):
                     self._pnames = newpnames
+                    self._pcat = None
                 else:
                     raise ValueError(f"The new pnames must be unique names: {pnames}")
 
-- 
2.43.0

