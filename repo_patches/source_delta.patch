From 269732e216b2d28821991673f68558701947e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 01/20] fix: solve_index: an empty index has position 0 only

Assigning to one element of a COO, FlatCOO, CSR or DM storage solved each
stored position against the 0-dimensional selection, matched all of them and
overwrote every stored element.
---
 gcs/slice_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..885eb31 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -336,6 +336,9 @@ def solve_index(pos, shape, strides, data=None):
 
       A t + I s = b       2*N equalities with N+1 slack variables s
     """
+    if not shape:
+        # the sum over an empty index is 0
+        return () if pos == 0 else None
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
-- 
2.43.0


From 7a5a34c44be6aa1a0d169e98d0fcf91e1b7a67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 02/20] fix: DM slicing: apply the offset of the sliced array
 to fixed dimensions

s[1:][0] of a DM storage returned row 0 instead of row 1 of s.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From 3f21f6dffb4767a1aae3ca274408d034fdae10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:24 +0000
Subject: [PATCH 03/20] fix: slicing of arrays with zero-length axes

Indexing such an array (also the empty result of an earlier slice) raised
ZeroDivisionError, AssertionError or IndexError, and so did building a CSR
storage from an array without specified elements.
---
 gcs/slice_tools.py | 9 +++++++--
 gcs/storage.py     | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 885eb31..52ab821 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size) if size else 0
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size) if size else 0
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
@@ -206,6 +206,9 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        return None  # there are no indices, see solve_index
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
@@ -339,6 +342,8 @@ def solve_index(pos, shape, strides, data=None):
     if not shape:
         # the sum over an empty index is 0
         return () if pos == 0 else None
+    if 0 in shape:
+        return  # there are no indices
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..3f4d227 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -649,6 +649,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
+        if product(shape) == 0:
+            # offset may point outside of the data
+            return Strided(shape, strides, Buffer(0, 0, [], unspecified=self.unspecified))
         return Strided(shape, strides, self.data[offset:])
 
 
-- 
2.43.0


From 48cf8b46a307c524e130ec0f67f23f3667336bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 04/20] fix: reject invalid indices

Integer indices outside of an axis silently wrapped around, so that iterating
over a storage never stopped, None items beyond the last axis were ignored,
and slices with step 0 selected nothing; Python sequences raise in all these
cases.
---
 gcs/slice_tools.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 52ab821..0491a49 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -17,6 +17,8 @@ def reduced(s, size):
     start, stop, step = s.start, s.stop, s.step
     if step is None:
         step = 1
+    if step == 0:
+        raise ValueError('slice step cannot be zero')
     if step > 0:
         if start is None or start < -size:
             start = 0
@@ -53,6 +55,14 @@ def reduced(s, size):
     return slice(start, stop, step)
 
 
+def normalize_int(index, size):
+    """Return the non-negative index that is equivalent to index for given size.
+    """
+    if not -size <= index < size:
+        raise IndexError(f'index {index} is out of range for size {size}')
+    return index % size
+
+
 def nitems(s, size, reduce=True):
     """Return the number of items for given size.
 
@@ -81,7 +91,7 @@ def apply_slices(slices, shape, strides):
     offset = 0
     for size, stride, s in zip(shape, strides, slices):
         if isinstance(s, int):
-            offset += stride * (s % size)
+            offset += stride * normalize_int(s, size)
         elif isinstance(s, slice):
             s = reduced(s, size)
             offset += stride * (s.start % size) if size else 0
@@ -131,16 +141,18 @@ def normalize_index(index, shape):
     """Reduce slice indices and normalize negative integer indices.
     """
     if isinstance(index, int):
-        return (index % shape[0],) + (None,) * (len(shape)-1)
+        return (normalize_int(index, shape[0]),) + (None,) * (len(shape)-1)
     elif isinstance(index, slice):
         return (reduced(index, shape[0]),) + (None,) * (len(shape)-1)
     elif index is None:
         return (None,) * len(shape)
     new_index = [None] * len(shape)
+    if len(index) > len(shape):
+        raise IndexError(f'too many indices: got {len(index)} for shape {shape}')
     for i in range(len(index)):
         ind = index[i]
         if isinstance(ind, int):
-            new_index[i] = ind % shape[i]
+            new_index[i] = normalize_int(ind, shape[i])
         elif isinstance(ind, slice):
             new_index[i] = reduced(ind, shape[i])
         elif ind is None:
-- 
2.43.0


From 61e59c799579d238cfeb5ab9b7f27cb9d9dd3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 05/20] fix: assignment evaluates its right-hand side before
 storing

s[:] = s[::-1] read already overwritten elements when the slice was a view, and
an assignment with a too small right-hand side failed half way.
---
 gcs/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 3f4d227..4a9a9f6 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -350,8 +350,12 @@ class Storage:
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
-        for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
-            self.data[data_pos] = get_value(value, value_index)
+        # Get all values before setting any: value can be a view of self or
+        # smaller than the slice.
+        items = [(data_pos, get_value(value, value_index)) for value_index, data_pos
+                 in self.slice_indices_and_data_position(shape, strides, offset)]
+        for data_pos, item in items:
+            self.data[data_pos] = item
 
     def get_data_position(self, index):
         raise NotImplementedError(f'{type(self).__name__}.get_data_position')
-- 
2.43.0


From df0cebe49561a0b695936244425d8d102bddf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 06/20] fix: equality of Strided views compares the elements of
 the views

Views with negative strides compared only a part of their elements, other views
compared elements that they do not contain.
---
 gcs/storage.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index 4a9a9f6..ce4db18 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -622,6 +622,17 @@ class Strided(Storage):
         self.data = data
         self.size = product(shape)
 
+    def __eq__(self, other):
+        # The data buffer may contain elements that do not belong to
+        # the array and, in the case of negative strides, it may start
+        # after the elements of the array.
+        if isinstance(other, type(self)):
+            return self is other or (
+                self.shape == other.shape and self.strides == other.strides
+                and self.unspecified == other.unspecified
+                and list(self.elements()) == list(other.elements()))
+        return NotImplemented
+
     def _get_object_data(self):
         return self.shape, self.strides, self.data
 
-- 
2.43.0


From 7dbce5f13065449883e195597bb1b31854d3adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 07/20] fix: size of DM slices

The size of a slice was that of the whole storage, so that is_full() of a slice
was False for full arrays and could be True for slices with unspecified elements.
---
 gcs/storage.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index ce4db18..70921b2 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1082,7 +1082,21 @@ class DM(Storage):
         self.rstrides = rstrides
         self.roffset = roffset
         self.data = data
-        self.size = data.size
+
+    def _is_stored(self, index):
+        rindex = self.get_data_position(index)
+        if isinstance(self.data, DM):
+            return self.data._is_stored(rindex)
+        return isinstance(self.data, Buffer) or self.data.get_data_position(rindex) is not None
+
+    @property
+    def size(self):
+        """The number of stored elements. Not all elements of the storage
+        belong to the array if it is a slice of another DM array.
+        """
+        if product(self.shape) == product(self.data.shape):
+            return self.data.size
+        return sum(map(self._is_stored, itertools.product(*map(range, self.shape))))
 
     def _get_object_data(self):
         return self.shape, self.rdimensions, self.rstrides, self.roffset, self.data
-- 
2.43.0


From f9936b43f93b136dcabc2fc426dd21fe77d14d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 08/20] fix: solve_index finds the index for any strides

For strides that are not those of a slice of a row-major array, for instance
column-major strides, solve_index returned None for many existing positions.
---
 gcs/slice_tools.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 0491a49..76618cb 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -320,6 +320,25 @@ def show(A):
     print(']')
 
 
+def search_index(pos, shape, strides):
+    """Solve the same equation as solve_index by searching for index.
+    """
+    if not shape:
+        return () if pos == 0 else None
+    axis = max(range(len(shape)), key=lambda i: abs(strides[i]))
+    size, stride = shape[axis], strides[axis]
+    shape, strides = shape[:axis] + shape[axis + 1:], strides[:axis] + strides[axis + 1:]
+    # extreme positions of the index without axis
+    lasts = [(n - 1) * s for n, s in zip(shape, strides)]
+    low, high = sum(min(p, 0) for p in lasts), sum(max(p, 0) for p in lasts)
+    # restrict i to low <= pos - i * stride <= high
+    start, stop = (pos - high, pos - low) if stride > 0 else (pos - low, pos - high)
+    for i in range(max(-(-start // stride), 0), min(stop // stride + 1, size)):
+        index = search_index(pos - i * stride, shape, strides)
+        if index is not None:
+            return index[:axis] + (i,) + index[axis:]
+
+
 def solve_index(pos, shape, strides, data=None):
     """Solve linear Diophantine equation
 
@@ -380,7 +399,9 @@ def solve_index(pos, shape, strides, data=None):
                 break
         else:
             return index
-    return
+    # The above is exact if strides are the strides of a slice of a
+    # contiguous array. Otherwise, the solution may need a search.
+    return search_index(pos, tuple(shape), tuple(strides))
 
 
 get_solve_index_data = init_diophantine
-- 
2.43.0


From aa1341085fc214d57e1d74e9e781745046038d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 09/20] fix: versioneer: read setup.cfg with Python 3.12

configparser.SafeConfigParser and readfp were removed, so that the version could
not be computed.
---
 versioneer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 64fea1c..3aa5da3 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -339,9 +339,9 @@ def get_config_from_root(root):
     # configparser.NoOptionError (if it lacks "VCS="). See the docstring at
     # the top of versioneer.py for instructions on writing your setup.cfg .
     setup_cfg = os.path.join(root, "setup.cfg")
-    parser = configparser.SafeConfigParser()
+    parser = configparser.ConfigParser()
     with open(setup_cfg, "r") as f:
-        parser.readfp(f)
+        parser.read_file(f)
     VCS = parser.get("versioneer", "VCS")  # mandatory
 
     def get(parser, name):
-- 
2.43.0


From c2d67c55a1e96cf6ad0ede77921f8231e9abe697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 10/20] fix: DM slicing does not copy the storage when the
 dimensionality is kept

The data of COO, FlatCOO and CSR storages was copied by indexing it with
omitted axes only.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 70921b2..85c2536 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1154,5 +1154,5 @@ class DM(Storage):
         # storage data when the sliced array has the same
         # dimensionality (holds also for COO and CSR use cases) or
         # when the data storage uses strided storage format.
-        data = self.data[dindex] if dindex else self.data
+        data = self.data if all(i is None for i in dindex) else self.data[dindex]
         return DM(gshape, rdimensions, rstrides, roffset, data)
-- 
2.43.0


From 64fa39cbb83d6961c4dc23ec962bed769cc6e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 11/20] fix: versioneer: version files of versions that contain
 quotes

---
 versioneer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 3aa5da3..6c134a2 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1188,7 +1188,7 @@ SHORT_VERSION_PY = """
 
 import json
 
-version_json = '''
+version_json = r'''
 %s
 '''  # END VERSION_JSON
 
@@ -1205,10 +1205,10 @@ def versions_from_file(filename):
             contents = f.read()
     except EnvironmentError:
         raise NotThisMethod("unable to read _version.py")
-    mo = re.search(r"version_json = '''\n(.*)'''  # END VERSION_JSON",
+    mo = re.search(r"version_json = r?'''\n(.*)'''  # END VERSION_JSON",
                    contents, re.M | re.S)
     if not mo:
-        mo = re.search(r"version_json = '''\r\n(.*)'''  # END VERSION_JSON",
+        mo = re.search(r"version_json = r?'''\r\n(.*)'''  # END VERSION_JSON",
                        contents, re.M | re.S)
     if not mo:
         raise NotThisMethod("no version_json in _version.py")
@@ -1220,6 +1220,8 @@ def write_to_version_file(filename, versions):
     os.unlink(filename)
     contents = json.dumps(versions, sort_keys=True,
                           indent=1, separators=(",", ": "))
+    # keep quotes from ending the string literal
+    contents = contents.replace("'", "\\u0027")
     with open(filename, "w") as f:
         f.write(SHORT_VERSION_PY % contents)
 
-- 
2.43.0


From 2678e8de5555bc0911cedf1fc2a1a7eadb66d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 12/20] fix: exported trees of commits with refs that contain
 quotes, commas or parentheses

---
 gcs/_version.py |  9 ++++++---
 versioneer.py   | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 2c0692c..a090fe6 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -23,7 +23,7 @@ def get_keywords():
     # setup.py/versioneer.py will grep for the variable names, so they must
     # each be defined on a line of their own. _version.py will just call
     # get_keywords().
-    git_refnames = "$Format:%d$"
+    git_refnames = """$Format:%d$"""
     git_full = "$Format:%H$"
     git_date = "$Format:%ci$"
     keywords = {"refnames": git_refnames, "full": git_full, "date": git_date}
@@ -141,7 +141,7 @@ def git_get_keywords(versionfile_abs):
         f = open(versionfile_abs, "r")
         for line in f.readlines():
             if line.strip().startswith("git_refnames ="):
-                mo = re.search(r'=\s*"(.*)"', line)
+                mo = re.search(r'=\s*"+(.*?)"+\s*$', line)
                 if mo:
                     keywords["refnames"] = mo.group(1)
             if line.strip().startswith("git_full ="):
@@ -177,7 +177,10 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         if verbose:
             print("keywords are unexpanded, not using")
         raise NotThisMethod("unexpanded keywords, not a git-archive tarball")
-    refs = set([r.strip() for r in refnames.strip("()").split(",")])
+    # Names can contain commas and parentheses but not spaces.
+    if refnames.startswith("("):
+        refnames = refnames[1:-1]
+    refs = set([r.strip() for r in refnames.split(", ")])
     # starting in git-1.8.3, tags are listed as "tag: foo-1.0" instead of
     # just "foo-1.0". If we see a "tag: " prefix, prefer those.
     TAG = "tag: "
diff --git a/versioneer.py b/versioneer.py
index 6c134a2..b4263f2 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -443,7 +443,7 @@ def get_keywords():
     # setup.py/versioneer.py will grep for the variable names, so they must
     # each be defined on a line of their own. _version.py will just call
     # get_keywords().
-    git_refnames = "%(DOLLAR)sFormat:%%d%(DOLLAR)s"
+    git_refnames = """%(DOLLAR)sFormat:%%d%(DOLLAR)s"""
     git_full = "%(DOLLAR)sFormat:%%H%(DOLLAR)s"
     git_date = "%(DOLLAR)sFormat:%%ci%(DOLLAR)s"
     keywords = {"refnames": git_refnames, "full": git_full, "date": git_date}
@@ -561,7 +561,7 @@ def git_get_keywords(versionfile_abs):
         f = open(versionfile_abs, "r")
         for line in f.readlines():
             if line.strip().startswith("git_refnames ="):
-                mo = re.search(r'=\s*"(.*)"', line)
+                mo = re.search(r'=\s*"+(.*?)"+\s*$', line)
                 if mo:
                     keywords["refnames"] = mo.group(1)
             if line.strip().startswith("git_full ="):
@@ -597,7 +597,10 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         if verbose:
             print("keywords are unexpanded, not using")
         raise NotThisMethod("unexpanded keywords, not a git-archive tarball")
-    refs = set([r.strip() for r in refnames.strip("()").split(",")])
+    # Names can contain commas and parentheses but not spaces.
+    if refnames.startswith("("):
+        refnames = refnames[1:-1]
+    refs = set([r.strip() for r in refnames.split(", ")])
     # starting in git-1.8.3, tags are listed as "tag: foo-1.0" instead of
     # just "foo-1.0". If we see a "tag: " prefix, prefer those.
     TAG = "tag: "
@@ -953,7 +956,7 @@ def git_get_keywords(versionfile_abs):
         f = open(versionfile_abs, "r")
         for line in f.readlines():
             if line.strip().startswith("git_refnames ="):
-                mo = re.search(r'=\s*"(.*)"', line)
+                mo = re.search(r'=\s*"+(.*?)"+\s*$', line)
                 if mo:
                     keywords["refnames"] = mo.group(1)
             if line.strip().startswith("git_full ="):
@@ -989,7 +992,10 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         if verbose:
             print("keywords are unexpanded, not using")
         raise NotThisMethod("unexpanded keywords, not a git-archive tarball")
-    refs = set([r.strip() for r in refnames.strip("()").split(",")])
+    # Names can contain commas and parentheses but not spaces.
+    if refnames.startswith("("):
+        refnames = refnames[1:-1]
+    refs = set([r.strip() for r in refnames.split(", ")])
     # starting in git-1.8.3, tags are listed as "tag: foo-1.0" instead of
     # just "foo-1.0". If we see a "tag: " prefix, prefer those.
     TAG = "tag: "
-- 
2.43.0


From 5c65a3eccbceb988377e0a19b8e2030a2900ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 13/20] fix: importing the package fails when git rev-list or
 git show fails

For instance, in a repository with missing commits and without tags.
---
 gcs/_version.py |  6 +++++-
 versioneer.py   | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index a090fe6..9a185e5 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -298,11 +298,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
diff --git a/versioneer.py b/versioneer.py
index b4263f2..4cf1667 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -718,11 +718,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
@@ -1113,11 +1117,15 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 706848100284357b5be2d888d1967e40c37449d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 14/20] fix: importing the package fails when git output is not
 UTF-8

---
 gcs/_version.py |  7 ++++++-
 versioneer.py   | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 9a185e5..a2428e0 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -95,7 +95,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode output of %s" % dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
diff --git a/versioneer.py b/versioneer.py
index 4cf1667..2de42e4 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -409,7 +409,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode output of %s" % dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -515,7 +520,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode output of %%s" %% dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %%s (error)" %% dispcmd)
-- 
2.43.0


From da07a82d88a5dccc1b0083a458942a722bde6838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 15/20] fix: versioneer setup appends to last lines without
 line end

Also, attributes of files whose names start with the name of the version
file were taken for attributes of the version file.
---
 versioneer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 2de42e4..71a8541 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1141,6 +1141,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     return pieces
 
 
+def append_line(filename, line):
+    """Append a line to a file, whose last line may lack the line end."""
+    with open(filename, "a+") as f:
+        f.seek(0)
+        contents = f.read()
+        if contents and not contents.endswith("\n"):
+            f.write("\n")
+        f.write(line + "\n")
+
+
 def do_vcs_install(manifest_in, versionfile_source, ipy):
     """Git-specific installation logic for Versioneer.
 
@@ -1165,16 +1175,14 @@ def do_vcs_install(manifest_in, versionfile_source, ipy):
     try:
         f = open(".gitattributes", "r")
         for line in f.readlines():
-            if line.strip().startswith(versionfile_source):
+            if line.split()[:1] == [versionfile_source]:
                 if "export-subst" in line.strip().split()[1:]:
                     present = True
         f.close()
     except EnvironmentError:
         pass
     if not present:
-        f = open(".gitattributes", "a+")
-        f.write("%s export-subst\n" % versionfile_source)
-        f.close()
+        append_line(".gitattributes", "%s export-subst" % versionfile_source)
         files.append(".gitattributes")
     run_command(GITS, ["add", "--"] + files)
 
@@ -1783,15 +1791,13 @@ def do_setup():
     # lines is safe, though.
     if "versioneer.py" not in simple_includes:
         print(" appending 'versioneer.py' to MANIFEST.in")
-        with open(manifest_in, "a") as f:
-            f.write("include versioneer.py\n")
+        append_line(manifest_in, "include versioneer.py")
     else:
         print(" 'versioneer.py' already in MANIFEST.in")
     if cfg.versionfile_source not in simple_includes:
         print(" appending versionfile_source ('%s') to MANIFEST.in" %
               cfg.versionfile_source)
-        with open(manifest_in, "a") as f:
-            f.write("include %s\n" % cfg.versionfile_source)
+        append_line(manifest_in, "include %s" % cfg.versionfile_source)
     else:
         print(" versionfile_source already in MANIFEST.in")
 
-- 
2.43.0


From d5effb2be0a844d6883f40fb886e2bdd62ce7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 16/20] fix: parentdir_prefix is None if it is not configured

---
 versioneer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/versioneer.py b/versioneer.py
index 71a8541..fcfb8eb 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -356,7 +356,7 @@ def get_config_from_root(root):
     cfg.tag_prefix = get(parser, "tag_prefix")
     if cfg.tag_prefix in ("''", '""'):
         cfg.tag_prefix = ""
-    cfg.parentdir_prefix = get(parser, "parentdir_prefix")
+    cfg.parentdir_prefix = get(parser, "parentdir_prefix") or ""
     cfg.verbose = get(parser, "verbose")
     return cfg
 
-- 
2.43.0


From a1903d0ef496b7f1a9021128f29fc724e311ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 17/20] fix: commit date with log.showSignature set and a
 signed commit

git show prints the verification of the signature before the date, which
became a part of the reported commit date.
---
 gcs/_version.py | 4 +++-
 versioneer.py   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index a2428e0..a7b0d02 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -308,7 +308,9 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+    # (with log.showSignature, git show would print more than the date)
+    date = run_command(GITS, ["-c", "log.showSignature=false",
+                              "show", "-s", "--format=%ci", "HEAD"],
                        cwd=root)[0]
     if date is None:
         raise NotThisMethod("'git show' failed")
diff --git a/versioneer.py b/versioneer.py
index fcfb8eb..2ea378f 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -733,7 +733,9 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%%ci", "HEAD"],
+    # (with log.showSignature, git show would print more than the date)
+    date = run_command(GITS, ["-c", "log.showSignature=false",
+                              "show", "-s", "--format=%%ci", "HEAD"],
                        cwd=root)[0]
     if date is None:
         raise NotThisMethod("'git show' failed")
@@ -1132,7 +1134,9 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+    # (with log.showSignature, git show would print more than the date)
+    date = run_command(GITS, ["-c", "log.showSignature=false",
+                              "show", "-s", "--format=%ci", "HEAD"],
                        cwd=root)[0]
     if date is None:
         raise NotThisMethod("'git show' failed")
-- 
2.43.0


From ea13a4ad267064cc4fd78cc2b21b848ef9e0fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:53 +0000
Subject: [PATCH 18/20] fix: versions computed while called from a hook of
 another repository

Git sets GIT_DIR (or GIT_WORK_TREE, GIT_INDEX_FILE) for its hooks; the
version was that of the repository of the hook, or unknown.
---
 gcs/_version.py |  7 +++++++
 versioneer.py   | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/gcs/_version.py b/gcs/_version.py
index a7b0d02..aa1e8ac 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -11,6 +11,7 @@
 """Git implementation of _version.py."""
 
 import errno
+import functools
 import os
 import re
 import subprocess
@@ -233,6 +234,12 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # Git directs its hooks to the repository that they are called for.
+    env = dict(os.environ)
+    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
+        env.pop(name, None)
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
diff --git a/versioneer.py b/versioneer.py
index 2ea378f..f8da245 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -282,6 +282,7 @@ try:
 except ImportError:
     import ConfigParser as configparser
 import errno
+import functools
 import json
 import os
 import re
@@ -436,6 +437,7 @@ LONG_VERSION_PY['git'] = '''
 """Git implementation of _version.py."""
 
 import errno
+import functools
 import os
 import re
 import subprocess
@@ -658,6 +660,12 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # Git directs its hooks to the repository that they are called for.
+    env = dict(os.environ)
+    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
+        env.pop(name, None)
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
@@ -1059,6 +1067,12 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
+    # Git directs its hooks to the repository that they are called for.
+    env = dict(os.environ)
+    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
+        env.pop(name, None)
+    run_command = functools.partial(run_command, env=env)
+
     out, rc = run_command(GITS, ["rev-parse", "--git-dir"], cwd=root,
                           hide_stderr=True)
     if rc != 0:
-- 
2.43.0


From 85832ea7caa52734fb2e5f3588688810c1ae4fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 19/20] fix: DM accepts dimensions that are not a permutation

Dimensions beyond the number of axes were dropped silently, and the constructor
accepted axes that are in several groups.
---
 gcs/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index 85c2536..ba651d8 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1006,6 +1006,7 @@ class DM(Storage):
 
         if dimensions is None:
             dimensions = tuple(range(dimensionality))
+        assert sorted(dimensions) == list(range(dimensionality)), dimensions
 
         if partitioning is None:
             if storage_class is Buffer or dimensionality == 1:
@@ -1068,6 +1069,7 @@ class DM(Storage):
                  data: Storage):
         assert set.union(*map(set, rdimensions)) == set(range(len(shape))), (
             set.union(*map(set, rdimensions)), set(range(len(shape))))
+        assert sum(map(len, rdimensions)) == len(shape), (rdimensions, shape)
 
         rshape, rshapes, _rstrides = make_reduction(shape, rdimensions)
         assert isinstance(shape, tuple)
-- 
2.43.0


From 223bf4d12ab2b7556af59c3e3e80311d334f960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 20/20] fix: versions computed while another repository
 receives objects

A pre-receive or update hook runs with GIT_OBJECT_DIRECTORY and
GIT_ALTERNATE_OBJECT_DIRECTORIES set to the objects of the repository
that it is called for: git then does not find the commits of the source
tree.
---
 gcs/_version.py | 3 ++-
 versioneer.py   | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index aa1e8ac..af0818c 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -236,7 +236,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
 
     # Git directs its hooks to the repository that they are called for.
     env = dict(os.environ)
-    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
+    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE",
+                 "GIT_OBJECT_DIRECTORY", "GIT_ALTERNATE_OBJECT_DIRECTORIES"):
         env.pop(name, None)
     run_command = functools.partial(run_command, env=env)
 
diff --git a/versioneer.py b/versioneer.py
index f8da245..cbf2387 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -662,7 +662,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
 
     # Git directs its hooks to the repository that they are called for.
     env = dict(os.environ)
-    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
+    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE",
+                 "GIT_OBJECT_DIRECTORY", "GIT_ALTERNATE_OBJECT_DIRECTORIES"):
         env.pop(name, None)
     run_command = functools.partial(run_command, env=env)
 
@@ -1069,7 +1070,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
 
     # Git directs its hooks to the repository that they are called for.
     env = dict(os.environ)
-    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
+    for name in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE",
+                 "GIT_OBJECT_DIRECTORY", "GIT_ALTERNATE_OBJECT_DIRECTORIES"):
         env.pop(name, None)
     run_command = functools.partial(run_command, env=env)
 
-- 
2.43.0

