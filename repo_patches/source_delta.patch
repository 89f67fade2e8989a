From 7fdae8d4dc55b8bcf1ddfdbfc0e86fa9c7e6c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 01/60] fix: resolve_path() ignored an empty (falsy) root
 document

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ec3975c..e5e6603 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1231,7 +1231,7 @@ def resolve_path(doc, path, default=_scream, root=None):
 
     def resolve_root(d, p):
         if not p:
-            return root or doc
+            return doc if root is None else root
         raise ValueError()
 
     part_resolvers = [
-- 
2.43.0


From 84e0ab010d7d1cdd1944998e29b3dde9c0bcb584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 02/60] fix: set_jsonpointer() crashed with UnboundLocalError
 on an empty pointer, not the documented RefResolutionError

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e5e6603..b1d50e7 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1266,6 +1266,8 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
     """
 
     parts = list(iter_jsonpointer_parts(jsonpointer))
+    if not parts:
+        raise RefResolutionError("Cannot set empty JSON pointer(%r)!" % jsonpointer)
 
     # Will scream if used on 1st iteration.
     #
-- 
2.43.0


From 1e3ff604454d925880ecd1577eb69516471d0c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 03/60] fix: set_jsonpointer() appended to sequences on
 negative out-of-bounds indices, instead of rejecting them

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index b1d50e7..0431be6 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1289,7 +1289,7 @@ def set_jsonpointer(doc, jsonpointer, value, object_factory=dict):
                         % (part, jsonpointer, i)
                     )
                 else:
-                    if part > doclen:
+                    if not -doclen <= part <= doclen:
                         raise RefResolutionError(
                             "Index(%s) out of bounds(%i) of (%r)[%i]"
                             % (part, doclen, jsonpointer, i)
-- 
2.43.0


From bc694e5e28d61eabbc597f217b91d2a1e3094d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 04/60] fix: encased xl-refs got an unknown "xl-ref" field,
 breaking their capture

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index 18a4017..ffd3c3e 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -477,7 +477,7 @@ def parse_xlref(xlref):
         else:
             if m:
                 res = _parse_xlref(m.group(2))
-                res["xl-ref"] = xlref
+                res["xl_ref"] = xlref
             else:
                 raise ex
 
-- 
2.43.0


From 9f4b2162f1db3244283451fafe58179964f633dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 05/60] fix: encased xl-refs with filters were rejected as
 invalid JSON

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index ffd3c3e..b49b926 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -469,7 +469,7 @@ def parse_xlref(xlref):
     """
     try:
         res = _parse_xlref(xlref)
-    except SyntaxError as ex:
+    except (SyntaxError, ValueError) as ex:
         try:
             m = _encase_regex.match(xlref)
         except SyntaxError:
-- 
2.43.0


From 26fbc77011de719efe853304e5300ecfb8649dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:11 +0000
Subject: [PATCH 06/60] fix: a '!' inside the filters of an xl-ref was mistaken
 for the sheet separator

---
 pandalone/xleash/_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_parse.py b/pandalone/xleash/_parse.py
index b49b926..2a70d4e 100644
--- a/pandalone/xleash/_parse.py
+++ b/pandalone/xleash/_parse.py
@@ -144,7 +144,7 @@ def Edge_new(row, col, mov=None, mod=None, default=None):
 _encase_regex = re.compile(r'^\s*(?P<q>[/\\"$%&])(.+)(?P=q)\s*$', re.DOTALL)
 _regular_xlref_regex = re.compile(
     r"""
-    ^\s*(?:(?P<sh_name>[^!]+)?!)?                            # xl sheet name
+    ^\s*(?:(?P<sh_name>[^!:]+)?!)?                           # xl sheet name
     (?:                                                      # 1st-edge
         (?:
             (?:
-- 
2.43.0


From 27b86161d87d24906de727a093a2e1b544642b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 07/60] fix: coords counted from the end could wrap around the
 start of the sheet

---
 pandalone/xleash/_capture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 190ed8a..1acf767 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -270,6 +270,8 @@ def _resolve_coord(cname, cfunc, coord, up_coord, dn_coord, base_coords=None):
             # Resolve negatives as from the end.
             if rcoord < 0:
                 rcoord = dn_coord + rcoord + 1
+                if rcoord < 0:
+                    raise ValueError("Coord is before the start of the sheet!")
 
         return rcoord
     except Exception as ex:
-- 
2.43.0


From d9fac1bd571fdc0cf7aebabd0e46850d7f1cb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:38 +0000
Subject: [PATCH 08/60] fix: coords2Cell() crashed on columns beyond ZZ

---
 pandalone/xleash/_capture.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pandalone/xleash/_capture.py b/pandalone/xleash/_capture.py
index 1acf767..4bc8bcf 100644
--- a/pandalone/xleash/_capture.py
+++ b/pandalone/xleash/_capture.py
@@ -22,12 +22,22 @@ from ._parse import Cell
 
 log = logging.getLogger(__name__)
 
-try:
-    from xlrd import colname as xl_colname
 
-    # TODO: Try different backends providing `colname` function.
-except ImportError:
-    log.warning("One of `xlrd`, `...` libraries is needed, will crash later!")
+def xl_colname(col):
+    """
+    The Excel letters of a zero-based column, the inverse of :func:`_col2num()`.
+
+    Examples::
+
+        >>> xl_colname(25), xl_colname(26), xl_colname(702)
+        ('Z', 'AA', 'AAA')
+    """
+    name = ""
+    while col >= 0:
+        col, letter = divmod(col, 26)
+        name = ascii_uppercase[letter] + name
+        col -= 1
+    return name
 
 
 CHECK_CELLTYPE = False
-- 
2.43.0


From 5e7bc02d30a32b9aa378ed1d07fa3ddc1a1219ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 09/60] fix: redim filter converted the values of mixed types
 to texts or floats

---
 pandalone/xleash/_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 904bc6a..043cdb9 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -158,7 +158,8 @@ def _redim(values, new_ndim):
     if new_ndim is None:
         return values
 
-    values = np.asarray(values)
+    # Preserve the type of each value (i.e. numbers mixed with texts).
+    values = np.asarray(values, dtype=object)
     try:
         new_ndim, transpose = new_ndim
         if transpose:
-- 
2.43.0


From e4b73524c2d31fc1f51af7d0017d59165360bde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 10/60] fix: redim filter failed squeezing non-adjacent trivial
 dimensions

---
 pandalone/xleash/_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 043cdb9..a16300d 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -112,8 +112,7 @@ def _downdim(values, new_ndim):
     elif offset == trivial_ndims:
         values = values.squeeze()
     else:
-        for _, indx in zip(range(offset), trivial_indxs):
-            values = values.squeeze(indx)
+        values = values.squeeze(tuple(trivial_indxs[:offset]))
 
     return values
 
-- 
2.43.0


From d99abf36be7a2825d7b94a10ca1d9693483b889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 11/60] fix: filter calls lost their lax flag after the 1st
 invocation

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index fc3a5d8..9a34984 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -113,6 +113,7 @@ class Ranger(object):
         lasso = self._relasso(lasso, func_name)
 
         verbose = lasso.opts.get("verbose", False)
+        kwds = dict(kwds)  # The call-spec may be invoked again.
         lax = kwds.pop("lax", lasso.opts.get("lax", False))
         func, func_desc = "", ""
         try:
-- 
2.43.0


From 12014f4e5fc0d1511ac9215d2cfa869861cab433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 12/60] fix: opts in the xl-ref replaced all base-opts, instead
 of overlaying them

---
 pandalone/xleash/_lasso.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 9a34984..49e113b 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -157,6 +157,7 @@ class Ranger(object):
         try:
             parsed_fields = _parse.parse_xlref(xlref)
             filled_fields = dtz.valfilter(lambda v: v is not None, parsed_fields)
+            filled_fields["opts"] = init_lasso.opts.new_child(parsed_fields["opts"])
             init_lasso = init_lasso._replace(**filled_fields)
         except SyntaxError:
             raise
-- 
2.43.0


From 11f0043fab36bd11c622cca0165c6d2035ffb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 13/60] fix: SimpleSheetsFactory crashed when opening sibling
 sheets

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 632e534..3e44d22 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -78,7 +78,7 @@ class SimpleSheetsFactory(object):
             if sheet_id is None:
                 sheet = base_sheet
             else:
-                base_sheet.open_sibling_sheet(sheet_id)
+                sheet = base_sheet.open_sibling_sheet(sheet_id)
         else:
             url = utils.path2url(wb_url)
             sheet = self._open_sheet(url, sheet_id)
-- 
2.43.0


From cfb50ba175c319bdfc4b3cc6cd68078dc275a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:42 +0000
Subject: [PATCH 14/60] fix: dates of 1904-epoch workbooks were read in the
 1900 epoch

---
 pandalone/xleash/io/_xlrd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index df8548a..ceff3b4 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -139,7 +139,7 @@ def _open_sheet_by_name_or_index(xlrd_book, wb_id, sheet_id):
                 raise xl_ex from None
             else:
                 xl_sh = xlrd_book.sheet_by_index(sheet_id)
-    return XlrdSheet(xl_sh, wb_id)
+    return XlrdSheet(xl_sh, wb_id, epoch1904=bool(xlrd_book.datemode))
 
 
 class XlrdSheet(ABCSheet):
-- 
2.43.0


From 720a8493eb2f44b5826cb0ba9a0e53c2786fe337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 15/60] fix: ArraySheet converted the values of mixed types to
 texts or floats

---
 pandalone/xleash/io/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/io/backend.py b/pandalone/xleash/io/backend.py
index 3e44d22..98a5d37 100644
--- a/pandalone/xleash/io/backend.py
+++ b/pandalone/xleash/io/backend.py
@@ -436,7 +436,7 @@ class ArraySheet(ABCSheet):
     """A sample :class:`ABCSheet` made out of 2D-list or numpy-arrays, for facilitating tests."""
 
     def __init__(self, arr, ids=SheetId("wb", ["sh", 0])):
-        self._arr = np.asarray(arr)
+        self._arr = np.asarray(arr, dtype=object)
         self._ids = ids
 
     def open_sibling_sheet(self, sheet_id):
-- 
2.43.0


From 5a5e927152b969327d7324d49b4eedf3cd9f956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:16 +0000
Subject: [PATCH 16/60] fix: relative coords of recursed xl-refs ignored the
 position of their cell when pandas is installed

---
 pandalone/xleash/_filter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index a16300d..7d233bb 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -285,15 +285,15 @@ def run_filter_elementwise(
             try:
                 import pandas as pd
             except ImportError:
-                if cdepth == 0:
-                    row += i
-                elif cdepth == 1:
-                    col += +i
-            else:
-                if isinstance(elval, pd.DataFrame):
-                    col += i
-                elif isinstance(elval, pd.Series):
-                    row += i
+                pd = None
+            if pd and isinstance(elval, pd.DataFrame):
+                col += i
+            elif pd and isinstance(elval, pd.Series):
+                row += i
+            elif cdepth == 0:
+                row += i
+            elif cdepth == 1:
+                col += i
 
             return row, col
 
-- 
2.43.0


From 68a60325c4c548c56170101f38f97699b405347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:47 +0000
Subject: [PATCH 17/60] fix: failures resolving xl-refs with a single edge
 crashed with TypeError while reporting them

---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 49e113b..b6c2be1 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -39,7 +39,7 @@ def _build_call_help(name, func, desc):
 def _Lasso_to_edges_str(lasso):
     st = lasso.st_edge if lasso.st_edge else ""
     nd = lasso.nd_edge if lasso.nd_edge else ""
-    s = st if st and not nd else "%s:%s" % (st, nd)
+    s = str(st) if st and not nd else "%s:%s" % (st, nd)
     exp = ":%s" % lasso.exp_moves.upper() if lasso.exp_moves else ""
     return s + exp
 
-- 
2.43.0


From 496594011b5d67ce9fd9806231ac6aedc04c2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 18/60] fix: failing filters broke out of their lax flag when
 verbose

---
 pandalone/xleash/_lasso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index b6c2be1..e01331a 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -31,8 +31,8 @@ log = logging.getLogger(__name__)
 
 
 def _build_call_help(name, func, desc):
-    sig = func and inspect.formatargspec(*inspect.getfullargspec(func))
-    desc = textwrap.indent(textwrap.dedent(desc), "    ")
+    sig = func and inspect.signature(func)
+    desc = textwrap.indent(textwrap.dedent(desc or ""), "    ")
     return "\n\nFilter: %s%s:\n%s" % (name, sig, desc)
 
 
-- 
2.43.0


From d0566584967b3dc0f05d8148f93c2c76a668c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 19/60] fix: lax filters returning no lasso leaked their result
 in place of the lasso

---
 pandalone/xleash/_lasso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index e01331a..53a6712 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -119,11 +119,12 @@ class Ranger(object):
         try:
             func_rec = self.available_filters[func_name]
             func, func_desc = parse_avail_func_rec(**func_rec)
-            lasso = func(self, lasso, *args, **kwds)
-            assert isinstance(lasso, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
+            res = func(self, lasso, *args, **kwds)
+            assert isinstance(res, Lasso), "Filter(%r) returned not a Lasso(%r)!" % (
                 func_name,
-                lasso,
+                res,
             )
+            lasso = res
         except Exception as ex:
             if verbose:
                 func_desc = _build_call_help(func_name, func, func_desc)
-- 
2.43.0


From 17eccad5759d4fc415b19f94f529974af40f6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 20/60] fix: Pandel.get() returned nothing

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 0431be6..64178cf 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1041,7 +1041,7 @@ class Pandel(object):
         return self.model
 
     def get(self, path, **kws):
-        resolve_jsonpointer(self.model, path, **kws)
+        return resolve_jsonpointer(self.model, path, **kws)
 
 
 def escape_jsonpointer_part(part):
-- 
2.43.0


From 566add8f6d4eec58b3f582f31084f6dc3172833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 21/60] fix: merging models crashed or mangled values
 overwriting others of different types

---
 pandalone/pandata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 64178cf..81f9e79 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -879,6 +879,12 @@ class Pandel(object):
     def _clone_and_merge_submodels(self, a, b, path=""):
         """' Recursively merge b into a, cloning both. """
 
+        # Only mappings (pandas included) merge, the rest overwrite.
+        if b is not None and not (
+            isinstance(a, cabc.Mapping) and isinstance(b, cabc.Mapping)
+        ):
+            a = None
+
         if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
             a = pd.DataFrame() if a is None else pd.DataFrame(a)
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
-- 
2.43.0


From d2b75e4a688bd48603eb5f4e59c8db9bb0771f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 22/60] fix: merging models shared branches with their
 submodels, and updated their frames in place

---
 pandalone/pandata.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 81f9e79..fa6406f 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -19,6 +19,7 @@ import numbers
 import pickle
 import re
 from collections import namedtuple
+from copy import deepcopy
 from json.decoder import JSONDecoder
 from json.encoder import JSONEncoder
 from typing import Union
@@ -886,7 +887,7 @@ class Pandel(object):
             a = None
 
         if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
-            a = pd.DataFrame() if a is None else pd.DataFrame(a)
+            a = pd.DataFrame() if a is None else pd.DataFrame(a, copy=True)
             b = pd.DataFrame() if b is None else pd.DataFrame(b)
 
             a.update(b)  # , 'outer') NOT IMPL YET
@@ -894,14 +895,18 @@ class Pandel(object):
             a[extra_b_items] = b[extra_b_items]
 
         elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
-            a = pd.Series() if a is None else pd.Series(a)
+            a = pd.Series() if a is None else pd.Series(a, copy=True)
             b = pd.Series() if b is None else pd.Series(b)
             # a.update(b) # DOES NOT append extra keys!
             a = b.combine_first(a)
 
         elif isinstance(a, cabc.Mapping) or isinstance(b, cabc.Mapping):
-            a = {} if a is None else {**a}
             b = {} if b is None else {**b}
+            a = (
+                {}
+                if a is None
+                else {k: v if k in b else deepcopy(v) for k, v in a.items()}
+            )
 
             for key in b:
                 b_val = b[key]
@@ -910,7 +915,7 @@ class Pandel(object):
                         a[key], b_val, "%s/%s" % (path, key)
                     )
                 else:
-                    val = b_val
+                    val = deepcopy(b_val)
                 a[key] = val
 
         elif (isinstance(a, cabc.Sequence) and not isinstance(a, str)) or (
@@ -934,6 +939,7 @@ class Pandel(object):
         else:
             if b is not None:
                 a = b
+            a = deepcopy(a)
 
         return a
 
-- 
2.43.0


From cc71d73ed9abdef2b31bce1fa4eba2890e872ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 23/60] fix: pre-validation inserted schema-defaults into the
 submodels, overriding values of lower ones

---
 pandalone/pandata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index fa6406f..7a2a665 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -952,7 +952,8 @@ class Pandel(object):
         "Step-1"
         for (mdl, path_ops) in self._submodel_tuples:
             schema = self._get_json_schema(is_prevalidation=True)
-            for err in self._validate_json_model(schema, mdl):
+            # The validator inserts defaults, which must not override lower submodels.
+            for err in self._validate_json_model(schema, deepcopy(mdl)):
                 yield err
 
     def _merge(self):
-- 
2.43.0


From fab13ea4f3294e8c89b904385cd295cfdaf4fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 24/60] fix: validated instances shared (and altered) the
 mutable defaults of their schema

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 7a2a665..374e2d7 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -291,7 +291,7 @@ def _rule_auto_defaults_properties(
                 and _is_null(None, instance[property])
             )
         ):
-            instance[property] = subschema["default"]
+            instance[property] = deepcopy(subschema["default"])
         elif (
             first_defined(subschema.get("autoRemoveNull"), auto_remove_nulls)
             and not _is_null_in_type(subschema.get("type"))
-- 
2.43.0


From f691f1c89dfa701eedddb831b891a252dca1ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:35 +0000
Subject: [PATCH 25/60] fix: units in angle-brackets were rejected when having
 a ')' and mis-split when having a '>'

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 374e2d7..dd1d5f8 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -45,7 +45,7 @@ _value_with_units_regex = re.compile(
                                             \]
                                             |
                                             <              # units enclosed in <>
-                                                [^)]*
+                                                [^>]*
                                             >
                                         )?                  # end parenthesized-units
                                         \s*$""",
-- 
2.43.0


From 3651199189842f893debdf41ebeb0882418dd6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:35 +0000
Subject: [PATCH 26/60] fix: errors yielded by overridden build-steps did not
 stop the build of the model

---
 pandalone/pandata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index dd1d5f8..023155c 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1018,6 +1018,7 @@ class Pandel(object):
         for (i, (step, step_name)) in enumerate(steps, start=1):
             try:
                 for err in step():
+                    self._errored = True
                     yield err
             except ValidationError as ex:
                 self._errored = True
-- 
2.43.0


From bb3e4009a43f702ce43efb75c4825601fd996a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 27/60] fix: children of path-steps mapped to the root were
 lost when accessed again

---
 pandalone/mappings.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index ddfe008..b5eb165 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1056,7 +1056,7 @@ class Pstep(str):
         attrs = None
         if pname is None:
             pname = ""
-        if maps:
+        if maps or isinstance(maps, Pstep):
             if isinstance(maps, (list, tuple, Pmod)):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
@@ -1096,7 +1096,8 @@ class Pstep(str):
                         pmod._alias = alias
                     else:
                         self._pmod = Pmod(_alias=alias)
-        csteps[ckey] = child = Pstep(ckey, existing_cstep or self._pmod, alias)
+        maps = self._pmod if existing_cstep is None else existing_cstep
+        csteps[ckey] = child = Pstep(ckey, maps, alias)
 
         return child
 
@@ -1107,8 +1108,9 @@ class Pstep(str):
             if attr.startswith("_") or attr in _forbidden_pstep_attrs:
                 raise
             csteps = self._csteps
-            child = csteps and csteps.get(attr, None)
-            return child or self.__make_cstep(attr)
+            # Note that a (falsy) empty-string child, "rooting" the path, does exist.
+            child = csteps.get(attr, None) if csteps else None
+            return self.__make_cstep(attr) if child is None else child
 
     def __setattr__(self, attr, value):
         if attr.startswith("_"):
-- 
2.43.0


From 793ebc77e05ee3003013e25b403a82e8c64b5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 28/60] fix: path-trees ignored mappings to the root
 (empty-string)

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index b5eb165..0e1a589 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1061,7 +1061,7 @@ class Pstep(str):
                 if isinstance(maps, (list, tuple)):
                     maps = pmods_from_tuples(maps)
                 pmod, m_alias = maps.descend(pname)
-                if alias is None and m_alias:
+                if alias is None and m_alias is not None:
                     # TODO: Add Escape-path TCs.
                     alias = unescape_jsonpointer_part(m_alias)
             elif not isinstance(maps, Pstep):
-- 
2.43.0


From 59317f9494ed10ce3611f016309dee5c473eada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 29/60] fix: renaming a path-step altered the mappings shared
 with other path-trees

---
 pandalone/mappings.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 0e1a589..0697ec4 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1091,11 +1091,10 @@ class Pstep(str):
                 # Update my mappings for `b` when ``self.b = "foo"``.
                 #
                 if alias is not None:
-                    pmod = self._pmod
-                    if pmod:
-                        pmod._alias = alias
-                    else:
-                        self._pmod = Pmod(_alias=alias)
+                    # Merge, because mappings may be shared with other psteps.
+                    #
+                    pmod = Pmod(_steps={ckey: Pmod(_alias=alias)})
+                    self._pmod = self._pmod._merge(pmod) if self._pmod else pmod
         maps = self._pmod if existing_cstep is None else existing_cstep
         csteps[ckey] = child = Pstep(ckey, maps, alias)
 
-- 
2.43.0


From 85b2b82970b0fb627056467b20e171a6e3ff891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:28 +0000
Subject: [PATCH 30/60] fix: path-trees with steps relocated to absolute paths
 had invalid paths

---
 pandalone/mappings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 0697ec4..4b69db4 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1247,12 +1247,18 @@ class Pstep(str):
             orig = s._orig
             return "(%s-->%s)" % (orig, s) if s != orig else s
 
+        def split_steps(s):
+            return (s[:-1] if len(s) > 1 and s.endswith("/") else s).split("/")
+
         paths = []
         for path in self._iter_hierarchy():
             send = path[-1]
             if (tag and tag in send._tags) or (not tag and not send._csteps):
                 if with_orig:
                     path = [append_orig(s) for s in path]
+                else:
+                    # Relocated psteps contain many steps, and may "root" the path.
+                    path = [step for s in path for step in split_steps(s)]
                 paths.append(_join_paths(*path))
 
         return sorted(set(paths))
-- 
2.43.0


From 4cdd2d54b3338f4fceff56fb0843951b65637062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:28 +0000
Subject: [PATCH 31/60] fix: locked path-steps could be renamed/relocated by
 assignments

---
 pandalone/mappings.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 4b69db4..4d23e11 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1096,7 +1096,11 @@ class Pstep(str):
                     pmod = Pmod(_steps={ckey: Pmod(_alias=alias)})
                     self._pmod = self._pmod._merge(pmod) if self._pmod else pmod
         maps = self._pmod if existing_cstep is None else existing_cstep
-        csteps[ckey] = child = Pstep(ckey, maps, alias)
+        child = Pstep(ckey, maps, alias)
+        if alias is not None and existing_cstep is not None:
+            # Scream if locked pstep would be renamed/relocated.
+            child._locked = existing_cstep._locked
+        csteps[ckey] = child
 
         return child
 
-- 
2.43.0


From 5b7ef81cc70c32340da8daf45408bcfe08268d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 32/60] fix: obj2bool() rejected any true object but texts

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 40f5252..04baabc 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -81,7 +81,7 @@ def obj2bool(v):
         >>> obj2bool(None) == obj2bool('') == obj2bool(0) == False
         True
     """
-    return bool(v) and str2bool(v)
+    return str2bool(v) if isinstance(v, str) else bool(v)
 
 
 def is_travis():  # pragma: no cover
-- 
2.43.0


From f8445183be009113e55f9cac84dc437888b92e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 33/60] fix: long paths got the UNC-prefix appended at their
 end, and on any OS

---
 pandalone/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 04baabc..f393c37 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -182,8 +182,8 @@ def urlpath2path(url):
     p = ur.url2pathname(url)
     if _is_dir_regex.search(url) and p[-1] != os.sep:
         p = p + osp.sep
-    if len(p) > 200:
-        p += _unc_prefix
+    if os.sep == "\\" and len(p) > 200:
+        p = _unc_prefix + p
     return p
 
 
-- 
2.43.0


From 4c4e1c060e8cf88ea15c65b2ccb576489ee6f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 34/60] fix: path2urlpath() left the last slash of the
 UNC-prefix

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index f393c37..b2a223b 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -168,7 +168,7 @@ def path2urlpath(path):
     import urllib.request as ur
 
     if path.startswith(_unc_prefix):
-        path = path[3:]
+        path = path[len(_unc_prefix) :]
     u = ur.pathname2url(path)
     if _is_dir_regex.search(path) and u[-1] != "/":
         u = u + "/"
-- 
2.43.0


From 3e8bb680ba03e3f81b5b9b3cea708a1618e1bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 35/60] fix: many last slashes of a path were dropped, and a
 newline after one of them was missed

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index b2a223b..0646df8 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -130,7 +130,7 @@ def first_line(doc):
 
 
 _file_drive_regex = re.compile(r"^([a-z]):(/)?(.*)$", re.I)
-_is_dir_regex = re.compile(r"[^/\\][/\\]$")
+_is_dir_regex = re.compile(r"[^/\\][/\\]+\Z")
 _unc_prefix = "\\\\?\\"
 
 
-- 
2.43.0


From baeb05f8a348e89f5ec9c63932f7014a6c0501a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 36/60] fix: make_unique_filename() ignored the generator of
 file-names given

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 0646df8..8d432e3 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -255,7 +255,7 @@ def generate_filenames(filename):
 
 
 def make_unique_filename(fname, filegen=generate_filenames):
-    fname_genor = generate_filenames(fname)
+    fname_genor = filegen(fname)
     fname = next(fname_genor)
     while os.path.exists(fname):
         fname = next(fname_genor)
-- 
2.43.0


From 1cf9b14e48e286e56549b9b87011a82ca58ca3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 37/60] fix: extensions given without dot matched the end of
 others, or not at all when regexes

---
 pandalone/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 8d432e3..b7f6a34 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -311,15 +311,19 @@ def ensure_file_ext(fname, ext, *exts, is_regex=False):
         'foo.xl^.xls'
 
     """
+    def dotted(e):
+        return e if not e or e.startswith(".") else "." + e
+
     _, file_ext = os.path.splitext(fname)
 
     if is_regex:
         ends_with_ext = any(
-            re.match(e + "$", file_ext, re.IGNORECASE) for e in (re.escape(ext),) + exts
+            re.match(e + "$", file_ext, re.IGNORECASE)
+            for e in (re.escape(dotted(ext)),) + exts
         )
     else:
         file_ext = file_ext.lower()
-        ends_with_ext = any(file_ext.endswith(e.lower()) for e in (ext,) + exts)
+        ends_with_ext = any(file_ext.endswith(dotted(e).lower()) for e in (ext,) + exts)
 
     if not ends_with_ext:
         if fname[-1] == ".":
-- 
2.43.0


From fa65d739f9b76dcc501a8a14969ccb1ec3b89c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 38/60] fix: ensure_dir_exists() passed when a file or broken
 link was in the place of the directory

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index b7f6a34..77ba136 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -349,7 +349,7 @@ def ensure_dir_exists(path, mode=0o755):
         try:
             os.makedirs(path, mode=mode)
         except OSError as e:
-            if e.errno != errno.EEXIST:
+            if e.errno != errno.EEXIST or not os.path.isdir(path):
                 raise
     elif not os.path.isdir(path):
         raise IOError("%r exists but is not a directory" % path)
-- 
2.43.0


From 87e052576d336acfd9509e99291b6a1863442331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:23 +0000
Subject: [PATCH 39/60] fix: py_where() located programs ending in `com`,
 instead of having it as extension

---
 pandalone/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 77ba136..7debd7a 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -357,7 +357,7 @@ def ensure_dir_exists(path, mode=0o755):
 
 def py_where(program, path=None):
     # From: http://stackoverflow.com/a/377028/548792
-    winprog_exts = (".bat", "com", ".exe")
+    winprog_exts = (".bat", ".com", ".exe")
 
     def is_exec(fpath):
         return (
-- 
2.43.0


From edb63b68b281f128aad9cb88c1f9376628a101ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 40/60] fix: LoggerWriter dropped two line endings from texts
 like 'a\n\r\n'

---
 pandalone/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 7debd7a..64f9394 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -424,6 +424,7 @@ class LoggerWriter:
             for le in line_endings:
                 if msg.endswith(le):
                     msg = msg[: -len(le)]
+                    break
             if msg:
                 self.logger.log(self.level, msg)
 
-- 
2.43.0


From f2291866db30e7449edb44d301dc5d03809ce646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 41/60] fix: path2url() added a `/.` path to remote URLs
 without any path

---
 pandalone/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 64f9394..203a882 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -239,7 +239,8 @@ def path2url(path, expandvars=False, expanduser=False):
         p = parts.path
         if parts.scheme == "file" and expanduser:
             p = osp.expanduser(p)
-        p = normpath(p).replace("\\", "/")
+        if p:
+            p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
 
     return path
-- 
2.43.0


From 6965d4b48873023a3ba1910b090dfd09a464af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:00 +0000
Subject: [PATCH 42/60] fix: path2url() ignored `expanduser`, because paths
 were made absolute before

---
 pandalone/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pandalone/utils.py b/pandalone/utils.py
index 203a882..07edece 100644
--- a/pandalone/utils.py
+++ b/pandalone/utils.py
@@ -210,6 +210,9 @@ def path2url(path, expandvars=False, expanduser=False):
     if path:
         if expandvars:
             path = osp.expandvars(path)
+        if expanduser:
+            # Only effective on leading `~`, lost when joined below.
+            path = osp.expanduser(path)
 
         # Trim UNCs, urljoin() makes nonsense, path2urlpath() just fails.
         if path.startswith(_unc_prefix):
@@ -233,12 +236,8 @@ def path2url(path, expandvars=False, expanduser=False):
             baseurl = up.urljoin("file:", cwd)
             path = up.urljoin(baseurl, path)
 
-        # Expand vars, conditionally on remote or local URL.
-        #
         parts = up.urlsplit(path)
         p = parts.path
-        if parts.scheme == "file" and expanduser:
-            p = osp.expanduser(p)
         if p:
             p = normpath(p).replace("\\", "/")
         path = up.urlunsplit(parts._replace(path=p))
-- 
2.43.0


From acb6c7677288e645af2381d3207da596b12c95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:08 +0000
Subject: [PATCH 43/60] fix: enums accepted booleans for 0/1, and floats for
 booleans

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 023155c..c81a3bc 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -307,7 +307,7 @@ def _rule_auto_defaults_properties(
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
     unbool = jsonschema._utils.unbool
-    if instance is 0 or instance is 1:
+    if isinstance(instance, (int, float, np.bool_, np.number)) and instance in (0, 1):
         unbooled = unbool(instance)
         if all(unbooled != unbool(each) for each in enums):
             yield ValidationError("%r is not one of %r" % (instance, enums))
-- 
2.43.0


From 46f0250745e9e775f46ef7c004a479b6724c5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:08 +0000
Subject: [PATCH 44/60] fix: only the first of the VBA modules asked was
 removed

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2358ab7..0457270 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -119,7 +119,7 @@ def _remove_vba_modules(xl_vbcs, *mod_names_to_del):
 
     # Comparisons are case-insensitive.
     if mod_names_to_del:
-        mod_names_to_del = map(str.lower, mod_names_to_del)
+        mod_names_to_del = [n.lower() for n in mod_names_to_del]
 
     # Gather all workbook vba-modules.
     xl_mods = [xl_vbc for xl_vbc in xl_vbcs if xl_vbc.Type == XL_TYPE_MODULE]
-- 
2.43.0


From e7f881a11b442c51ea6162f5e9342f4c43986df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 45/60] fix: auto-defaulting crashed on boolean
 property-schemas

---
 pandalone/pandata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index c81a3bc..80bc23d 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -278,6 +278,8 @@ def _rule_auto_defaults_properties(
         return
 
     for property, subschema in properties.items():
+        if isinstance(subschema, bool):
+            continue  # Boolean schemas have no defaults.
         prop_given = property in instance
         if "default" in subschema and (
             (
-- 
2.43.0


From a80b516b93debd5ebd9ca1a9da56d4720a4b2356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:27 +0000
Subject: [PATCH 46/60] fix: Excel's alerts remained off when saving the
 workbook failed

---
 pandalone/xlsutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 0457270..2f468ae 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -179,13 +179,17 @@ def _save_workbook(xl_workbook, path):
         # directory
         path = os.path.join(os.getcwd(), xl_workbook.Name)
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
     elif path:
         # Save under new name/location
         xl_workbook.Application.DisplayAlerts = False
-        xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
-        xl_workbook.Application.DisplayAlerts = True
+        try:
+            xl_workbook.SaveAs(path, FileFormat=xlOpenXMLWorkbookMacroEnabled)
+        finally:
+            xl_workbook.Application.DisplayAlerts = True
 
 
 def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
-- 
2.43.0


From 49630bd54b75260b16d89a85d6f2b7ccb1e4ca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:41 +0000
Subject: [PATCH 47/60] fix: workbooks were not saved at all when the new
 file-name was empty

---
 pandalone/xlsutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xlsutils.py b/pandalone/xlsutils.py
index 2f468ae..b2e6134 100644
--- a/pandalone/xlsutils.py
+++ b/pandalone/xlsutils.py
@@ -204,7 +204,7 @@ def _save_excel_as_macro_enabled(xl_wb, new_fname=None):
                 xl_wb.FullName,
                 new_fname,
             )
-    _save_workbook(xl_wb, new_fname)
+    _save_workbook(xl_wb, new_fname or None)
 
     return new_fname
 
-- 
2.43.0


From 7c3f2ebb07174cf21e1af240a19c56c4c8290e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:18 +0000
Subject: [PATCH 48/60] fix: components mapped to the root (empty-string) had
 no inputs/outputs

---
 pandalone/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pandalone/components.py b/pandalone/components.py
index b001d32..e0326fb 100644
--- a/pandalone/components.py
+++ b/pandalone/components.py
@@ -197,7 +197,8 @@ class FuncComponent(Component):
         self._cfunc(self, *args, **kws)
 
     def _fetch_all_paths(self, pstep):
-        return pstep._paths() if pstep else []
+        # Note that a (falsy) empty-string step, when mapped to the root, has paths.
+        return [] if pstep is None else pstep._paths()
 
     def pinp(self, path=None):
         """The suggested :class:`Pstep` for cfunc to use to access inputs."""
-- 
2.43.0


From 343ec031946a53c0989a52ea409dd168d0551ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 49/60] fix: JSON-codec corrupted the newlines of pickles when
 not all of the same kind

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 80bc23d..249d9d0 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1446,7 +1446,7 @@ class JSONCodec:
     class Encoder(JSONEncoder):
         def encode(self, o):
             pickle_bytes = pickle.dumps(o)
-            pickle_str = binascii.b2a_qp(pickle_bytes).decode(encoding="utf8")
+            pickle_str = binascii.b2a_qp(pickle_bytes, istext=False).decode(encoding="utf8")
             o = {JSONCodec._obj: pickle_str, JSONCodec._ver_key: JSONCodec._ver}
             return JSONEncoder.encode(self, o)
 
-- 
2.43.0


From ac09c74e7ef4dc08df2ef11c74f4b9ab1caeb04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:17 +0000
Subject: [PATCH 50/60] fix: JSON-decoder crashed on plain JSON other than
 objects

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 249d9d0..2d08ee3 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -1453,7 +1453,7 @@ class JSONCodec:
     class Decoder(JSONDecoder):
         def decode(self, s):
             o = JSONDecoder.decode(self, s)
-            pickle_str = o.get(JSONCodec._obj, None)
+            pickle_str = o.get(JSONCodec._obj, None) if isinstance(o, dict) else None
             if pickle_str:
                 # file_ver = o[JSONCodec._ver_key]
                 # if file_ver != JSONCodec._ver:
-- 
2.43.0


From 38e65883b64d8a85555c94501967a885fda71f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:38 +0000
Subject: [PATCH 51/60] fix: enums accepted numpy booleans for 0/1, and
 rejected them for booleans

---
 pandalone/pandata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 2d08ee3..e65de1b 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -309,7 +309,9 @@ def _rule_auto_defaults_properties(
 def rule_enum(validator, enums, instance, schema):
     """Overridden to evade pandas-equals after Julian/jsonschema#575 fixed bool != 0,1 (v3.0.2)."""
     unbool = jsonschema._utils.unbool
-    if isinstance(instance, (int, float, np.bool_, np.number)) and instance in (0, 1):
+    if isinstance(instance, (np.bool_, np.number)):
+        instance = instance.item()  # numpy's equate bools with numbers, and broadcast.
+    if isinstance(instance, (int, float)) and instance in (0, 1):
         unbooled = unbool(instance)
         if all(unbooled != unbool(each) for each in enums):
             yield ValidationError("%r is not one of %r" % (instance, enums))
-- 
2.43.0


From 8a05e94c9032fa5ce46f46d9f5e44e4eafddc8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:38 +0000
Subject: [PATCH 52/60] fix: enums crashed on arrays, series and frames

---
 pandalone/pandata.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e65de1b..ff2054e 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -315,6 +315,16 @@ def rule_enum(validator, enums, instance, schema):
         unbooled = unbool(instance)
         if all(unbooled != unbool(each) for each in enums):
             yield ValidationError("%r is not one of %r" % (instance, enums))
+    elif isinstance(instance, (np.ndarray, pd.Series, pd.DataFrame)):
+        # Their equality is not a boolean.
+        if isinstance(instance, pd.DataFrame):
+            equals = [instance.to_dict("list")]
+        elif isinstance(instance, pd.Series):
+            equals = [instance.to_dict(), instance.tolist()]
+        else:
+            equals = [instance.tolist()]
+        if all(eq not in enums for eq in equals):
+            yield ValidationError("%r is not one of %r" % (instance, enums))
     elif instance not in enums:
         yield ValidationError("%r is not one of %r" % (instance, enums))
 
-- 
2.43.0


From a4fcb76132142d37f2460b60741aba36decfea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:38 +0000
Subject: [PATCH 53/60] fix: validating types of frames with a single number
 crashed

---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index ff2054e..0c6bbba 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -179,7 +179,7 @@ def _is_null(checker, instance):
     #  see https://github.com/numpy/numpy/issues/9583
     #
     try:
-        return instance.size == 1 and np.isnan(instance).all()
+        return instance.size == 1 and np.isnan(np.asarray(instance)).all()
     except Exception:
         pass
 
-- 
2.43.0


From 90f767058a2360e141cd10e3bf179581ced10dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:39 +0000
Subject: [PATCH 54/60] fix: attributes of nested paths in tables were set on
 stray path-steps

---
 pandalone/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index 4d23e11..b73a6d4 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -1342,7 +1342,7 @@ def pstep_from_df(columns_df, name_col="names"):
     attributes = cdf.columns
     for rows in cdf.itertuples():
         path, *attr_values = rows
-        cstep = getattr(p, path[1:])
+        cstep = ft.reduce(getattr, path[1:].split("/"), p)
         for attr, aval in zip(attributes, attr_values):
             setattr(cstep, "_%s" % attr, aval)
 
-- 
2.43.0


From 9b2225c0bf316d05bcedf128de701ae616e3ba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:05 +0000
Subject: [PATCH 55/60] fix: remote workbooks could not be opened

---
 pandalone/xleash/io/_xlrd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pandalone/xleash/io/_xlrd.py b/pandalone/xleash/io/_xlrd.py
index ceff3b4..1315633 100644
--- a/pandalone/xleash/io/_xlrd.py
+++ b/pandalone/xleash/io/_xlrd.py
@@ -236,7 +236,7 @@ class XlrdBackend(ABCBackend):
 
     def _open_book(self, url):
         parts = filename = urlparse(url)
-        ropts = parts.params or {}
+        ropts = {}
         if "logfile" not in ropts:
             ropts["logfile"] = utils.LoggerWriter(log, logging.DEBUG)
         if parts.scheme == "file":
@@ -248,7 +248,7 @@ class XlrdBackend(ABCBackend):
             http_opts = ropts.get("http_opts", {})
             with request.urlopen(url, **http_opts) as response:
                 log.info("Opening book(%r)...", filename)
-                book = xlrd.open_workbook(filename, file_contents=response, **ropts)
+                book = xlrd.open_workbook(filename, file_contents=response.read(), **ropts)
 
         return book
 
-- 
2.43.0


From 1db323e99859a608b24074b673d12b5b0f1739ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:33 +0000
Subject: [PATCH 56/60] fix: options given to lasso() replaced the default ones

They override them, as documented.
---
 pandalone/xleash/_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/xleash/_lasso.py b/pandalone/xleash/_lasso.py
index 53a6712..35d1d97 100644
--- a/pandalone/xleash/_lasso.py
+++ b/pandalone/xleash/_lasso.py
@@ -311,7 +311,7 @@ def make_default_Ranger(sheets_factory=None, base_opts=None, available_filters=N
     """
     return Ranger(
         sheets_factory or backend.SheetsFactory(),
-        base_opts or get_default_opts(),
+        get_default_opts(base_opts),
         available_filters,
     )
 
-- 
2.43.0


From 0406c1f0cc9ba3813e04956a16c7e4cebab1f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:11 +0000
Subject: [PATCH 57/60] fix: changes of the global operations of a Pandel were
 lost or failed

---
 pandalone/pandata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index 0c6bbba..e026332 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -789,7 +789,7 @@ class Pandel(object):
         self._errored = None
         self._submodel_tuples = []
         self._curate_funcs = curate_funcs
-        self._global_cntxt = []
+        self._global_cntxt = ModelOperations()
         self._unified_contexts = None
 
     def mod_global_operations(self, operations=None, **cntxt_kwargs):
@@ -803,13 +803,14 @@ class Pandel(object):
         :param cntxt_kwargs:                Replaces the keyworded-values on the existing `operations`.
                                             See :class:`ModelOperations` for supported keywords.
         """
+        cntxt = self._global_cntxt
         if operations:
             assert isinstance(operations, ModelOperations), (
                 type(operations),
                 operations,
             )
-            self._global_cntxt = operations
-        self._global_cntxt._replace(**cntxt_kwargs)
+            cntxt = cntxt._replace(**{k: v for k, v in operations._asdict().items() if v})
+        self._global_cntxt = cntxt._replace(**cntxt_kwargs)
 
     @property
     def unified_contexts(self):
-- 
2.43.0


From 29f2da4e5cd48da6a99a8a2819824e652c74d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:11 +0000
Subject: [PATCH 58/60] fix: rules with patterns in other order were equal

---
 pandalone/mappings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pandalone/mappings.py b/pandalone/mappings.py
index b73a6d4..d6b8b02 100644
--- a/pandalone/mappings.py
+++ b/pandalone/mappings.py
@@ -578,10 +578,11 @@ class Pmod(object):
 
     def __eq__(self, o):
         try:
-            return (self._alias, self._steps, self._regxs) == (
+            # The order of regexps matters when mapping.
+            return (self._alias, self._steps, list(self._regxs.items())) == (
                 o._alias,
                 o._steps,
-                o._regxs,
+                list(o._regxs.items()),
             )
         except:
             return False
-- 
2.43.0


From ad1cf9763dbcbb20972d478857dfa2e1588bbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:54 +0000
Subject: [PATCH 59/60] fix: missing numbers (nan) were null only when being
 the one of numpy

so that series with nans were judged otherwise than the equal arrays.
---
 pandalone/pandata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pandalone/pandata.py b/pandalone/pandata.py
index e026332..73312aa 100644
--- a/pandalone/pandata.py
+++ b/pandalone/pandata.py
@@ -172,7 +172,7 @@ def _is_integer(checker, instance):
 
 
 def _is_null(checker, instance):
-    if instance is None or instance is float("nan") or instance is np.nan:
+    if instance is None or (isinstance(instance, float) and instance != instance):
         return True
 
     ## Handle np.arrays's future "bool" behavior.
-- 
2.43.0


From 1d55267d4453af7814f6cebc19ce7f63fadabfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:35 +0000
Subject: [PATCH 60/60] fix: element-wise filters changed the given values,
 also when falling back on errors

---
 pandalone/xleash/_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pandalone/xleash/_filter.py b/pandalone/xleash/_filter.py
index 7d233bb..6bf5924 100644
--- a/pandalone/xleash/_filter.py
+++ b/pandalone/xleash/_filter.py
@@ -15,6 +15,7 @@ Prefer accessing the public members from the parent module.
 
 
 from collections import namedtuple, OrderedDict
+from copy import copy
 import logging
 
 
@@ -322,6 +323,7 @@ def run_filter_elementwise(
     def dive_list(elval, cdepth, base_coords):
         proced, elval = call_element_func(elval, cdepth, base_coords)
         if not proced and isinstance(elval, list):
+            elval = copy(elval)  # The given values are not to change.
             for i, v in enumerate(elval):
                 nbc = upd_base_coords(elval, cdepth, base_coords, i)
                 elval[i] = dive_indexed(v, cdepth + 1, nbc)
@@ -336,6 +338,7 @@ def run_filter_elementwise(
             except:
                 pass  # Just to avoid chained ex.
             else:
+                elval = copy(elval)  # The given values are not to change.
                 for i, (k, v) in enumerate(items):
                     # Dict is not ordered, so cannot locate `base_coords`!
                     if is_included(elval, k, cdepth):
-- 
2.43.0

