From 3d1c793c546bd644b830585f818d72d72e3eb226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 01/24] fix: the numeric validators refuse nan and -inf with a
 ValueError

---
 openquake/commonlib/valid.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 2a6a7e2..4d76314 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -24,6 +24,14 @@ import re
 import collections
 
 
+def number(text):
+    """String -> float, refusing nan"""
+    f = float(text)
+    if f != f:
+        raise ValueError('%r is not a number' % text)
+    return f
+
+
 class NoneOr(object):
     """
     Accept the empty string (casted to None) or something else validated
@@ -76,7 +84,7 @@ class FloatRange(object):
         self.maxrange = maxrange
 
     def __call__(self, value):
-        f = float(value)
+        f = number(value)
         if f > self.maxrange:
             raise ValueError('%r is bigger than the max, %r' %
                              (f, self.maxrange))
@@ -103,7 +111,7 @@ def namelist(text):
 
 def longitude(text):
     """String -> longitude float"""
-    lon = float(text)
+    lon = number(text)
     if lon > 180.:
         raise ValueError('longitude %s > 180' % lon)
     elif lon < -180.:
@@ -113,7 +121,7 @@ def longitude(text):
 
 def latitude(text):
     """String -> latitude float"""
-    lat = float(text)
+    lat = number(text)
     if lat > 90.:
         raise ValueError('latitude %s > 90' % lat)
     elif lat < -90.:
@@ -131,9 +139,9 @@ def positiveint(text):
 
 def positivefloat(text):
     """String -> positive float"""
-    f = float(text)
+    f = number(text)
     if f < 0:
-        raise ValueError('float %d < 0' % f)
+        raise ValueError('float %s < 0' % f)
     return f
 
 
-- 
2.43.0


From 1240dc2a69b028eb6f6b8c21e7061c8b7d1a0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 02/24] fix: identifiers and intensity measure types are
 matched up to the end of the text

---
 openquake/commonlib/valid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/valid.py b/openquake/commonlib/valid.py
index 4d76314..63df8c8 100644
--- a/openquake/commonlib/valid.py
+++ b/openquake/commonlib/valid.py
@@ -75,7 +75,7 @@ class Regex(object):
                              (value, self.rx.pattern))
         return value
 
-name = Regex(r'^[a-zA-Z_]\w*$')
+name = Regex(r'^[a-zA-Z_]\w*\Z')
 
 
 class FloatRange(object):
@@ -170,7 +170,7 @@ IMT = collections.namedtuple('IMT', 'imt saPeriod saDamping')
 
 def IMTstr(text):
     """String -> namedtuple with fields imt, saPeriod, saDamping"""
-    mo = re.match(r'PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\)', text)
+    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
     if mo is None:
         raise ValueError('%r is not a valid IMT' % text)
     period = mo.group(1)
-- 
2.43.0


From 77f74a85499304a211238ba38071a74ea0f15126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 03/24] fix: block_splitter ignores the kind of the items of
 zero weight

---
 openquake/commonlib/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index e38cebf..1576f2b 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -181,7 +181,7 @@ def block_splitter(items, max_weight, weight=lambda item: 1,
             raise ValueError('The item %r got a negative weight %s!' %
                              (item, w))
         elif w == 0:  # ignore items with 0 weight
-            pass
+            continue
         elif ws.weight + w > max_weight or k != prev_kind:
             new_ws = WeightedSequence([(item, w)])
             if ws:
-- 
2.43.0


From 7b8677d003fc4db7d37de2f7e9031fbf27b883aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 04/24] fix: weighted sequences of different length are not
 equal

---
 openquake/commonlib/general.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index 1576f2b..a92fe27 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -107,7 +107,14 @@ class WeightedSequence(collections.MutableSequence):
         """
         Compare for equality the items contained in self
         """
-        return all(x == y for x, y in zip(self, other))
+        return len(self) == len(other) and all(
+            x == y for x, y in zip(self, other))
+
+    def __ne__(self, other):
+        """
+        Consistent with __eq__
+        """
+        return not self == other
 
     def __repr__(self):
         """
-- 
2.43.0


From 7e1ca718ae1c4436c048fe0f433ce4f37c70c1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 05/24] fix: deep_eq does not raise on different structures and
 honours exclude at every depth

---
 openquake/commonlib/general.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/openquake/commonlib/general.py b/openquake/commonlib/general.py
index a92fe27..61ab8f1 100644
--- a/openquake/commonlib/general.py
+++ b/openquake/commonlib/general.py
@@ -23,6 +23,7 @@ Utility functions of general interest.
 
 import os
 import math
+import numbers
 import tempfile
 import collections
 
@@ -263,14 +264,16 @@ def _deep_eq(a, b, decimal, exclude=None):
 
     def _test_dict(a, b):
         """Compare `dict` types recursively."""
+        a = dict((k, a[k]) for k in a if k not in exclude)
+        b = dict((k, b[k]) for k in b if k not in exclude)
         assert len(a) == len(b), (
             "Dicts %(a)s and %(b)s do not have the same length."
             " Actual lengths: %(len_a)s and %(len_b)s") % dict(
             a=a, b=b, len_a=len(a), len_b=len(b))
 
         for key in a:
-            if not key in exclude:
-                _deep_eq(a[key], b[key], decimal)
+            assert key in b, "Key %r is missing in %s" % (key, b)
+            _deep_eq(a[key], b[key], decimal, exclude)
 
     def _test_seq(a, b):
         """Compare `list` or `tuple` types recursively."""
@@ -280,13 +283,22 @@ def _deep_eq(a, b, decimal, exclude=None):
             dict(a=a, b=b, len_a=len(a), len_b=len(b))
 
         for i, item in enumerate(a):
-            _deep_eq(item, b[i], decimal)
+            _deep_eq(item, b[i], decimal, exclude)
+
+    def _is_seq(x):
+        """True for the iterables compared item by item"""
+        return isinstance(x, (list, tuple)) or (
+            isinstance(x, collections.Iterable)
+            and not isinstance(x, (basestring, dict))
+            and not hasattr(x, '__dict__'))
 
     # lists or tuples
     if isinstance(a, (list, tuple)):
-        _test_seq(a, b)
+        assert _is_seq(b), "%s is not a sequence like %s" % (b, a)
+        _test_seq(a, list(b))
     # dicts
     elif isinstance(a, dict):
+        assert isinstance(b, dict), "%s is not a dict like %s" % (b, a)
         _test_dict(a, b)
     # objects with a __dict__
     elif hasattr(a, '__dict__'):
@@ -294,9 +306,11 @@ def _deep_eq(a, b, decimal, exclude=None):
             "%s and %s are different classes") % (a.__class__, b.__class__)
         _test_dict(a.__dict__, b.__dict__)
     # iterables (not strings)
-    elif isinstance(a, collections.Iterable) and not isinstance(a, str):
+    elif isinstance(a, collections.Iterable) and not isinstance(
+            a, basestring):
         # If there's a generator or another type of iterable, treat it as a
         # `list`. NOTE: Generators will be exhausted if you do this.
+        assert _is_seq(b), "%s is not a sequence like %s" % (b, a)
         _test_seq(list(a), list(b))
     # objects with __slots__
     elif hasattr(a, '__slots__'):
@@ -306,12 +320,13 @@ def _deep_eq(a, b, decimal, exclude=None):
             "slots %s and %s are not the same") % (a.__slots__, b.__slots__)
         for slot in a.__slots__:
             if not slot in exclude:
-                _deep_eq(getattr(a, slot), getattr(b, slot), decimal)
+                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
     else:
         # Objects must be primitives
 
         # Are they numbers?
         if isinstance(a, (int, long, float, complex)):
+            assert isinstance(b, numbers.Number), "%s != %s" % (a, b)
             numpy.testing.assert_almost_equal(a, b, decimal=decimal)
         else:
             assert a == b, "%s != %s" % (a, b)
-- 
2.43.0


From 493655f366afa174a14d8795d814a2e9646291b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 06/24] fix: records and tables of different length are
 different, not an AssertionError

---
 openquake/commonlib/record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 664c75c..2ac347f 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -351,7 +351,8 @@ class Record(collections.Sequence):
         A record is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
@@ -490,7 +491,8 @@ class Table(collections.MutableSequence):
         A table is equal to another sequence if they have the same
         length and content.
         """
-        assert len(self) == len(other)
+        if len(self) != len(other):
+            return False
         return all(x == y for x, y in zip(self, other))
 
     def __ne__(self, other):
-- 
2.43.0


From 1bd80ca09de6cdcab8c63b58f2acbbf52dc8af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:41 +0000
Subject: [PATCH 07/24] fix: inserting or replacing a duplicated record leaves
 the table unchanged

---
 openquake/commonlib/record.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/openquake/commonlib/record.py b/openquake/commonlib/record.py
index 2ac347f..dc5f960 100644
--- a/openquake/commonlib/record.py
+++ b/openquake/commonlib/record.py
@@ -436,7 +436,10 @@ class Table(collections.MutableSequence):
     def __setitem__(self, i, new_record):
         """Set the i-th record"""
         # TODO: the fk dictionaries must be updated!
-        # TODO: there is no unique check here!
+        for name, unique in self._unique_data.iteritems():
+            new_key = getattr(new_record, name)
+            if new_key != getattr(self._records[i], name):
+                self._check_unique(i, new_key, unique)
         for name, unique in self._unique_data.iteritems():
             old_key = getattr(self._records[i], name)
             new_key = getattr(new_record, name)
@@ -452,6 +455,18 @@ class Table(collections.MutableSequence):
             del unique.dict[key]
         del self._records[i]
 
+    def _check_unique(self, position, key, unique):
+        """
+        Raise a KeyError if there is already a record with the given key.
+        """
+        if key in unique.dict:
+            msg = []
+            for k, name in zip(key, unique.names):
+                msg.append('%s=%s' % (name, k))
+            raise KeyError('%s:%d:Duplicated record:%s' %
+                           (self.recordtype.__name__, position,
+                            ','.join(msg)))
+
     def insert(self, position, rec):
         """
         Insert a record in the table, at the given position index.
@@ -461,18 +476,9 @@ class Table(collections.MutableSequence):
         key) raises a KeyError.
         """
         for name, unique in self._unique_data.iteritems():
-            key = getattr(rec, name)
-            try:
-                rec = unique.dict[key]
-            except KeyError:  # not inserted yet
-                unique.dict[key] = rec
-            else:
-                msg = []
-                for k, name in zip(key, unique.names):
-                    msg.append('%s=%s' % (name, k))
-                raise KeyError('%s:%d:Duplicated record:%s' %
-                               (self.recordtype.__name__, position,
-                                ','.join(msg)))
+            self._check_unique(position, getattr(rec, name), unique)
+        for name, unique in self._unique_data.iteritems():
+            unique.dict[getattr(rec, name)] = rec
         self._records.insert(position, rec)
 
     def getrecord(self, *pkey):
-- 
2.43.0


From 6f0fec7a5a41373e7766524cc1bc314eeb230fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 08/24] fix: TaskManager.wait passed itself twice and always
 raised a TypeError

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 5da89ee..adb287e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -257,7 +257,7 @@ class TaskManager(object):
 
         :returns: the total number of tasks that were spawned
         """
-        return self.aggregate_results(self, lambda acc, res: acc + 1, 0)
+        return self.aggregate_results(lambda acc, res: acc + 1, 0)
 
 
 def map_reduce(function, function_args, agg, acc, name=None):
-- 
2.43.0


From b382a35a8ad9351dff8877ea6182be949ef62358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 09/24] fix: safely_call raised for exceptions without a
 printable message

---
 openquake/commonlib/parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index adb287e..148f34e 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -90,7 +90,11 @@ def safely_call(func, args, pickle=False):
     except:
         etype, exc, tb = sys.exc_info()
         tb_str = ''.join(traceback.format_tb(tb))
-        res = '\n%s%s: %s' % (tb_str, etype.__name__, exc), etype
+        try:
+            msg = str(exc)
+        except Exception:  # the exception cannot be printed
+            msg = '<unprintable %s object>' % etype.__name__
+        res = '\n%s%s: %s' % (tb_str, etype.__name__, msg), etype
     if pickle:
         return Pickled(res)
     return res
-- 
2.43.0


From 74524911f4cfb02fb512b02bb1c0edf97240e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 10/24] fix: log_percent_gen lost percentages to floating point
 rounding

---
 openquake/commonlib/parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/parallel.py b/openquake/commonlib/parallel.py
index 148f34e..ea62499 100644
--- a/openquake/commonlib/parallel.py
+++ b/openquake/commonlib/parallel.py
@@ -118,7 +118,7 @@ def log_percent_gen(taskname, todo, progress):
     done = 1
     prev_percent = 0
     while done < todo:
-        percent = int(float(done) / todo * 100)
+        percent = done * 100 // todo
         if percent > prev_percent:
             progress('%s %3d%%', taskname, percent)
             prev_percent = percent
-- 
2.43.0


From b0103d78d5a1170e9f75f103df44e646ee4f9675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 11/24] fix: branches are ordered by branch set and then by
 identifier

---
 openquake/commonlib/logictree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 10b58da..6eacc8b 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1145,8 +1145,8 @@ class GMPELogicTree(BaseLogicTree):
 
 BranchTuple = namedtuple('BranchTuple', 'bset, id, uncertainty, weight')
 BranchTuple.__lt__ = lambda self, other: (
-    self.bset['branchSetID'] < other.bset['branchSetID']
-    and self.id < other.id)
+    (self.bset['branchSetID'], self.id) <
+    (other.bset['branchSetID'], other.id))
 
 class InvalidLogicTree(Exception):
     pass
-- 
2.43.0


From 62df23374cfc0489c7914f839bc8ccb93c680920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 12/24] fix: a branching level with all branch sets skipped
 keeps the open ends

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 6eacc8b..27e9aac 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -464,8 +464,9 @@ class BaseLogicTree(object):
                 self.apply_branchset(branchset_node, branchset)
             for branch in branchset.branches:
                 new_open_ends.add(branch)
-        self.open_ends.clear()
-        self.open_ends.update(new_open_ends)
+        if new_open_ends:  # empty if all the branchsets were skipped
+            self.open_ends.clear()
+            self.open_ends.update(new_open_ends)
 
     def parse_branchset(self, branchset_node, depth, number, validate):
         """
-- 
2.43.0


From ae66f64e058e04a52bac3e98b72367ffb2a4bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 13/24] fix: a ground motion branch set without region type is
 a ValidationError

---
 openquake/commonlib/logictree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/logictree.py b/openquake/commonlib/logictree.py
index 27e9aac..3a20edf 100644
--- a/openquake/commonlib/logictree.py
+++ b/openquake/commonlib/logictree.py
@@ -1021,8 +1021,9 @@ class GMPELogicTree(BaseLogicTree):
 
         :param attrs: a dictionary with the attributes of the branchset
         """
-        return (attrs['applyToTectonicRegionType']
-                not in self.tectonic_region_types)
+        trt = attrs.get('applyToTectonicRegionType')
+        # a branchset without region type is refused when validating
+        return trt is not None and trt not in self.tectonic_region_types
 
     def make_trt_to_gsim(self, branch_ids):
         """
-- 
2.43.0


From b0de59f6eb9eba1f28dc5208913e80a68f3e239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 14/24] fix: a SourceCollector created with sources looped
 forever

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 5cd4065..551e91a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -50,11 +50,11 @@ class SourceCollector(object):
     def __init__(self, trt, sources=None, num_ruptures=0,
                  min_mag=None, max_mag=None):
         self.trt = trt
-        self.sources = sources or []
+        self.sources = []
         self.num_ruptures = num_ruptures
         self.min_mag = min_mag
         self.max_mag = max_mag
-        for src in self.sources:
+        for src in sources or []:
             self.update(src)
         self.filtered_sources = (0, 0)  # (filtered, total)
 
-- 
2.43.0


From 90297c4f4f18d9e8dec19ff7f9d4181a221c0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 15/24] fix: magnitudes with zero rate repeated the previous
 split source

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 551e91a..4818d61 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -664,7 +664,7 @@ def split_fault_source(src):
                 min_mag=mag, bin_width=src.mfd.bin_width,
                 occurrence_rates=[rate])
             i += 1
-        yield new_src
+            yield new_src
 
 
 def split_source(src, area_source_discretization):
-- 
2.43.0


From b0833deae347f4967b7eada5a01244a860085fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 16/24] fix: the scaled limit of gen_blocks was truncated to an
 integer

---
 openquake/commonlib/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 4818d61..27a1438 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -133,7 +133,7 @@ class SourceCollector(object):
         assert num_sources, 'No sources for TRT=%s!' % self.trt
         return block_splitter(
             self._filter_and_split_sources(src_filter, discr),
-            max_weight * num_sources / (num_sources + 100),
+            max_weight * num_sources / float(num_sources + 100),
             self.update_num_ruptures)
 
     def __repr__(self):
-- 
2.43.0


From de2e9498c61bf2e686300fd487b3146473465a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 17/24] fix: the last discarded sources were not in the total
 of the sources

---
 openquake/commonlib/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index 27a1438..e7c0f54 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -117,6 +117,7 @@ class SourceCollector(object):
                     self.filtered_sources = (len(srcs), tot_sources)
             else:
                 tot_sources += 1
+        self.filtered_sources = (len(srcs), tot_sources)
         self.sources = srcs  # throw away unfiltered sources
 
     def gen_blocks(self, src_filter, max_weight, discr):
-- 
2.43.0


From 368dea2e02eaaabf06e967d0dafaae5d8c2dc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 18/24] fix: converting a planar surface modified the NRML
 object

---
 openquake/commonlib/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/source.py b/openquake/commonlib/source.py
index e7c0f54..b2da97a 100644
--- a/openquake/commonlib/source.py
+++ b/openquake/commonlib/source.py
@@ -491,8 +491,8 @@ class NrmlHazardlibConverter(object):
             # A collection of planar surfaces
             planar_surfaces = []
             for planar_surface in src.surface:
-                kwargs = planar_surface.__dict__
-                kwargs.update(dict(mesh_spacing=self.rupture_mesh_spacing))
+                kwargs = dict(planar_surface.__dict__,
+                              mesh_spacing=self.rupture_mesh_spacing)
 
                 planar_surfaces.append(geo.PlanarSurface(**kwargs))
 
-- 
2.43.0


From 7ba571cd2cc45475c02c1fac0c304114f7123259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 19/24] fix: a missing file in a directory or zip archive was
 an IOError or KeyError

---
 openquake/commonlib/csvmanager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 8d58bd4..3434a17 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -168,7 +168,10 @@ class ZipArchive(Archive):
             return TempFile(self.zip, name, mode)
         else:
             # open for reading
-            return self.zip.open(name, mode)
+            try:
+                return self.zip.open(name, mode)
+            except KeyError:
+                raise NotInArchive(name)
 
     def extract_filenames(self, prefix=''):
         """
@@ -192,7 +195,10 @@ class DirArchive(Archive):
         self.opened = set()
 
     def _open(self, name, mode):
-        return open(os.path.join(self.name, name), mode)
+        path = os.path.join(self.name, name)
+        if mode.startswith('r') and not os.path.exists(path):
+            raise NotInArchive(name)
+        return open(path, mode)
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From b10ed6b3272122acc4b6c20e82cd49f6181a2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 20/24] fix: a file of a memory archive could be read only once
 before closing it

---
 openquake/commonlib/csvmanager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 3434a17..0fc7f68 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -225,9 +225,11 @@ class MemArchive(Archive):
             self.dic[name] = f = FileObject(name, '')
             return f
         try:
-            return self.dic[name]
+            f = self.dic[name]
         except KeyError:
             raise NotInArchive(name)
+        # each reader starts from the beginning
+        return FileObject(name, f.fileobj.getvalue())
 
     def extract_filenames(self, prefix=''):
         """
-- 
2.43.0


From c7784909ddc84fd2ef07431e9fc46706459a4786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 21/24] fix: the fields of a single gmfSet refer to the set '0'
 they belong to

---
 openquake/commonlib/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index e99d53c..871f701 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -454,7 +454,7 @@ class GmfCollection(Converter):
                 imt = gmf['IMT']
                 if imt == 'SA':
                     imt += '(%s)' % gmf['saPeriod']
-                yield records.Gmf(1, imt, '')
+                yield records.Gmf('0', imt, '')
                 for n in gmf:
                     yield records.GmfData(
                         '0', imt, '', n['lon'], n['lat'], n['gmv'])
-- 
2.43.0


From 257d8a1df9d733e1fda92807df95cb8041f22957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 22/24] fix: the occupancies of every asset are converted back,
 not only the periods of the first one

---
 openquake/commonlib/converter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openquake/commonlib/converter.py b/openquake/commonlib/converter.py
index 871f701..8044eb8 100644
--- a/openquake/commonlib/converter.py
+++ b/openquake/commonlib/converter.py
@@ -387,10 +387,8 @@ class Exposure(Converter):
                 exp.nodes.insert(1, Node('conversions', {}, nodes=[
                     Node('area', {'type': area_type, 'unit': area_unit})]))
         if t.tableOccupancy:
-            # extract the occupancies corresponding to the first asset
-            _asset_ref, occupancies = groupby(
-                t.tableOccupancy, ['asset_ref']).next()
-            periods = sorted(occ.period for occ in occupancies)
+            # extract the periods of all the assets
+            periods = sorted(set(occ.period for occ in t.tableOccupancy))
         else:
             periods = []
         exp.assets.nodes = self._assetgenerator(
-- 
2.43.0


From f1e4684dcdb568728b24808e46c40699650a8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 23/24] fix: files named after something that is not a record
 type are ignored

An archive containing a file such as p__Node.csv or p__valid.csv made
CSVManager fail with an AttributeError: any name of the module records was
taken for a record type.
---
 openquake/commonlib/csvmanager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index 0fc7f68..f0b6959 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -320,7 +320,7 @@ class CSVManager(object):
             if not recordcsv.endswith('.csv'):
                 continue
             recordtype = getattr(records, recordcsv[:-4], None)
-            if recordtype is None:
+            if not isinstance(recordtype, record.MetaRecord):
                 continue
             if not prefix in managers:
                 man = self.__class__(self.archive, prefix)
-- 
2.43.0


From f7fad59334ac01daa1dcb6455db5069aeb56e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 24/24] fix: derived managers keep the has_header option

The managers made by CSVManager for each file group, and by
convert_from_node for a prefix, always assumed files with a header, even if
the manager was created with has_header=False.
---
 openquake/commonlib/csvmanager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openquake/commonlib/csvmanager.py b/openquake/commonlib/csvmanager.py
index f0b6959..d8a6c66 100644
--- a/openquake/commonlib/csvmanager.py
+++ b/openquake/commonlib/csvmanager.py
@@ -323,7 +323,8 @@ class CSVManager(object):
             if not isinstance(recordtype, record.MetaRecord):
                 continue
             if not prefix in managers:
-                man = self.__class__(self.archive, prefix)
+                man = self.__class__(
+                    self.archive, prefix, self.has_header)
                 man.convertertype = ct[recordtype.convertername]
                 managers[prefix] = man
         return managers.values()
@@ -403,7 +404,7 @@ class CSVManager(object):
         if prefix is None:
             man = self
         else:  # creates a new CSVManager for the given prefix
-            man = self.__class__(self.archive, prefix)
+            man = self.__class__(self.archive, prefix, self.has_header)
         convtype = converter.Converter.from_node(node)
         with man:
             for rec in convtype.node_to_records(node):
-- 
2.43.0

