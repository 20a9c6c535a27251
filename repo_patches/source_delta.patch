From d46942ef863087c31655f422453fa1ccd3e804de Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 1/9] fix: failed SortedList/SortedKeyList update leaves the
 list unchanged

---
 src/sortedcontainers/sortedlist.py | 33 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..592a5c2 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,14 +277,22 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists, []) + values
                 values.sort()
                 self._clear()
             else:
                 _add = self.add
-                for val in values:
-                    _add(val)
+                count = 0
+                try:
+                    for val in values:
+                        _add(val)
+                        count += 1
+                except BaseException:
+                    # Undo the additions so a failed update changes nothing.
+                    for val in reversed(values[:count]):
+                        pos, idx = self._pos(self._bisect_right(val) - 1)
+                        self._delete(pos, idx)
+                    raise
                 return
 
         _load = self._load
@@ -1777,14 +1785,23 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists, []) + values
                 values.sort(key=self._key)
                 self._clear()
             else:
                 _add = self.add
-                for val in values:
-                    _add(val)
+                count = 0
+                try:
+                    for val in values:
+                        _add(val)
+                        count += 1
+                except BaseException:
+                    # Undo the additions so a failed update changes nothing.
+                    for val in reversed(values[:count]):
+                        key = self._key(val)
+                        pos, idx = self._pos(self._bisect_key_right(key) - 1)
+                        self._delete(pos, idx)
+                    raise
                 return
 
         _load = self._load
-- 
2.43.0


From 0bb6f22ef71e371d433ac1fac2b430f54905d7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 2/9] fix: int * SortedKeyList keeps the key function

---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 592a5c2..edb3f1e 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2444,6 +2444,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From 014040fd4e8cfde519fbee92cdbfbefcb7090183 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 3/9] fix: set - SortedSet keeps the key function

---
 src/sortedcontainers/sortedset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..0724aa0 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -13,7 +13,7 @@ Sorted set implementations:
 
 """
 
-from collections.abc import MutableSet, Sequence, Set
+from collections.abc import Iterable, MutableSet, Sequence, Set
 from itertools import chain
 from operator import eq, ge, gt, le, lt, ne
 from textwrap import dedent
@@ -472,6 +472,12 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        if not isinstance(other, Iterable):
+            return NotImplemented
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From e907b867a4c2ffcdbf6742ecd3bb567ca41c7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 4/9] fix: failed SortedSet.add leaves the set unchanged

---
 src/sortedcontainers/sortedset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 0724aa0..8ef7a94 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.remove(value)
+                raise
 
     _add = add
 
-- 
2.43.0


From 342798e8708d8e07f20fb29d6757cea496556306 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 5/9] fix: failed SortedDict.setdefault leaves the dict
 unchanged

---
 src/sortedcontainers/sorteddict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..c6d0422 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
-- 
2.43.0


From b42869399c2f9206681efc02999af3bcd28c177a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:19 +0000
Subject: [PATCH 6/9] fix: failed SortedDict.update leaves the dict unchanged

---
 src/sortedcontainers/sorteddict.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index c6d0422..6817c8e 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -497,23 +497,15 @@ class SortedDict(dict):
         :param kwargs: keyword arguments mapping
 
         """
-        if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
-            return
-
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
             pairs = args[0]
         else:
             pairs = dict(*args, **kwargs)
 
-        if (10 * len(pairs)) > len(self):
-            dict.update(self, pairs)
-            self._list_clear()
-            self._list_update(dict.__iter__(self))
-        else:
-            for key in pairs:
-                self._setitem(key, pairs[key])
+        # Update the list first: it is unchanged if the keys can't be ordered.
+
+        self._list_update([key for key in pairs if key not in self])
+        dict.update(self, pairs)
 
     _update = update
 
-- 
2.43.0


From 8ae0e643a2a4d144aa7c3ddf03377c162172b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 7/9] fix: failed SortedSet.update leaves the set unchanged

---
 src/sortedcontainers/sortedset.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 8ef7a94..78141c6 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -653,17 +653,10 @@ class SortedSet(MutableSet, Sequence):
 
         """
         _set = self._set
-        _list = self._list
-        values = set(chain(*iterables))
-        if (4 * len(values)) > len(_set):
-            _list = self._list
-            _set.update(values)
-            _list.clear()
-            _list.update(_set)
-        else:
-            _add = self._add
-            for value in values:
-                _add(value)
+        values = set(chain(*iterables)).difference(_set)
+        # Update the list first: it is unchanged if the values can't be ordered.
+        self._list.update(values)
+        _set.update(values)
         return self
 
     __ior__ = update
-- 
2.43.0


From e9d3746e5e6658774244ba1e6edff65215654396 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 8/9] fix: failed SortedSet.symmetric_difference_update leaves
 the set unchanged

---
 src/sortedcontainers/sortedset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 78141c6..6f930b1 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -609,9 +609,12 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
+        other = set(other)
+        # Sort first: the set is unchanged if the values can't be ordered.
+        values = sorted(_set.symmetric_difference(other), key=self._key)
         _set.symmetric_difference_update(other)
         _list.clear()
-        _list.update(_set)
+        _list.update(values)
         return self
 
     __ixor__ = symmetric_difference_update
-- 
2.43.0


From db7a08bd5b3811cbfcd41dbb44aee6c26fbc9b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 9/9] fix: membership in a SortedDict items view never calls
 __missing__

---
 src/sortedcontainers/sorteddict.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 6817c8e..e383be0 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -647,6 +647,20 @@ class SortedItemsView(ItemsView, Sequence):
     def _from_iterable(cls, it):
         return SortedSet(it)
 
+    def __contains__(self, item):
+        """Return true if `item` is an element of the sorted items view.
+
+        ``siv.__contains__(item)`` <==> ``item in siv``
+
+        Like dict items views, never calls ``__missing__`` of the sorted dict.
+
+        :param item: pair of key and value
+        :return: true if `item` in sorted items view
+
+        """
+        key, _ = item
+        return key in self._mapping and super().__contains__(item)
+
     def __getitem__(self, index):
         """Lookup item at `index` in sorted items view.
 
-- 
2.43.0

