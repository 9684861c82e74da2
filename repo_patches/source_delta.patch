From 191a4d9be1f06aee6f6f9370aa9656e67aeb3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 01/38] fix: slices of plist and tlist follow list (stop=0,
 negative and zero steps)

---
 pcollections/_list.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..6560978 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,13 +166,7 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
@@ -273,13 +267,7 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
-- 
2.43.0


From 288ace7043a4f0a3b39a5125ce10ed66857e958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 02/38] fix: plist.delete keeps the type of the list
 (llist.delete returned a plist)

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 6560978..fc2cf9d 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.clear()
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From c17df59e1f3fab8d19043fd0dc31670dbd01fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 03/38] fix: plist(llist) and plist(tllist) return a plist of
 the reified values

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index fc2cf9d..7635114 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -34,14 +34,14 @@ class plist(PersistentSequence):
             raise TypeError(msg)
         arg = args[0]
         # If arg is a tlist, this is a special case.
-        if isinstance(arg, tlist):
+        if type(arg) is tlist or (cls is not plist and isinstance(arg, tlist)):
             if len(arg) == 0:
                 return cls.empty
             else:
                 return cls._new(arg._thamt.persistent(), arg._start)
-        elif isinstance(arg, cls):
+        elif type(arg) is cls or (cls is not plist and isinstance(arg, cls)):
             return arg
-        elif isinstance(arg, plist):
+        elif type(arg) is plist:
             if len(arg) == 0:
                 return cls.empty
             else:
-- 
2.43.0


From cbf60f00ca47bf2b42c8dcff24bf23d443e844b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 04/38] fix: tlist(llist) returns a tlist of the reified values

---
 pcollections/_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 7635114..b801759 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -222,7 +222,7 @@ class tlist(TransientSequence):
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
         # If this is a plist, we know what to do with it.
-        if isinstance(arg, plist):
+        if type(arg) is plist or (cls is not tlist and isinstance(arg, plist)):
             return cls._new(THAMT(arg._phamt), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
         thamt = THAMT(PHAMT.empty)
-- 
2.43.0


From cd984b31d1c66d94da421e1968f57d6d2d6140fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 05/38] fix: pset.add handles elements whose hashes collide

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From c12cdcc4d66a0f511ba8fba616a3ebacf96e5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 06/38] fix: pdict.set handles keys whose hashes collide (it
 looped forever)

---
 pcollections/_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..c37baab 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -205,10 +205,13 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From 6e3ac6d3e364cba329eb89f40d9db3d26f4f1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 07/38] fix: pdict(tldict) returns a pdict of the reified
 values

---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c37baab..3d680b7 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -126,7 +126,8 @@ class pdict(PersistentMapping):
             # is a special case.
             if isinstance(arg, Sized) and len(arg) == 0:
                 return cls.empty
-            elif isinstance(arg, tdict):
+            elif type(arg) is tdict or (cls is not pdict
+                                        and isinstance(arg, tdict)):
                 return cls._new(
                     arg._els.persistent(),
                     arg._idx.persistent(),
-- 
2.43.0


From eb01738f3820576b58f3b28c548828906c8cdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 08/38] fix: tldict(pdict).persistent() and
 tldict(tdict).persistent() return an ldict

---
 pcollections/_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 3d680b7..fd4f1f8 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -406,9 +406,10 @@ class tdict(TransientMapping):
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
+                           arg._orig if cls is tdict else None)
         elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
+                           arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             if isinstance(arg, Mapping):
-- 
2.43.0


From 7577cc77bbfc29f274264e5b667bf11d026eb032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:15 +0000
Subject: [PATCH 09/38] fix: tdict_values and tldict_values support the in
 operator

---
 pcollections/_dict.py | 2 +-
 pcollections/_lazy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index fd4f1f8..a24bbcb 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -354,7 +354,7 @@ class tdict_values(ValuesView, tdict_view):
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if kv[1] == v:
                 return True
         return False
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..afa65a2 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -415,11 +415,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From 67fed6a7be7928e8aa7b5f94b49683631bee0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 10/38] fix: tdict.clear invalidates live iterators

---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index a24bbcb..5b9c6cf 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -528,7 +528,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From da55716193d3fa010f951e5e35484ac08166ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 11/38] fix: llist.ready_all caches the lazy elements

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index afa65a2..d4731a1 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -230,7 +230,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 5ccde5e8a45f029fbdd35a0d4c2adf393296269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 12/38] fix: ldict.pop and tldict.pop return the reified value

---
 pcollections/_lazy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index d4731a1..d20e258 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -342,6 +342,9 @@ class ldict(pdict):
         if isinstance(v, lazy):
             v = v()
         return v
+    def pop(self, key, *args):
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def items(self):
         return ldict_items(self)
     def values(self):
@@ -501,7 +504,7 @@ class tldict(tdict):
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
     def pop(self, *args):
-        return unlazy(self.pop(*args))
+        return unlazy(tdict.pop(self, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From 54bad2fd996754ae42f2da8663bfe11e2c7c194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 13/38] fix: tldict.as_tdict returns a copy that is independent
 of the tldict

---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index d20e258..10dabf3 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -487,7 +487,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From 69c7d448c8d651e72a5c1dfa55d30417d167078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 14/38] fix: LazyError converts to a string when it holds a
 partial

---
 pcollections/_lazy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 10dabf3..7235b91 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -37,6 +37,7 @@ class LazyError(RuntimeError):
         self.partial = partial
     def __str__(self):
         if isinstance(self.partial, partial):
+            p = self.partial
             (fn, args, kwargs) = (p.func, p.args, p.keywords)
         else:
             (fn, args, kwargs) = self.partial
-- 
2.43.0


From dc1766f2e1603067b3cc23514db7d4c08f376e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 15/38] fix: hashing a mapping uses its reified values, so
 equal mappings hash equally

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..78dd81f 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From 1e87c1d39fbac4768eccdf44913717e40ff5e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 16/38] fix: PersistentMapping.dropall works

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 78dd81f..d0204d1 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 437a8c26f045602406d780b6cb7bd8ec9b7bc37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 17/38] fix: persistent objects reject attribute deletion

---
 pcollections/abc/_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..d6c82e2 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -14,6 +14,8 @@ class Persistent(Hashable):
     # Methods that should throw errors in children.
     def __setattr__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
     def __delitem__(self, k, v):
-- 
2.43.0


From e07b9e0d631ba34296c93a6176aab814969d0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 18/38] fix: an empty set is disjoint from every set

---
 pcollections/abc/_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..6e24abd 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -167,7 +167,8 @@ class PersistentSet(Set, Persistent):
         """Returns `True` if two sets have a null intersection."""
         if not isinstance(other, Set):
             other = set(other)
-        return setcmp(self, other) is None
+        return (len(self) == 0 or len(other) == 0
+                or setcmp(self, other) is None)
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
@@ -376,7 +377,8 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
-        return setcmp(self, other) is None
+        return (len(self) == 0 or len(other) == 0
+                or setcmp(self, other) is None)
     def issubset(self, other):
         """Report whether another set contains this set."""
         if not isinstance(other, (set, frozenset)):
-- 
2.43.0


From 1542a08881bf3f15a9c0ac812d94f3c5d236d6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 19/38] fix: PersistentSet.symmetric_difference with a result
 of the same size

---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 6e24abd..65a9cc0 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -210,8 +210,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From fe4ef5ee8c283a69b4792f476c4b6a410ee4534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 20/38] fix: TransientSet.symmetric_difference_update works

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 65a9cc0..a538bd6 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -414,7 +414,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= other
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From fa3c6db9505e3785b22ff06263bece97b81a837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:34 +0000
Subject: [PATCH 21/38] fix: transient sets compare unequal to objects that are
 not sets

---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index a538bd6..36e16ce 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -358,9 +358,9 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        return isinstance(other, Set) and setcmp(self, other) == 0
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        return not isinstance(other, Set) or setcmp(self, other) != 0
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From 4df542dba3195767e3a318c0a7b99e6291103cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 22/38] fix: transient sets can be subtracted from and xor-ed
 with themselves in place

---
 pcollections/abc/_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 36e16ce..cc4dc27 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -498,6 +498,9 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
@@ -541,7 +544,7 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.discard(el)
     def removeall(self, iterable):
         """Returns a copy of the persistent set with the given elements
@@ -549,7 +552,7 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.remove(el)
     def copy(self):
         """Returns a copy of the transient set."""
-- 
2.43.0


From b0163e8dca458e0e40ee3070d1723b6805d3e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:05 +0000
Subject: [PATCH 23/38] fix: seqcmp does not order elements that are equal

---
 pcollections/util/_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..a773ff3 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -55,13 +55,15 @@ def seqcmp(seq1, seq2):
     `b`, and 1 if `a` sorts after `b`.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
-- 
2.43.0


From d7947791ed4e0143a6c1fe62867921e83cb24336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 24/38] fix: sequence equality compares elements with ==, not <

---
 pcollections/abc/_seq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..b7866d3 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -136,8 +136,10 @@ class PersistentSequence(Persistent, Sequence):
             return True
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
+        elif len(self) != len(other):
+            return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
@@ -375,7 +377,7 @@ class TransientSequence(Transient, MutableSequence):
         elif len(self) != len(other):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
-- 
2.43.0


From 7097c12b71ba54b9e12beb231cb37f57ae0101d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 25/38] fix: PersistentSequence.count counts reified values

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index b7866d3..13ebbd4 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -173,7 +173,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From 7637b6d9ecf6e67e97331d78dfc7db6a080c3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 26/38] fix: TransientSequence.count works

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 13ebbd4..e637c3a 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -409,7 +409,7 @@ class TransientSequence(Transient, MutableSequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From 45fba562d0ad3deb43be76b25b7ed5bcef304c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 27/38] fix: TransientSequence.sort works

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index e637c3a..829a7fa 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -335,7 +335,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From 2c68493ad1e9a8e7324315cdd3a87d715a1a4984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 28/38] fix: TransientSequence.reverse works

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 829a7fa..2a65ee3 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -359,7 +359,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - k - 1
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From 9c26f1826ebef02db218f77415255386d331f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 29/38] fix: TransientSequence.index and remove work without a
 stop, and index accepts negative bounds

---
 pcollections/abc/_seq.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 2a65ee3..b45eedb 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -187,8 +187,13 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
         if stop is None:
-            stop = len(self)
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(start + n, 0)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
@@ -421,6 +426,13 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
+        if stop is None:
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(start + n, 0)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From eb58e5ca1c2312823b0ccd022429adf2fb66435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 30/38] fix: list + TransientSequence returns the concatenation

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index b45eedb..c02d77e 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -477,7 +477,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 2a803956036a1aa5b5ead4da82959c332aa957bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 31/38] fix: TransientSequence.__imul__ iterates over a
 snapshot of its elements

---
 pcollections/abc/_seq.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index c02d77e..1faebd1 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -488,13 +488,10 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = list(self)
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                for el in els:
+                    self.append(el)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From 9b1f0f119db45a053cc35154d94df87d0fdbb2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:35 +0000
Subject: [PATCH 32/38] fix: a transient sequence can be extended with itself

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 1faebd1..2deb81e 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -419,7 +419,7 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.append(el)
     def index(self, value, start=0, stop=None):
         """Returns first index of value.
-- 
2.43.0


From 7cfd67ce677fae8ef39a00eb584eecdec23e9050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 33/38] fix: adding to an empty persistent sequence keeps the
 type of the left operand

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 2deb81e..9f48865 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -218,7 +218,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From 718677f4d90ffdc6ee9f202a3ab36c4160907381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 34/38] fix: tllist(tllist) keeps lazy elements lazy

---
 pcollections/_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index b801759..1dd12be 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -224,6 +224,8 @@ class tlist(TransientSequence):
         # If this is a plist, we know what to do with it.
         if type(arg) is plist or (cls is not tlist and isinstance(arg, plist)):
             return cls._new(THAMT(arg._phamt), arg._start)
+        elif cls is not tlist and isinstance(arg, cls):
+            return cls._new(THAMT(arg._thamt.persistent()), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
         thamt = THAMT(PHAMT.empty)
         for (ii,val) in enumerate(iter(arg)):
-- 
2.43.0


From 4c19f986a66a09a9503ebe5fd1c839be690d2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 35/38] fix: tldict(ldict) and tldict(tldict) keep lazy values
 lazy

---
 pcollections/_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 5b9c6cf..f28a420 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -402,12 +402,13 @@ class tdict(TransientMapping):
         else:
             raise TypeError(f"pdict expects at most 1 argument, got {n}")
         # If arg is a tdict or pdict, this is a special case.
-        if type(arg) is tdict:
+        if type(arg) is tdict or (cls is not tdict and isinstance(arg, tdict)):
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
                            arg._orig if cls is tdict else None)
-        elif type(arg) is pdict:
+        elif type(arg) is pdict or (cls is not tdict
+                                    and isinstance(arg, pdict)):
             obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
                            arg if cls is tdict else None)
         else:
-- 
2.43.0


From 532c457c0042bff3120406c94d723be27682760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 36/38] fix: ldict(ldict, **kw) keeps lazy values lazy

---
 pcollections/_dict.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index f28a420..bba17ef 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -139,7 +139,13 @@ class pdict(PersistentMapping):
             elif type(arg) is pdict:
                 return cls._new(arg._els, arg._idx, arg._top)
         # For anything else, however, we just route this through tdict.
-        t = tdict(arg, **kw)
+        # (If keyword options were given, we start with the right type so that
+        # lazy values aren't dereferenced.)
+        if kw:
+            t = cls(arg).transient()
+            t.update(kw)
+        else:
+            t = tdict(arg)
         return cls._new(
             t._els.persistent(),
             t._idx.persistent(),
-- 
2.43.0


From cec7d08260824dfe32dfa417b7fa74db5e56b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 37/38] fix: str(tllist) does not compute lazy elements

---
 pcollections/_lazy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 7235b91..97c82ff 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -272,6 +272,10 @@ class tllist(tlist):
     elements instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __str__(self):
+        # We have a max length of 60 characters, not counting the delimiters.
+        s = seqstr(tlist.__iter__(self), maxlen=60, tostr=reprlazy)
+        return f"[<{s}>]"
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
     def persistent(self):
-- 
2.43.0


From 72f04850d3be0eddfa8e9686f541970d3909e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 38/38] fix: seqstr counts the separators after elements whose
 string is empty

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index a773ff3..db5e656 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -101,7 +101,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0

