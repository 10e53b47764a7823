From e5b8b407398d9f7b746248f70d5d624b1d6c73e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 01/82] fix: WebDBer.appendOnIoSetVals marks its store dirty so
 flush persists the append

---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..4144481 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1591,6 +1591,7 @@ class WebDBer:
                     f"Failed appending {val=} at {key=} {on=} offset {ion=}."
                 )
             items[iokey] = val
+            db.dirty = True
 
         return on
 
-- 
2.43.0


From 3305379fd28a9377e591589e9f699717231de23f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 02/82] fix: WebDBer.remOnAllIoSet marks its store dirty so
 flush persists the removal

---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 4144481..44f67f1 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1781,6 +1781,7 @@ class WebDBer:
         result = False
         for iokey in toDelete:
             del items[iokey]
+            db.dirty = True
             result = True
 
         return result
-- 
2.43.0


From 70b82c32fe0f9a32753111ff58fcf9f37104379f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 03/82] fix: appendOnIoSetVals keeps set semantics by dropping
 repeated values as put and pin do

---
 src/keri/db/dbing.py    | 2 +-
 src/keri/db/webdbing.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..28e8621 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1641,7 +1641,7 @@ class LMDBer(filing.Filer):
                     # else no earlier key so create zeroth entry at key
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
-            for ion, val in enumerate(vals):
+            for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
                 if not cursor.put(iokey, val, overwrite=False):
                     raise  ValueError(f"Failed appending {val=} at {key=} {on=} "
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 44f67f1..c10ba0a 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1584,7 +1584,7 @@ class WebDBer:
 
         onkey = onKey(key, on, sep=sep)
 
-        for ion, val in enumerate(vals):
+        for ion, val in enumerate(oset(vals)):
             iokey = suffix(onkey, ion=ion, sep=sep)
             if iokey in items:
                 raise ValueError(
-- 
2.43.0


From 780bc61824691b2b438fffba02a9a2c144a898f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 04/82] fix: WebDBer.flush keeps a store dirty when it was
 written to while its sync was in flight

---
 src/keri/db/webdbing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index c10ba0a..53e02b7 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -320,10 +320,12 @@ class WebDBer:
         for subdb in self._stores.values():
             if not subdb.dirty:
                 continue
-            subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
+            records = _serialize_records(subdb.items)
+            subdb.handle[_RECORDS_KEY] = records
             subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
             await subdb.handle.sync()
-            subdb.dirty = False
+            # writes made while awaiting sync are not in records so stay dirty
+            subdb.dirty = _serialize_records(subdb.items) != records
             count += 1
         return count
 
-- 
2.43.0


From 9c6b27cb3e2416dbc72bd062da53563a18f11894 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 05/82] fix: WebDBer iterators no longer skip or fail on
 entries when their consumer writes while iterating

---
 src/keri/db/webdbing.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 53e02b7..4500e8b 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 import json
 from collections.abc import Awaitable, Callable, Iterable, Iterator
 from dataclasses import dataclass, field
+from functools import wraps
 from typing import Any
 
 try:
@@ -145,6 +146,17 @@ _META_STORE = "__meta__"
 _VERSION_KEY = b"__version__"
 
 
+def _snapshot(iterator):
+    """Decorator that makes generator function iterator take all its items when
+    first advanced, so that like an LMDB read transaction, writes made by its
+    consumer while iterating do not disturb the iteration.
+    """
+    @wraps(iterator)
+    def wrapper(*pa, **kwa):
+        yield from list(iterator(*pa, **kwa))
+    return wrapper
+
+
 @dataclass
 class SubDb:
     """
@@ -847,6 +859,7 @@ class WebDBer:
         """
         yield from _iterOnItems(db=db, key=key if key else None, on=on, sep=sep)
 
+    @_snapshot
     def getTopItemIter(self, db: SubDb, top: bytes = b"") -> Iterator[tuple[bytes, bytes]]:
         """
         Iterate over `(key, val)` pairs whose keys start with `top`.
@@ -1100,6 +1113,7 @@ class WebDBer:
         return True
 
 
+    @_snapshot
     def getIoSetItemIter(self, db, key, *, ion=0, sep=b'.'):
         """Get iterator over items in IoSet at effecive key.
         When key is empty then returns empty iterator
@@ -1351,6 +1365,7 @@ class WebDBer:
             yield (key, val)
 
     
+    @_snapshot
     def getIoSetLastItemIterAll(self, db, key=b'', *, sep=b'.'):
         """Iterates over every last added ioset entry at every effective key
         starting at key greater or equal to key.
@@ -1893,6 +1908,7 @@ class WebDBer:
             yield (key, on, val)
 
             
+    @_snapshot
     def getOnAllIoSetItemIter(self, db, key=b'', on=0, *, sep=b'.'):
         """Iterates over each item of each set for all on >= on for key.
         When on == 0, default, then iterates over all items for all on for key.
@@ -1952,6 +1968,7 @@ class WebDBer:
             yield (ckey, con, items[iokey])
 
 
+    @_snapshot
     def getOnAllIoSetLastItemIter(self, db, key=b'', on=0, *, sep=b'.'):
         """Iterates over last items of each set for all on >= on at key
         When on ==0, default, iterates over last items of each set for all on at key
@@ -2022,6 +2039,7 @@ class WebDBer:
             yield last
 
 
+    @_snapshot
     def getOnAllIoSetItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
         """Iterates backwards over all set items for all on <= on for key.
         When on is None, iterates backwards over all set items for all on for key
@@ -2091,6 +2109,7 @@ class WebDBer:
             yield (ckey, con, items[ciokey])
 
 
+    @_snapshot
     def getOnAllIoSetLastItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
         """Iterates backwards over last set items for all on <= on for key.
         When on is None iterates backwards over last set items for all on for key
@@ -2233,6 +2252,7 @@ def _serialize_meta(meta: dict[str, Any]) -> str:
     return json.dumps(meta, sort_keys=True)
 
 
+@_snapshot
 def _iterOnItems(
     *,
     db: SubDb,
-- 
2.43.0


From 7f9fef463e9261942495a68958f511dd6ae46464 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 06/82] fix: LMDBer backward ordinal set iterators end instead
 of raising when nothing is at or before the key

---
 src/keri/db/dbing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 28e8621..8adde69 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2089,7 +2089,8 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # nothing earlier so key not in db
+                        return
                     ciokey = cursor.key()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -2146,13 +2147,15 @@ class LMDBer(filing.Filer):
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
                 if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
+                    if not cursor.last():  # so find greatest on
+                        return  # empty database so raise StopIteration
 
                 ciokey, cval= cursor.item()
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
+                    if not cursor.prev():  # nothing earlier so key not in db
+                        return
                     ciokey, cval= cursor.item()
                     conkey, cion = unsuffix(ciokey, sep=sep)
                     ckey, con = splitOnKey(conkey, sep=sep)
-- 
2.43.0


From 9cba3eac3d7b3a080824ee1f978b05d4e02999bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 07/82] fix: LMDBer last-of-set lookups honour the caller's
 separator

---
 src/keri/db/dbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 8adde69..45fe404 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1269,7 +1269,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1454,7 +1454,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
-- 
2.43.0


From 5d102362dd91c30a34b75ee2dee13f610d943340 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 08/82] fix: LMDBer.appendOnIoSetVals refuses to append past
 the maximum ordinal

---
 src/keri/db/dbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 45fe404..fb97d56 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1640,6 +1640,10 @@ class LMDBer(filing.Filer):
                         # else earlier key so create zeroth entry at key
                     # else no earlier key so create zeroth entry at key
 
+            if on > MaxON:  # last entry at key is at max on but not at max ion
+                raise ValueError(f"Failed append entry to {key=}, would "
+                                 f"exceed max on at {MaxON=}")
+
             onkey = onKey(key, on, sep=sep)  # create onkey at on
             for ion, val in enumerate(oset(vals)):
                 iokey = suffix(onkey, ion=ion, sep=sep) # create suffix key
-- 
2.43.0


From dfaf3596b079183bedfbe33eee1d2b7fb597d96f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 09/82] fix: LMDBer.getOnItem returns items whose value is
 empty

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index fb97d56..d1ccc8b 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -873,7 +873,7 @@ class LMDBer(filing.Filer):
         with self.env.begin(db=db, write=False, buffers=True) as txn:
             onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
             try:
-                if val := txn.get(onkey):
+                if (val := txn.get(onkey)) is not None:
                     return (key, on, val)
                 else:
                     return None
-- 
2.43.0


From 4303a43939b275db8c655b24772897c43e2f53ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 10/82] fix: LMDBer.getOnAllIoSetLastItemIter honours the
 caller's separator

---
 src/keri/db/dbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index d1ccc8b..ba55eb7 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2020,8 +2020,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
-- 
2.43.0


From 5d217f9ecf45f1df92553ef8b6336970a6c88e30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 11/82] fix: spec example tools report python blocks that
 literal_eval rejects with TypeError instead of crashing

---
 tools/check_spec_examples.py | 3 ++-
 tools/tag_spec_examples.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index 46a5811..3a0de48 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -70,7 +70,8 @@ def _load_block_body(lang, body):
     # python fence -> ast literal parse (safe: literals only, no execution)
     try:
         return ast.literal_eval(body)
-    except (ValueError, SyntaxError) as ex:
+    except (ValueError, TypeError, SyntaxError, MemoryError,
+            RecursionError) as ex:
         raise ValueError(f"spec python block does not parse: {ex}") from ex
 
 
diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 584e7f3..24d3e99 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -81,7 +81,8 @@ def tag(manifest, text):
     for open_idx, close_idx, lang, body in blocks:
         try:
             value = _parse_body(lang, body)
-        except (ValueError, SyntaxError, json.JSONDecodeError):
+        except (ValueError, TypeError, SyntaxError, MemoryError,
+                RecursionError):
             continue
         if not isinstance(value, dict):
             continue
-- 
2.43.0


From 76f0f128546eac62e9b6a1bb7f58cb41778637f3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 12/82] fix: spec drift guard no longer takes true for 1 or
 false for 0

---
 tools/check_spec_examples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/check_spec_examples.py b/tools/check_spec_examples.py
index 3a0de48..faf2065 100644
--- a/tools/check_spec_examples.py
+++ b/tools/check_spec_examples.py
@@ -106,6 +106,7 @@ def _diff_paths(expected, actual, path=""):
     differ. `expected` is the manifest (canonical); `actual` is the spec."""
     if type(expected) is not type(actual) and not (
         isinstance(expected, (int, float)) and isinstance(actual, (int, float))
+        and not isinstance(expected, bool) and not isinstance(actual, bool)
     ):
         yield (f"{path or '(root)'}: type differs "
                f"(manifest={type(expected).__name__}, "
-- 
2.43.0


From fae5cd2b4c0a76e811cb8f74895512a0eba9d641 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 13/82] fix: spec example tagger is idempotent when several
 fences equal one manifest block

---
 tools/tag_spec_examples.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index 24d3e99..d273d8b 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -29,7 +29,7 @@ import sys
 
 _OPEN_RE = re.compile(r"^[ \t]*```[ \t]*(json|python)[ \t]*$", re.IGNORECASE)
 _CLOSE_RE = re.compile(r"^[ \t]*```[ \t]*$")
-_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*[^>]*-->\s*$")
+_MARKER_RE = re.compile(r"^\s*<!--\s*example:\s*(?P<name>[^>]*?)\s*-->\s*$")
 
 
 def _parse_body(lang, body):
@@ -58,12 +58,13 @@ def find_blocks(lines):
 
 
 def already_tagged(lines, open_idx):
-    """True if the fence at open_idx already has an example marker above it
-    (skipping blank lines)."""
+    """Name on the example marker above the fence at open_idx (skipping blank
+    lines), or None when the fence has no marker yet."""
     k = open_idx - 1
     while k >= 0 and lines[k].strip() == "":
         k -= 1
-    return k >= 0 and bool(_MARKER_RE.match(lines[k]))
+    m = _MARKER_RE.match(lines[k]) if k >= 0 else None
+    return m.group("name") if m else None
 
 
 def tag(manifest, text):
@@ -76,7 +77,8 @@ def tag(manifest, text):
     inserts = []          # (open_idx, name)
     tagged = []
     warnings = []
-    used = set()
+    # names already claimed by a marker, wherever in the spec it is
+    used = {already_tagged(lines, open_idx) for open_idx, _, _, _ in blocks}
 
     for open_idx, close_idx, lang, body in blocks:
         try:
@@ -94,11 +96,11 @@ def tag(manifest, text):
                             f"multiple manifest blocks {matches}; skipped")
             continue
         name = matches[0]
-        if already_tagged(lines, open_idx):
+        if already_tagged(lines, open_idx) is not None:
             continue
         if name in used:
             warnings.append(f"line {open_idx + 1}: manifest block '{name}' "
-                            f"already tagged on an earlier fence; skipped")
+                            f"already tagged on another fence; skipped")
             continue
         used.add(name)
         inserts.append((open_idx, name))
-- 
2.43.0


From b39f4c36c87f83311394f27a63d3d772afbccf72 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 14/82] fix: spec example tagger tells true from 1 and false
 from 0 as the drift guard does

---
 tools/tag_spec_examples.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tools/tag_spec_examples.py b/tools/tag_spec_examples.py
index d273d8b..00ee06d 100644
--- a/tools/tag_spec_examples.py
+++ b/tools/tag_spec_examples.py
@@ -38,6 +38,18 @@ def _parse_body(lang, body):
     return ast.literal_eval(body)  # literals only; no code execution
 
 
+def _same(a, b):
+    """True when a and b are equal as data: unlike ==, true is not 1 and false
+    is not 0 (check_spec_examples.py tells them apart)."""
+    if isinstance(a, bool) or isinstance(b, bool):
+        return a is b
+    if isinstance(a, dict) and isinstance(b, dict):
+        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
+    if isinstance(a, list) and isinstance(b, list):
+        return len(a) == len(b) and all(map(_same, a, b))
+    return a == b
+
+
 def find_blocks(lines):
     """Yield (open_idx, close_idx, lang, body_text) for each fenced block."""
     i = 0
@@ -88,7 +100,7 @@ def tag(manifest, text):
             continue
         if not isinstance(value, dict):
             continue
-        matches = [name for name, val in targets if val == value]
+        matches = [name for name, val in targets if _same(val, value)]
         if not matches:
             continue
         if len(matches) > 1:
-- 
2.43.0


From 6b1eef4fd77938b6b44093a652bae0c71c520aaa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 15/82] fix: count each key or witness index once toward
 thresholds and ignore indices without weight

---
 src/keri/core/coring.py   | 8 +++++---
 src/keri/core/eventing.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..05775fb 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4661,7 +4661,8 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            # a key counts only once however many signatures name its index
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
@@ -4683,8 +4684,9 @@ class Tholder:
             if not indices:  # empty indices
                 return False
 
-            # remove duplicates with set, sort low to high
-            indices = sorted(set(indices))
+            # remove duplicates with set, sort low to high. An index beyond the
+            # weights (more keys than weights) carries no weight.
+            indices = sorted(idx for idx in set(indices) if idx < self.size)
             sats = [False] * self.size  # default all satifactions to False
             for idx in indices:
                 sats[idx] = True  # set verified signature index to True
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..413c694 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2891,7 +2891,7 @@ class Kever:
                     if toader.num != 0:  # invalid toad
                         raise ValidationError(f"Invalid toad = {toader.num} for wits = {wits}")
 
-                if len(windices) < toader.num:  # not fully witnessed yet
+                if len(set(windices)) < toader.num:  # not fully witnessed yet
                     if self.escrowPWEvent(serder=serder, wigers=wigers, sigers=sigers,
                                           delsner=delsner, delsger=delsger,
                                           local=local):
-- 
2.43.0


From 19209e96ba2e5b6387423257f79d1ca3bfd3635c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 16/82] fix: a recovery rotation over interactions changes the
 witnesses it says it changes

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 413c694..6c05e43 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2698,7 +2698,7 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        if serder.ilk not in (Ilks.rot, Ilks.drt) or serder.sn <= self.lastEst.s:  # no changes
             return self.wits, self.cuts, self.adds
 
         witset = oset(self.wits)
-- 
2.43.0


From 899dc9e7c79bbb8f520a3e84645a7e57afb72754 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 17/82] fix: refuse a delegated rotation of an identifier that
 is not delegated

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6c05e43..7683d95 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2482,6 +2482,11 @@ class Kever:
                                       "delegated pre = {} with evt = {}."
                                       "".format(serder.pre, ked))
 
+            if not self.delegated and ilk == Ilks.drt:
+                raise ValidationError("Attempted delegated rotation on "
+                                      "non delegated pre = {} with evt = {}."
+                                      "".format(serder.pre, ked))
+
             tholder, toader, wits, cuts, adds = self.rotate(serder)
 
             # Validates signers, delegation if any, and witnessing when applicable
-- 
2.43.0


From d28ef95abb4344fac24d7a167f908a51de84954f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 18/82] fix: likely duplicitous events are escrowed, with their
 true source, instead of failing

---
 src/keri/core/eventing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7683d95..5e7f280 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4354,7 +4354,7 @@ class Kevery:
                         kever.logEvent(serder, sigers=sigers, wigers=wigers)
 
                 else:  # escrow likely duplicitous event
-                    self.escrowLDEvent(serder=serder, sigers=sigers)
+                    self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                     msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                     logger.debug(msg)
                     logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -4439,7 +4439,7 @@ class Kevery:
                             kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
-                        self.escrowLDEvent(serder=serder, sigers=sigers)
+                        self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                         logger.debug(msg)
                         logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -5816,7 +5816,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 9bd1b8641ec6f2491861631f14709492a353f258 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 19/82] fix: interaction events and late signatures are logged
 with their true source and clone's first seen record

---
 src/keri/core/eventing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 5e7f280..720ba0a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2575,7 +2575,8 @@ class Kever:
             # .validateSigsDelWigs above ensures thresholds met otherwise raises exception
             # all validated above so may add to KEL and FEL logs as first seen
             fn, dts = self.logEvent(serder=serder, sigers=sigers, wigers=wigers,
-                                    first=True if not check else False)  # First seen accepted
+                                    first=True if not check else False,
+                                    firner=firner, dater=dater, local=local)  # First seen accepted
 
             # validates so update state
             self.sner = sner  # sequence number Number instance
@@ -4351,7 +4352,7 @@ class Kevery:
                         # signatures to be added to the databse
                         # Not first seen version of event so ignore return
                         # idempotent update db logs
-                        kever.logEvent(serder, sigers=sigers, wigers=wigers)
+                        kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)
 
                 else:  # escrow likely duplicitous event
                     self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
@@ -4436,7 +4437,7 @@ class Kevery:
                             # signatures to be added to the databse
                             # Not first seen version of event so ignore return
                             # idempotent update db logs
-                            kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
+                            kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
                         self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
-- 
2.43.0


From cdf50633f03899e4532cbb9ff0fc032051094165 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 20/82] fix: accept the witnesses a rotation cuts in any order

---
 src/keri/core/eventing.py | 6 +++---
 src/keri/vdr/eventing.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 720ba0a..d03a154 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -801,7 +801,7 @@ def rotate(pre,
     if len(cutset) != len(cuts):
         raise ValueError(f"Invalid cuts = {cuts}, has duplicates.")
 
-    if (witset & cutset) != cutset:  # some cuts not in wits
+    if not cutset <= witset:  # some cuts not in wits
         raise ValueError(f"Invalid cuts = {cuts}, not all members in wits.")
 
     adds = adds if adds is not None else []
@@ -2714,7 +2714,7 @@ class Kever:
             raise ValidationError("Invalid cuts = {cuts}, has duplicates for "
                                   f"evt = {serder.ked}.")
 
-        if (witset & cutset) != cutset:  # some cuts not in wits
+        if not cutset <= witset:  # some cuts not in wits
             raise ValidationError(f"Invalid cuts = {cuts}, not all members in "
                                   f"wits for evt = {serder.ked}.")
 
@@ -7154,7 +7154,7 @@ class Kevery:
                 if len(cutset) != len(cuts):
                     raise ValidationError("Invalid cuts={}, has duplicates "
                                           "for evt={}.".format(cuts, serder.ked))
-                if (witset & cutset) != cutset:  # some cuts not in wits
+                if not cutset <= witset:  # some cuts not in wits
                     raise ValidationError("Invalid cuts={}, not all members "
                                           "in wits for evt={}.".format(cuts, serder.ked))
                 if len(addset) != len(adds):
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..0c1f933 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -167,7 +167,7 @@ def rotate(
     if len(cutset) != len(cuts):
         raise ValueError("Invalid cuts = {}, has duplicates.".format(cuts))
 
-    if (bakset & cutset) != cutset:  # some cuts not in wits
+    if not cutset <= bakset:  # some cuts not in wits
         raise ValueError("Invalid cuts = {}, not all members in baks.".format(cuts))
 
     adds = adds if adds is not None else []
@@ -964,7 +964,7 @@ class Tever:
             raise ValidationError("Invalid cuts = {}, has duplicates for evt = "
                                   "{}.".format(cuts, ked))
 
-        if (witset & cutset) != cutset:  # some cuts not in baks
+        if not cutset <= witset:  # some cuts not in baks
             raise ValidationError("Invalid cuts = {}, not all members in baks"
                                   " for evt = {}.".format(cuts, ked))
 
-- 
2.43.0


From 461496f3ec060b6d2a6a33aa10e0b9555f1d199e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 21/82] fix: signatures escrowed before they could be verified
 do not stay attached to the accepted event

---
 src/keri/core/eventing.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index d03a154..6ba18a2 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3677,6 +3677,15 @@ class Kever:
 
         pre = self.prefixer.qb64
         if first:  # append event dig to first seen database in order
+            # out of order escrow keeps signatures it can not yet verify, so now
+            # that event is accepted drop any of those that do not verify
+            verfers = serder.verfers if serder.estive else self.verfers
+            werfers = [Verfer(qb64=wit) for wit in (self.wits if wits is None else wits)]
+            for sdb, vers in ((self.db.sigs, verfers), (self.db.wigs, werfers)):
+                for siger in sdb.get(keys=dgkeys):
+                    if (siger.index >= len(vers) or
+                            not vers[siger.index].verify(siger.raw, serder.raw)):
+                        sdb.rem(keys=dgkeys, val=siger)
             fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
-- 
2.43.0


From d7bff6a7e08271efbf07f3c5265f016fd8a094e3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 22/82] fix: judge whether an event is fully witnessed by its
 own witness threshold

---
 src/keri/db/basing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..21cf89c 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2077,10 +2077,13 @@ class Baser(LMDBer):
         # have been gathered if this ius a witness for serder.pre
         # get unique verified wigers and windices lists from wigers list
         wigers = self.wigs.get(keys=(serder.preb, serder.saidb))
-        kever = self.kevers[serder.pre]
-        toad = kever.toader.num
+        eserder = serder  # witness threshold is that of the event's own est event
+        while eserder is not None and not eserder.estive:
+            eserder = self.evts.get(keys=(serder.preb, eserder.prior))
+        if eserder is None:
+            return False
 
-        return not len(wigers) < toad
+        return not len({wiger.index for wiger in wigers}) < eserder.bner.num
 
     def resolveVerifiers(self, pre=None, sn=0, dig=None):
         """
-- 
2.43.0


From abeaa70790ce7e815434fc0e7fdd302d833add7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 23/82] fix: a delegation may be sealed in the delegator's
 inception

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6ba18a2..2bc2b63 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3318,7 +3318,7 @@ class Kever:
 
         if delsner and delsger and not dserder:  # given couple not found
             # Get delegating event from delnum and delpre
-            ssn = delsner.validate(inceptive=False).sn
+            ssn = delsner.validate().sn  # inception may seal too
             # get the dig of the delegating event. Using getKeLast ensures delegating
             #  event has not already been superceded
             # get dig of last delegating event purported at sn
-- 
2.43.0


From 6572680b0b4e407909a452a8972a9046b3cf83a2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 24/82] fix: a seal reference to an event that never comes does
 not hide the real delegation seal

---
 src/keri/core/eventing.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 2bc2b63..6498ebc 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3298,15 +3298,17 @@ class Kever:
             raise ValidationError(msg)
 
         dserder = None  # no delegation event yet
-        if delsner is None or delsger is None: # missing delegation seal ref
-            if eager:  # walk kel here to find
-                seal = dict(i=serder.pre, s=serder.snh, d=serder.said)
-                dserder = self.db.fetchLastSealingEventByEventSeal(pre=delpre,
-                                                                     seal=seal)
-                if dserder is not None:  # found seal in dserder
-                    delsner = Number(num=dserder.sn)  # replace with found
-                    delsger = Diger(qb64=dserder.said)  # replace with found
+        if eager and (delsner is None or delsger is None or  # missing seal ref
+                self.db.kels.getLast(keys=delpre, on=delsner.num) is None):  # maybe bad ref
+            # walk kel here to find
+            seal = dict(i=serder.pre, s=serder.snh, d=serder.said)
+            dserder = self.db.fetchLastSealingEventByEventSeal(pre=delpre,
+                                                                 seal=seal)
+            if dserder is not None:  # found seal in dserder
+                delsner = Number(num=dserder.sn)  # replace with found
+                delsger = Diger(qb64=dserder.said)  # replace with found
 
+        if delsner is None or delsger is None: # missing delegation seal ref
             if not dserder: # just escrow and try later
                 self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger, local=local)
-- 
2.43.0


From 3dcd24a609faf9d620e11b913cbb71e06d5361a5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 25/82] fix: receipts are matched to the event they name and to
 the witnesses of its time

---
 src/keri/core/eventing.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6498ebc..811b218 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4498,11 +4498,14 @@ class Kevery:
 
         # Only accept receipt if for last seen version of event at sn
         ldig = self.db.kels.getLast(keys=pre, on=sn) # retrieve dig of last event at sn.
+        if (ldig is not None and ldig != ked["d"] and
+                not self.db.fons.get(keys=(pre, ked["d"]))):
+            ldig = None  # receipted event not yet accepted but may yet supersede
 
         if ldig is not None:  # verify digs match
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
-            dgkey = dgKey(serder.preb, serder.saidb)
-            lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
+            dgkey = dgKey(serder.preb, ldig)
+            lserder = self.db.evts.get(keys=(serder.preb, ldig))  # retrieve receipted event at dig
             # assumes db ensures that lserder must not be none
             if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
                 raise ValidationError("Stale receipt at sn = {} for rct = {}."
@@ -4911,7 +4914,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
@@ -6725,6 +6728,20 @@ class Kevery:
                                                      rsaider=rdiger,
                                                      wiger=wiger)
 
+                if not found and self.db.kels.getLast(keys=pre, on=sn) == rdig:
+                    # receipted event has been accepted in the meantime
+                    serder = self.db.evts.get(keys=(pre, rdig))
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
+                    if wiger.index >= len(wits):
+                        raise ValidationError(f"UWE Bad escrowed witness receipt "
+                                              f"index={wiger.index} at pre={pre} sn={sn:x}")
+                    wiger.verfer = Verfer(qb64=wits[wiger.index])
+                    if not wiger.verfer.verify(wiger.raw, serder.raw):
+                        raise ValidationError(f"UWE Bad escrowed witness receipt "
+                                              f"wig at pre={pre} sn={sn:x}")
+                    self.db.wigs.add(keys=(pre, rdig), val=wiger)
+                    found = True
+
                 if not found:  # no partial witness escrow of event found
                     # so keep in escrow by raising UnverifiedWitnessReceiptError
                     msg = f"UWE Missing witness receipted evt at pre={pre} {sn=}"
@@ -6867,10 +6884,7 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
-- 
2.43.0


From 631decff6545bec099b9d13480ca10539008acee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 26/82] fix: superseding delegated rotations are judged by the
 events they rotate and are delegated from; superseded events stay accepted

---
 src/keri/core/eventing.py | 90 ++++++++++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 24 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 811b218..2d6e2ac 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2662,7 +2662,8 @@ class Kever:
                                       "".format(prior, self.serder.said, ked))
 
         # check derivation code of pre for non-transferable
-        if not self.ndigers:  # prior next list is empty so rotations not allowed
+        ndigers, _, _ = self.priors(serder)
+        if not ndigers:  # prior next list is empty so rotations not allowed
             raise ValidationError("Attempted rotation for nontransferable"
                                   " prefix = {} for evt = {}."
                                   "".format(self.prefixer.qb64, ked))
@@ -2692,6 +2693,25 @@ class Kever:
         return tholder, toader, wits, cuts, adds
 
 
+    def priors(self, serder):
+        """Returns tuple (ndigers, ntholder, wits) of the establishment event that
+        rotation serder rotates from. Unless serder is a delegated rotation that
+        supersedes the last establishment event that is the last establishment
+        event. Otherwise its the establishment event prior to it.
+
+        Parameters:
+            serder (SerderKERI): instance of rotation event ('rot' or 'drt')"""
+        if serder.ilk == Ilks.drt and serder.sn == self.lastEst.s:
+            pre = self.prefixer.qb64
+            for dig in self.db.kels.getBackIter(keys=pre, on=serder.sn - 1):
+                eserder = self.db.evts.get(keys=(pre, dig))
+                if eserder.estive:
+                    return (eserder.ndigers, eserder.ntholder,
+                            [wit.qb64 for wit in self.db.wits.get(keys=(pre, dig))])
+
+        return (self.ndigers, self.ntholder, self.wits)
+
+
     def deriveBacks(self, serder):
         """Derives and return tuple of (wits, cuts, adds) for backers  given
         current set and any changes provided by serder.
@@ -2704,10 +2724,12 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or serder.sn <= self.lastEst.s:  # no changes
+        if (serder.ilk not in (Ilks.rot, Ilks.drt) or serder.sn < self.lastEst.s or
+                serder.said == self.lastEst.d):  # no changes
             return self.wits, self.cuts, self.adds
 
-        witset = oset(self.wits)
+        _, _, owits = self.priors(serder)
+        witset = oset(owits)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2729,14 +2751,14 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {owits} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(owits) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{owits}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
@@ -2865,12 +2887,13 @@ class Kever:
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
             # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            ndigers, ntholder, _ = self.priors(serder)
+            ondices = self.exposeds(sigers, ndigers=ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
-                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {self.ntholder.sith} "
+                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {ntholder.sith} "
                     f"with exposed sigs {[siger.qb64 for siger in sigers]} "
                     f"for new est evt={serder.said}")
                 logger.trace(msg)
@@ -2952,7 +2975,7 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
         from self.ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
@@ -2979,11 +3002,14 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list|None): of Diger instances of prior next key digests.
+                None means use .ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
@@ -3401,11 +3427,8 @@ class Kever:
         # Returning delegator indicates success and eventually results in acceptance
         # via Kever.logEvent which also writes the delgating event source couple to
         # db.aess so we can find it later
-        if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
-            (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
-                serder.ilk == Ilks.drt)):  # superseding is rotation
+        if ((serder.ilk == Ilks.dip) or  # delegated inception or
+            (serder.sner.num > self.lastEst.s)):  # inorder or supersedes interactions only
                     return (delsner, delsger) # indicates delegation valid
 
         # get to here means drt rotation superseding another drt rotation
@@ -3415,7 +3438,8 @@ class Kever:
 
         # set up recursive search for superseding delegations
         # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # original accepted delegated event i.e. serf original
+        serfo = self.db.evts.get(keys=(self.prefixer.qb64, self.lastEst.d))
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -3433,8 +3457,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # at same sn and
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding  delegation is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
@@ -3464,7 +3489,16 @@ class Kever:
                     logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
                     raise ValidationError(msg)
 
-            # tie condition same sn and drt so need to climb delegation chain
+            # tie condition so need to climb delegation chain
+            delpre = self.kevers[delpre].delpre  # delegator of delegator
+            if (not delpre or bossn.ilk not in (Ilks.dip, Ilks.drt) or
+                    bosso.ilk not in (Ilks.dip, Ilks.drt)):  # reached root of delegation
+                msg = f"Invalid delegation recovery rotation of {serfo.pre} by {serfn.pre}"
+                logger.info(msg)
+                logger.debug("Delegate Event Body=\n%s\n", serfo.pretty())
+                logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
+                raise ValidationError(msg)
+
             serfn = bossn
             if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
                                                        original=False,
@@ -3578,7 +3612,7 @@ class Kever:
         elif eager:  # missing aes but try to find seal by walking delegator's KEL
             seal = SealEvent(i=serder.pre, s=serder.snh, d=serder.said)._asdict()
             if original:  # search all events in delegator's kel not just last
-                if not (dserder := self.db.fetchLastSealingEventByEventSeal(pre=delpre,
+                if not (dserder := self.db.fetchAllSealingEventByEventSeal(pre=delpre,
                                                                             seal=seal)):
                     # database broken this should never happen so do not validate
                     # since original must have been validated so it must have
@@ -4389,7 +4423,8 @@ class Kevery:
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
                       (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                        kever.lastEst.s <= sn <= sno and
+                        not self.db.fons.get(keys=(pre, said)))):  # not yet accepted
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
@@ -4450,6 +4485,10 @@ class Kevery:
                             # idempotent update db logs
                             kever.logEvent(serder, sigers=sigers, wigers=wigers, local=local)  # idempotent update db logs
 
+                    elif self.db.fons.get(keys=(pre, said)):
+                        # already accepted but since superseded so not duplicitous
+                        logger.debug("Superseded event sn=%s SAID=%s", serder.sn, said)
+
                     else:  # escrow likely duplicitous event
                         self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
@@ -7150,6 +7189,9 @@ class Kevery:
         # snKey(pre,sn) where pre is controller and sn is event sequence number
         # compare dig to rdiger derived from receipt's dig of receipted event
         found = False
+        if self.db.fons.get(keys=(pre, rsaider.qb64)):  # no longer awaits witnesses
+            return False  # already accepted, so entry in .Pwes is stale
+
         for dig in self.db.pwes.getIter(keys=pre, on=sn):  # search entries
             dig = dig.encode("utf-8")  # database dig of receipted event
             # get the escrowed event using database dig in .Pwes
@@ -7190,7 +7232,7 @@ class Kevery:
                                           "for evt={}.".format(cuts, adds, serder.ked))
                 if witset & addset:  # non empty intersection
                     raise ValidationError("Intersecting wits={} and  adds={} "
-                                          "for evt={}.".format(self.wits, adds, serder.ked))
+                                          "for evt={}.".format(wits, adds, serder.ked))
                 wits = list((witset - cutset) | addset)
 
             else:  # interaction so get wits from kever key state
-- 
2.43.0


From 74e8d666aaf089c934f5bc429049e9bc18946311 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 27/82] fix: a receipt waits for an event that may yet
 supersede

---
 src/keri/core/eventing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 2d6e2ac..9edc527 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6891,7 +6891,9 @@ class Kevery:
                     # at pre and sn
 
                     dig = self.db.kels.getLast(keys=pre, on=sn)
-                    if dig is None:  # no receipted event so keep in escrow
+                    if dig is None or (dig != rsaider.qb64 and
+                            not self.db.fons.get(keys=(pre, rsaider.qb64))):
+                        # no receipted event so keep in escrow
                         msg = f"URE Missing receipted evt at pre={pre} sn={sn:x}"
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
-- 
2.43.0


From 122ade2c5b2856d4cef7e061becba321972e5bc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 28/82] fix: an event without witnesses is not locally
 witnessed by the witnesses it cut

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 9edc527..365dc7e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2252,7 +2252,7 @@ class Kever:
         Parameters:
             wits (list[str]): qb64 identifier prefixes of witnesses
             serder ( SerderKERI | None): SerderKERI instace if any"""
-        if not wits:
+        if wits is None:
             if not serder:
                 wits = self.wits
             else:
-- 
2.43.0


From 943b6813e9a8d2735224a2514955b2ece362482a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 29/82] fix: an event first seen just before a crash is not
 first seen again

---
 src/keri/core/eventing.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 365dc7e..1f1602c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3722,7 +3722,14 @@ class Kever:
                     if (siger.index >= len(vers) or
                             not vers[siger.index].verify(siger.raw, serder.raw)):
                         sdb.rem(keys=dgkeys, val=siger)
-            fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
+            # when interrupted after first seen but before key state was updated
+            # then was already first seen
+            if (fner := self.db.fons.get(keys=dgkey)) is not None:
+                fn = fner.sn
+            else:
+                fn = 0 if serder.ilk in (Ilks.icp, Ilks.dip) else self.fn + 1
+                if self.db.fels.get(keys=serder.preb, on=fn) != serder.said:
+                    fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
                     self.cues.push(dict(kin="noticeBadCloneFN", serder=serder,
@@ -4424,7 +4431,8 @@ class Kevery:
                         kever.lastEst.s < sn <= sno) or
                       (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
                         kever.lastEst.s <= sn <= sno and
-                        not self.db.fons.get(keys=(pre, said)))):  # not yet accepted
+                        said != kever.lastEst.d and  # not yet accepted
+                        said not in self.db.kels.get(keys=pre, on=sn)[:-1])):
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
-- 
2.43.0


From e351c238ddd349a2b5b289438f479844106e9789 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:48:37 +0000
Subject: [PATCH 30/82] fix: a superseded event delivered again is not escrowed
 as out of order

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1f1602c..d4a9d06 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4418,6 +4418,11 @@ class Kevery:
                 sno = kever.sner.num + 1  # proper sn of new inorder event
 
                 if sn > sno:  # sn later than sno so out of order escrow
+                    if said in self.db.kels.get(keys=pre, on=sn):
+                        # already accepted but since superseded, so not awaited
+                        raise ValidationError(f"Superseded event sn={serder.sn} "
+                                              f"type={serder.ilk} SAID={serder.said}")
+
                     # escrow out-of-order event
                     self.escrowOOEvent(serder=serder, sigers=sigers,
                                        delsner=delsner, delsger=delsger, wigers=wigers, local=local)
-- 
2.43.0


From 51d6bc0a771fb7692590c9441ca27b265d3003de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:50:40 +0000
Subject: [PATCH 31/82] fix: an event to be escrowed after a restart is not
 dropped for want of cues

---
 src/keri/core/eventing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index d4a9d06..405a4d9 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2925,7 +2925,8 @@ class Kever:
                                           delsner=delsner, delsger=delsger,
                                           local=local):
                         # cue to query for witness receipts
-                        self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
+                        if self.cues is not None:
+                            self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
                     msg = (f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying toad={toader.num} "
                            f"on witness sigs {[siger.qb64 for siger in wigers]} "
                            f"for event={serder.said}")
@@ -3355,7 +3356,8 @@ class Kever:
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
                 # delegator
-                self.cues.push(dict(kin="query", q=dict(pre=delpre,
+                if self.cues is not None:
+                    self.cues.push(dict(kin="query", q=dict(pre=delpre,
                                                                   sn=delsner.numh,
                                                                   dig=delsger.qb64)))
                 #  escrow event here
@@ -4415,6 +4417,8 @@ class Kevery:
 
             else:  # rot, drt, or ixn, so sn matters
                 kever = self.kevers[pre]  # get existing kever for pre
+                if kever.cues is None:  # reloaded from database
+                    kever.cues = self.cues
                 sno = kever.sner.num + 1  # proper sn of new inorder event
 
                 if sn > sno:  # sn later than sno so out of order escrow
-- 
2.43.0


From 31612267dfa5bfaf0fda141c71969c0c3a511f61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 32/82] fix: a transferable receipt that must wait does not
 discard the others of its message

---
 src/keri/core/eventing.py | 47 +++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 405a4d9..7662a4a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4624,6 +4624,7 @@ class Kevery:
                     # write receipt indexed sig to database
                     self.db.wigs.add(keys=dgkey, val=wiger)
 
+            unverified = False  # True means some receipter's est event missing
             for sprefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
                 if not self.lax and sprefixer.qb64 in self.prefixes:  # own is receipter
                     if pre in self.prefixes:  # skip own receipter of own event
@@ -4641,10 +4642,8 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "receipter for event={}."
-                                                             "".format(ked))
+                    unverified = True
+                    continue  # receipts of others may follow
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -4699,10 +4698,8 @@ class Kevery:
                     # receiptor's est event not yet in receiptors's KEL
                     # so need cue to discover est evt KEL for receipter from watcher etc
                     self.escrowTReceipts(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "receipter for event={}."
-                                                             "".format(ked))
+                    unverified = True
+                    continue  # receipts of others may follow
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receiptor est evt from sdig.
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -4740,6 +4737,12 @@ class Kevery:
                         keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
+            if unverified:
+                raise UnverifiedTransferableReceiptError("Unverified receipt: "
+                                                         "missing establishment event of transferable "
+                                                         "receipter for event={}."
+                                                         "".format(ked))
+
         else:  # no events to be receipted yet at that sn so escrow
             if cigars:
                 self.escrowUReceipt(serder, cigars, said=ked["d"])  # digest in receipt
@@ -4747,6 +4750,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
@@ -5013,6 +5019,7 @@ class Kevery:
             # Only accept receipt if for last seen version of receipted event at sn
             ldig = self.db.kels.getLast(keys=pre, on=sn)  # retrieve dig of last event at sn.
 
+        unverified = False  # True means some receipter or receipted event missing
         for sprefixer, snumber, sdiger, sigers in rsgs:  # iterate over each trq
             if not self.lax and sprefixer.qb64 in self.prefixes:  # own trans receipt quadruple (chit)
                 if pre in self.prefixes:  # skip own trans receipts of own events
@@ -5039,10 +5046,8 @@ class Kevery:
                     # receipter's est event not yet in receipter's KEL
                     # receipter's seal event not in receipter's KEL
                     self.escrowTransReceiptGroup(serder, sprefixer, snumber, sdiger, sigers)
-                    raise UnverifiedTransferableReceiptError("Unverified receipt: "
-                                                             "missing establishment event of transferable "
-                                                             "validator receipt quadruple for event={}."
-                                                             "".format(ked))
+                    unverified = True
+                    continue  # receipts of others may follow
                 sdig = sdig.encode("utf-8")
                 # retrieve last event itself of receipter
                 sserder = self.db.evts.get(keys=(sprefixer.qb64b, bytes(sdig)))
@@ -5100,11 +5105,14 @@ class Kevery:
 
             else:  # escrow  either receiptor or receipted event not yet in database
                 self.escrowTransReceiptGroup(serder, sprefixer, snumber, sdiger, sigers)
-                msg = (f"Unverified receipt: missing associated event for transferable validator"
-                       f"receipt quadruple for event {serder.said}")
-                logger.info(msg)
-                logger.debug("Event=\n%s\n", serder.pretty())
-                raise UnverifiedTransferableReceiptError(msg)
+                unverified = True
+
+        if unverified:
+            msg = (f"Unverified receipt: missing associated event for transferable validator"
+                   f"receipt quadruple for event {serder.said}")
+            logger.info(msg)
+            logger.debug("Event=\n%s\n", serder.pretty())
+            raise UnverifiedTransferableReceiptError(msg)
 
 
     def removeStaleReplyEndRole(self, saider):
@@ -7362,8 +7370,9 @@ class Kevery:
 
                     # get dig of the receipted event using pre and sn lastEvt
                     raw = self.db.kels.getLast(keys=pre, on=sn)
-                    if raw is None:
-                        # no event so keep in escrow
+                    if raw is None or (raw != esaider.qb64 and
+                            not self.db.fons.get(keys=(pre, esaider.qb64))):
+                        # no receipted event so keep in escrow
                         msg = f"VRE Missing receipted evt at pre={pre} sn={sn:x}"
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedTransferableReceiptError(msg)
-- 
2.43.0


From 3ce05900a720b4a569ee98f4cda88de52aafc804 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 33/82] fix: the witnesses of an event are those of the events
 it follows

---
 src/keri/core/eventing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7662a4a..28ec4e0 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4275,11 +4275,13 @@ class Kevery:
             list:  list of Prefixer objects representing the witness state for the identifier prefix at
                 the sequence number"""
         preb = pre.encode("utf-8")
-        for digb in self.db.kels.getBackIter(keys=preb, on=sn):
-            serder = self.db.evts.get(keys=(preb, digb))
+        dig = next(self.db.kels.getBackIter(keys=preb, on=sn), None)
+        while dig:  # follow prior digests, other events at same sn are superseded
+            serder = self.db.evts.get(keys=(preb, dig))
             if serder.estive:
-                wits = self.db.wits.get(keys=(preb, digb))
+                wits = self.db.wits.get(keys=(preb, dig))
                 return wits
+            dig = serder.ked["p"]
 
         return []
 
-- 
2.43.0


From a35758edacf49cabaa215a3de355a8492c44ae77 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:57:12 +0000
Subject: [PATCH 34/82] fix: an event whose acceptance a crash interrupted
 gives way to another accepted in its place

---
 src/keri/core/eventing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 28ec4e0..806c30a 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3730,7 +3730,15 @@ class Kever:
                 fn = fner.sn
             else:
                 fn = 0 if serder.ilk in (Ilks.icp, Ilks.dip) else self.fn + 1
-                if self.db.fels.get(keys=serder.preb, on=fn) != serder.said:
+                if ((said := self.db.fels.get(keys=serder.preb, on=fn)) is not None
+                        and said != serder.said):
+                    # first seen of another event that was so interrupted gives way
+                    if (other := self.db.evts.get(keys=(serder.pre, said))) is not None:
+                        self.db.kels.rem(keys=serder.preb, on=other.sn, val=said)
+                    self.db.fons.rem(keys=dgKey(serder.preb, said))
+                    self.db.fels.rem(keys=serder.preb, on=fn)
+                    said = None
+                if said is None:
                     fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
-- 
2.43.0


From 6ec3e777521f93191eb36a08cdf0d228c7666d5b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 35/82] fix: putOnIoDupVals looks for duplicates at the ordinal
 it writes

It looked at ordinal 0, so putting the same value again at any other
ordinal added it again: an out of order TEL event put back in escrow
while the escrow was iterated made the iteration endless.
---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index ba55eb7..9d5d895 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2789,7 +2789,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
-- 
2.43.0


From aa5fed81677a04bcb144d5df9c08e79ffce129ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 36/82] fix: unescrowing a TEL event leaves the others escrowed
 at its place

Removing by place alone dropped other events waiting there.
---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 0c1f933..2004a15 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2031,7 +2031,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2041,7 +2041,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2089,7 +2089,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2099,7 +2099,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From 9f52203df03f17be7bb67720755381033926505a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 37/82] fix: a credential is revoked once, in the registry
 which issued it

---
 src/keri/vdr/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 2004a15..329f1f4 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1102,6 +1102,11 @@ class Tever:
             raise ValidationError("revoke without issue... probably have to escrow")
 
         iserder = SerderKERI(raw=ievt.encode("utf-8"))
+        if (iserder.ilk not in (Ilks.iss, Ilks.bis) or
+                Tevery.registryKey(iserder) != Tevery.registryKey(serder)):
+            raise ValidationError(f"Prior event = {iserder.said} is not the "
+                                  f"issuance in registry of evt = {ked}.")
+
         if not iserder.compare(said=ked["p"]):  # prior event dig not match
             raise ValidationError("Mismatch event dig = {} with state dig"
                                   " = {} for evt = {}.".format(ked["p"],
-- 
2.43.0


From 3abd5d9d15a4309b6971fd6ff17304cf1854bfce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 38/82] fix: a registry has no state of a credential another
 one issued

---
 src/keri/vdr/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 329f1f4..0c739c5 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1170,6 +1170,9 @@ class Tever:
         raw = self.reger.tvts.get(keys=dgkey)
         serder = SerderKERI(raw=raw.encode("utf-8"))
 
+        if Tevery.registryKey(serder) != self.regk:  # not of this Registry
+            return None
+
         if self.noBackers:
             vcilk = Ilks.iss if len(digs) == 1 else Ilks.rev
             ra = dict()
-- 
2.43.0


From 4e656a343b526874de63dab9feadb0c6b2c19f55 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 39/82] fix: the stored state of a registry follows its
 rotations

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 0c739c5..f95c094 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1570,6 +1570,8 @@ class Tevery:
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                if ilk in (Ilks.vrt,):
+                    self.tevers[regk] = tever  # persists its new state
 
                 if regk not in self.registries:
                     # witness style backers will need to send receipts so lets queue them up for now
-- 
2.43.0


From 6ecdc8792e5b316241c41cb37b164bf498857206 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 40/82] fix: the anchor kept with a TEL event is the one it was
 last given, the one it was accepted on

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index f95c094..704a783 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1233,7 +1233,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
@@ -1361,7 +1361,7 @@ class Tever:
         dgkey = dgKey(serder.preb, serder.saidb)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=dgkey, val=(number, diger))
+        self.reger.ancs.pin(keys=dgkey, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=dgkey, vals=bigers)
         self.reger.tvts.put(keys=dgkey, val=serder.raw)
@@ -1385,7 +1385,7 @@ class Tever:
         if seqner and saider:
             number = Number(num=seqner.sn)
             diger = Diger(qb64=saider.qb64)
-            self.reger.ancs.put(keys=key, val=(number, diger))
+            self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
@@ -1970,7 +1970,7 @@ class Tevery:
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
-- 
2.43.0


From c6aafc50a4c468373571cb29967b26cb40cf2114 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 41/82] fix: a key event superseded in a recovery anchors no
 TEL event

---
 src/keri/vdr/eventing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 704a783..e7a0336 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1322,6 +1322,9 @@ class Tever:
         if seqner is None or saider is None:
             return False
 
+        if self.pre not in self.db.kevers or seqner.sn > self.db.kevers[self.pre].sn:
+            return False  # not accepted yet, or superseded in a recovery
+
         dig = self.db.kels.getLast(keys=self.pre, on=seqner.sn)
         if not dig:
             return False
-- 
2.43.0


From 5d90f57212be714292fb0eca88f6da3062d7c446 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 42/82] fix: an anchor that is no event seal does not raise
 KeyError

---
 src/keri/vdr/eventing.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index e7a0336..c0372e6 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1343,15 +1343,10 @@ class Tever:
             return False
 
         seal = seal[0]
-        spre = seal["i"]
-        ssn = seal["s"]
-        sdig = seal["d"]
-
-        if spre == serder.ked["i"] and ssn == serder.ked["s"] \
-                and serder.said == sdig:
-            return True
-
-        return False
+        return (isinstance(seal, dict) and
+                seal.get("i") == serder.ked["i"] and
+                seal.get("s") == serder.ked["s"] and
+                seal.get("d") == serder.said)
 
     def escrowPWEvent(self, serder, seqner, saider, bigers=None):
         """ Update associated logs for escrow of partially witnessed event
-- 
2.43.0


From 6fc715c368a4901ab4cfb1751ad88a0d8090503e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 43/82] fix: a TEL event out of order keeps its backer
 signatures, and needs no anchor couple yet

---
 src/keri/vdr/eventing.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index c0372e6..15a944d 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1536,7 +1536,7 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1564,7 +1564,7 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1950,7 +1950,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1963,12 +1963,16 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            bigers (list): Siger instances of indexed backer sigs"""
         key = dgKey(serder.preb, serder.saidb)
         self.reger.tvts.put(keys=key, val=serder.raw)
-        number = Number(num=seqner.sn)
-        diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.pin(keys=key, val=(number, diger))
+        if seqner and saider:
+            number = Number(num=seqner.sn)
+            diger = Diger(qb64=saider.qb64)
+            self.reger.ancs.pin(keys=key, val=(number, diger))
+        if bigers:
+            self.reger.tibs.put(keys=key, vals=bigers)
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
@@ -2022,12 +2026,11 @@ class Tevery:
                 bigers = self.reger.tibs.get(keys=(pre, digb)) or None
 
                 couple = self.reger.ancs.get(keys=dgkey)
-                if couple is None:
-                    msg = f"OOO Missing escrowed anchor at dig = {bytes(digb).decode()}"
-                    logger.info("Tevery unescrow error: %s", msg)
-                    raise ValidationError(msg)
-                number, diger = couple
-                seqner = Seqner(sn=number.num)
+                if couple is None:  # came without, wait for one as anchorless
+                    seqner, diger = None, None
+                else:
+                    number, diger = couple
+                    seqner = Seqner(sn=number.num)
 
                 self.processEvent(serder=tserder, seqner=seqner, saider=diger, wigers=bigers)
 
-- 
2.43.0


From a71a29ed6d347ed3939f677211dbd14a57c7bcef Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 44/82] fix: partially witnessed TEL events are accepted once
 their backers have signed

---
 src/keri/vdr/eventing.py | 42 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 15a944d..995e390 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1361,7 +1361,7 @@ class Tever:
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.pin(keys=dgkey, val=(number, diger))
         if bigers:
-            self.reger.tibs.pin(keys=dgkey, vals=bigers)
+            self.reger.tibs.put(keys=dgkey, vals=bigers)
         self.reger.tvts.put(keys=dgkey, val=serder.raw)
         self.reger.twes.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed partially witnessed "
@@ -1385,7 +1385,7 @@ class Tever:
             diger = Diger(qb64=saider.qb64)
             self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
-            self.reger.tibs.pin(keys=key, vals=bigers)
+            self.reger.tibs.put(keys=key, vals=bigers)
         if baks:
             self.reger.baks.rem(key)
             self.reger.baks.put(key, [bak.encode("utf-8") for bak in baks])
@@ -1982,6 +1982,7 @@ class Tevery:
 
         try:
             self.processEscrowAnchorless()
+            self.processEscrowPartialWits()
             self.processEscrowOutOfOrders()
             self.reger.txnsb.processEscrowState(typ="credential-mre", processReply=self.processReplyCredentialTxnState,
                                                 extype=MissingRegistryError)
@@ -2056,6 +2057,43 @@ class Tevery:
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
+    def processEscrowPartialWits(self):
+        """ Process escrow of TEL events not yet fully witnessed by their backers.
+
+        Process partially witnessed events in the following way:
+           1. loop over event digests saved in twes
+           2. deserialize event out of tvts
+           3. load backer signatures out of tibs
+           4. read anchor information out of ancs
+           5. perform process event
+           6. Remove event digest from twes if processed successfully or a non-partially-witnessed event occurs."""
+        for pre, sn, digb in self.reger.twes.getAllItemIter():
+            pre = pre[0]
+            try:
+                dgkey = dgKey(pre, digb)
+                traw = self.reger.tvts.get(keys=dgkey)
+                couple = self.reger.ancs.get(keys=dgkey)
+                if traw is None or couple is None:
+                    raise ValidationError(f"PWE Missing escrowed event or anchor at dig = {digb}")
+
+                tserder = SerderKERI(raw=traw.encode("utf-8"))  # escrowed event
+                bigers = self.reger.tibs.get(keys=(pre, digb)) or None
+                number, diger = couple
+
+                self.processEvent(serder=tserder, seqner=Seqner(sn=number.num), saider=diger, wigers=bigers)
+
+            except MissingWitnessSignatureError as ex:
+                # still waiting on missing backer signatures
+                logger.debug("Tevery PWE unescrow failed: %s", ex.args[0])
+
+            except Exception as ex:  # error other than waiting on sigs so remove
+                self.reger.twes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
+                logger.error("Tevery PWE unescrowed: %s", ex.args[0])
+
+            else:  # unescrow succeeded, remove from escrow
+                self.reger.twes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
+                logger.info("Tevery PWE unescrow succeeded in valid event: said=%s", tserder.said)
+
     def processEscrowAnchorless(self):
         """ Process escrow of TEL events received before the anchoring KEL event.
 
-- 
2.43.0


From 2774d21609f4446522042bf73acace626f6b0d95 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 45/82] fix: a backed issuance or revocation waits for the
 registry event it names

---
 src/keri/vdr/eventing.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 995e390..311b2d2 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1420,6 +1420,10 @@ class Tever:
             raise ValidationError("have to escrow this somewhere")
 
         rserder = SerderKERI(raw=revt.encode("utf-8"))
+        if self.reger.tels.get(keys=regi, on=rserder.sn) != regd:
+            raise ValidationError(f"Backing registry event = {regd} not accepted "
+                                  f"for evt = {ked}.")
+
         # the backer threshold at this event in mgmt TEL
         rtoad = rserder.ked["bt"]
 
@@ -1566,6 +1570,12 @@ class Tevery:
                 # escrow out-of-order event
                 self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
+            elif (ilk in (Ilks.bis, Ilks.brv) and
+                    ((revt := self.reger.tvts.get(keys=(regk, ked["ra"]["d"]))) is None or
+                     SerderKERI(raw=revt.encode("utf-8")).sn > tever.sn)):
+                # backed by registry event not yet accepted so escrow
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                raise OutOfOrderError("Backed by out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
                 if ilk in (Ilks.vrt,):
-- 
2.43.0


From 19af227f6fff837a7c070038bb457b1a056a1be1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 46/82] fix: a query for the state of a credential is answered

---
 src/keri/vdr/eventing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 311b2d2..c0ac2e3 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1642,8 +1642,9 @@ class Tevery:
                 self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
 
                 if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
-                    self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
+                    tsn = tever.vcState(vcpre)
+                    if tsn is not None:
+                        self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
 
         else:
             raise ValidationError("invalid query message {} for evt = {}".format(ilk, ked))
-- 
2.43.0


From 88be94d7c09015e3e0b155c4317bc4b40b027602 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 47/82] fix: a TEL event whose acceptance a crash interrupted
 gives way to another accepted in its place

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index c0ac2e3..b4fd539 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1241,7 +1241,7 @@ class Tever:
             self.reger.baks.put(key, [bak.encode("utf-8") for bak in baks])
         self.reger.tets.pin(keys=(pre.decode("utf-8"), dig.decode("utf-8")), val=Dater())
         self.reger.tvts.put(keys=key, val=serder.raw)
-        self.reger.tels.put(keys=pre, on=sn, val=dig)
+        self.reger.tels.pin(keys=pre, on=sn, val=dig)
         logger.info("Tever: Added to TEL valid %s event %s said=%s reg=%.8s iss=%.8s",
                     serder.ilk, pre.decode(), serder.said, self.regk, self.pre)
         logger.debug("TEL Event Body=\n%s\n", serder.pretty())
-- 
2.43.0


From 2c107aee35b508e6927400016edcc6e71251e7b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 48/82] fix: a credential is verified only in a registry of its
 issuer

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..23c7cc0 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if self.tevers[regk].pre != creder.israid:  # registry of another issuer
+            raise ValidationError("registry {} is not of issuer {} of credential {}"
+                                         .format(regk, creder.israid, vcid))
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From cf0fdcf0f92517965ecf0c124fc58312cbf9e7fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 49/82] fix: only one's own registry needs no backer signatures

---
 src/keri/vdr/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b4fd539..fcfe5a3 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1287,7 +1287,8 @@ class Tever:
         # Kevery .process event logic prevents this from seeing event when
         # not local and event pre is own pre
         if ((baks and not self.regk) or  # in promiscuous mode so assume must verify toad
-                (baks and not self.local and self.regk and self.regk not in baks)):
+                (baks and self.regk and self.regk not in baks and
+                 not (self.local and self.regk in self.reger.registries))):
             # validate that event is fully witnessed
             if isinstance(toad, str):
                 toad = int(toad, 16)
-- 
2.43.0


From 979e564a19dcb97eb4af4bc25d7de7e4dc358bfc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 50/82] fix: an escrow pass leaves the TEL events of registries
 it does not process to the pass that does

---
 src/keri/vdr/eventing.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index fcfe5a3..ddf0975 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1962,6 +1962,13 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
+    def processes(self, serder):
+        """ Returns True if this Tevery processes events of the registry of serder
+
+        Parameters:
+            serder (Serder): TEL event"""
+        return self.lax or self.local == (self.registryKey(serder) in self.registries)
+
     def escrowOOEvent(self, serder, seqner, saider, bigers=None):
         """ Escrow out-of-order TEL events.
 
@@ -2035,6 +2042,8 @@ class Tevery:
                     raise ValidationError(msg)
 
                 tserder = SerderKERI(raw=traw.encode("utf-8"))  # escrowed event
+                if not self.processes(tserder):
+                    continue  # left to the Tevery that processes its registry
 
                 bigers = self.reger.tibs.get(keys=(pre, digb)) or None
 
@@ -2089,6 +2098,8 @@ class Tevery:
                     raise ValidationError(f"PWE Missing escrowed event or anchor at dig = {digb}")
 
                 tserder = SerderKERI(raw=traw.encode("utf-8"))  # escrowed event
+                if not self.processes(tserder):
+                    continue  # left to the Tevery that processes its registry
                 bigers = self.reger.tibs.get(keys=(pre, digb)) or None
                 number, diger = couple
 
@@ -2128,6 +2139,8 @@ class Tevery:
                     raise ValidationError(msg)
 
                 tserder = SerderKERI(raw=traw.encode("utf-8"))  # escrowed event
+                if not self.processes(tserder):
+                    continue  # left to the Tevery that processes its registry
 
                 bigers = self.reger.tibs.get(keys=(pre, digb)) or None
 
-- 
2.43.0


From 67c897cf7c8ea7280b88dbe6c4819b9dbdcc5582 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:09:31 +0000
Subject: [PATCH 51/82] fix: anchoring a TEL event anew replaces its anchor

---
 src/keri/vdr/credentialing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index 926d78a..3b2c965 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -279,7 +279,7 @@ class BaseRegistry:
         key = dgKey(pre, regd)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
 
 
 class Registry(BaseRegistry):
-- 
2.43.0


From fbc0800a8f065ac987dcf8ce97bf269eb89a174e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:09:24 +0000
Subject: [PATCH 52/82] fix: IoSetSuber, IoSetKomer and OnIoDupSuber look for
 the last value with their own separator

---
 src/keri/db/koming.py |  3 ++-
 src/keri/db/subing.py | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/keri/db/koming.py b/src/keri/db/koming.py
index 1ef4ce4..1c9e54a 100644
--- a/src/keri/db/koming.py
+++ b/src/keri/db/koming.py
@@ -529,7 +529,8 @@ class IoSetKomer(KomerBase):
         Returns:
             val (Type[dataclass]):  instance of type self.schema
                 None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys),
+                                            sep=self.sep):
             key, val = last
             return self._des(val)
         return None
diff --git a/src/keri/db/subing.py b/src/keri/db/subing.py
index e1384fd..1924ab8 100644
--- a/src/keri/db/subing.py
+++ b/src/keri/db/subing.py
@@ -1388,7 +1388,7 @@ class IoSetSuber(SuberBase):
         Returns:
             last ((str, str)|None): (key, val) tuple or empty tuple if no entry
             at keys or keys is empty"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return (self._tokeys(key), self._des(val))
         return last
@@ -1407,7 +1407,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             val (str):  value str, None if no entry at keys"""
-        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys)):
+        if last := self.db.getIoSetLastItem(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             key, val = last
             return self._des(val)
         return None
@@ -1515,7 +1515,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             vals (Iterator[str]):  value str"""
-        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys)):
+        for val in self.db.getIoSetLastIterAll(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             yield self._des(val)
 
 
@@ -1536,7 +1536,7 @@ class IoSetSuber(SuberBase):
 
         Returns:
             items (Iterator[(str, str)]):  (key, val) tuples"""
-        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys)):
+        for key, val in self.db.getIoSetLastItemIterAll(db=self.sdb, key=self._tokey(keys), sep=self.sep):
             yield (self._tokeys(key), self._des(val))
 
 
@@ -2731,7 +2731,8 @@ class OnIoDupSuber(OnSuberBase, IoDupSuber):
             last (str):  value str, None if no entry at effective key made from
                 keys and on"""
 
-        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on)
+        val = self.db.getOnIoDupLast(db=self.sdb, key=self._tokey(keys), on=on,
+                                     sep=self.sep.encode())
         return (self._des(val) if val is not None else val)
 
 
-- 
2.43.0


From 77826129bcb0a86bea36b19de537b4ed50abb532 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 53/82] fix: putIoDupVals and putOnIoDupVals add a value
 repeated in one call once

---
 src/keri/db/dbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 9d5d895..b392b34 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2431,6 +2431,7 @@ class LMDBer(filing.Filer):
                 if val not in dups:
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(key, val, dupdata=True)
+                    dups.add(val[33:])  # so val repeated in vals is added once
                     idx += 1
                     result = True
         return result
@@ -2806,6 +2807,7 @@ class LMDBer(filing.Filer):
                 if val not in dups:
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(onkey, val, dupdata=True)
+                    dups.add(val[33:])  # so val repeated in vals is added once
                     idx += 1
                     result = True
         return result
-- 
2.43.0


From c8775a275607052729ccb04a86ffddfc8ed49086 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 54/82] fix: getOnIoDupItemBackIter does not start after the
 ordinal it is asked to start at

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b392b34..4a58f9b 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3218,7 +3218,7 @@ class LMDBer(filing.Filer):
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
                     ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if ckey == key and cn == on: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From d336796f1181adba74005b7530a2e3f34f098db2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:26:53 +0000
Subject: [PATCH 55/82] fix: getOnIoDupLastItemIter steps to the next key,
 whatever the separator or ordinal

---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 4a58f9b..5cfa7b6 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3064,8 +3064,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
-                if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
+                if not cursor.next_nodup():  # moves to first_dup at next key
                     return  # no values end of db raises StopIteration
 
 
-- 
2.43.0


From e488bd1100f48830814399835c0961f87cb1eeb2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:56:25 +0000
Subject: [PATCH 56/82] fix: drop an accepted reply's older signature groups
 under their own key

---
 src/keri/core/routing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..27a76ec 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -409,7 +409,7 @@ class Revery:
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From c2c58de4397da77274c8cabe8bae3b15d811fe2e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:58:33 +0000
Subject: [PATCH 57/82] fix: keep an accepted reply when it comes again or
 beside pending or bad signatures

---
 src/keri/core/eventing.py |  2 -
 src/keri/core/routing.py  | 83 ++++++++++++++++++++++++---------------
 2 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 806c30a..e0f18ba 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5238,8 +5238,6 @@ class Kevery:
         aid = cid  # authorizing attribution id
         keys = (aid, role, eid)
         osaider = self.db.eans.get(keys=keys)  # get old said if any
-        if osaider is not None and osaider.qb64b == diger.qb64b: # check idempotent
-            osaider = None
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 27a76ec..fb0e966 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -234,8 +234,14 @@ class Revery:
         # get date-time raises error if empty or invalid format
         dater = Dater(dts=serder.ked["dt"])
         odater = None
+        osn = None  # sn of est event of signatures of old if any
         if osaider:
             odater = self.db.sdts.get(keys=osaider.qb64b)
+            if otsgs := fetchTsgs(db=self.db.tsgs, diger=osaider):
+                osn = otsgs[0][1].sn  # zeroth should be authoritative
+        # same reply already accepted so never stale by date nor obsoletes itself
+        same = osaider is not None and osaider.qb64 == saider.qb64
+        error = None  # of signature group that is invalid, others may be valid
 
         for cigar in cigars:  # process each couple to verify sig and write to db
             if cigar.verfer.transferable:  # ignore invalid transferable verfers
@@ -266,7 +272,7 @@ class Revery:
                 logger.debug("Reply Body=\n%s\n", serder.pretty())
                 continue  # skip invalid cig's verfer is not aid
 
-            if odater:  # get old compare datetimes to see if later
+            if odater and not same:  # get old compare datetimes to see if later
                 if dater.datetime <= odater.datetime:
                     logger.trace(
                         "Revery: skipped stale update from %s of reply at route= %s",
@@ -289,8 +295,10 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
-            accepted = True
+            if not same:
+                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+            self.db.rpes.rem(keys=(route,), val=saider)  # no longer in escrow
+            accepted = same = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
         for prefixer, snumber, sdiger, sigers in tsgs:  # iterate over each tsg
@@ -313,37 +321,36 @@ class Revery:
                 logger.debug(f"event=\n{serder.pretty()}\n")
                 continue  # skip invalid signature is not from aid
 
-            if osaider:  # check if later logic  sn > or sn == and dt >
-                if otsgs := fetchTsgs(db=self.db.tsgs, diger=osaider):
-                    _, osqr, _, _ = otsgs[0]  # zeroth should be authoritative
+            # check if later logic  sn > or sn == and dt >
+            if osn is not None and snumber.sn < osn:  # sn earlier
+                logger.info(
+                    "Revery: skipped stale key state sig "
+                    "from %s sn=%s<%s on reply said=%s",
+                    aid,
+                    snumber.sn,
+                    osn,
+                    serder.said,
+                )
+                logger.debug("event=\n%s\n", serder.pretty())
+                continue  # skip if sn earlier
 
-                    if snumber.sn < osqr.sn:  # sn earlier
+            if osn is None or snumber.sn == osn:  # sn same so check datetime
+                if odater and not same:
+                    if dater.datetime <= odater.datetime:
                         logger.info(
-                            "Revery: skipped stale key state sig "
-                            "from %s sn=%s<%s on reply said=%s",
+                            "Revery: skipped stale key state sig datetime "
+                            "from %s on reply said=%s",
                             aid,
-                            snumber.sn,
-                            osqr.sn,
                             serder.said,
                         )
                         logger.debug("event=\n%s\n", serder.pretty())
-                        continue  # skip if sn earlier
-
-                    if snumber.sn == osqr.sn:  # sn same so check datetime
-                        if odater:
-                            if dater.datetime <= odater.datetime:
-                                logger.info(
-                                    "Revery: skipped stale key state sig datetime "
-                                    "from %s on reply said=%s",
-                                    aid,
-                                    serder.said,
-                                )
-                                logger.debug("event=\n%s\n", serder.pretty())
-                                continue  # skip if not later
+                        continue  # skip if not later
 
             # retrieve sdig of last event at sn of signer.
             sdig = self.db.kels.getLast(keys=spre, on=snumber.sn)
             if sdig is None:
+                if same:  # already accepted so nothing to wait for
+                    continue
                 # create cue here to request key state for sprefixer signer
                 # signer's est event not yet in signer's KEL
                 logger.info(
@@ -367,25 +374,31 @@ class Revery:
             sserder = self.db.evts.get(keys=(spre, bytes(sdig)))
             # assumes db ensures that sserder must not be none because sdig was in KE
             if sserder.said != sdiger.qb64:  # signer's dig not match est evt
-                raise ValidationError(
+                error = ValidationError(
                     f"Bad trans indexed sig group at sn = "
                     f"{snumber.sn} for reply = {serder.ked}."
                 )
+                continue
             # verify sigs
             if not (sverfers := sserder.verfers):
-                raise ValidationError(
+                error = ValidationError(
                     f"Invalid reply from signer={spre}, no "
                     f"keys at signer's est. event sn={snumber.sn}."
                 )
+                continue
 
             # fetch any escrowed sigs, extract just the siger from each quad
             # want sn in numerical order so use hex
             quadkeys = (saider.qb64, prefixer.qb64, f"{snumber.sn:032x}", sdiger.qb64)
             esigers = self.db.tsgs.get(keys=quadkeys)
             sigers.extend(esigers)
-            sigers, valid = validateSigs(
-                serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
-            )
+            try:
+                sigers, valid = validateSigs(
+                    serder=serder, sigers=sigers, verfers=sverfers, tholder=sserder.tholder
+                )
+            except ValidationError as ex:
+                error = ex
+                continue
             # no error so at least one verified siger
 
             if valid:  # meet threshold so save
@@ -399,7 +412,9 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+                if not same:
+                    self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
+                self.db.rpes.rem(keys=(route,), val=saider)  # no longer in escrow
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
@@ -412,9 +427,10 @@ class Revery:
                             keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
-                accepted = True
+                accepted = same = True
+                osn = snumber.sn
 
-            else:  # not meet threshold so escrow
+            elif not same:  # not meet threshold so escrow
                 self.escrowReply(
                     serder=serder,
                     saider=saider,
@@ -426,6 +442,9 @@ class Revery:
                     sigers=sigers,
                 )
 
+        if error is not None and not accepted:
+            raise error
+
         return accepted
 
     def updateReply(
-- 
2.43.0


From 2197eb0d4e16f5262dc2cde517d10c6f04e5ed6b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:16:21 +0000
Subject: [PATCH 58/82] fix: acceptance by a couple ends what is pending of the
 same reply

---
 src/keri/core/routing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index fb0e966..c3ffafc 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -298,6 +298,8 @@ class Revery:
             if not same:
                 self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
             self.db.rpes.rem(keys=(route,), val=saider)  # no longer in escrow
+            self.db.tsgs.trim(keys=(saider.qb64, ""))  # nor its pending signatures
+            osn = None
             accepted = same = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
-- 
2.43.0


From e88278419e079556f0622359e4fd1b47c5d373d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:26:08 +0000
Subject: [PATCH 59/82] fix: superseded events are not the signer's or
 subject's log to a reply

---
 src/keri/core/eventing.py | 2 ++
 src/keri/core/routing.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index e0f18ba..26f2dbb 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5461,6 +5461,8 @@ class Kevery:
             raise UnverifiedReplyError(f"Unverified key state notice reply. {serder.ked}")
 
         ldig = self.db.kels.getLast(keys=pre, on=sn)  # retrieve dig of last event at sn.
+        if pre in self.kevers and sn > self.kevers[pre].sner.num:
+            ldig = None  # superseded by recovery so not in force
         ksr_diger = Diger(qb64=ksr.d)
 
         # Only accept key state if for last seen version of event at sn
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index c3ffafc..4e03a9c 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -350,6 +350,8 @@ class Revery:
 
             # retrieve sdig of last event at sn of signer.
             sdig = self.db.kels.getLast(keys=spre, on=snumber.sn)
+            if spre in self.db.kevers and snumber.sn > self.db.kevers[spre].sner.num:
+                sdig = None  # superseded by recovery so not in force
             if sdig is None:
                 if same:  # already accepted so nothing to wait for
                     continue
-- 
2.43.0


From aae174225bef36faabb6c35376af6aee5b338bc2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:03:34 +0000
Subject: [PATCH 60/82] fix: encrypt the next keys that ingest makes

---
 src/keri/app/keeping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..a2d4adb 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1645,7 +1645,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From 7f414df5815dc2798b74dfb04dd55be89c7fd913 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 61/82] fix: re-encrypt all secrets or none when the
 authentication id changes

---
 src/keri/app/keeping.py | 46 ++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index a2d4adb..85afd69 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -804,38 +804,42 @@ class Manager:
                                        "".format(self.aeid))
 
         if aeid:  # aeid provided
-            if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
-                # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
-                    raise AuthError("Seed missing or provided seed not associated"
-                                           "  with provided aeid={}.".format(aeid))
+            encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+            # verifies new seed belongs to new aeid before changing anything
+            if not seed or not encrypter.verifySeed(seed):
+                raise AuthError("Seed missing or provided seed not associated"
+                                       "  with provided aeid={}.".format(aeid))
         else:  # changing to empty aeid so new encrypter is None
-            self.encrypter = None
+            aeid = ''
+            seed = ''  # no seed without aeid
+            encrypter = None
 
         # fetch all secrets from db, decrypt all secrets with self.decrypter
         # unless they decrypt automatically on fetch and then re-encrypt with
         # encrypter  update db with re-encrypted values
 
         # re-encypt root salt secret, .salt property is automatically decrypted on fetch
-        if (salt := self.salt) is not None:  # decrypted salt
+        salt = self.salt  # decrypted salt
+        self.encrypter = encrypter
+        if salt is not None:
             self.salt = salt
             # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
 
         # other secrets
-        if self.decrypter:
-            # re-encrypt root salt secrets by prefix parameters .prms
-            for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
-                if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
-                    data.salt = (self.encrypter.encrypt(prim=salter).qb64
-                                 if self.encrypter else salter.qb64)
-                    self.ks.prms.pin(keys, val=data)
-
-            # private signing key seeds
-            # keys is tuple == (verkey.qb64,) .pris database auto decrypts
-            for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
-                self.ks.pris.pin(keys, signer, encrypter=self.encrypter)
+        # re-encrypt root salt secrets by prefix parameters .prms
+        for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
+            if data.salt:
+                # not encrypted yet when no decrypter
+                salter = (self.decrypter.decrypt(qb64=data.salt)
+                          if self.decrypter else Salter(qb64=data.salt))
+                data.salt = (self.encrypter.encrypt(prim=salter).qb64
+                             if self.encrypter else salter.qb64)
+                self.ks.prms.pin(keys, val=data)
+
+        # private signing key seeds
+        # keys is tuple == (verkey.qb64,) .pris database auto decrypts
+        for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
+            self.ks.pris.pin(keys, signer, encrypter=self.encrypter)
 
         self.ks.gbls.pin("aeid", aeid)  # set aeid in db
         self._seed = seed  # set .seed in memory
-- 
2.43.0


From 901a9f6fed1df31c9774d9004b5dbb5b9b554d40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 62/82] fix: ingest into an encrypted keystore identifiers
 whose keys have no salt

---
 src/keri/app/keeping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 85afd69..ee853fc 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1586,7 +1586,7 @@ class Manager:
                 # Secret to encrypt here
                 pp = PrePrm(pidx=pidx,
                             algo=algo,
-                            salt=(creator.salt if not self.encrypter
+                            salt=(creator.salt if not self.encrypter or not creator.salt
                                   else self.encrypter.encrypt(ser=creator.salt,
                                         code=MtrDex.X25519_Cipher_Salt).qb64),
                             stem=creator.stem,
-- 
2.43.0


From 016b31e81ac7765a8f73c716b50c3e0f5ff7a705 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:07:26 +0000
Subject: [PATCH 63/82] fix: an inception cut short by a crash can be done
 again

---
 src/keri/app/keeping.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index ee853fc..88ad41d 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1061,29 +1061,33 @@ class Manager:
                                    ridx=ridx+1, kidx=kidx+len(icodes), dt=dt))
 
         pre = verfers[0].qb64b
-        if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+        if self.ks.pres.get(pre) is not None:
             raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
-        if not self.ks.prms.put(pre, val=pp):
-            raise ValueError("Already incepted prm for pre={}.".format(pre.decode("utf-8")))
-
+        # pre is stored last so that a crash leaves nothing in the way of trying again
         self.pidx = pidx + 1  # increment for next inception
 
-        if not self.ks.sits.put(pre, val=ps):
-            raise ValueError("Already incepted sit for pre={}.".format(pre.decode("utf-8")))
-
         for signer in isigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
-        self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx), val=PubSet(pubs=ps.new.pubs))
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store publics keys for lookup of private key for replay
-        self.ks.pubs.put(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ridx+1), val=PubSet(pubs=ps.nxt.pubs))
+
+        if not self.ks.prms.pin(pre, val=pp):
+            raise ValueError("Problem storing prm for pre={}.".format(pre.decode("utf-8")))
+
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem storing sit for pre={}.".format(pre.decode("utf-8")))
+
+        if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
+            raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
         return (verfers, digers)
 
-- 
2.43.0


From 300d3cbf69aea2cfc3c7b1235e2ac46dd607e96b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:07:26 +0000
Subject: [PATCH 64/82] fix: store the next keys before rotating to commit to
 them

---
 src/keri/app/keeping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 88ad41d..3b8237f 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1247,15 +1247,16 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
+        # next keys are stored before ps commits to them so a crash does not lose them
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
         # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
 
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
-- 
2.43.0


From 73dd29c9f800ad46deb20fe815aecbee4dec663e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:44:16 +0000
Subject: [PATCH 65/82] fix: incept from secrecies with the keys at iridx

---
 src/keri/app/habbing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..321c9ac 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2948,6 +2948,7 @@ class Hab(BaseHab):
                                       transferable=transferable,
                                       temp=self.temp)
             verfers, digers = self.mgr.replay(pre=ipre, advance=False)
+            opre = ipre  # ingested under its first key, not that at iridx
 
         else:  # use defaults
             verfers, digers = self.mgr.incept(icount=icount,
@@ -2960,6 +2961,7 @@ class Hab(BaseHab):
                                               salt=salt,
                                               tier=tier,
                                               temp=self.temp)
+            opre = verfers[0].qb64  # default zeroth original pre from key store
 
         serder = super(Hab, self).incept(isith=isith,
                                        verfers=verfers,
@@ -2977,7 +2979,6 @@ class Hab(BaseHab):
 
         self.pre = serder.ked["i"]  # new pre
 
-        opre = verfers[0].qb64  # default zeroth original pre from key store
         self.mgr.move(old=opre, new=self.pre)  # move to incept event pre
 
         # may want db method that updates .habs. and .prefixes together
-- 
2.43.0


From 9e5d7abc721722e0dc3a8b8615c81b6eada5cc44 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:45:22 +0000
Subject: [PATCH 66/82] fix: refuse a taken name before recording the habitat

---
 src/keri/app/habbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 321c9ac..df32d58 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1141,12 +1141,12 @@ class BaseHab:
 
 
     def save(self, habord):
-        self.db.habs.pin(keys=self.pre,
-                         val=habord)
         ns = "" if self.ns is None else self.ns
         if self.db.names.get(keys=(ns, self.name)) is not None:
             raise ValueError("AID already exists with that name")
 
+        self.db.habs.pin(keys=self.pre,
+                         val=habord)
         self.db.names.pin(keys=(ns, self.name),
                           val=self.pre)
 
-- 
2.43.0


From 78b15637b91a636e5bc6238bdaecac5f66b8f988 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:45:39 +0000
Subject: [PATCH 67/82] fix: reload frees the name of a habitat without key
 state

---
 src/keri/db/basing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 21cf89c..aecc908 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1363,6 +1363,10 @@ class Baser(LMDBer):
                 removes.append(keys)  # no key state or KEL event for .hab record
 
         for keys in removes:  # remove bare .habs records
+            if (data := self.habs.get(keys=keys)) is not None:  # its name is free too
+                ns = "" if data.domain is None else data.domain
+                if data.name and self.names.get(keys=(ns, data.name)) == data.hid:
+                    self.names.rem(keys=(ns, data.name))
             self.habs.rem(keys=keys)
 
     def migrate(self):
-- 
2.43.0


From 0797c37e200da6ddc8939f576342af117aa51e7b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:45:52 +0000
Subject: [PATCH 68/82] fix: a failed inception leaves its name and keys free
 to use

---
 src/keri/app/habbing.py | 94 ++++++++++++++++++++++++-----------------
 src/keri/app/keeping.py | 19 +++++++++
 2 files changed, 74 insertions(+), 39 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index df32d58..a7fdd97 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1151,6 +1151,14 @@ class BaseHab:
                           val=self.pre)
 
 
+    def unsave(self):
+        """Remove what .save recorded of this Hab."""
+        self.db.habs.rem(keys=self.pre)
+        ns = "" if self.ns is None else self.ns
+        if self.db.names.get(keys=(ns, self.name)) == self.pre:
+            self.db.names.rem(keys=(ns, self.name))
+
+
     def reconfigure(self, **kwa):
         """Apply configuration from config file managed by ``.cf`` to this Hab.
         Assumes that ``.pre`` and signing keys have been set up in order to
@@ -2963,46 +2971,54 @@ class Hab(BaseHab):
                                               temp=self.temp)
             opre = verfers[0].qb64  # default zeroth original pre from key store
 
-        serder = super(Hab, self).incept(isith=isith,
-                                       verfers=verfers,
-                                       nsith=nsith,
-                                       digers=digers,
-                                       code=code,
-                                       toad=toad,
-                                       wits=wits,
-                                       estOnly=estOnly,
-                                       DnD=DnD,
-                                       delpre=delpre,
-                                       data=data,
-                                       kind=kind,
-                                       version=version)
-
-        self.pre = serder.ked["i"]  # new pre
-
-        self.mgr.move(old=opre, new=self.pre)  # move to incept event pre
-
-        # may want db method that updates .habs. and .prefixes together
-        habord = HabitatRecord(hid=self.pre, name=self.name, domain=self.ns)
-
-        # must add self.pre to self.prefixes before calling processEvent so that
-        # Kever.locallyOwned or Kever.locallyDelegated or Kever.locallyWitnessed
-        # evaluates correctly when processing own inception event.
-        if not hidden:
-            self.save(habord)
-            self.prefixes.add(self.pre)
-
-        # sign handles group hab with .mhab case
-        sigers = self.sign(ser=serder.raw, verfers=verfers)
-
-        # during delegation initialization of a habitat we ignore the MissingDelegationError and
-        # MissingSignatureError
         try:
-            self.kvy.processEvent(serder=serder, sigers=sigers)
-        except MissingSignatureError:
-            pass
-        except Exception as ex:
-            raise ConfigurationError("Improper Habitat inception for "
-                                            "pre={} {}".format(self.pre, ex))
+            serder = super(Hab, self).incept(isith=isith,
+                                           verfers=verfers,
+                                           nsith=nsith,
+                                           digers=digers,
+                                           code=code,
+                                           toad=toad,
+                                           wits=wits,
+                                           estOnly=estOnly,
+                                           DnD=DnD,
+                                           delpre=delpre,
+                                           data=data,
+                                           kind=kind,
+                                           version=version)
+
+            self.pre = serder.ked["i"]  # new pre
+
+            self.mgr.move(old=opre, new=self.pre)  # move to incept event pre
+
+            # may want db method that updates .habs. and .prefixes together
+            habord = HabitatRecord(hid=self.pre, name=self.name, domain=self.ns)
+
+            # must add self.pre to self.prefixes before calling processEvent so that
+            # Kever.locallyOwned or Kever.locallyDelegated or Kever.locallyWitnessed
+            # evaluates correctly when processing own inception event.
+            if not hidden:
+                self.save(habord)
+                self.prefixes.add(self.pre)
+
+            # sign handles group hab with .mhab case
+            sigers = self.sign(ser=serder.raw, verfers=verfers)
+
+            # during delegation initialization of a habitat we ignore the MissingDelegationError and
+            # MissingSignatureError
+            try:
+                self.kvy.processEvent(serder=serder, sigers=sigers)
+            except MissingSignatureError:
+                pass
+            except Exception as ex:
+                raise ConfigurationError("Improper Habitat inception for "
+                                                "pre={} {}".format(self.pre, ex))
+
+        except Exception:  # not made so its name and keys may be used yet
+            if self.pre is not None:
+                self.unsave()
+                self.prefixes.discard(self.pre)
+            self.mgr.forget(opre)
+            raise
 
         # read in self.cf config file and process any oobis or endpoints.
         # Match attachment genus to the protocol version (and thus local
diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 3b8237f..e1be147 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1092,6 +1092,25 @@ class Manager:
         return (verfers, digers)
 
 
+    def forget(self, pre):
+        """Remove what .incept or .ingest, and .move, recorded of the identifier
+        prefix first stored as pre, whose inception failed, so that its keys may
+        be used yet.
+
+        Parameters:
+            pre (str): temporary prefix of the identifier, its first public key
+        """
+        if (prefixer := self.ks.pres.get(pre)) is None:
+            return
+        for p in (pre, prefixer.qb64):
+            ri = 0
+            while self.ks.pubs.rem(riKey(p, ri)):
+                ri += 1
+            self.ks.prms.rem(p)
+            self.ks.sits.rem(p)
+            self.ks.pres.rem(p)
+
+
     def move(self, old, new):
         """
         Assigns new pre to old default .pres at old
-- 
2.43.0


From 48e7df7cc121f10e723ae015d2cf1bb8319c93a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:46:17 +0000
Subject: [PATCH 69/82] fix: a failed rotation leaves no next keys behind

---
 src/keri/app/habbing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index a7fdd97..5eac5bb 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import Keeper, Manager, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3076,9 +3076,11 @@ class Hab(BaseHab):
         # sync with the KEL (issue #819).
         ps_before = self.mgr.ks.sits.get(self.pre)
 
+        made = False  # True means next keys were created for this rotation
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
         except IndexError:  # old next is new current
+            made = True
             verfers, digers = self.mgr.rotate(pre=self.pre,
                                               ncount=ncount,
                                               temp=self.temp,
@@ -3095,6 +3097,9 @@ class Hab(BaseHab):
         except Exception:
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
+            if made and kever.delpre is None:  # else replayed by next rotation
+                ps = self.mgr.ks.sits.get(self.pre)
+                self.mgr.ks.pubs.rem(riKey(self.pre, ps.nxt.ridx))
             self.mgr.ks.sits.pin(self.pre, val=ps_before)
             raise
 
-- 
2.43.0


From bd7fce58b71484848f033823102361c5b2803ca7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:46:29 +0000
Subject: [PATCH 70/82] fix: a rotation cut short can be done again

---
 src/keri/app/habbing.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 5eac5bb..7b8eb18 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager, riKey
+from .keeping import Keeper, Manager, PubLot, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3076,6 +3076,18 @@ class Hab(BaseHab):
         # sync with the KEL (issue #819).
         ps_before = self.mgr.ks.sits.get(self.pre)
 
+        # A rotation cut short after it advanced the key store but before its
+        # event was accepted leaves the key store ahead of the KEL. Go back.
+        pubs = [verfer.qb64 for verfer in kever.verfers]
+        if (kever.delpre is None and ps_before.new.pubs != pubs
+                and ps_before.old.pubs == pubs):
+            ps_before.nxt = ps_before.new
+            ps_before.new = ps_before.old
+            ridx = ps_before.new.ridx - 1
+            old = self.mgr.ks.pubs.get(riKey(self.pre, ridx)) if ridx >= 0 else None
+            ps_before.old = PubLot(pubs=old.pubs, ridx=ridx) if old else PubLot()
+            self.mgr.ks.sits.pin(self.pre, val=ps_before)
+
         made = False  # True means next keys were created for this rotation
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
-- 
2.43.0


From 0fef7714a39e2b2e6952d7cb464fa61a4ec8ed4e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:52:56 +0000
Subject: [PATCH 71/82] fix: refuse a taken name before its keys are made again

---
 src/keri/app/habbing.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 7b8eb18..9a51385 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1142,15 +1142,20 @@ class BaseHab:
 
     def save(self, habord):
         ns = "" if self.ns is None else self.ns
-        if self.db.names.get(keys=(ns, self.name)) is not None:
-            raise ValueError("AID already exists with that name")
-
+        self.unnamed()
         self.db.habs.pin(keys=self.pre,
                          val=habord)
         self.db.names.pin(keys=(ns, self.name),
                           val=self.pre)
 
 
+    def unnamed(self):
+        """Raises ValueError when the name of this Hab is taken."""
+        ns = "" if self.ns is None else self.ns
+        if self.db.names.get(keys=(ns, self.name)) is not None:
+            raise ValueError("AID already exists with that name")
+
+
     def unsave(self):
         """Remove what .save recorded of this Hab."""
         self.db.habs.rem(keys=self.pre)
@@ -2947,6 +2952,9 @@ class Hab(BaseHab):
             nsith = '0'
             code = MtrDex.Ed25519N
 
+        if not hidden:  # before its keys are made, which may be those of the other
+            self.unnamed()
+
         stem = self.name if self.ns is None else f"{self.ns}{self.name}"
         if secrecies:  # replay
             ipre, _ = self.mgr.ingest(secrecies,
-- 
2.43.0


From 144fb3fb5a4810789c9be85d4c857c4ace84899b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:10:49 +0000
Subject: [PATCH 72/82] fix: hand on queries signed by nontransferable
 identifiers

---
 src/keri/core/parsing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..32d3586 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1451,6 +1451,7 @@ class Parser:
                     exts["source"] = pre
                     exts["sigers"] = sigers
                 else:
+                    exts["source"] = None  # by cigars
                     exts['sigers'] = []  # just in case sigers provided not by lsgs
 
                 if not (exts['source'] or exts['cigars']):  # need one or the other
-- 
2.43.0


From 8b402db8529e778b3f1e796a00cd503983ceac4b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:12:25 +0000
Subject: [PATCH 73/82] fix: an error inside a counted group costs only that
 group

---
 src/keri/core/parsing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 32d3586..928d457 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -861,6 +861,9 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError:  # group already stripped so can resume
+                    raise
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
-- 
2.43.0


From f4dc1ff96ce79735204902caf009ef2ebdabab56 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 74/82] fix: a group without version keeps that of what it is
 in

---
 src/keri/core/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 928d457..c66420c 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -833,7 +833,7 @@ class Parser:
                             # get new substream version
                             svrsn = Counter.b64ToVer(ctr.countToB64(l=3))
                         else:
-                            svrsn == None  # no change to substream version
+                            svrsn = None  # no change to substream version
 
                         stack.append((self.version, ims))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
-- 
2.43.0


From 80f284eba0ea695257b978cabfbcdc10084f2722 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:15:31 +0000
Subject: [PATCH 75/82] fix: a version code may precede a version 1 generic
 group

---
 src/keri/core/parsing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index c66420c..8f3cae1 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1069,7 +1069,12 @@ class Parser:
                                                         strip=False)
 
                 # Check for message groups
-                if (ctr.code in (self.mucodes.NonNativeBodyGroup,
+                if (ctr.code in (self.sucodes.GenericGroup,
+                                 self.sucodes.BigGenericGroup)):
+                    # throw back control to groupParsator to nest into new generic group
+                    raise TopLevelStreamError(f"Got GenericGroup so revisit.")
+
+                elif (ctr.code in (self.mucodes.NonNativeBodyGroup,
                                  self.mucodes.BigNonNativeBodyGroup)):
                     del ims[:ctr.byteSize(cold=cold)]  # consume ctr itself
                     # process non-native message group with texter
@@ -1130,11 +1135,6 @@ class Parser:
                                           fixed=False)
                     exts.serder = serder
 
-                elif (ctr.code in (self.sucodes.GenericGroup,
-                                   self.sucodes.BigGenericGroup)):
-                    # throw back control to groupParsator to nest into new generic group
-                    raise TopLevelStreamError(f"Got GenericGroup so revisit.")
-
                 else:  # shouldn't be a counter of any other type here
                     raise ColdStartError(f"Expected message counter code,"
                                                 f" got code={ctr.code}")
-- 
2.43.0


From 474e08b5cee02f73b6ba93c1c9d13200229f2890 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:16:06 +0000
Subject: [PATCH 76/82] fix: what follows a generic group is not framed by it

---
 src/keri/core/parsing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 8f3cae1..5054275 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -787,7 +787,7 @@ class Parser:
 
         self.version = version  # when not None which sets .methods .codes .mucodes .sucodes
 
-        stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
+        stack = deque()  # (svrsn, ims, framed) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
         result = None
@@ -795,8 +795,10 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, ims, framed = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
+                    if not stack:  # group ended, what follows is not of it
+                        eggs = None
 
                 if not ims:  # no stream
                     break
@@ -835,7 +837,7 @@ class Parser:
                         else:
                             svrsn = None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
+                        stack.append((self.version, ims, framed))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -908,7 +910,7 @@ class Parser:
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, _, _ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
-- 
2.43.0


From a0834d6596dfc7a4a1ddff74f2faa3079322af91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:17:47 +0000
Subject: [PATCH 77/82] fix: any error inside a counted group costs only that
 group

---
 src/keri/core/parsing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 5054275..bad4a51 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1155,10 +1155,12 @@ class Parser:
                         exts.serder = serder
                         break  # break out of while loop
 
-        except ExtractionError as ex:
+        except Exception as ex:
+            while verstack:  # restore version to what it was
+                self.version = verstack.pop()
             if emgs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
-                                             f"message group of size={emgs}")
+                                      f"message group of size={emgs}") from ex
             raise  # no enclosing group so can't preflush, must flush stream
 
 
@@ -1303,10 +1305,10 @@ class Parser:
                 # so just proceed to process current message
 
 
-        except ExtractionError as ex:
+        except Exception as ex:
             if enclosed:  # extracted enclosed attachment group is preflushed
-                raise SizedGroupError(f"Error processing attachment group"
-                                             " of size={eags}")
+                raise SizedGroupError(f"Error processing attachment group of"
+                                      f" message={exts.serder.said}") from ex
             raise  # no enclosing attachment group so can't preflush, must flush stream
 
         finally:
-- 
2.43.0


From 2c9f0b96afe6a33239b93c6071ea4be79eda0bfe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:23:16 +0000
Subject: [PATCH 78/82] fix: do not wait for more of what is enclosed

---
 src/keri/core/parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index bad4a51..8656417 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1246,7 +1246,7 @@ class Parser:
                         cbs = ctr.byteSize(cold=cold)  # counter size of counter itself
                         fmgs = ctr.byteCount(cold=cold)  # fixed body content size
                         size = cbs + fmgs  # size of ctr and its content
-                        while len(ims) < size and not framed:  # framed already in ims
+                        while len(ims) < size and not (framed or enclosed):  # already in ims
                             yield  # until full ctr and its content in ims
 
                         del ims[:size]  # strip ctr and its content from ims
@@ -1263,7 +1263,7 @@ class Parser:
                         # enclosed so group belongs to nested message substream
                         # extract as nested msg+atc and append to exts.nests
                         subexts = yield from self.msgParsator(ims=ims,
-                                                              framed=framed,
+                                                              framed=True,  # by enclosure
                                                               piped=piped,
                                                               local=local,
                                                               version=self.version)
-- 
2.43.0


From 64db336ab6e91da6f65a5d1e0f2f6f76e42312bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:44:08 +0000
Subject: [PATCH 79/82] fix: a section message is refused when a said inside it
 is not right

---
 src/keri/core/serdering.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index b74848d..cfd0f8c 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -3085,6 +3085,13 @@ class SerderACDC(Serder):
                                 raise InvalidValueError(f"Invalid section {said=} "
                                                         f"in section message")
 
+                        # nested blocks are replaced by their saids on compaction
+                        for path, leafer in sector.leaves.items():
+                            block = sector.getTail(path, mad=v)
+                            if block.get(slabel) != leafer.said:
+                                raise InvalidValueError(f"Invalid nested said at "
+                                                f"{path=} in section message")
+
                     elif isinstance(v, NonStringIterable):  # v is non-empty iterable
                         match l:
                             case 'A':  # compute agid of embedded Aggor
@@ -3101,6 +3108,9 @@ class SerderACDC(Serder):
                                 if not agid:
                                     raise InvalidValueError(f"Invalid aggregate"
                                                 f" {agid=} in section message")
+                                if list(v) != sector.ael:  # agid or element said
+                                    raise InvalidValueError(f"Invalid aggregate"
+                                            f" said(s) in section={l} message")
 
             raw = self.dumps(csad, kind=self.kind)
 
-- 
2.43.0


From bcab9592631e1f2896825de74c044a361ddfb987 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:44:27 +0000
Subject: [PATCH 80/82] fix: natively serialized events keep seals of unknown
 type

---
 src/keri/core/serdering.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index cfd0f8c..4eba15e 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1428,7 +1428,12 @@ class Serder:
                             frame = raw[:fs]  # extract list frame
                             raw = raw[fs:]  # strip frame from raw
                             while frame:  # while list frame not empty
-                                sctr = Counter(qb64b=frame, strip=True, version=self.gvrsn)  # seal counter
+                                sctr = Counter(qb64b=frame, version=self.gvrsn)  # seal counter
+                                if sctr.name in ('GenericMapGroup', 'BigGenericMapGroup'):
+                                    # unknown seal type serialized as field map
+                                    seals.append(Mapper(raw=frame, strip=True).mad)
+                                    continue
+                                del frame[:sctr.fullSize]  # consume counter
                                 if sctr.code not in Serder.CodeClans:
                                     raise DeserializeError(f"Expected Sealer group got {sctr.name}")
                                 cast = Sealer.Casts[Serder.CodeClans[sctr.code]]
@@ -1787,13 +1792,8 @@ class Serder:
                                         gframe = bytearray()
                                         gcode = None
 
-                                    #unknown seal type so serialize as field map
-                                    #generic seal no count type (v, Mapping):
-                                    #for l, e in v.items():
-                                        #pass
-                                    #val = bytearray(Counter(tag=""GenericMapGroup"",
-                                                   # count=len(frame) // 4).qb64b)
-                                    #val.extend(mapframe)
+                                    # unknown seal type so serialize as field map
+                                    frame.extend(Mapper(mad=e).qb64b)
 
                             if gframe:  # close off last group if any
                                 counter = Counter(code=gcode,
-- 
2.43.0


From 0d7fec38b9889f498440d0ae509ee525ec6610ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:44:27 +0000
Subject: [PATCH 81/82] fix: a body in binary is read from its own bytes alone

---
 src/keri/core/serdering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 4eba15e..24a8cdb 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -1191,7 +1191,7 @@ class Serder:
                     sraw = raw[:ss]  # only copy enough bytes for serder
                     if strip and isinstance(raw, bytearray):
                         del raw[:ss]
-                    sraw = encodeB64(raw)  # loads expects Base64 text domain
+                    sraw = encodeB64(sraw)  # loads expects Base64 text domain
                 elif cold == Colds.txt:
                     ctr = Counter(qb64b=raw)
                     ss = ctr.byteCount(cold=cold) + ctr.byteSize(cold=cold)
-- 
2.43.0


From 731436f8d8baabfa7e939a6e708d7a155a8910d0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:51:02 +0000
Subject: [PATCH 82/82] fix: a body whose said is no digest is refused

---
 src/keri/core/serdering.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/serdering.py b/src/keri/core/serdering.py
index 24a8cdb..b289da3 100644
--- a/src/keri/core/serdering.py
+++ b/src/keri/core/serdering.py
@@ -824,6 +824,11 @@ class Serder:
                     raise ValidationError(f"Invalid said field '{label}' in sad\n"
                                       f" = {self._sad}.") from ex
 
+            if label == Saids.d and saids[label] not in DigDex:  # must be digest
+                raise ValidationError(f"Non-digestive said field '{label}' in "
+                                      f"sad\n = {self._sad}.")
+
+
             if saids[label] in DigDex:  # if digestive then replace with dummy
                 sad[label] = self.Dummy * len(sad[label])
 
-- 
2.43.0

