From a56d86f596fa53e570df88765a2a7ee0ccf33fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 01/34] fix: read and write JSON files as UTF-8 whatever the
 locale

JSON text exchanged between systems must be UTF-8 (RFC 8259); the locale's
encoding made dumpf fail or write, and loadf read, something else.
---
 jschon/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..b1b3ea6 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,7 +34,7 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
+    with open(path, 'w', encoding='utf-8') as f:
         json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
 
 
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
-- 
2.43.0


From 784073281834e444f47a5692a2e7a992fddfde49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 02/34] fix: apply the JSON Pointer array index grammar to JSON
 arrays

The precedence of 'and' over 'or' meant that the index was checked only
for plain Python sequences: evaluating '/a' on a JSON array raised
ValueError, and '/-1', '/01' or '/+1' selected an item.
---
 jschon/jsonpointer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..4bce131 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,13 +207,14 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                    not isjson and isinstance(value, Sequence) and
+                    not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-            except (KeyError, IndexError):
+            except (KeyError, IndexError, ValueError):
+                # int() raises ValueError if the index has too many digits
                 pass
 
             raise self.reference_exc(f"Path '{self}' not found in document")
-- 
2.43.0


From 4301668a6a5146d7122b97aa1e7dc35b11d87e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 03/34] fix: keep item keys right for negative and out-of-range
 array indices

Setting, deleting (as pop() does) or inserting an item at a negative
index, or inserting past the end, left wrong keys and so wrong paths on
the items of the array.
---
 jschon/json.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..d2b4e6f 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -238,6 +238,9 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            # the equivalent non-negative index
+            index = range(len(self.data))[index]
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -254,15 +257,18 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
-            for item in self.data[index:]:
-                item.key = str(int(item.key) - 1)
-                item._invalidate_path()
+            for i, item in enumerate(self.data):
+                if item.key != str(i):
+                    item.key = str(i)
+                    item._invalidate_path()
 
     def insert(self, index: int, obj: Union[JSON, JSONCompatible]) -> None:
         """Insert `obj` before `index`.
 
         Supported for JSON type ``array``.
         """
+        # the equivalent index in the range 0..len(self)
+        index = slice(index, None).indices(len(self.data))[0]
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From c80e595ebe9e374bd30324ab2e1ac73ea95ed7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 04/34] fix: refuse array indices that RFC 6901 does not allow
 in patch operations

int() also accepts leading zeros, signs, spaces, underscores and
non-ASCII digits.
---
 jschon/json.py      | 8 ++++----
 jschon/jsonpatch.py | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index d2b4e6f..2f5f9a6 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -362,11 +362,11 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
-                if target_key == '-' or int(target_key) == len(target_parent):
+                if target_key == '-':
                     target_index = len(target_parent)
-                elif 0 <= int(target_key) < len(target_parent):
-                    target_index = int(target_key)
-                else:
+                elif not JSONPointer._array_index_re.fullmatch(target_key):
+                    raise ValueError
+                elif (target_index := int(target_key)) > len(target_parent):
                     raise ValueError
             except ValueError:
                 raise JSONError(f'Invalid array index {target_key}')
diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..55e1d2f 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -207,6 +207,8 @@ class Node:
 
         if isinstance(parent, Sequence):
             try:
+                if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                    raise ValueError
                 if key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
                     self.index = len(parent)
-- 
2.43.0


From 43049dc382d082af14771aa5ede4a46c2e32e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 05/34] fix: raise JSONPatchError where the parent location
 holds a scalar

The assertion made it an AssertionError, or nothing at all for a string
parent or under python -O.
---
 jschon/jsonpatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 55e1d2f..5d07b53 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,7 +205,7 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
                 if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
                     raise ValueError
@@ -226,7 +226,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From 2de9aaa8b14c736545e2aad48cbb316218b147e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:26 +0000
Subject: [PATCH 06/34] fix: refuse to move a value into one of its own
 children

RFC 6902 section 4.4; moving /0 to /0/x put the value into the next item
of the array instead.
---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 5d07b53..41253c4 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -298,6 +298,9 @@ def move(
     except JSONPointerError as e:
         raise JSONPatchError(f'Cannot move from nonexistent location {from_}') from e
 
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move {from_} into its own child {path}')
+
     document = remove(document, from_)
     return add(document, path, value)
 
-- 
2.43.0


From 02dc012fc4680afa5b7d82ad080315a10efa5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 07/34] fix: give equal URIs equal hashes

---
 jschon/uri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 7c46f46..f13bab8 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -26,7 +26,8 @@ class URI:
         return len(str(self))
 
     def __hash__(self) -> int:
-        return hash(self._uriref)
+        # equality is equality after normalization, so hash the normalized form
+        return hash(self._uriref.normalize())
 
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
-- 
2.43.0


From aff53f7594e7d670abfe074fc593b6c2e7c35f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 08/34] fix: raise URIError when resolving against an invalid
 base URI

---
 jschon/uri.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index f13bab8..c067a89 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -63,9 +63,15 @@ class URI:
         return self.copy(fragment=False).is_absolute()
 
     def resolve(self, base_uri: URI) -> URI:
-        """Produce a new URI by resolving self against the given base URI."""
+        """Produce a new URI by resolving self against the given base URI.
+
+        :raise URIError: if `base_uri` is not a valid base URI
+        """
         uri = object.__new__(URI)
-        uri._uriref = self._uriref.resolve_with(base_uri._uriref)
+        try:
+            uri._uriref = self._uriref.resolve_with(base_uri._uriref)
+        except rfc3986.exceptions.ResolutionError as e:
+            raise URIError(f"'{base_uri}' is not a valid base URI") from e
         return uri
 
     def copy(
-- 
2.43.0


From d25535d0cab24a810f1febf10f45cf104f16c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 09/34] fix: keep LocalSource within its base directory

---
 jschon/catalog/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..b5b187b 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import os
 import pathlib
 import uuid
 from contextlib import contextmanager
@@ -42,6 +43,12 @@ class LocalSource(Source):
             filepath = str(filepath)
             filepath += self.suffix
 
+        # an absolute or upward path, or an empty one with a suffix,
+        # does not name a file under the base directory
+        base_dir = os.path.abspath(self.base_dir)
+        if os.path.commonpath((base_dir, os.path.abspath(filepath))) != base_dir:
+            raise CatalogError(f'{relative_path!r} is not under the base directory')
+
         try:
             return json_loadf(filepath)
         except OSError as e:
-- 
2.43.0


From 332733bd5ddab6c3b5027046e5d39d36453b376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 10/34] fix: keep RemoteSource under its base URL

---
 jschon/catalog/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index b5b187b..71a961d 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -67,6 +67,10 @@ class RemoteSource(Source):
         self.base_url = base_url
 
     def __call__(self, relative_path: str) -> JSONCompatible:
+        if relative_path.startswith('/'):
+            # not a reference to another host or to the root of this one
+            relative_path = f'./{relative_path}'
+
         url = str(URI(relative_path).resolve(self.base_url))
         if self.suffix:
             url += self.suffix
-- 
2.43.0


From 10e7b6d2278f98ba444c40513e0952fde1da90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 11/34] fix: compute multipleOf exactly for large quotients

---
 jschon/vocabulary/validation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..f6cc5b3 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,14 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            # fractions are exact, whatever the size of the quotient
+            dividend, divisor = (
+                Fraction(num if isinstance(num, int) else f'{num}')
+                for num in (instance.data, self.json.data)
+            )
+            if dividend % divisor != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except (ValueError, ZeroDivisionError):
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From 5ca58d5d0e9e8c28b96285d1cd55545fe84bfcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:34 +0000
Subject: [PATCH 12/34] fix: apply 2019-09 items to each item when it is a
 boolean schema

---
 jschon/vocabulary/legacy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..c01d184 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -61,14 +61,17 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
         if len(instance) == 0:
             return
 
-        elif isinstance(self.json.data, bool):
-            self.json.evaluate(instance, result)
-
         elif isinstance(self.json, JSONSchema):
+            error = []
             for index, item in enumerate(instance):
-                self.json.evaluate(item, result)
+                if not self.json.evaluate(item, result).passed:
+                    error += [index]
+                    # reset to passed for the next iteration
+                    result.pass_()
 
-            if result.passed:
+            if error:
+                result.fail(error)
+            else:
                 result.annotate(True)
 
         elif self.json.type == "array":
-- 
2.43.0


From 74b14572b0393380538f397c9bcd8332db92b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 13/34] fix: allow "$dynamicRef" to refer to a boolean schema

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..deaddb4 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -139,7 +139,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if (dynamic_anchor := self.refschema.keywords.get("$dynamicAnchor")) and \
+                dynamic_anchor.json.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From 2d10c7ad389fbc6e75820a6e4946887fae90f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 14/34] fix: allow any string as an unknown keyword

---
 jschon/vocabulary/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..5c0d0fd 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -99,8 +99,10 @@ class Metaschema(JSONSchema):
         try:
             return self.kwclasses[key]
         except KeyError:
+            # not every key may be part of a class name
+            suffix = key[0].upper() + key[1:] if key.isidentifier() else ''
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                f'UnknownKeyword{suffix}',
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From 4919378488884a4adabf22e2fcf79356b7375882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 15/34] fix: find a schema whose "$id" ends with an empty
 fragment

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index deaddb4..c2e947a 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -76,7 +76,8 @@ class IdKeyword(Keyword):
             else:
                 raise JSONSchemaError(f'No base URI against which to resolve the "$id" value "{value}"')
 
-        parentschema.uri = uri
+        # an empty fragment is not part of the identity of the schema
+        parentschema.uri = uri.copy(fragment=False)
 
 
 class RefKeyword(Keyword):
-- 
2.43.0


From 09b55700466505099c0c42ae2621d0740bbfb359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:37 +0000
Subject: [PATCH 16/34] fix: drop the annotations of failing subschemas of not
 and contains

---
 jschon/jsonschema.py            | 12 ++++++++++++
 jschon/vocabulary/applicator.py |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..a585840 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -452,6 +452,18 @@ class Result:
         """Annotate the result."""
         self.annotation = value
 
+    def drop_annotations(self, instance: JSON) -> None:
+        """Drop all annotations in the subtree that were produced for `instance`
+        or any of its descendants.
+
+        This should be called by a keyword that reverses the failure of its
+        subschema, since a failing subschema does not produce annotations.
+        """
+        for child in self.children.values():
+            if instance.path <= child.instance.path:
+                child.annotation = None
+                child.drop_annotations(instance)
+
     def fail(self, error: JSONCompatible = None) -> None:
         """Mark the result as invalid, optionally with an error."""
         self._valid = False
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..41f48d5 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -84,6 +84,7 @@ class NotKeyword(Keyword, Subschema):
             result.fail('The instance must not be valid against the subschema')
         else:
             result.pass_()
+            result.drop_annotations(instance)
 
 
 class IfKeyword(Keyword, Subschema):
@@ -256,6 +257,7 @@ class ContainsKeyword(Keyword, Subschema):
                 annotation += [index]
             else:
                 result.pass_()
+                result.drop_annotations(item)
 
         result.annotate(annotation)
         if not annotation:
-- 
2.43.0


From 9e2fb60adf516f7d473124777ecc78655b7ab627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:23 +0000
Subject: [PATCH 17/34] fix: let RemoteSource load paths with a colon in the
 first segment

---
 jschon/catalog/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 71a961d..c0123c1 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -67,11 +67,13 @@ class RemoteSource(Source):
         self.base_url = base_url
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        if relative_path.startswith('/'):
-            # not a reference to another host or to the root of this one
-            relative_path = f'./{relative_path}'
+        uri = URI(relative_path)
+        if relative_path.startswith('/') or uri.scheme and not uri.authority:
+            # not a reference to another host or to the root of this one,
+            # nor a scheme but a colon in the first segment of the path
+            uri = URI(f'./{relative_path}')
 
-        url = str(URI(relative_path).resolve(self.base_url))
+        url = str(uri.resolve(self.base_url))
         if self.suffix:
             url += self.suffix
 
-- 
2.43.0


From 65ad494ecc2fca5813d379c05addfdf7b5433e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 18/34] fix: refuse a cache identifier already in use by an
 empty cache scope

---
 jschon/catalog/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index c0123c1..70d969b 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -398,6 +398,7 @@ class Catalog:
         if cacheid in self._schema_cache:
             raise CatalogError("cache identifier is already in use")
 
+        self._schema_cache[cacheid] = {}
         try:
             yield cacheid
         finally:
-- 
2.43.0


From 5563e562982c791a419015ad848e68aad30dd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 19/34] fix: keep another schema's cache entry when a schema
 changes its URI

---
 jschon/catalog/__init__.py | 16 ++++++++++++++++
 jschon/jsonschema.py       |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 70d969b..a729b74 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -323,6 +323,22 @@ class Catalog:
         if cacheid in self._schema_cache:
             self._schema_cache[cacheid].pop(uri, None)
 
+    def has_schema(
+            self,
+            uri: URI,
+            schema: JSONSchema,
+            *,
+            cacheid: Hashable = 'default',
+    ) -> bool:
+        """Return True if `schema` is the (sub)schema cached for `uri`,
+        False otherwise.
+
+        :param uri: the URI identifying the (sub)schema
+        :param schema: the :class:`~jschon.jsonschema.JSONSchema` instance
+        :param cacheid: schema cache identifier
+        """
+        return self._schema_cache.get(cacheid, {}).get(uri) is schema
+
     def get_schema(
             self,
             uri: URI,
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index a585840..efe06e0 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -307,7 +307,7 @@ class JSONSchema(JSON):
     @uri.setter
     def uri(self, value: Optional[URI]) -> None:
         if self._uri != value:
-            if self._uri is not None:
+            if self._uri is not None and self.catalog.has_schema(self._uri, self, cacheid=self.cacheid):
                 self.catalog.del_schema(self._uri, cacheid=self.cacheid)
 
             self._uri = value
-- 
2.43.0


From e008828ac0199a1222ec893889d565314058280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 20/34] fix: raise CatalogError where a loaded document is not
 a schema

---
 jschon/catalog/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index a729b74..34c9387 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -6,7 +6,7 @@ import uuid
 from contextlib import contextmanager
 from importlib import import_module
 from os import PathLike
-from typing import Any, ContextManager, Dict, Hashable, Set, Union
+from typing import Any, ContextManager, Dict, Hashable, Mapping, Set, Union
 
 from jschon.exc import CatalogError, JSONPointerError, URIError
 from jschon.json import JSONCompatible
@@ -372,6 +372,9 @@ class Catalog:
 
         if schema is None:
             doc = self.load_json(base_uri)
+            if not isinstance(doc, (bool, Mapping)):
+                raise CatalogError(f"The object referenced by {base_uri} is not a JSON Schema")
+
             schema = JSONSchema(
                 doc,
                 catalog=self,
-- 
2.43.0


From a6b6a5261887cb0e3d51069e24ddefa6bbd9beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:22 +0000
Subject: [PATCH 21/34] fix: raise CatalogError for metaschema documents of the
 wrong type

---
 jschon/catalog/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 34c9387..cd66c9a 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -226,6 +226,9 @@ class Catalog:
         :raise CatalogError: if the metaschema is not valid
         """
         metaschema_doc = self.load_json(uri)
+        if not isinstance(metaschema_doc, Mapping):
+            raise CatalogError(f"The object referenced by {uri} is not a metaschema")
+
         default_core_vocabulary = (
             self.get_vocabulary(default_core_vocabulary_uri)
             if default_core_vocabulary_uri
@@ -246,7 +249,7 @@ class Catalog:
         if not metaschema.validate().valid:
             raise CatalogError(
                 "The metaschema is invalid against its own metaschema "
-                f'"{metaschema_doc["$schema"]}"'
+                f'"{metaschema.metaschema_uri}"'
             )
         return metaschema
 
-- 
2.43.0


From ec0c9c0afe4e269a24e3885fc23b7b8ca53658f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 22/34] fix: do not leave a schema that cannot be constructed
 in the cache

---
 jschon/catalog/__init__.py | 43 +++++++++++++++++++++++++++-----------
 jschon/jsonschema.py       | 13 +++++++++---
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index cd66c9a..9774468 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -238,19 +238,20 @@ class Catalog:
             self.get_vocabulary(vocab_uri)
             for vocab_uri in default_vocabulary_uris
         ]
-        metaschema = Metaschema(
-            self,
-            metaschema_doc,
-            default_core_vocabulary,
-            *default_vocabularies,
-            **kwargs,
-            uri=uri,
-        )
-        if not metaschema.validate().valid:
-            raise CatalogError(
-                "The metaschema is invalid against its own metaschema "
-                f'"{metaschema.metaschema_uri}"'
+        with self.restore_on_error('__meta__'):
+            metaschema = Metaschema(
+                self,
+                metaschema_doc,
+                default_core_vocabulary,
+                *default_vocabularies,
+                **kwargs,
+                uri=uri,
             )
+            if not metaschema.validate().valid:
+                raise CatalogError(
+                    "The metaschema is invalid against its own metaschema "
+                    f'"{metaschema.metaschema_uri}"'
+                )
         return metaschema
 
     def get_metaschema(self, uri: URI) -> Metaschema:
@@ -402,6 +403,24 @@ class Catalog:
 
         return schema
 
+    @contextmanager
+    def restore_on_error(self, cacheid: Hashable) -> ContextManager[None]:
+        """Context manager that restores the contents of a schema cache
+        if an exception is raised within the ``with`` block.
+
+        Note that this method is called automatically during schema construction,
+        so that a schema that cannot be constructed does not remain in the cache.
+        """
+        saved = dict(self._schema_cache[cacheid]) if cacheid in self._schema_cache else None
+        try:
+            yield
+        except BaseException:
+            if saved is not None:
+                self._schema_cache[cacheid] = saved
+            else:
+                self._schema_cache.pop(cacheid, None)
+            raise
+
     @contextmanager
     def cache(self, cacheid: Hashable = None) -> ContextManager[Hashable]:
         """Context manager for a schema cache.
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index efe06e0..cb0f3b1 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -61,9 +61,6 @@ class JSONSchema(JSON):
         self.cacheid: Hashable = cacheid
         """Schema cache identifier."""
 
-        if uri is not None:
-            catalog.add_schema(uri, self, cacheid=cacheid)
-
         self._uri: Optional[URI] = uri
         self._metaschema_uri: Optional[URI] = metaschema_uri
 
@@ -94,6 +91,16 @@ class JSONSchema(JSON):
         self.key: Optional[str] = key
         """The index of the schema within its parent."""
 
+        if parent is None:
+            with catalog.restore_on_error(cacheid):
+                self._construct(value)
+        else:
+            self._construct(value)
+
+    def _construct(self, value: Union[bool, Mapping[str, JSONCompatible]]) -> None:
+        if self._uri is not None:
+            self.catalog.add_schema(self._uri, self, cacheid=self.cacheid)
+
         if isinstance(value, bool):
             self.type = "boolean"
             self.data = value
-- 
2.43.0


From 48dc79530d4b83c1ed17fb66f8176b6ae778a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:02 +0000
Subject: [PATCH 23/34] fix: give boolean root schemas a URI as object ones
 have

---
 jschon/jsonschema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index cb0f3b1..f4634a8 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -101,6 +101,9 @@ class JSONSchema(JSON):
         if self._uri is not None:
             self.catalog.add_schema(self._uri, self, cacheid=self.cacheid)
 
+        elif self.parent is None:
+            self.uri = URI(f'urn:uuid:{uuid4()}')
+
         if isinstance(value, bool):
             self.type = "boolean"
             self.data = value
@@ -109,9 +112,6 @@ class JSONSchema(JSON):
             self.type = "object"
             self.data = {}
 
-            if self.parent is None and self.uri is None:
-                self.uri = URI(f'urn:uuid:{uuid4()}')
-
             self._bootstrap(value)
 
             kwclasses = {
-- 
2.43.0


From 26b87abbdd19acbf8f4bc4212f5227db4cc7c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:13 +0000
Subject: [PATCH 24/34] fix: do not resolve an absolute "$id" with an empty
 fragment

---
 jschon/vocabulary/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index c2e947a..b07e234 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -70,7 +70,7 @@ class IdKeyword(Keyword):
         super().__init__(parentschema, value)
 
         (uri := URI(value)).validate(allow_non_empty_fragment=False)
-        if not uri.is_absolute():
+        if not uri.has_absolute_base():
             if (base_uri := parentschema.base_uri) is not None:
                 uri = uri.resolve(base_uri)
             else:
-- 
2.43.0


From e343fc7953c0d63c6b311607c68e0321854e457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:11 +0000
Subject: [PATCH 25/34] fix: find the outermost "$dynamicAnchor" when a
 resource is entered more than once

---
 jschon/vocabulary/core.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index b07e234..bb13aeb 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -1,4 +1,4 @@
-from typing import Mapping
+from typing import Mapping, Optional
 
 from jschon.exc import CatalogError, JSONSchemaError, URIError
 from jschon.json import JSON
@@ -149,27 +149,33 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
+            found_schemas = {}
 
+            # the last one found, in the outermost dynamic scope, wins
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
-                    target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                    try:
-                        found_schema = self.parentschema.catalog.get_schema(
-                            target_uri, cacheid=self.parentschema.cacheid
-                        )
-                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                dynamic_anchor.data == self.fragment:
-                            refschema = found_schema
-                    except CatalogError:
-                        pass
+                if (base_uri := target.schema.base_uri) is not None:
+                    if base_uri not in found_schemas:
+                        found_schemas[base_uri] = self._find_dynamic_anchor(base_uri)
+                    if (found_schema := found_schemas[base_uri]) is not None:
+                        refschema = found_schema
 
                 target = target.parent
 
         refschema.evaluate(instance, result)
         result.refschema(refschema)
 
+    def _find_dynamic_anchor(self, base_uri: URI) -> Optional[JSONSchema]:
+        try:
+            found_schema = self.parentschema.catalog.get_schema(
+                URI(f"#{self.fragment}").resolve(base_uri), cacheid=self.parentschema.cacheid
+            )
+        except CatalogError:
+            return None
+
+        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
+                dynamic_anchor.data == self.fragment:
+            return found_schema
+
 
 class DynamicAnchorKeyword(Keyword):
     key = "$dynamicAnchor"
-- 
2.43.0


From 8391d1f1291f4df530a196ef09aa9ea8dc018e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 26/34] fix: keep what is behind references in hierarchical
 output

---
 jschon/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 7f828c5..38e00d7 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -129,7 +129,9 @@ def verbose(result: Result) -> JSONCompatible:
 @output_formatter('hierarchical')
 def hierarchical(result: Result) -> JSONCompatible:
     def visit(node: Result):
-        if isinstance(node.schema_node, JSONSchema):
+        # a by-reference keyword stands for the application of the schema it refers to
+        schema_node = node._refschema if node._refschema is not None else node.schema_node
+        if isinstance(schema_node, JSONSchema):
             output = {
                 "valid": (valid := node.valid),
                 "evaluationPath": str(node.path),
-- 
2.43.0


From 0fabc2116d0dfcefbb9f66a5eea15a3e6b3270a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 27/34] fix: report the error of a false schema in hierarchical
 output

---
 jschon/output.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/output.py b/jschon/output.py
index 38e00d7..f023a16 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -141,6 +141,9 @@ def hierarchical(result: Result) -> JSONCompatible:
             details = []
             annotations = {}
             errors = {}
+            if not valid and schema_node.data is False:
+                # a boolean schema has no keyword to report its error under
+                errors[""] = node.error
             for child in node.children.values():
                 details += [
                     childout for childout in (visit(child))
-- 
2.43.0


From 7c7420c3a03413b7472797e92f1901d2d30aeb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:37 +0000
Subject: [PATCH 28/34] fix: accept any iterable of annotation keywords in
 basic output

---
 jschon/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/output.py b/jschon/output.py
index f023a16..b3063e1 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -63,6 +63,8 @@ def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
     valid = result.valid
     msgkey = "annotation" if valid else "error"
     childkey = "annotations" if valid else "errors"
+    if annotations is not None:
+        annotations = list(annotations)  # may be an iterator
 
     return {
         "valid": valid,
-- 
2.43.0


From 6a2e0dfc1bc6e26dd50f3b0a3f9c622070a6d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 29/34] fix: let unknown keywords mean nothing to the keywords
 that depend on their names

---
 jschon/jsonschema.py            | 26 ++++++++++++++++++++------
 jschon/vocabulary/__init__.py   |  1 +
 jschon/vocabulary/annotation.py |  2 +-
 jschon/vocabulary/applicator.py | 26 +++++++++++++-------------
 jschon/vocabulary/legacy.py     | 16 ++++++++--------
 jschon/vocabulary/validation.py |  6 +++---
 6 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index f4634a8..74186eb 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -393,6 +393,7 @@ class Result:
         self._valid = True
         self._assert = True
         self._discard = False
+        self._unknown = False
         self._refschema: Optional[JSONSchema] = None
 
         if parent is None:
@@ -448,12 +449,18 @@ class Result:
         """Return the current schema node."""
         return self.relpath.evaluate(self.schema)
 
-    def sibling(self, instance: JSON, key: str) -> Optional[Result]:
-        """Return a sibling schema node's evaluation result for `instance`."""
+    def sibling(self, instance: JSON, key: str, *, known: bool = False) -> Optional[Result]:
+        """Return a sibling schema node's evaluation result for `instance`.
+
+        If `known` is true, a keyword that is not understood has no result.
+        """
         try:
-            return self.parent.children[key, instance.path] if self.parent else None
+            sibling = self.parent.children[key, instance.path] if self.parent else None
         except KeyError:
             return None
+        if known and sibling is not None and sibling._unknown:
+            return None
+        return sibling
 
     def annotate(self, value: JSONCompatible) -> None:
         """Annotate the result."""
@@ -489,6 +496,11 @@ class Result:
         """Indicate that evaluation passes regardless of validity."""
         self._assert = False
 
+    def unknown(self) -> None:
+        """Indicate that the keyword is not understood, so that its annotation
+        means nothing to other keywords."""
+        self._unknown = True
+
     def discard(self) -> None:
         """Indicate that the result should be ignored and discarded."""
         self._discard = True
@@ -531,16 +543,18 @@ class Result:
                 relpath = self.relpath
             return schema_uri.copy(fragment=relpath.uri_fragment())
 
-    def collect_annotations(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
+    def collect_annotations(self, instance: JSON = None, key: str = None, *, known: bool = False) -> Iterator[JSONCompatible]:
         """Return an iterator over annotations produced in this subtree,
-        optionally filtered by instance and/or keyword."""
+        optionally filtered by instance and/or keyword, and optionally
+        leaving out keywords that are not understood."""
         if self._valid and not self._discard:
             if self.annotation is not None and \
+                    not (known and self._unknown) and \
                     (key is None or key == self.key) and \
                     (instance is None or instance.path == self.instance.path):
                 yield self.annotation
             for child in self.children.values():
-                yield from child.collect_annotations(instance, key)
+                yield from child.collect_annotations(instance, key, known=known)
 
     def collect_errors(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
         """Return an iterator over errors produced in this subtree,
diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 5c0d0fd..00bcf93 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -165,6 +165,7 @@ class _UnknownKeyword(Keyword):
     def evaluate(self, instance: JSON, result: Result) -> None:
         result.annotate(self.json.value)
         result.noassert()
+        result.unknown()
 
 
 class SubschemaMixin:
diff --git a/jschon/vocabulary/annotation.py b/jschon/vocabulary/annotation.py
index 761542a..efbe1d3 100644
--- a/jschon/vocabulary/annotation.py
+++ b/jschon/vocabulary/annotation.py
@@ -67,7 +67,7 @@ class ContentSchemaKeyword(_AnnotationKeyword):
     depends_on = "contentMediaType",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if result.sibling(instance, "contentMediaType"):
+        if result.sibling(instance, "contentMediaType", known=True):
             super().evaluate(instance, result)
         else:
             result.discard()
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index 41f48d5..7938628 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -100,7 +100,7 @@ class ThenKeyword(Keyword, Subschema):
     depends_on = "if",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if (if_ := result.sibling(instance, "if")) and if_.valid:
+        if (if_ := result.sibling(instance, "if", known=True)) and if_.valid:
             self.json.evaluate(instance, result)
         else:
             result.discard()
@@ -111,7 +111,7 @@ class ElseKeyword(Keyword, Subschema):
     depends_on = "if",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if (if_ := result.sibling(instance, "if")) and not if_.valid:
+        if (if_ := result.sibling(instance, "if", known=True)) and not if_.valid:
             self.json.evaluate(instance, result)
         else:
             result.discard()
@@ -167,7 +167,7 @@ class ItemsKeyword(Keyword, Subschema):
     depends_on = "prefixItems",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if prefix_items := result.sibling(instance, "prefixItems"):
+        if prefix_items := result.sibling(instance, "prefixItems", known=True):
             start_index = len(prefix_items.schema_node)
         else:
             start_index = 0
@@ -208,25 +208,25 @@ class UnevaluatedItemsKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems"):
+        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems", known=True):
             if prefix_items_annotation is True:
                 result.discard()
                 return
             if prefix_items_annotation > last_evaluated_item:
                 last_evaluated_item = prefix_items_annotation
 
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_annotations(instance, "items", known=True):
             if items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems", known=True):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
 
         contains_indices = set()
-        for contains_annotation in result.parent.collect_annotations(instance, "contains"):
+        for contains_annotation in result.parent.collect_annotations(instance, "contains", known=True):
             contains_indices |= set(contains_annotation)
 
         annotation = None
@@ -316,12 +316,12 @@ class AdditionalPropertiesKeyword(Keyword, Subschema):
     depends_on = "properties", "patternProperties",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if properties := result.sibling(instance, "properties"):
+        if properties := result.sibling(instance, "properties", known=True):
             known_property_names = properties.schema_node.keys()
         else:
             known_property_names = ()
 
-        if pattern_properties := result.sibling(instance, "patternProperties"):
+        if pattern_properties := result.sibling(instance, "patternProperties", known=True):
             known_property_patterns = pattern_properties.schema_node.keys()
         else:
             known_property_patterns = ()
@@ -366,13 +366,13 @@ class UnevaluatedPropertiesKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_annotations(instance, "properties", known=True):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties", known=True):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties", known=True):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties", known=True):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index c01d184..b74a64f 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -95,7 +95,7 @@ class AdditionalItemsKeyword_2019_09(Keyword, Subschema):
     depends_on = "items",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if (items := result.sibling(instance, "items")) and type(items.annotation) is int:
+        if (items := result.sibling(instance, "items", known=True)) and type(items.annotation) is int:
             annotation = None
             error = []
             for index, item in enumerate(instance[(start := items.annotation + 1):], start):
@@ -134,19 +134,19 @@ class UnevaluatedItemsKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_annotations(instance, "items", known=True):
             if items_annotation is True:
                 result.discard()
                 return
             if type(items_annotation) is int and items_annotation > last_evaluated_item:
                 last_evaluated_item = items_annotation
 
-        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems"):
+        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems", known=True):
             if additional_items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems", known=True):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
@@ -188,13 +188,13 @@ class UnevaluatedPropertiesKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_annotations(instance, "properties", known=True):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties", known=True):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties", known=True):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties", known=True):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index f6cc5b3..01131b8 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -188,7 +188,7 @@ class MaxContainsKeyword(Keyword):
     depends_on = "contains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if contains := result.sibling(instance, "contains", known=True):
             if contains.annotation is not None and len(contains.annotation) > self.json:
                 result.fail('The array has too many elements matching the '
                             f'"contains" subschema (maximum {self.json})')
@@ -200,7 +200,7 @@ class MinContainsKeyword(Keyword):
     depends_on = "contains", "maxContains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if contains := result.sibling(instance, "contains", known=True):
             contains_count = len(contains.annotation) \
                 if contains.annotation is not None \
                 else 0
@@ -208,7 +208,7 @@ class MinContainsKeyword(Keyword):
             valid = contains_count >= self.json
 
             if valid and not contains.valid:
-                max_contains = result.sibling(instance, "maxContains")
+                max_contains = result.sibling(instance, "maxContains", known=True)
                 if not max_contains or max_contains.valid:
                     contains.pass_()
 
-- 
2.43.0


From c916eb35510a100cc2c788b334418d341321886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 30/34] fix: use the default core vocabulary where $vocabulary
 lists no known one

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 00bcf93..f7dc27b 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -70,7 +70,7 @@ class Metaschema(JSONSchema):
             ))
             if len(possible_cores) == 1:
                 self.core_vocabulary = catalog.get_vocabulary(URI(possible_cores[0]))
-            else:
+            elif possible_cores or default_core_vocabulary is None:
                 raise JSONSchemaError(
                     'Cannot determine unique known core vocabulary from '
                     f'candidates "{vocabularies.keys()}"'
-- 
2.43.0


From a366fb2f8c18ba70bfd3001a5814ffa30bffe62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 31/34] fix: keep a subschema keyword whose value is no schema
 as a plain value

The abstract SubschemaMixin.jsonify was reached when the mixins of a
keyword declined its value, so that {"not": 5} or {"allOf": {}} raised
NotImplementedError instead of falling back to plain JSON.
---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index f7dc27b..72315cd 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -142,7 +142,7 @@ class Keyword:
 
     def __init__(self, parentschema: JSONSchema, value: JSONCompatible):
         for base_cls in inspect.getmro(self.__class__):
-            if issubclass(base_cls, SubschemaMixin):
+            if issubclass(base_cls, SubschemaMixin) and base_cls is not SubschemaMixin:
                 if (kwjson := base_cls.jsonify(parentschema, self.key, value)) is not None:
                     break
         else:
-- 
2.43.0


From 6f806cf6f831057fe64a2df8e852044701c74a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 32/34] fix: find a cached metaschema that is an empty object

A metaschema document without members is falsy, so that it was loaded
again, without its default vocabularies, and refused.
---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 9774468..ac3722d 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -273,7 +273,7 @@ class Catalog:
         except KeyError:
             metaschema = None
 
-        if not metaschema:
+        if metaschema is None:
             metaschema = self.create_metaschema(uri)
 
         if not isinstance(metaschema, Metaschema):
-- 
2.43.0


From 8c6b09bf74fc2195e541084a01cd4fab048bf340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 33/34] fix: find the root schemas while a document is being
 constructed

A schema under construction has no members yet and is falsy, so that a
keyword asking for the document or resource root got a subschema, which
was then cached.
---
 jschon/jsonschema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 74186eb..576e23e 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -248,7 +248,7 @@ class JSONSchema(JSON):
         if '$id' in self.keywords:
             return self
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
             if '$id' in ancestor.keywords:
                 return ancestor
@@ -263,7 +263,7 @@ class JSONSchema(JSON):
         this method returns `self`.
         """
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
         return ancestor
 
-- 
2.43.0


From 9ecbfaee6a42e086bdfa168ca1710eae1627a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 34/34] fix: do not look up dynamic anchors in the catalog
 during evaluation

---
 jschon/jsonschema.py      |  4 ++++
 jschon/vocabulary/core.py | 23 ++++++-----------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 576e23e..396b361 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -68,6 +68,10 @@ class JSONSchema(JSON):
         """A dictionary of the schema's :class:`~jschon.vocabulary.Keyword`
         objects, indexed by keyword name."""
 
+        self.dynamic_anchors: Dict[URI, JSONSchema] = {}
+        """The subschemas containing ``"$dynamicAnchor"``, indexed by URI;
+        populated on the schema at the root of a document."""
+
         # do not call super().__init__
         # all inherited attributes are initialized here:
 
diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bb13aeb..62dc728 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -1,4 +1,4 @@
-from typing import Mapping, Optional
+from typing import Mapping
 
 from jschon.exc import CatalogError, JSONSchemaError, URIError
 from jschon.json import JSON
@@ -149,14 +149,12 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            found_schemas = {}
 
             # the last one found, in the outermost dynamic scope, wins
             while target is not None:
                 if (base_uri := target.schema.base_uri) is not None:
-                    if base_uri not in found_schemas:
-                        found_schemas[base_uri] = self._find_dynamic_anchor(base_uri)
-                    if (found_schema := found_schemas[base_uri]) is not None:
+                    dynamic_anchors = target.schema.document_rootschema.dynamic_anchors
+                    if (found_schema := dynamic_anchors.get(URI(f'{base_uri}#{self.fragment}'))) is not None:
                         refschema = found_schema
 
                 target = target.parent
@@ -164,18 +162,6 @@ class DynamicRefKeyword(Keyword):
         refschema.evaluate(instance, result)
         result.refschema(refschema)
 
-    def _find_dynamic_anchor(self, base_uri: URI) -> Optional[JSONSchema]:
-        try:
-            found_schema = self.parentschema.catalog.get_schema(
-                URI(f"#{self.fragment}").resolve(base_uri), cacheid=self.parentschema.cacheid
-            )
-        except CatalogError:
-            return None
-
-        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                dynamic_anchor.data == self.fragment:
-            return found_schema
-
 
 class DynamicAnchorKeyword(Keyword):
     key = "$dynamicAnchor"
@@ -191,6 +177,9 @@ class DynamicAnchorKeyword(Keyword):
 
         parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)
 
+        # evaluation of "$dynamicRef" must not depend on what the catalog holds later
+        parentschema.document_rootschema.dynamic_anchors[uri] = parentschema
+
 
 class DefsKeyword(Keyword, ObjectOfSubschemas):
     key = "$defs"
-- 
2.43.0

