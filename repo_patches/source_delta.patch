From 62a80559989fb6f86526aa9559e0bc0b6b512031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 01/28] fix: apply the array index syntax to JSON arrays in
 JSONPointer.evaluate

Only plain sequences were checked: for a JSON array a token such as "a"
raised ValueError, and "-1" and "01" selected an item.
---
 jschon/jsonpointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..dfd1108 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,9 +207,9 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                        not isjson and isinstance(value, Sequence) and
+                        not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-- 
2.43.0


From 2ef1396901662ec50dcf99c9a5378765183755ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 02/28] fix: reject malformed array indices and scalar parents
 in JSON Patch

int() accepts ' 1', '+1', '01', '1_0' and other-script digits, none of which
is an RFC 6901 array index; a scalar parent tripped an assertion, and a
string parent was treated as an array.
---
 jschon/json.py      | 3 +++
 jschon/jsonpatch.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..455c7e2 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -355,6 +355,9 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             raise JSONError(f"Parent node must exist at '{path[:-1]}'") from e
 
         if target_parent.type == 'array':
+            if target_key != '-' and not JSONPointer._array_index_re.fullmatch(target_key):
+                raise JSONError(f'Invalid array index {target_key}')
+
             try:
                 if target_key == '-' or int(target_key) == len(target_parent):
                     target_index = len(target_parent)
diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..0b96365 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,7 +205,10 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
+            if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                raise JSONPatchError(f'Invalid array index {key}')
+
             try:
                 if key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
@@ -224,7 +227,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From 421df97533a498f60c4a4facb92242c50674a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 03/28] fix: refuse to move a value into one of its own
 descendants

RFC 6902: the from location must not be a proper prefix of the path location.
---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 0b96365..6da75e2 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -294,6 +294,9 @@ def move(
         from_: JSONPointer,
 ) -> JSONCompatible:
     """Move the value at `from_` in `document` to `path`."""
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move from {from_} to its own descendant {path}')
+
     try:
         value = from_.evaluate(document)
     except JSONPointerError as e:
-- 
2.43.0


From caf024bdefb043144758d7f7e8c9c6ff126c6485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 04/28] fix: keep item keys right when a JSON array is changed
 by a negative index

pop(), insert(-1, x), insert(99, x), a[-1] = x and del a[-1] left items
whose key and path do not match their position.
---
 jschon/json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 455c7e2..4d92654 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -238,6 +238,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -251,6 +253,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        if self.type == 'array':
+            index = range(len(self.data))[index]
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
@@ -263,6 +267,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON type ``array``.
         """
+        index, _, _ = slice(index, None).indices(len(self.data))
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From 8db82a7371979a1a82b36e13177529e3b14b91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 05/28] fix: give equal URIs equal hashes

== compares normalized forms, so the hash must too; otherwise equal URIs
miss each other in dicts such as the schema cache.
---
 jschon/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 7c46f46..ae7b0eb 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -26,7 +26,7 @@ class URI:
         return len(str(self))
 
     def __hash__(self) -> int:
-        return hash(self._uriref)
+        return hash(self._uriref.normalize())
 
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
-- 
2.43.0


From e07788d1975f81e800dd1d719368e8eeb838c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 06/28] fix: annotate arrays evaluated by a boolean 2019-09
 "items" schema

With "items": true every item is evaluated, so "unevaluatedItems": false
must not fail.
---
 jschon/vocabulary/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..8981a9e 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -63,6 +63,8 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
 
         elif isinstance(self.json.data, bool):
             self.json.evaluate(instance, result)
+            if result.passed:
+                result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
             for index, item in enumerate(instance):
-- 
2.43.0


From c47d43891925f0a765684aa08df05285804de02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 07/28] fix: keep LocalSource inside its base directory

Joining an absolute path discards the base, so https://example.com//etc/x
under the base URI https://example.com/ read /etc/x.
---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..cd85c06 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -37,7 +37,7 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        filepath = pathlib.Path(self.base_dir) / relative_path
+        filepath = pathlib.Path(self.base_dir) / relative_path.lstrip('/')
         if self.suffix:
             filepath = str(filepath)
             filepath += self.suffix
-- 
2.43.0


From a0d4cd781448f2ee68d18b1a01fc5ab2a7a5dd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 08/28] fix: decide "multipleOf" exactly for numbers of any
 magnitude

Decimal arithmetic has 28 digits of precision: 1e30 was reported as not
a multiple of 1, "Invalid operation".
---
 jschon/vocabulary/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..2f06dc6 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,9 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except (ValueError, ZeroDivisionError):
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From 17d2f5b050cac0ae64922ba3294c81024ac9ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 09/28] fix: drop the annotations of a failed subschema of
 "not" and "contains"

Both reset the failure, leaving the annotations of the subschema's passing
keywords to be collected: {"not": {"properties": {"a": true}, "required":
["b"]}, "unevaluatedProperties": false} accepted {"a": 1}.
---
 jschon/vocabulary/applicator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..df988e0 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -84,6 +84,9 @@ class NotKeyword(Keyword, Subschema):
             result.fail('The instance must not be valid against the subschema')
         else:
             result.pass_()
+            # a failed subschema contributes no annotations
+            for key in [key for key, child in result.children.items() if child.valid]:
+                del result.children[key]
 
 
 class IfKeyword(Keyword, Subschema):
@@ -256,6 +259,10 @@ class ContainsKeyword(Keyword, Subschema):
                 annotation += [index]
             else:
                 result.pass_()
+                # a failed subschema contributes no annotations
+                for key in [key for key, child in result.children.items()
+                            if child.valid and child.instance.path == item.path]:
+                    del result.children[key]
 
         result.annotate(annotation)
         if not annotation:
-- 
2.43.0


From 8019941798115ccf9dc7d664e9c0aa7de405c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 10/28] fix: do not filter the errors of a failing "basic"
 output by annotation name

---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 7f828c5..2c3d036 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -48,7 +48,7 @@ def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
     def visit(node: Result):
         if node.valid is valid:
             if (
-                    (annotations is None or node.key in annotations) and
+                    (annotations is None or not valid or node.key in annotations) and
                     (msgval := getattr(node, msgkey)) is not None
             ):
                 yield {
-- 
2.43.0


From 858284b7ad3b081262a79c5f3a9ed5e070079b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 11/28] fix: accept any iterable of annotation names for
 "basic" output

---
 jschon/output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/output.py b/jschon/output.py
index 2c3d036..8eec3e1 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -63,6 +63,8 @@ def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
     valid = result.valid
     msgkey = "annotation" if valid else "error"
     childkey = "annotations" if valid else "errors"
+    if annotations is not None:
+        annotations = set(annotations)
 
     return {
         "valid": valid,
-- 
2.43.0


From 8025f66df2e470677ab8dde3b5c6c2b7658b8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 12/28] fix: evaluate every item of 2019-09 "items"
 independently of failed ones

---
 jschon/vocabulary/legacy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index 8981a9e..31256c2 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -67,11 +67,17 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
                 result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
+            valid = True
             for index, item in enumerate(instance):
-                self.json.evaluate(item, result)
+                if not self.json.evaluate(item, result).passed:
+                    valid = False
+                    # reset to passed for the next iteration
+                    result.pass_()
 
-            if result.passed:
+            if valid:
                 result.annotate(True)
+            else:
+                result.fail()
 
         elif self.json.type == "array":
             annotation = None
-- 
2.43.0


From 6fed6caa86386d81be16ba696aa8f17f49e53e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 13/28] fix: let "$id" with an empty fragment identify the
 schema without it

Such a schema was cached under a URI that no pointer reference and no
reference to its base URI could reach.
---
 jschon/vocabulary/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..706c817 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -70,6 +70,7 @@ class IdKeyword(Keyword):
         super().__init__(parentschema, value)
 
         (uri := URI(value)).validate(allow_non_empty_fragment=False)
+        uri = uri.copy(fragment=False)
         if not uri.is_absolute():
             if (base_uri := parentschema.base_uri) is not None:
                 uri = uri.resolve(base_uri)
-- 
2.43.0


From c61d781b8a07d379bee5e3fcc6b754081fe0196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:30 +0000
Subject: [PATCH 14/28] fix: let "$dynamicRef" refer to a boolean schema

Looking for a dynamic anchor in a boolean schema raised TypeError when the
referring schema was made.
---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 706c817..7baf516 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -140,7 +140,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if self.refschema.type == "object" and \
+                (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From d1716ba4b62960f708ac5654a7ed404425c40ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 15/28] fix: report an invalid metaschema that does not declare
 its own metaschema

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index cd85c06..5cf1a4d 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -233,7 +233,7 @@ class Catalog:
         if not metaschema.validate().valid:
             raise CatalogError(
                 "The metaschema is invalid against its own metaschema "
-                f'"{metaschema_doc["$schema"]}"'
+                f'"{metaschema.metaschema_uri}"'
             )
         return metaschema
 
-- 
2.43.0


From 80d12f1c853baf9248d94502875f6ae300da2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 16/28] fix: accept any keyword name that is not known

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..f5252e3 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -100,7 +100,7 @@ class Metaschema(JSONSchema):
             return self.kwclasses[key]
         except KeyError:
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                'UnknownKeyword',  # not every key can be part of a class name
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From 68b08963dbfdd2a5e1247409617681f66090a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 17/28] fix: refuse to enter a cache context that is in use and
 still empty

---
 jschon/catalog/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 5cf1a4d..c491514 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -385,6 +385,8 @@ class Catalog:
         if cacheid in self._schema_cache:
             raise CatalogError("cache identifier is already in use")
 
+        self._schema_cache[cacheid] = {}
+
         try:
             yield cacheid
         finally:
-- 
2.43.0


From 4c435491621d97934e630003911920f487eddb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 18/28] fix: do not keep a schema cached whose construction
 failed

---
 jschon/catalog/__init__.py | 12 ++++++++++++
 jschon/jsonschema.py       |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index c491514..e5c90ca 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -231,6 +231,7 @@ class Catalog:
             uri=uri,
         )
         if not metaschema.validate().valid:
+            self._discard_document(metaschema)
             raise CatalogError(
                 "The metaschema is invalid against its own metaschema "
                 f'"{metaschema.metaschema_uri}"'
@@ -367,6 +368,17 @@ class Catalog:
 
         return schema
 
+    def _discard_document(self, schema: JSONSchema) -> None:
+        """Remove a document root `schema` and all of its subschemas
+        from its cache, such that it is not mistaken for a usable schema."""
+        cache = self._schema_cache.get(schema.cacheid, {})
+        for uri, cached in list(cache.items()):
+            node = cached
+            while node is not None and node is not schema:
+                node = node.parent
+            if node is schema:
+                del cache[uri]
+
     @contextmanager
     def cache(self, cacheid: Hashable = None) -> ContextManager[Hashable]:
         """Context manager for a schema cache.
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..4689b72 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -94,6 +94,14 @@ class JSONSchema(JSON):
         self.key: Optional[str] = key
         """The index of the schema within its parent."""
 
+        try:
+            self._construct(value)
+        except Exception:
+            if parent is None:
+                catalog._discard_document(self)
+            raise
+
+    def _construct(self, value: Union[bool, Mapping[str, JSONCompatible]]) -> None:
         if isinstance(value, bool):
             self.type = "boolean"
             self.data = value
-- 
2.43.0


From 5fa7bc51e2c944abc47492b0879771d35e4255e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 19/28] fix: construct a keyword whose value is not of the form
 of its subschemas

---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index f5252e3..d87bef1 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -140,7 +140,7 @@ class Keyword:
 
     def __init__(self, parentschema: JSONSchema, value: JSONCompatible):
         for base_cls in inspect.getmro(self.__class__):
-            if issubclass(base_cls, SubschemaMixin):
+            if issubclass(base_cls, SubschemaMixin) and base_cls is not SubschemaMixin:
                 if (kwjson := base_cls.jsonify(parentschema, self.key, value)) is not None:
                     break
         else:
-- 
2.43.0


From 6bf01479e135b8bfe8f81b510768bcbf0f033955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 20/28] fix: let no keyword depend on one that its metaschema
 does not know

---
 jschon/jsonschema.py            | 27 ++++++++++++++++++++++-----
 jschon/vocabulary/__init__.py   |  1 +
 jschon/vocabulary/applicator.py | 16 ++++++++--------
 jschon/vocabulary/legacy.py     | 14 +++++++-------
 4 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 4689b72..2ca2913 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -394,6 +394,7 @@ class Result:
         self._valid = True
         self._assert = True
         self._discard = False
+        self._unknown = False
         self._refschema: Optional[JSONSchema] = None
 
         if parent is None:
@@ -450,12 +451,15 @@ class Result:
         return self.relpath.evaluate(self.schema)
 
     def sibling(self, instance: JSON, key: str) -> Optional[Result]:
-        """Return a sibling schema node's evaluation result for `instance`."""
+        """Return a sibling schema node's evaluation result for `instance`,
+        unless the sibling is not a known keyword."""
         try:
-            return self.parent.children[key, instance.path] if self.parent else None
+            result = self.parent.children[key, instance.path] if self.parent else None
         except KeyError:
             return None
 
+        return None if result is None or result._unknown else result
+
     def annotate(self, value: JSONCompatible) -> None:
         """Annotate the result."""
         self.annotation = value
@@ -482,6 +486,11 @@ class Result:
         """Indicate that the result should be ignored and discarded."""
         self._discard = True
 
+    def unknown(self) -> None:
+        """Indicate that the result is for a keyword that is not known by
+        the metaschema, and means nothing to any other keyword."""
+        self._unknown = True
+
     def refschema(self, schema: JSONSchema) -> None:
         """Set the referenced schema for a by-reference keyword.
         
@@ -520,16 +529,24 @@ class Result:
                 relpath = self.relpath
             return schema_uri.copy(fragment=relpath.uri_fragment())
 
-    def collect_annotations(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
+    def collect_annotations(
+            self,
+            instance: JSON = None,
+            key: str = None,
+            *,
+            known: bool = False,
+    ) -> Iterator[JSONCompatible]:
         """Return an iterator over annotations produced in this subtree,
-        optionally filtered by instance and/or keyword."""
+        optionally filtered by instance and/or keyword, and optionally
+        limited to keywords that are known by the metaschema."""
         if self._valid and not self._discard:
             if self.annotation is not None and \
+                    not (known and self._unknown) and \
                     (key is None or key == self.key) and \
                     (instance is None or instance.path == self.instance.path):
                 yield self.annotation
             for child in self.children.values():
-                yield from child.collect_annotations(instance, key)
+                yield from child.collect_annotations(instance, key, known=known)
 
     def collect_errors(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
         """Return an iterator over errors produced in this subtree,
diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index d87bef1..d7007bb 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -163,6 +163,7 @@ class _UnknownKeyword(Keyword):
     def evaluate(self, instance: JSON, result: Result) -> None:
         result.annotate(self.json.value)
         result.noassert()
+        result.unknown()
 
 
 class SubschemaMixin:
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index df988e0..ee40c61 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -210,25 +210,25 @@ class UnevaluatedItemsKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems"):
+        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems", known=True):
             if prefix_items_annotation is True:
                 result.discard()
                 return
             if prefix_items_annotation > last_evaluated_item:
                 last_evaluated_item = prefix_items_annotation
 
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_annotations(instance, "items", known=True):
             if items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems", known=True):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
 
         contains_indices = set()
-        for contains_annotation in result.parent.collect_annotations(instance, "contains"):
+        for contains_annotation in result.parent.collect_annotations(instance, "contains", known=True):
             contains_indices |= set(contains_annotation)
 
         annotation = None
@@ -371,13 +371,13 @@ class UnevaluatedPropertiesKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_annotations(instance, "properties", known=True):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties", known=True):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties", known=True):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties", known=True):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index 31256c2..596c4d4 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -139,19 +139,19 @@ class UnevaluatedItemsKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_annotations(instance, "items", known=True):
             if items_annotation is True:
                 result.discard()
                 return
             if type(items_annotation) is int and items_annotation > last_evaluated_item:
                 last_evaluated_item = items_annotation
 
-        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems"):
+        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems", known=True):
             if additional_items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems", known=True):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
@@ -193,13 +193,13 @@ class UnevaluatedPropertiesKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_annotations(instance, "properties", known=True):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties", known=True):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties", known=True):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties", known=True):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
-- 
2.43.0


From 0985b29e2b5a2137bd529f9cb13b513fcfd77651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 21/28] fix: accept a format that is enabled and has no
 validator

---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 2921183..d847124 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -16,7 +16,7 @@ class FormatKeyword(Keyword):
 
     def __init__(self, parentschema: JSONSchema, value: str):
         super().__init__(parentschema, value)
-        if parentschema.catalog.is_format_enabled(value):
+        if isinstance(value, str) and value in _format_validators and parentschema.catalog.is_format_enabled(value):
             self.validator, self.validates_types = _format_validators[value]
         else:
             self.validator = None
-- 
2.43.0


From c25a6947ebbbaf5abfdb038bc704a164b2081d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 22/28] fix: give a boolean schema document a URI

A boolean schema that was given no URI, unlike any other, had none, and
its output named "None" as the absolute keyword location.
---
 jschon/jsonschema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 2ca2913..1f2cd2c 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -102,6 +102,9 @@ class JSONSchema(JSON):
             raise
 
     def _construct(self, value: Union[bool, Mapping[str, JSONCompatible]]) -> None:
+        if self.parent is None and self.uri is None and isinstance(value, (bool, Mapping)):
+            self.uri = URI(f'urn:uuid:{uuid4()}')
+
         if isinstance(value, bool):
             self.type = "boolean"
             self.data = value
@@ -110,9 +113,6 @@ class JSONSchema(JSON):
             self.type = "object"
             self.data = {}
 
-            if self.parent is None and self.uri is None:
-                self.uri = URI(f'urn:uuid:{uuid4()}')
-
             self._bootstrap(value)
 
             kwclasses = {
-- 
2.43.0


From 9cbb501dc55d0cdf1e1733bf2d69ca072c87b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 23/28] fix: find the outermost dynamic anchor in a resource
 that is entered again

A "$dynamicRef" did not look at the outer occurrence of a resource that
is in the dynamic scope twice, and so could resolve to a resource between
the two; schemas nested in "$defs" were not validated by the 2020-12
metaschema.
---
 jschon/vocabulary/core.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index 7baf516..97d98ea 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -149,21 +149,26 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
+            found_schemas = {}
 
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
-                    target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                    try:
-                        found_schema = self.parentschema.catalog.get_schema(
-                            target_uri, cacheid=self.parentschema.cacheid
-                        )
-                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                dynamic_anchor.data == self.fragment:
-                            refschema = found_schema
-                    except CatalogError:
-                        pass
+                if (base_uri := target.schema.base_uri) is not None:
+                    if base_uri not in found_schemas:
+                        found_schemas[base_uri] = None
+                        target_uri = URI(f"#{self.fragment}").resolve(base_uri)
+                        try:
+                            found_schema = self.parentschema.catalog.get_schema(
+                                target_uri, cacheid=self.parentschema.cacheid
+                            )
+                            if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
+                                    dynamic_anchor.data == self.fragment:
+                                found_schemas[base_uri] = found_schema
+                        except CatalogError:
+                            pass
+
+                    # a resource that is entered again further out takes precedence
+                    if (found_schema := found_schemas[base_uri]) is not None:
+                        refschema = found_schema
 
                 target = target.parent
 
-- 
2.43.0


From 3aa335cd84fc16b7c35626ef8cc079304909d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 24/28] fix: a metaschema that is its own metaschema is found
 while it is empty

While a metaschema document without bootstrapped keywords is constructed,
it is empty, hence falsy, and looking it up as its own metaschema
went on to create it again.
---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index e5c90ca..139cf5e 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -257,7 +257,7 @@ class Catalog:
         except KeyError:
             metaschema = None
 
-        if not metaschema:
+        if metaschema is None:
             metaschema = self.create_metaschema(uri)
 
         if not isinstance(metaschema, Metaschema):
-- 
2.43.0


From 29836349596edad99733719b1ce8e2ae30514f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 25/28] fix: the root schemas of a subschema were wrong if
 asked for during construction

While the first keyword of a schema is constructed its data is still empty, hence
falsy, such that its subschemas took themselves for the document and resource
root, and cached that.
---
 jschon/jsonschema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 1f2cd2c..4ada542 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -249,7 +249,7 @@ class JSONSchema(JSON):
         if '$id' in self.keywords:
             return self
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
             if '$id' in ancestor.keywords:
                 return ancestor
@@ -264,7 +264,7 @@ class JSONSchema(JSON):
         this method returns `self`.
         """
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
         return ancestor
 
-- 
2.43.0


From 8a079d1abf836133b0045f24f908ffe4816cfca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 26/28] fix: append any relative path to the base URL of a
 remote source

---
 jschon/catalog/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 139cf5e..25f9dfd 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -60,6 +60,10 @@ class RemoteSource(Source):
         self.base_url = base_url
 
     def __call__(self, relative_path: str) -> JSONCompatible:
+        if relative_path and not relative_path.startswith('?'):
+            # neither a colon nor leading slashes lead away from the base URL
+            relative_path = f'./{relative_path}'
+
         url = str(URI(relative_path).resolve(self.base_url))
         if self.suffix:
             url += self.suffix
-- 
2.43.0


From 478bc61d68e856201122a95bd97c056c2d9610a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 27/28] fix: read and write JSON files as UTF-8 regardless of
 the locale

---
 jschon/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..b1b3ea6 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,7 +34,7 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
+    with open(path, 'w', encoding='utf-8') as f:
         json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
 
 
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
-- 
2.43.0


From 8573de812d2665387fa9e79f12ff786d9f32a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 28/28] fix: refuse numbers that are too large to represent
 when decoding JSON

---
 jschon/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index b1b3ea6..644e17b 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -46,7 +46,7 @@ def json_dumps(obj: Any) -> str:
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
     with open(path, encoding='utf-8') as f:
-        return json.load(f, parse_constant=_parse_invalid_const)
+        return json.load(f, parse_constant=_parse_invalid_const, parse_float=_parse_float)
 
 
 def json_loadr(url: str) -> Any:
@@ -55,12 +55,12 @@ def json_loadr(url: str) -> Any:
         _import_requests()
     r = requests.get(url)
     r.raise_for_status()
-    return r.json(parse_constant=_parse_invalid_const)
+    return r.json(parse_constant=_parse_invalid_const, parse_float=_parse_float)
 
 
 def json_loads(value: str) -> Any:
     """Deserialize a JSON string, returning a JSON-compatible Python object."""
-    return json.loads(value, parse_constant=_parse_invalid_const)
+    return json.loads(value, parse_constant=_parse_invalid_const, parse_float=_parse_float)
 
 
 def _parse_invalid_const(c):
@@ -70,6 +70,15 @@ def _parse_invalid_const(c):
     raise ValueError(f"{c} is not a valid JSON value")
 
 
+def _parse_float(s):
+    """Floating point handler that disallows a number that is too large to
+    represent, which would otherwise be decoded as infinity."""
+    value = float(s)
+    if abs(value) == float('inf'):
+        raise ValueError(f"{s} is out of range")
+    return value
+
+
 def _serialize_custom_obj(o):
     from jschon.json import JSON
     if isinstance(o, JSON):
-- 
2.43.0

