From 408b2bec6334b5230c0e109e8df104e9931ef578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 01/44] fix: do not mix up fields whose options have equal
 hashes

Options were identified by their hash() value, so that different options
(-1 and -2, 1 and True) could share the same result.
---
 hiku/query.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 23fe845..a3401fc 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -51,14 +51,17 @@ from collections.abc import Sequence
 from .utils import cached_property
 
 
-def _compute_hash(obj):
+def _freeze(obj):
+    # hash() of the value is not enough here, different values can have equal
+    # hashes: hash(-1) == hash(-2), and equal values can have different types:
+    # 1 == True
     if isinstance(obj, dict):
-        return hash(tuple((_compute_hash(k), _compute_hash(v))
-                          for k, v in sorted(obj.items())))
-    elif isinstance(obj, list):
-        return hash(tuple(_compute_hash(i) for i in obj))
+        return (obj.__class__, tuple((_freeze(k), _freeze(v))
+                                     for k, v in sorted(obj.items())))
+    elif isinstance(obj, (list, tuple)):
+        return (obj.__class__, tuple(_freeze(i) for i in obj))
     else:
-        return hash(obj)
+        return (obj.__class__, obj)
 
 
 class Base:
@@ -96,14 +99,14 @@ class FieldBase(Base):
     @cached_property
     def options_hash(self):
         if self.options:
-            return _compute_hash(self.options)
+            return _freeze(self.options)
         else:
             return None
 
     @cached_property
     def index_key(self):
         if self.options_hash is not None:
-            return '{}[{}]'.format(self.name, self.options_hash)
+            return (self.name, self.options_hash)
         else:
             return self.name
 
-- 
2.43.0


From cb4cc42ead493d663112b91f8ac45e7cd0db595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 02/44] fix: take into account @include directive when @skip is
 also specified

---
 hiku/readers/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 99732f9..f008592 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -131,7 +131,8 @@ class SelectionSetVisitMixin:
                 raise TypeError('@skip directive does not accept "{}" '
                                 'argument'
                                 .format(skip_arg.name.value))
-            return self.visit(skip_arg.value)
+            if self.visit(skip_arg.value):
+                return True
 
         include = next((d for d in obj.directives if d.name.value == 'include'),
                        None)
-- 
2.43.0


From 338b694b1ab52fd3da49d262f32717f5836e13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 03/44] fix: merge links with the same result key, no matter
 how it was specified

`{ l { a } l: l { b } }` was reduced to two separate links with the same
resulting name, only one of them was accessible in the result.
---
 hiku/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index a3401fc..9852d8b 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -181,7 +181,7 @@ def _merge(nodes):
     links = {}
     to_merge = OrderedDict()
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_hash, field.alias)
+        key = (field.name, field.options_hash, field.result_key)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
-- 
2.43.0


From 66f85e77e52bdddfd2b907587bb2d355cf5c309f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 04/44] fix: preserve order of fields and links in the merged
 ordered queries

Links were moved to the end, so mutations weren't executed in the order in
which they were specified in the query.
---
 hiku/query.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index 9852d8b..60e708a 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -205,7 +205,14 @@ def merge(nodes):
     """
     assert isinstance(nodes, Sequence), type(nodes)
     ordered = any(n.ordered for n in nodes)
-    return Node(list(_merge(nodes)), ordered=ordered)
+    fields = list(_merge(nodes))
+    if ordered:
+        # links are yielded last, but order of evaluation is important here
+        pos = {}
+        for i, field in enumerate(chain.from_iterable(n.fields for n in nodes)):
+            pos.setdefault(field.result_key, i)
+        fields.sort(key=lambda f: pos[f.result_key])
+    return Node(fields, ordered=ordered)
 
 
 class QueryVisitor:
-- 
2.43.0


From 0fe13dc5aafb660b30e3fe08c1e6a9ffdc27635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 05/44] fix: aliases and inline records in the denormalized
 complex fields (GraphQL)

---
 hiku/denormalize/base.py    | 20 ++++++++++++++------
 hiku/denormalize/graphql.py |  9 ++++-----
 hiku/result.py              | 16 +++++++++-------
 3 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 8178bca..2499a9c 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -2,6 +2,8 @@ from collections import deque
 
 from ..query import QueryVisitor, Link, Field
 from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, get_type
+from ..types import RecordMeta
+from ..result import Proxy
 
 
 class Denormalize(QueryVisitor):
@@ -19,15 +21,21 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _get_data(self, obj):
+        data = self._data[-1]
+        # aliases are applied to the fields of the graph nodes already, but
+        # values of the complex fields are stored as they were returned
+        return data[obj.result_key if isinstance(data, Proxy) else obj.name]
+
     def visit_field(self, obj: Field):
-        self._res[-1][obj.result_key] = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._get_data(obj)
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        if isinstance(type_, TypeRefMeta):
+        if isinstance(type_, (TypeRefMeta, RecordMeta)):
             self._type.append(get_type(self._types, type_))
             self._res.append({})
-            self._data.append(self._data[-1][obj.result_key])
+            self._data.append(self._get_data(obj))
             super().visit_link(obj)
             self._data.pop()
             self._res[-1][obj.result_key] = self._res.pop()
@@ -35,7 +43,7 @@ class Denormalize(QueryVisitor):
         elif isinstance(type_, SequenceMeta):
             self._type.append(get_type(self._types, type_.__item_type__))
             items = []
-            for item in self._data[-1][obj.result_key]:
+            for item in self._get_data(obj):
                 self._res.append({})
                 self._data.append(item)
                 super().visit_link(obj)
@@ -44,12 +52,12 @@ class Denormalize(QueryVisitor):
             self._res[-1][obj.result_key] = items
             self._type.pop()
         elif isinstance(type_, OptionalMeta):
-            if self._data[-1][obj.result_key] is None:
+            if self._get_data(obj) is None:
                 self._res[-1][obj.result_key] = None
             else:
                 self._type.append(get_type(self._types, type_.__type__))
                 self._res.append({})
-                self._data.append(self._data[-1][obj.result_key])
+                self._data.append(self._get_data(obj))
                 super().visit_link(obj)
                 self._data.pop()
                 self._res[-1][obj.result_key] = self._res.pop()
diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index f3aedb5..e72a478 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -1,7 +1,7 @@
 from collections import deque
 
 from ..query import Field, Link
-from ..types import TypeRefMeta, SequenceMeta, OptionalMeta
+from ..types import TypeRefMeta, SequenceMeta, OptionalMeta, RecordMeta
 
 from .base import Denormalize
 
@@ -20,16 +20,15 @@ class DenormalizeGraphQL(Denormalize):
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        if isinstance(type_, TypeRefMeta):
+        if isinstance(type_, (TypeRefMeta, RecordMeta)):
             type_ref = type_
         elif isinstance(type_, SequenceMeta):
             type_ref = type_.__item_type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
         elif isinstance(type_, OptionalMeta):
             type_ref = type_.__type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
         else:
             raise AssertionError(repr(type_))
-        self._type_name.append(type_ref.__type_name__)
+        # inline Record type has no name
+        self._type_name.append(getattr(type_ref, '__type_name__', None))
         super().visit_link(obj)
         self._type_name.pop()
diff --git a/hiku/result.py b/hiku/result.py
index 318e1c4..89efba5 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -102,22 +102,24 @@ class Proxy:
             raise AttributeError(e)
 
 
-def _denormalize_type(type_, result, query_obj):
+def _denormalize_type(types, type_, result, query_obj):
     if isinstance(query_obj, Field):
         return result
     elif isinstance(query_obj, Link):
+        type_ = get_type(types, type_)
         if isinstance(type_, SequenceMeta):
-            return [_denormalize_type(type_.__item_type__, item, query_obj)
+            return [_denormalize_type(types, type_.__item_type__, item,
+                                      query_obj)
                     for item in result]
         elif isinstance(type_, OptionalMeta):
-            return (_denormalize_type(type_.__type__, result, query_obj)
+            return (_denormalize_type(types, type_.__type__, result, query_obj)
                     if result is not None else None)
         else:
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(field_types[f.name],
-                                          result[f.name], f)
+                f.result_key: _denormalize_type(types, field_types[f.name],
+                                                result[f.name], f)
                 for f in query_obj.node.fields
             }
     assert False, (type_, query_obj)
@@ -136,8 +138,8 @@ def _denormalize(graph, graph_obj, result, query_obj):
 
     elif isinstance(query_obj, Link):
         if isinstance(graph_obj, GraphField):
-            field_type = get_type(graph.data_types, graph_obj.type)
-            return _denormalize_type(field_type, result, query_obj)
+            return _denormalize_type(graph.data_types, graph_obj.type,
+                                     result, query_obj)
 
         elif isinstance(graph_obj, GraphLink):
             graph_node = graph.nodes_map[graph_obj.node]
-- 
2.43.0


From f0c380d33072050db4e8b6befd51eee37f023075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 06/44] fix: process complex fields in the ordered queries

---
 hiku/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/engine.py b/hiku/engine.py
index 4389dd3..0455981 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -118,6 +118,10 @@ class GroupQuery(hiku_query.QueryVisitor):
 
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
+        if isinstance(graph_obj, Field):
+            # `obj` here is a link, but this link is treated as a complex field
+            self.visit_field(obj)
+            return
         if graph_obj.requires:
             self.visit(hiku_query.Field(graph_obj.requires))
         self._groups.append((graph_obj, obj))
-- 
2.43.0


From 68e4142164e4f96533ed48224aaf2ac847568b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 07/44] fix: validate links, options and names inside complex
 fields

---
 hiku/validate/query.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 94477fc..b1a6ec6 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -215,6 +215,21 @@ class _ValidateOptions(GraphVisitor):
         raise AssertionError('Root node is not expected here')
 
 
+def _field_eq(a, b):
+    return (a.__class__ is b.__class__ and a.name == b.name
+            and a.options_hash == b.options_hash)
+
+
+def _check_distinct(query_node, node_name, errors):
+    fields = {}
+    for field in query_node.fields:
+        seen = fields.setdefault(field.result_key, field)
+        if not _field_eq(field, seen):
+            errors.report('Found distinct fields with the same '
+                          'resulting name "{}" for the node "{}"'
+                          .format(field.result_key, node_name))
+
+
 class _RecordFieldsValidator(QueryVisitor):
 
     def __init__(self, data_types, field_types, errors):
@@ -232,9 +247,16 @@ class _RecordFieldsValidator(QueryVisitor):
                                 .format(obj.name))
 
     def visit_link(self, obj):
+        if obj.name not in self._field_types:
+            self._errors.report('Unknown field name "{}"'.format(obj.name))
+            return
+        if obj.options is not None:
+            self._errors.report('Options are not expected')
+
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
+            _check_distinct(obj.node, obj.name, self._errors)
             fields_validator = _RecordFieldsValidator(self._data_types,
                                                       field_types,
                                                       self._errors)
@@ -247,10 +269,6 @@ class _RecordFieldsValidator(QueryVisitor):
         raise AssertionError('Node is not expected here')
 
 
-def _field_eq(a, b):
-    return a.name == b.name and a.options == b.options
-
-
 class QueryValidator(QueryVisitor):
 
     def __init__(self, graph):
@@ -282,6 +300,7 @@ class QueryValidator(QueryVisitor):
             field_types = _AssumeRecord(self.graph.data_types)\
                 .visit(graph_obj.type)
             if field_types is not None:
+                _check_distinct(obj.node, obj.name, self.errors)
                 fields_validator = _RecordFieldsValidator(self.graph.data_types,
                                                           field_types,
                                                           self.errors)
-- 
2.43.0


From 14c79ea8c4170423d7b4fe1fe9b5516bf0e796d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 08/44] fix: do not accept strings as values for sequence
 options

---
 hiku/validate/query.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index b1a6ec6..2f8819d 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -136,7 +136,11 @@ class _OptionTypeValidator:
             self.visit(type_.__type__)
 
     def visit_sequence(self, type_):
-        if not isinstance(self.value, collections_abc.Sequence):
+        # string is also a sequence, but not a sequence of values
+        if (
+            not isinstance(self.value, collections_abc.Sequence)
+            or isinstance(self.value, (str, bytes))
+        ):
             raise _OptionTypeError(self.value, type_)
         for item in self.value:
             with self.push(item):
-- 
2.43.0


From f33c6fdf59083e19ca72411a80514a9d27218aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 09/44] fix: read escaped unicode characters in the EDN strings

---
 hiku/edn.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ef758b6..42f5dd7 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -238,7 +238,19 @@ def parser(target, tag_handlers, stop=None):
                 if char == '\\':
                     char = (yield)
                     char2 = _CHAR_MAP.get(char)
-                    if char2 is not None:
+                    if char == 'u':
+                        code = ''
+                        for _ in range(4):
+                            code += (yield)
+                        code = int(code, 16)
+                        if (
+                            0xdc00 <= code <= 0xdfff and chars
+                            and '\ud800' <= chars[-1] <= '\udbff'
+                        ):
+                            high = ord(chars.pop()) - 0xd800
+                            code = 0x10000 + high * 0x400 + code - 0xdc00
+                        chars.append(chr(code))
+                    elif char2 is not None:
                         chars.append(char2)
                     else:
                         chars.append(char)
-- 
2.43.0


From 240d6f1ec40e619f162018473a3e19782019ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 10/44] fix: read tagged elements, which are followed by
 closing bracket

---
 hiku/edn.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 42f5dd7..23903a9 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -145,14 +145,16 @@ def tag_handler(tag_name, tag_handlers):
             break
         tag_name += c
     elements = []
-    handler = parser(appender(elements), tag_handlers)
-    handler.send(c)
+    handler = parser(appender(elements), tag_handlers, single=True)
+    consumed = handler.send(c)
     while not elements:
-        handler.send((yield))
+        consumed = handler.send((yield))
+    # the last character can be a delimiter, which isn't a part of the element
+    consumed = consumed is not False
     if tag_name in tag_handlers:
-        yield tag_handlers[tag_name](elements[0]), True
+        yield tag_handlers[tag_name](elements[0]), consumed
     else:
-        yield TaggedElement(tag_name, elements[0]), True
+        yield TaggedElement(tag_name, elements[0]), consumed
         yield None, True
 
 
@@ -206,7 +208,7 @@ def symbol_handler(s):
 
 
 @coroutine
-def parser(target, tag_handlers, stop=None):
+def parser(target, tag_handlers, stop=None, single=False):
     handler = None
     while True:
         c = (yield)
@@ -224,6 +226,8 @@ def parser(target, tag_handlers, stop=None):
                         target.send(v)
                 if consumed:
                     continue
+                elif single:
+                    yield False
         if c == stop:
             return
         if c in STOP_CHARS:
-- 
2.43.0


From 355c4ef9d99626c48f1babd1328d3b7430a81a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 11/44] fix: brackets and quotes terminate EDN symbols and
 keywords

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 23903a9..9a4af85 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -192,7 +192,7 @@ def number_handler(s):
 def symbol_handler(s):
     while 1:
         c = (yield)
-        if c in '}])' + STOP_CHARS:
+        if c in '{}[]()";' + STOP_CHARS:
             if s[0] == ':':
                 yield Keyword(s[1:]), False
             elif s == 'true':
-- 
2.43.0


From 096c350dfbb00369fd56e780b649bebf4fec37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 12/44] fix: use default function for the values of the tagged
 elements

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 9a4af85..152abe3 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -392,7 +392,7 @@ def _iterencode(obj, default, encoder):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
         yield '#{} '.format(obj.name)
-        for chunk in _iterencode(obj.value, _default, encoder):
+        for chunk in _iterencode(obj.value, default, encoder):
             yield chunk
     else:
         obj = default(obj)
-- 
2.43.0


From 86e66ed9e7f3dfcf6871dba05f3f871e9af8e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 13/44] fix: comparison and hashing of the EDN symbols,
 keywords and tagged elements

---
 hiku/edn.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index 152abe3..4f51c0c 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -33,6 +33,9 @@ class Symbol(str):
         return isinstance(other, type(self)) and \
             super(Symbol, self).__eq__(other)
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return super(Symbol, self).__hash__()
 
@@ -46,6 +49,9 @@ class Keyword(str):
         return isinstance(other, type(self)) and \
             super(Keyword, self).__eq__(other)
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return super(Keyword, self).__hash__()
 
@@ -88,6 +94,9 @@ class TaggedElement:
         return isinstance(other, type(self)) and \
             self.name == other.name and self.value == other.value
 
+    def __hash__(self):
+        return hash((self.name, self.value))
+
 
 def coroutine(func):
     def start(*args, **kwargs):
-- 
2.43.0


From 810e9a8fb929667f5954e100194b6f89e3d46449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 14/44] fix: read nested options as plain lists and
 dictionaries

---
 hiku/readers/simple.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/simple.py b/hiku/readers/simple.py
index 81282f5..2c19913 100644
--- a/hiku/readers/simple.py
+++ b/hiku/readers/simple.py
@@ -9,6 +9,17 @@ from ..edn import loads, Dict, List, Keyword, Tuple
 from ..query import Node, Link, Field, merge
 
 
+def _decode(value):
+    # option values should be represented the same way in all query readers
+    if isinstance(value, List):
+        return [_decode(v) for v in value]
+    elif isinstance(value, Dict):
+        return {str(k) if isinstance(k, Keyword) else k: _decode(v)
+                for k, v in value.items()}
+    else:
+        return value
+
+
 def _get_options(value):
     if len(value) < 2:
         raise TypeError('Missing options argument')
@@ -32,7 +43,7 @@ def _get_options(value):
                         .format(keys_repr))
 
     name = str(keyword_value)
-    options = {str(k): v for k, v in options_value.items()}
+    options = {str(k): _decode(v) for k, v in options_value.items()}
     return name, options
 
 
-- 
2.43.0


From d63db77bfad15aa94a9fda95b5bffd0604d81313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 15/44] fix: report undefined fragments and not supported
 definitions

---
 hiku/readers/graphql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index f008592..b1c1955 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -9,7 +9,7 @@ from ..query import Node, Field, Link, merge
 class NodeVisitor:
 
     def visit(self, obj):
-        visit_method = getattr(self, 'visit_{}'.format(obj.kind))
+        visit_method = getattr(self, 'visit_{}'.format(obj.kind), None)
         if visit_method is None:
             raise NotImplementedError('Not implemented node type: {!r}'
                                       .format(obj))
@@ -223,6 +223,8 @@ class FragmentsTransformer(SelectionSetVisitMixin, NodeVisitor):
         self.pending_fragments = set()
 
     def transform_fragment(self, name):
+        if name not in self.fragments_map:
+            raise TypeError('Undefined fragment: "{}"'.format(name))
         return self.visit(self.fragments_map[name])
 
     def visit_operation_definition(self, obj):
-- 
2.43.0


From 416f4b64375d200dfece6741ba03cd14fb934734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 16/44] fix: report all errors in the document as errors in the
 response

---
 hiku/endpoint/graphql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 336af7e..5d9641c 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -1,6 +1,8 @@
 from abc import ABC, abstractmethod
 from asyncio import gather
 
+from graphql.error import GraphQLSyntaxError
+
 from ..graph import apply
 from ..query import QueryTransformer
 from ..validate.query import validate
@@ -35,7 +37,8 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except TypeError as e:
+    except (TypeError, ValueError, NotImplementedError,
+            GraphQLSyntaxError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
-- 
2.43.0


From 27f2b539f219185eca9596b85e738d3ffd4c78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 17/44] fix: wait for all tasks when execution was cancelled

---
 hiku/executors/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/executors/asyncio.py b/hiku/executors/asyncio.py
index 6f47295..b1302a5 100644
--- a/hiku/executors/asyncio.py
+++ b/hiku/executors/asyncio.py
@@ -26,5 +26,5 @@ class AsyncIOExecutor:
         except CancelledError:
             for task in queue.__futures__:
                 task.cancel()
-            await gather(*queue.__futures__)
+            await gather(*queue.__futures__, return_exceptions=True)
             raise
-- 
2.43.0


From bbfc81bc40f5e8fabe13e33196b29c8c3bf9dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 18/44] fix: scope of the variable, which is bound using
 if_some expression

---
 hiku/expr/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 070ba1b..270ac64 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -104,6 +104,8 @@ class ExpressionCompiler:
     def visit_if_some_expr(self, node):
         _, bind, then_, else_ = node.values
         bind_sym, bind_expr = bind.values
+        # bound variable is visible only in the "then" expression
+        bind_value, else_value = self.visit(bind_expr), self.visit(else_)
         with self.env.push([bind_sym.name]):
             none = py.NameConstant(None)
             load_bind_sym = py.Name(self.env[bind_sym.name], py.Load())
@@ -111,11 +113,11 @@ class ExpressionCompiler:
             store_bind_sym = py.Name(self.env[bind_sym.name], py.Store())
             comp = py.comprehension(
                 store_bind_sym,
-                py.Tuple([self.visit(bind_expr)], py.Load()),
+                py.Tuple([bind_value], py.Load()),
                 [],
                 False,
             )
-            expr = py.IfExp(test, self.visit(then_), self.visit(else_))
+            expr = py.IfExp(test, self.visit(then_), else_value)
         gen = py.GeneratorExp(expr, [comp])
         return py.Call(py.Name('next', py.Load()), [gen], [])
 
-- 
2.43.0


From 5f964d61a4b48db739f45cc3d898c570e69c0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 19/44] fix: variables in expressions are not visible outside
 of their scope

---
 hiku/expr/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 270ac64..27a2142 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -18,7 +18,7 @@ class Environ:
         return '{}_{}'.format(key, i) if i > 1 else key
 
     def __contains__(self, key):
-        return key in self.vars
+        return self.vars[key] > 0
 
     @contextmanager
     def push(self, names):
-- 
2.43.0


From e8c519453fe7b91fb0cea7fabc9325975950f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 20/44] fix: do not mix up variables with similar names in the
 compiled expressions

---
 hiku/expr/compiler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 27a2142..c288e53 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -10,12 +10,21 @@ from .nodes import Symbol, Keyword
 
 class Environ:
 
-    def __init__(self):
+    def __init__(self, reserved=()):
         self.vars = Counter()
+        self.reserved = frozenset(reserved)
+        self.names = {}
 
     def __getitem__(self, key):
+        return self.names[key, self.vars[key]]
+
+    def _get_name(self, key):
         i = self.vars[key]
-        return '{}_{}'.format(key, i) if i > 1 else key
+        name = '{}_{}'.format(key, i) if i > 1 else key
+        while name in self.reserved or name in self.names.values():
+            i += 1
+            name = '{}_{}'.format(key, i)
+        return name
 
     def __contains__(self, key):
         return self.vars[key] > 0
@@ -24,10 +33,12 @@ class Environ:
     def push(self, names):
         for name in names:
             self.vars[name] += 1
+            self.names[name, self.vars[name]] = self._get_name(name)
         try:
             yield
         finally:
             for name in names:
+                del self.names[name, self.vars[name]]
                 self.vars[name] -= 1
 
 
@@ -36,7 +47,7 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ()
+        self.env = Environ([self.ctx_var, self.env_var, 'next'])
 
     @classmethod
     def compile_expr(cls, node):
@@ -48,12 +59,13 @@ class ExpressionCompiler:
         compiler = cls()
         with compiler.env.push([THIS] + args):
             body = compiler.visit(node)
+            arg_names = [compiler.env[name] for name in args]
         py_args = [
             py.arg(cls.env_var, None),
             py.arg(THIS, None),
             py.arg(cls.ctx_var, None),
         ]
-        py_args.extend(py.arg(name, None) for name in args)
+        py_args.extend(py.arg(name, None) for name in arg_names)
         expr = py.Lambda(py.arguments([], py_args, None, [], [], None, []),
                          body)
         py.fix_missing_locations(expr)
-- 
2.43.0


From 15f7e3adf3b52fc872c9602850f5405a85e9011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 21/44] fix: expressions without references to the current
 object

---
 hiku/sources/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index c275674..bf6d801 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -107,7 +107,8 @@ class SubGraph:
         this_graph_link = Link(THIS, Sequence[TypeRef[self.node]], None,
                                requires=None)
 
-        reqs = merge([gf.func.reqs for gf, _ in fields])
+        this_reqs = query.Node([query.Link(THIS, query.Node([]))])
+        reqs = merge([this_reqs] + [gf.func.reqs for gf, _ in fields])
         procs = [gf.func.proc for gf, _ in fields]
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
-- 
2.43.0


From 7b441dd275325b2b49fa49bbf1741352a0f25c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 22/44] fix: use default values of options in the low-level
 graph

---
 hiku/engine.py        |  4 ++--
 hiku/sources/graph.py | 11 ++++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 0455981..309a766 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -29,9 +29,9 @@ def _get_options(graph_obj, query_obj):
 
 class InitOptions(hiku_query.QueryTransformer):
 
-    def __init__(self, graph):
+    def __init__(self, graph, node=None):
         self._graph = graph
-        self._path = [graph.root]
+        self._path = [graph.root if node is None else node]
 
     def visit_field(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index bf6d801..27b96f8 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -5,7 +5,7 @@ from ..graph import Link, Nothing
 from ..types import TypeRef, Sequence
 from ..query import merge
 from ..types import Any
-from ..engine import Query
+from ..engine import Query, InitOptions
 from ..expr.refs import RequirementsExtractor
 from ..expr.core import to_expr, S, THIS
 from ..expr.checker import check, fn_types
@@ -114,8 +114,13 @@ class SubGraph:
                          for gf, qf in fields]
 
         this_query_link = reqs.fields_map[THIS]
-        other_reqs = query.Node([r for r in reqs.fields
-                                 if r.name != THIS])
+        this_query_link = this_query_link.copy(node=InitOptions(
+            self.graph, self.graph.nodes_map[self.node],
+        ).visit(this_query_link.node))
+        other_reqs = InitOptions(self.graph).visit(query.Node([
+            r for r in reqs.fields if r.name != THIS
+        ]))
+        reqs = query.Node([this_query_link] + other_reqs.fields)
 
         q = Query(queue, task_set, self.graph, reqs, ctx)
         q.process_link(self.graph.root, this_graph_link, this_query_link,
-- 
2.43.0


From a238945f84b886501c2f68fb25439cde197d542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 23/44] fix: links can require only fields

---
 hiku/validate/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index 1ed5f2b..6c079dc 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -103,7 +103,8 @@ class GraphValidator(GraphVisitor):
             )
 
         if obj.requires is not None:
-            if obj.requires not in self.ctx.fields_map:
+            required = self.ctx.fields_map.get(obj.requires)
+            if not isinstance(required, AbstractField):
                 self.errors.report(
                     'Link "{}" requires missing field "{}" in the "{}" node'
                     .format(obj.name, obj.requires, self._format_path())
-- 
2.43.0


From 0664a167b13d46760f2064a42a024be6dd7f49aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 24/44] fix: label metrics of the shared functions with a
 proper node name

---
 hiku/telemetry/prometheus.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index 3cc5535..b83d3e0 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -114,14 +114,16 @@ class GraphMetricsBase(GraphTransformer):
         else:
             func = obj.func
 
-        wrapper = self._wrappers.get(func)
+        # the same function can be used in several nodes
+        wrapper_key = (node_name, func)
+        wrapper = self._wrappers.get(wrapper_key)
         if wrapper is None:
             if isinstance(obj.func, CheckedExpr):
-                wrapper = self._wrappers[func] = self._wrap_subquery(
+                wrapper = self._wrappers[wrapper_key] = self._wrap_subquery(
                     node_name, func,
                 )
             else:
-                wrapper = self._wrappers[func] = self._wrap_field(
+                wrapper = self._wrappers[wrapper_key] = self._wrap_field(
                     node_name, func,
                 )
 
-- 
2.43.0


From 8032b54cf5f786199a5836b12d89fd7082bac858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:03 +0000
Subject: [PATCH 25/44] fix: introspection of options without types

---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 30b6b41..b91d452 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -361,7 +361,7 @@ def input_value_type_link(schema, ids):
             node = nodes_map[ident.node]
             field = node.fields_map[ident.field]
             option = field.options_map[ident.name]
-            yield type_ident.visit(option.type)
+            yield type_ident.visit(option.type or Any)
         elif isinstance(ident, InputObjectFieldIdent):
             data_type = schema.data_types[ident.name]
             field_type = data_type.__field_types__[ident.key]
-- 
2.43.0


From 9a4ebd3fa48f8582f1ff162ad88defe17c06f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 26/44] fix: introspection of references to the data types,
 which are not records

---
 hiku/introspection/graphql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index b91d452..10c4d66 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -73,6 +73,10 @@ class TypeIdent(AbstractTypeVisitor):
         return ident.of_type if isinstance(ident, NON_NULL) else ident
 
     def visit_typeref(self, obj):
+        data_type = self._graph.data_types.get(obj.__type_name__)
+        if data_type is not None and not isinstance(data_type, RecordMeta):
+            # only records are listed as types in the schema
+            return self.visit(data_type)
         if self._input_mode:
             assert obj.__type_name__ in self._graph.data_types, \
                 obj.__type_name__
-- 
2.43.0


From bd6fd08ebc5779f85b82bf762abb4c565cc99ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 27/44] fix: all types from the introspection schema can be
 found by name

---
 hiku/introspection/graphql.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 10c4d66..11c1b89 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -149,10 +149,12 @@ def schema_link(schema):
 
 def type_link(schema, options):
     name = options['name']
-    if name in _nodes_map(schema):
-        return OBJECT(name)
-    else:
-        return Nothing
+    for ident in root_schema_types(schema):
+        type_name = ('IO{}'.format(ident.name)
+                     if isinstance(ident, INPUT_OBJECT) else ident.name)
+        if type_name == name:
+            return ident
+    return Nothing
 
 
 @listify
-- 
2.43.0


From cbd72833430fc301c702b60b24adb98fc3dd4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 28/44] fix: infinite recursion on access to the attributes of
 the TypeDoc

---
 hiku/typedef/kinko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/typedef/kinko.py b/hiku/typedef/kinko.py
index 02c3c6e..beafbc4 100644
--- a/hiku/typedef/kinko.py
+++ b/hiku/typedef/kinko.py
@@ -23,7 +23,7 @@ class TypeDoc:
         self.__type_description__ = description
 
     def __getattr__(self, name):
-        return getattr(self.__type, name)
+        return getattr(self.__type__, name)
 
 
 class GraphTypesEx(GraphTypes):
-- 
2.43.0


From 0fc02b7fd5eee52647ed00c2133e3c5dfd602a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 29/44] fix: do not ignore incomplete elements at the end of
 the EDN text

---
 hiku/edn.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 4f51c0c..d4f068f 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -318,10 +318,17 @@ def loads(s, tag_handlers=None):
         raise TypeError('The EDN value must be "str", not {!r}'
                         .format(type(s).__name__))
     lst = []
-    target = parser(appender(lst), dict(tag_handlers or (), **TAG_HANDLERS))
+    target = parser(appender(lst), dict(tag_handlers or (), **TAG_HANDLERS),
+                    stop='')
     for c in s:
         target.send(c)
-    target.send(' ')
+    target.send('\n')
+    try:
+        target.send('')  # end of the text
+    except StopIteration:
+        pass
+    else:
+        raise ValueError("Unexpected end of the edn string", s)
     if len(lst) != 1:
         raise ValueError("Expected exactly one top-level element "
                          "in edn string", s)
-- 
2.43.0


From 82158ad724d2b0be852dabef31c4287313d73e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 30/44] fix: delimiters after the minus and dot symbols in the
 EDN text

---
 hiku/edn.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index d4f068f..e3a37f2 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -216,6 +216,19 @@ def symbol_handler(s):
             s += c
 
 
+@coroutine
+def sign_handler(s):
+    c = (yield)
+    if c.isdigit():  # .5 should be an error
+        handler = number_handler(s + c)
+        value = None
+    else:
+        handler = symbol_handler(s)
+        value = handler.send(c)
+    while 1:
+        value = handler.send((yield value))
+
+
 @coroutine
 def parser(target, tag_handlers, stop=None, single=False):
     handler = None
@@ -277,11 +290,7 @@ def parser(target, tag_handlers, stop=None, single=False):
         elif c in '0123456789':
             handler = number_handler(c)
         elif c in '-.':
-            c2 = (yield)
-            if c2.isdigit():  # .5 should be an error
-                handler = number_handler(c + c2)
-            else:
-                handler = symbol_handler(c + c2)
+            handler = sign_handler(c)
         elif c.isalpha() or c == ':':
             handler = symbol_handler(c)
         elif c in '[({#':
-- 
2.43.0


From 57e3584fad25001e234bd5f54c7b0bfcccae39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:49 +0000
Subject: [PATCH 31/44] fix: introspection of graphs whose root is given in
 several parts

---
 hiku/introspection/graphql.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 11c1b89..9e0dd7a 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -653,15 +653,12 @@ class GraphQLIntrospection(GraphTransformer):
         node.fields.append(self.__type_name__(obj.name))
         return node
 
-    def visit_root(self, obj):
-        root = super(GraphQLIntrospection, self).visit_root(obj)
-        root.fields.append(self.__type_name__(QUERY_ROOT_NAME))
-        return root
-
     def visit_graph(self, obj):
         ValidateGraph.validate(obj)
         introspection_graph = self.__introspection_graph__()
         items = [self.visit(node) for node in obj.items]
+        # once, even if fields of the root are given in several parts
+        items.append(Root([self.__type_name__(QUERY_ROOT_NAME)]))
         items.extend(introspection_graph.items)
         return Graph(items, data_types=obj.data_types)
 
-- 
2.43.0


From de89af25b8e31c362cd2ffd01225011fc181d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:22 +0000
Subject: [PATCH 32/44] fix: options of fields which are not options were
 reported as an internal error

---
 hiku/validate/graph.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index 6c079dc..6be0f0f 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -38,6 +38,7 @@ class GraphValidator(GraphVisitor):
     _name_formatter = _NameFormatter()
     _graph_accept_types = (AbstractNode,)
     _node_accept_types = (AbstractField, AbstractLink)
+    _field_accept_types = (AbstractOption,)
     _link_accept_types = (AbstractOption,)
 
     def __init__(self, items):
@@ -82,6 +83,19 @@ class GraphValidator(GraphVisitor):
         # TODO: check option default value according to the option type
         pass
 
+    def visit_field(self, obj):
+        invalid = [f for f in obj.options
+                   if not isinstance(f, self._field_accept_types)]
+        if invalid:
+            self.errors.report(
+                'Invalid types provided as field "{}" options: {}'
+                .format(self._format_path(obj), self._format_types(invalid))
+            )
+            return
+
+        with self.push_ctx(obj):
+            super(GraphValidator, self).visit_field(obj)
+
     def visit_link(self, obj):
         invalid = [f for f in obj.options
                    if not isinstance(f, self._link_accept_types)]
-- 
2.43.0


From 43532d0b8248889643e95e550af102e056089ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 33/44] fix: SQL links without a target lead to nothing

A row with a null in the target column of LinkQuery was used as a link
to an object with the identifier None.
---
 hiku/sources/sqlalchemy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hiku/sources/sqlalchemy.py b/hiku/sources/sqlalchemy.py
index d3c53fa..d33343f 100644
--- a/hiku/sources/sqlalchemy.py
+++ b/hiku/sources/sqlalchemy.py
@@ -84,7 +84,8 @@ class FieldsQuery:
 
 
 def _to_maybe_mapper(pairs, values):
-    mapping = dict(pairs)
+    mapping = {from_value: to_value for from_value, to_value in pairs
+               if to_value is not None}
     return [mapping.get(value, Nothing) for value in values]
 
 
@@ -96,7 +97,8 @@ def _to_one_mapper(pairs, values):
 def _to_many_mapper(pairs, values):
     mapping = defaultdict(list)
     for from_value, to_value in pairs:
-        mapping[from_value].append(to_value)
+        if to_value is not None:
+            mapping[from_value].append(to_value)
     return [mapping[value] for value in values]
 
 
-- 
2.43.0


From 59dabd438fa91ebbd2f4194f5bb16df110a58388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 34/44] fix: fields without types are not listed because of
 their descriptions

A field without a type was omitted in the type listing, unless it had a
description.
---
 hiku/typedef/kinko.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hiku/typedef/kinko.py b/hiku/typedef/kinko.py
index beafbc4..9cf41d7 100644
--- a/hiku/typedef/kinko.py
+++ b/hiku/typedef/kinko.py
@@ -30,7 +30,11 @@ class GraphTypesEx(GraphTypes):
 
     def visit(self, obj):
         t = super(GraphTypesEx, self).visit(obj)
-        if isinstance(t, GenericMeta) and obj.description is not None:
+        if (
+            isinstance(t, GenericMeta)
+            and t is not Any
+            and obj.description is not None
+        ):
             t = TypeDoc(t, obj.description)
         return t
 
-- 
2.43.0


From f09112f7c232b773f300e07ebaf62c34dd538b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 35/44] fix: options with keys of different types could not be
 compared

A query like [(:a {:o {1 2 "x" 3}})] could not be read at all.
---
 hiku/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 60e708a..d588563 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -56,8 +56,8 @@ def _freeze(obj):
     # hashes: hash(-1) == hash(-2), and equal values can have different types:
     # 1 == True
     if isinstance(obj, dict):
-        return (obj.__class__, tuple((_freeze(k), _freeze(v))
-                                     for k, v in sorted(obj.items())))
+        return (obj.__class__, frozenset((_freeze(k), _freeze(v))
+                                         for k, v in obj.items()))
     elif isinstance(obj, (list, tuple)):
         return (obj.__class__, tuple(_freeze(i) for i in obj))
     else:
-- 
2.43.0


From eadd62b196f615b609cd4ae4cf7df2ac7ef19d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 36/44] fix: sets of equal values of different types in options
 shared one result

#{1} and #{true} are different values of an option.
---
 hiku/query.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hiku/query.py b/hiku/query.py
index d588563..0ef18e5 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -60,6 +60,8 @@ def _freeze(obj):
                                          for k, v in obj.items()))
     elif isinstance(obj, (list, tuple)):
         return (obj.__class__, tuple(_freeze(i) for i in obj))
+    elif isinstance(obj, (set, frozenset)):
+        return (obj.__class__, frozenset(_freeze(i) for i in obj))
     else:
         return (obj.__class__, obj)
 
-- 
2.43.0


From 27ca9ca12a7c0848e88582eeb07dccac198737b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:54 +0000
Subject: [PATCH 37/44] fix: comparing types with != always failed

cls.__eq__ of a class is not the method of its metaclass.
---
 hiku/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/types.py b/hiku/types.py
index 47c63b0..1a40c87 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -12,7 +12,7 @@ class GenericMeta(type):
                 and cls.__dict__ == other.__dict__)
 
     def __ne__(cls, other):
-        return not cls.__eq__(other)
+        return not cls == other
 
     def accept(cls, visitor):
         raise NotImplementedError(type(cls))
-- 
2.43.0


From 0d37581582563a36fd9981818178beceff98e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:28 +0000
Subject: [PATCH 38/44] fix: options of fields required by links were not
 filled with defaults

A field which is required by a link was computed without defaults for its
options, so a resolver was called without options, which are always provided
when the same field is requested by a query.
---
 hiku/engine.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 309a766..8512968 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -27,6 +27,16 @@ def _get_options(graph_obj, query_obj):
     return dict(_yield_options(graph_obj, query_obj))
 
 
+def _required_field(node, link):
+    graph_obj = node.fields_map[link.requires]
+    query_obj = hiku_query.Field(link.requires)
+    if graph_obj.options:
+        # options of this field can not be provided, only defaults are possible
+        return query_obj.copy(options=_get_options(graph_obj, query_obj))
+    else:
+        return query_obj
+
+
 class InitOptions(hiku_query.QueryTransformer):
 
     def __init__(self, graph, node=None):
@@ -81,7 +91,7 @@ class SplitQuery(hiku_query.QueryVisitor):
         graph_obj = self._node.fields_map[obj.name]
         if isinstance(graph_obj, Link):
             if graph_obj.requires:
-                self.visit(hiku_query.Field(graph_obj.requires))
+                self.visit(_required_field(self._node, graph_obj))
             self._links.append((graph_obj, obj))
         else:
             assert isinstance(graph_obj, Field), type(graph_obj)
@@ -123,7 +133,7 @@ class GroupQuery(hiku_query.QueryVisitor):
             self.visit_field(obj)
             return
         if graph_obj.requires:
-            self.visit(hiku_query.Field(graph_obj.requires))
+            self.visit(_required_field(self._node, graph_obj))
         self._groups.append((graph_obj, obj))
         self._funcs.append(graph_obj.func)
         self._current_func = None
@@ -173,12 +183,13 @@ def store_fields(index, node, query_fields, ids, query_result):
 
 
 def link_reqs(index, node, link, ids):
+    key = _required_field(node, link).index_key
     if node.name is not None:
         assert ids is not None
         node_idx = index[node.name]
-        return [node_idx[i][link.requires] for i in ids]
+        return [node_idx[i][key] for i in ids]
     else:
-        return index.root[link.requires]
+        return index.root[key]
 
 
 def link_ref_maybe(graph_link, ident):
-- 
2.43.0


From 808a491deeb08837b3b7c20a68f21d5775324e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 39/44] fix: denormalization of references to the data types,
 which are not records

A complex field of type TypeRef['Items'], where data type 'Items' is
Sequence[TypeRef['Item']], was accepted by validation and was executed, but
its result was impossible to denormalize.
---
 hiku/denormalize/base.py    | 13 ++++++++++++-
 hiku/denormalize/graphql.py |  6 ++++--
 hiku/types.py               |  7 +++----
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 2499a9c..978e02b 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -6,6 +6,16 @@ from ..types import RecordMeta
 from ..result import Proxy
 
 
+def get_type_ref(types, type_):
+    """Follows references to the data types, which are not records"""
+    while isinstance(type_, TypeRefMeta):
+        ref_type = types[type_.__type_name__]
+        if isinstance(ref_type, RecordMeta):
+            break
+        type_ = ref_type
+    return type_
+
+
 class Denormalize(QueryVisitor):
 
     def __init__(self, graph, result):
@@ -31,7 +41,8 @@ class Denormalize(QueryVisitor):
         self._res[-1][obj.result_key] = self._get_data(obj)
 
     def visit_link(self, obj: Link):
-        type_ = self._type[-1].__field_types__[obj.name]
+        type_ = get_type_ref(self._types,
+                             self._type[-1].__field_types__[obj.name])
         if isinstance(type_, (TypeRefMeta, RecordMeta)):
             self._type.append(get_type(self._types, type_))
             self._res.append({})
diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index e72a478..6973ea9 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -3,7 +3,7 @@ from collections import deque
 from ..query import Field, Link
 from ..types import TypeRefMeta, SequenceMeta, OptionalMeta, RecordMeta
 
-from .base import Denormalize
+from .base import Denormalize, get_type_ref
 
 
 class DenormalizeGraphQL(Denormalize):
@@ -19,7 +19,8 @@ class DenormalizeGraphQL(Denormalize):
             super().visit_field(obj)
 
     def visit_link(self, obj: Link):
-        type_ = self._type[-1].__field_types__[obj.name]
+        type_ = get_type_ref(self._types,
+                             self._type[-1].__field_types__[obj.name])
         if isinstance(type_, (TypeRefMeta, RecordMeta)):
             type_ref = type_
         elif isinstance(type_, SequenceMeta):
@@ -28,6 +29,7 @@ class DenormalizeGraphQL(Denormalize):
             type_ref = type_.__type__
         else:
             raise AssertionError(repr(type_))
+        type_ref = get_type_ref(self._types, type_ref)
         # inline Record type has no name
         self._type_name.append(getattr(type_ref, '__type_name__', None))
         super().visit_link(obj)
diff --git a/hiku/types.py b/hiku/types.py
index 1a40c87..d2dc659 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -292,7 +292,6 @@ class TypeVisitor(AbstractTypeVisitor):
 
 
 def get_type(types, t):
-    if isinstance(t, TypeRefMeta):
-        return types[t.__type_name__]
-    else:
-        return t
+    while isinstance(t, TypeRefMeta):
+        t = types[t.__type_name__]
+    return t
-- 
2.43.0


From f22865fa70be58baa5154a406c825f0923bdd8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:16 +0000
Subject: [PATCH 40/44] fix: immutable dictionaries could be changed using |=

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index e3a37f2..a333e3c 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -20,7 +20,7 @@ class ImmutableDict(dict):
         raise TypeError("{} object is immutable"
                         .format(self.__class__.__name__))
 
-    __delitem__ = __setitem__ = _immutable
+    __delitem__ = __setitem__ = __ior__ = _immutable
     clear = pop = popitem = setdefault = update = _immutable
 
 
-- 
2.43.0


From 5383fff700af3422e6a3bb2942e4e3d4b2cfee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:05 +0000
Subject: [PATCH 41/44] fix: fields without declared options receive no options

---
 hiku/engine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 8512968..6df7243 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -45,10 +45,8 @@ class InitOptions(hiku_query.QueryTransformer):
 
     def visit_field(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
-        if graph_obj.options:
-            return obj.copy(options=_get_options(graph_obj, obj))
-        else:
-            return obj
+        options = _get_options(graph_obj, obj) if graph_obj.options else None
+        return obj.copy(options=options)
 
     def visit_link(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
-- 
2.43.0


From 38a3251f165ac152af346c583a801ac722153beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:02 +0000
Subject: [PATCH 42/44] fix: decimals are read back from EDN as decimals

---
 hiku/edn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index a333e3c..37a96e8 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -2,7 +2,7 @@
 Based on the code from https://github.com/gns24/pydatomic project
 """
 from uuid import UUID
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 from datetime import datetime
 from itertools import chain
 from json.encoder import encode_basestring, encode_basestring_ascii
@@ -181,7 +181,12 @@ def character_handler():
 
 
 def parse_number(s):
-    s = s.rstrip('MN').upper()
+    if s.endswith('M'):
+        try:
+            return Decimal(s[:-1])
+        except InvalidOperation:
+            raise ValueError('Invalid number in edn: {}'.format(s))
+    s = s.rstrip('N').upper()
     if 'E' not in s and '.' not in s:
         return int(s)
     return float(s)
-- 
2.43.0


From 8723bb8ac04df5fb72d9439c7598d37cc512e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:02 +0000
Subject: [PATCH 43/44] fix: instants before the year 1000 are printed with
 four digits

---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 37a96e8..f524464 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -417,7 +417,7 @@ def _iterencode(obj, default, encoder):
     elif isinstance(obj, datetime):
         # FIXME: proper RFC-3339 encoding
         assert not obj.tzinfo
-        yield obj.strftime('#inst "%Y-%m-%dT%H:%M:%S.%fZ"')
+        yield '#inst "{}Z"'.format(obj.isoformat(timespec='microseconds'))
     elif isinstance(obj, UUID):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
-- 
2.43.0


From 1a55136f4283c73fda0af2102e49e408728a54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:14 +0000
Subject: [PATCH 44/44] fix: refuse wrong requests of __typename in the GraphQL
 endpoint

---
 hiku/endpoint/graphql.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 5d9641c..29fc595 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -4,7 +4,7 @@ from asyncio import gather
 from graphql.error import GraphQLSyntaxError
 
 from ..graph import apply
-from ..query import QueryTransformer
+from ..query import QueryTransformer, Field
 from ..validate.query import validate
 from ..readers.graphql import read_operation, OperationType
 from ..denormalize.graphql import DenormalizeGraphQL
@@ -27,9 +27,23 @@ class GraphQLError(Exception):
 
 class _StripQuery(QueryTransformer):
 
+    def __init__(self):
+        self.errors = []
+
     def visit_node(self, obj):
-        return obj.copy(fields=[self.visit(f) for f in obj.fields
-                                if f.name != '__typename'])
+        type_names, fields = [], []
+        for f in obj.fields:
+            # link with such name is left to be refused by the validation
+            is_type_name = isinstance(f, Field) and f.name == '__typename'
+            (type_names if is_type_name else fields).append(f)
+
+        if any(f.options for f in type_names):
+            self.errors.append('Options are not expected for "__typename"')
+        keys = {f.result_key for f in type_names}
+        for key in sorted(keys.intersection(f.result_key for f in fields)):
+            self.errors.append('Found distinct fields with the same '
+                               'resulting name "{}"'.format(key))
+        return obj.copy(fields=[self.visit(f) for f in fields])
 
 
 def _switch_graph(data, query_graph, mutation_graph=None):
@@ -54,8 +68,9 @@ def _switch_graph(data, query_graph, mutation_graph=None):
 
 
 def _process_query(graph, query):
-    stripped_query = _StripQuery().visit(query)
-    errors = validate(graph, stripped_query)
+    strip_query = _StripQuery()
+    stripped_query = strip_query.visit(query)
+    errors = strip_query.errors + validate(graph, stripped_query)
     if errors:
         raise GraphQLError(errors=errors)
     else:
-- 
2.43.0

