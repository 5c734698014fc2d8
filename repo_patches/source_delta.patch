From 8817a51f67008359be53ac1c0ba06eae98406cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/52] fix: rendering without imports no longer drops them
 from later renderings

get_strs_all_nodes_unformatted was cached ignoring its arguments, so that
to_string(include_imports=False) made every later to_string()/to_file() of the
same tree lose its imports (and the other way around).
---
 lazy_type_hint/data_type_tree/data_type_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..fb37cdb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,7 +206,6 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
-- 
2.43.0


From fa0ec053114fc597df9a97fae096f2cad0205aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 02/52] fix: TypedDict fields refer to the alias that is
 actually declared

The name of the child alias was camel-cased once more when referenced, so that
a class_name such as my_class produced references to undefined names.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b8f19af..b6a3a1e 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -265,8 +265,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 if not value.permission_to_be_created_as_type_alias:
                     content[key] = value.get_str_top_node_without_lvalue()
                 else:
-                    name = self._to_camel_case(value.name)
-                    content[key] = name
+                    content[key] = value.name
                 if key in self.dict_metadata.key_info:
                     if not self.dict_metadata.key_info[key].required:
                         self.imports.add("NotRequired")
-- 
2.43.0


From 82172eee1da6bbef6dfcead9d06ecdcaf6f71dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 03/52] fix: different structures never share one alias name

Names derived from keys and types can coincide (keys such as "a b" and "aB",
non-string keys, keys without letters, an alias renamed to <Name>List next to a
key "list", ...). The later declaration silently replaced the earlier one.
Names already taken by another declaration, the root or an import get a number.
---
 .../data_type_tree/data_type_tree.py          | 22 ++++++++++++++-----
 lazy_type_hint/utils/import_manager.py        |  5 +++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index fb37cdb..6067654 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -10,6 +10,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
     Mapping,
@@ -211,7 +212,8 @@ class DataTypeTree(ABC):
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
         strings: OrderedSet[str] = OrderedSet()
-        self._get_strs_all_nodes_unformatted(types=strings)
+        declarations: Dict[str, str] = dict.fromkeys((*self.imports.importable_names, self.name), "")
+        self._get_strs_all_nodes_unformatted(types=strings, declarations=declarations)
         strings_lst = strings.as_list()
         if not strings_lst:
             raise DataTypeTreeError("No type hints could be built")
@@ -243,10 +245,7 @@ class DataTypeTree(ABC):
         return declaration, old_name
 
     @final
-    def _get_strs_all_nodes_unformatted(self, *, types: Optional[OrderedSet[str]] = None) -> None:
-        if types is None:
-            types = OrderedSet()
-
+    def _get_strs_all_nodes_unformatted(self, *, types: OrderedSet[str], declarations: Dict[str, str]) -> None:
         if self.depth == 0 and not self.children:
             if self.permission_to_be_created_as_type_alias:
                 types.add(self.get_str_top_node())
@@ -255,13 +254,24 @@ class DataTypeTree(ABC):
             return
 
         for child in self:
-            child._get_strs_all_nodes_unformatted(types=types)
+            child._get_strs_all_nodes_unformatted(types=types, declarations=declarations)
             if child.permission_to_be_created_as_type_alias:
+                child._make_name_unique(declarations)
                 types.add(child.get_str_top_node())
         if self.permission_to_be_created_as_type_alias:
             types.add(self.get_str_top_node())
         return
 
+    @final
+    def _make_name_unique(self, declarations: Dict[str, str]) -> None:
+        """Append a number to the name of this node if that name already belongs to a different declaration."""
+        original_name = self.name
+        count = 2
+        while declarations.get(self.name, self.get_str_top_node()) != self.get_str_top_node():
+            self.name = f"{original_name}{count}"
+            count += 1
+        declarations[self.name] = self.get_str_top_node()
+
     @final
     def _format_node_strings(self, strs_py: Sequence[str]) -> str:
         """Get the string representation of the type hints that represent the whole tree."""
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..17706f1 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -88,6 +88,11 @@ class ImportManager:
         self._set.add(keyword)
         return self
 
+    @property
+    def importable_names(self) -> Tuple[str, ...]:
+        """Names that the import statements might bind."""
+        return (*(reference[-1] for reference in self.PACKAGE.values()), "pd", "np")
+
     def import_all_unkown_symbols_from_signature(self, signature: str) -> None:
         """
         Imports all unknown symbols from the given signature.
-- 
2.43.0


From 04ed5ace375e663268f4248034233e937f7fc4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 04/52] fix: alias names derived from keys are always valid
 identifiers

isalpha/isnumeric accept characters (such as the superscript two) that Python
does not allow in identifiers, and identifiers that only differ before
normalization were treated as different names.
---
 .../data_type_tree/generic_type/mapping_data_type_tree.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..4b8cd30 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,4 +1,5 @@
 import re
+import unicodedata
 from collections import defaultdict
 from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
 
@@ -93,6 +94,10 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @staticmethod
     def _to_camel_case(string: str) -> str:
         """Make it camel case and compatible with Python keywords."""
+        # Characters that cannot be part of an identifier (such as `²`) act as separators
+        string = "".join(char if f"_{char}".isidentifier() else " " for char in string)
+        string = unicodedata.normalize("NFKC", string)  # As Python does with identifiers
+
         # Remove any initial number within the string
         match = re.match(r"^\d+", string)
         if match:
@@ -120,7 +125,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
             new_string[0] = new_string[0].upper()
         except IndexError:
             return string
-        return "".join(new_string)
+        return unicodedata.normalize("NFKC", "".join(new_string))
 
     @override
     def _get_hash(self) -> Hashable:
-- 
2.43.0


From 466aa5e43079dfff94f76182c2e42a09f3600b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/52] fix: accept as names exactly the identifiers Python
 accepts

Keywords and names with characters such as the superscript two were accepted and
produced modules that do not compile; names made of underscores were rejected.
---
 lazy_type_hint/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..fc62f8b 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -17,7 +18,7 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
+    return string.isidentifier() and not keyword.iskeyword(string)
 
 
 def compare_ast(
-- 
2.43.0


From eeba13e0109c3f976e0fd102610f46a90b493525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 06/52] fix: TypedDict keys keep their exact text

Quotes, backslashes and control characters were not escaped in the functional
syntax, and keys that Python would normalize or mangle (such as __private) were
declared with the class syntax under another name.
---
 .../generic_type/dict_data_type_tree.py             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b6a3a1e..7a4cc7a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,4 +1,6 @@
+import json
 import keyword
+import unicodedata
 from collections import defaultdict
 from dataclasses import dataclass, field
 from itertools import islice
@@ -128,7 +130,13 @@ class DictMetadata:
     @cache_returned_value_per_instance
     def _all_keys_are_parsable(self) -> bool:
         if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
-            return all(is_string_python_keyword_compatible(key) for key in self._data)
+            return all(
+                is_string_python_keyword_compatible(key)
+                and unicodedata.normalize("NFKC", key) == key  # Python normalizes identifiers
+                # Python mangles these names within a class
+                and (not key.startswith("__") or key.endswith("__") or key.startswith(self.hidden_key_prefix))
+                for key in self._data
+            )
         return False
 
     def update(self, other: "DictMetadata") -> Mapping[Hashable, object]:
@@ -327,7 +335,8 @@ class DictDataTypeTree(MappingDataTypeTree):
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
             if self.dict_metadata.is_functional_syntax:
-                modified_line += lines[idx_to_repeat].format(key=key, value=value) + "\n"
+                escaped_key = json.dumps(key, ensure_ascii=False)[1:-1]
+                modified_line += lines[idx_to_repeat].format(key=escaped_key, value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
-- 
2.43.0


From dbbd03ad6dbd0b4c2099fc0225741e00f688cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 07/52] fix: docstrings can hold backslashes and triple quotes

Such texts (Windows paths, for example) produced modules that do not compile.
---
 lazy_type_hint/utils/docstring_formatter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 77abf9d..19cdf32 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -49,6 +49,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     string = string.rstrip("\n")
     if not string.endswith("."):
         string += "."
+    string = string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').replace("\0", "\\x00")
     docstring = '"""' + string + '"""'
     if len(docstring) <= max_line_length and "\n" not in docstring:
         return indentation + docstring
-- 
2.43.0


From 66f4b682221101ef0bde029152dc9844b6acef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:02 +0000
Subject: [PATCH 08/52] fix: structures of different kinds are no longer
 considered equal

The comparison of nodes ignored the kind of nested containers (list, set,
frozenset), the class held by class objects, which keys are required and the
columns' types of data frames, and compared only hashes. Values that looked equal
were hinted with the type of the first one.
---
 lazy_type_hint/data_type_tree/data_type_tree.py             | 4 ++--
 .../data_type_tree/generic_type/dict_data_type_tree.py      | 5 +++--
 .../data_type_tree/generic_type/generic_data_type_tree.py   | 2 +-
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 4 ++--
 .../generic_type/pandas_data_frame_data_type_tree.py        | 4 ++--
 .../generic_type/pandas_series_data_type_tree.py            | 2 +-
 .../data_type_tree/generic_type/sequence_data_type_tree.py  | 2 +-
 .../data_type_tree/generic_type/set_data_type_tree.py       | 2 +-
 .../data_type_tree/generic_type/tuple_data_type_tree.py     | 2 +-
 .../simple_data_type_tree/simple_data_type_tree.py          | 2 +-
 .../simple_data_type_tree/type_data_type_tree.py            | 6 +++++-
 11 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 6067654..afc97de 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -326,8 +326,8 @@ class DataTypeTree(ABC):
 
     @final
     def __eq__(self, other_object: object) -> bool:
-        if type(self) is type(other_object):
-            return hash(self) == hash(other_object)
+        if isinstance(other_object, DataTypeTree) and type(self) is type(other_object):
+            return self._get_hash() == other_object._get_hash()
         return False
 
     @final
diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 7a4cc7a..27428a0 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -373,8 +373,9 @@ class DictDataTypeTree(MappingDataTypeTree):
             return super()._get_hash()
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("typed_dict", name, child._get_hash()))
-        return frozenset(hashes)
+            required = name not in self.dict_metadata.key_info or self.dict_metadata.key_info[name].required
+            hashes.append(("typed_dict", name, required, child._get_hash()))
+        return ("TypedDict", frozenset(hashes))
 
     @staticmethod
     def compare_multiple_typed_dicts_based_trees(*trees: "DictDataTypeTree") -> DictMetadataComparison:
diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index dcd9132..eda011a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -82,4 +82,4 @@ class GenericDataTypeTree(DataTypeTree):
         hashes: List[object] = []
         for child in self:
             hashes.append(child._get_hash())
-        return tuple(hashes)
+        return (type(self).__name__, tuple(hashes))
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 4b8cd30..c6c3696 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -131,8 +131,8 @@ class MappingDataTypeTree(GenericDataTypeTree):
     def _get_hash(self) -> Hashable:
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("mapping", hash(type(name)), child._get_hash()))
-        return frozenset(hashes)
+            hashes.append(("mapping", type(name), child._get_hash()))
+        return (type(self).__name__, frozenset(hashes))
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index c8df6e1..15def8f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -162,10 +162,10 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         return children
 
     @override
-    def _get_hash(self) -> str:
+    def _get_hash(self) -> Hashable:
         if self.strategies.pandas_strategies == "Do not type hint columns":
             return "pd.DataFrame"
-        return str(self.data.columns)
+        return ("pd.DataFrame", frozenset((type(key), key, child._get_hash()) for key, child in self.children.items()))
 
     @override
     def _get_str_top_node(self) -> str:
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..669a050 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -33,7 +33,7 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return (type(self).__name__, frozenset(hashes))
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..fb8fb49 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -25,7 +25,7 @@ class SequenceDataTypeTree(GenericDataTypeTree):
         hashes: List[object] = []
         for child in self:
             hashes.append(child._get_hash())
-        return frozenset(hashes)
+        return (type(self).__name__, frozenset(hashes))
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..edaf9d5 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -38,7 +38,7 @@ class SetDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return (type(self).__name__, self.holding_type is frozenset, frozenset(hashes))
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index 650423a..7f0db28 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -52,4 +52,4 @@ class TupleDataTypeTree(SequenceDataTypeTree):
             hashes: List[object] = []
             for child in self:
                 hashes.append(child._get_hash())
-            return tuple(hashes)
+            return (type(self).__name__, tuple(hashes))
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py
index e85b00d..8e4423f 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/simple_data_type_tree.py
@@ -27,7 +27,7 @@ class SimpleDataTypeTree(DataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        return id(self.holding_type)
+        return self.holding_type
 
     @final
     @override
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 896a04b..04d1879 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -1,5 +1,5 @@
 import builtins
-from typing import Type
+from typing import Hashable, Type
 
 from typing_extensions import override
 
@@ -17,6 +17,10 @@ class TypeDataTypeTree(SimpleDataTypeTree):
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return (super()._get_hash(), self.data)
+
     def is_builtin_class(self) -> bool:
         try:
             cls = getattr(builtins, self.data.__name__)
-- 
2.43.0


From 3ac65fd4c2afc62d957671821f2e249677c0adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 09/52] fix: the order of the generated type aliases is
 reproducible

Children of lists and sets were kept in a set ordered by memory addresses and
hash seeds, so that the same data gave different text from one process to the
next and LazyTypeHintLive validations failed at random.
---
 .../set_and_sequence_operations.py            | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..dfc1000 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -15,7 +15,6 @@ from typing import (
     Set,
     Tuple,
     Union,
-    cast,
 )
 
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
@@ -37,10 +36,7 @@ class SetAndSequenceOperations:
 
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
-        if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
-        else:
-            children = set()
+        children: List[DataTypeTree] = []  # Order matters so that the result is reproducible
         names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
 
         child: DataTypeTree
@@ -67,18 +63,16 @@ class SetAndSequenceOperations:
             )
             if allow_repeated_children:
                 # Tuple case
-                children = cast("List[DataTypeTree]", children)
                 if child in names_added:
                     child.rename(names_added[child])
                 children.append(child)
                 names_added[child] = child.name
             else:
                 # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
-                if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                if child in names_added and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     self._update_existing_typed_dict_child_from_another_equal_child(children, child)
-                if child not in children:
-                    children.add(child)
+                if child not in names_added:
+                    children.append(child)
                     names_added[child] = name
 
         return self._merge_similar_typed_dicts(
@@ -131,12 +125,12 @@ class SetAndSequenceOperations:
                     children[idx] = merged_child
             return tuple(children)
         else:
-            children = cast("Set[DataTypeTree]", children)
-            for child in children.copy():
+            other_children: List[DataTypeTree] = []
+            for child in children:
                 if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children.remove(child)
                     dict_data_type_trees.append(child)
+                else:
+                    other_children.append(child)
 
             merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
-            return tuple(children)
+            return (*other_children, merged_child)
-- 
2.43.0


From 90f46b4c57a16cc8b19c55afe6263422b36f6818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 10/52] fix: merging dictionaries with int and float values
 does not depend on their order

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 27428a0..12e7961 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -105,6 +105,8 @@ class DictMetadata:
         for dct in dicts_metadata:
             for key, value in dct._data.items():
                 value_type = type(value)
+                if value_type == int and float in value_types[key]:
+                    continue
                 if value_type == float and int in value_types[key]:
                     value_types[key].remove(int)
                 value_types[key].add(type(value))
@@ -402,7 +404,10 @@ class DictDataTypeTree(MappingDataTypeTree):
         """
         merged_dict: Dict[Hashable, object] = {}
         for d in (tree.data for tree in trees):
-            merged_dict.update(d)
+            for key, value in d.items():
+                if type(merged_dict.get(key)) is float and type(value) is int:
+                    continue  # `float` also covers `int`
+                merged_dict[key] = value
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
-- 
2.43.0


From 2f44b8942183438247ce59191b057fe0b49ecc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 11/52] fix: dictionaries whose values differ in their inner
 types are not merged

Only the outermost type of the values was compared, so that {"a": [1]} and
{"a": ["x"]} were merged into one TypedDict with the type of the last one.
---
 .../generic_type/dict_data_type_tree.py             | 13 +++++++++++++
 .../generic_type/set_and_sequence_operations.py     |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 12e7961..a9f7383 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -393,6 +393,19 @@ class DictDataTypeTree(MappingDataTypeTree):
         ]
         return DictMetadata.compare_multiple_dicts(*dicts_metadata)
 
+    @staticmethod
+    def corresponding_values_are_equal(*trees: "DataTypeTree") -> bool:
+        """Check that, in all the given `TypedDict` based trees, the values of the same key have the same inner types."""
+        children: Dict[Hashable, DataTypeTree] = {}
+        for tree in trees:
+            if not (isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict):
+                continue
+            for key, child in tree.children.items():
+                other = children.setdefault(key, child)
+                if child != other and not {child.holding_type, other.holding_type} <= {int, float}:
+                    return False
+        return True
+
     @classmethod
     def from_multiple_dict_data_type_trees(cls, *trees: "DictDataTypeTree") -> "Self":
         """
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index dfc1000..05af2bd 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -112,6 +112,8 @@ class SetAndSequenceOperations:
             return tuple(children)
         if not comparison.all_corresponding_value_types_are_same_type:
             return tuple(children)
+        if not DictDataTypeTree.corresponding_values_are_equal(*children):
+            return tuple(children)
 
         dict_data_type_trees: List[DictDataTypeTree] = []
         if allow_repeated_children:
-- 
2.43.0


From 4cb02affb3799ea9ee3f5d46c3f1014cf9c94183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 12/52] fix: arrays are hinted with an existing numpy type and
 compared by it

The dtype's name is not always an attribute of numpy (np.<U3, np.datetime64[ns],
np.object), and arrays of different dtypes were considered equal.
---
 .../simple_data_type_tree/numpy_data_type_tree.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index 633682c..89f59db 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -1,3 +1,5 @@
+from typing import Hashable
+
 import numpy as np
 from numpy.typing import NDArray
 from typing_extensions import override
@@ -12,4 +14,8 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
-        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype}]"'
+        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype.type.__name__}]"'
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return (super()._get_hash(), self.data.dtype.type)
-- 
2.43.0


From 0780a971b27ff2a68f66b36d40ab5c6191b20896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 13/52] fix: built-in functions, generators and coroutines are
 supported as callables

Functions without available source raised TypeError/OSError, class method objects
raised TypeError, and generator functions and coroutines without return annotation
were hinted as returning None.
---
 .../function_data_type_tree.py                    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..2c0dc62 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -31,7 +31,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         try:
             inspect.signature(self.data)
             return True
-        except ValueError:
+        except (ValueError, TypeError):
             return False
 
     def _get_str_top_node(self) -> str:
@@ -48,7 +48,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.import_all_unkown_symbols_from_signature(args)
 
         if "->" not in args:
-            if not self._has_return():
+            if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
             self.imports.add("Any")
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
@@ -76,9 +76,12 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-        code = textwrap.dedent(inspect.getsource(self.data))
         try:
-            tree = ast.parse(code)
-        except:  # noqa: E722
-            return None
+            tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
+        except Exception:  # noqa: BLE001
+            return None  # There is no source available (built-in functions) or it cannot be parsed
+        if any(isinstance(node, (ast.Yield, ast.YieldFrom)) for node in ast.walk(tree)):
+            return True
+        if isinstance(tree.body[0], ast.AsyncFunctionDef):
+            return True
         return any(isinstance(node, ast.Return) for node in ast.walk(tree))
-- 
2.43.0


From d0e70967dcbac9e44282fa7301f74d3245d7052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:58 +0000
Subject: [PATCH 14/52] fix: signatures of callables are valid in the generated
 module

Names within generic annotations were not imported, annotations with the user's
own classes and non-literal default values produced modules that do not compile or
import, and functions only differing in what they return were considered equal.
---
 .../function_data_type_tree.py                | 56 +++++++++++++++++--
 lazy_type_hint/utils/import_manager.py        | 22 ++------
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 2c0dc62..655ec4e 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -1,7 +1,9 @@
 import ast
+import builtins
 import inspect
+import re
 import textwrap
-from inspect import Parameter
+from inspect import Parameter, Signature
 from types import BuiltinFunctionType, FunctionType, MappingProxyType, MethodType
 from typing import Any, Callable, Hashable, Optional
 
@@ -11,6 +13,16 @@ from lazy_type_hint.data_type_tree.simple_data_type_tree.simple_data_type_tree i
 from lazy_type_hint.utils import TAB
 
 
+class _Verbatim:
+    """Default value or annotation that is printed as the given text."""
+
+    def __init__(self, text: str) -> None:
+        self.text = text
+
+    def __repr__(self) -> str:
+        return self.text
+
+
 class FunctionDataTypeTree(SimpleDataTypeTree):
     wraps = (FunctionType, staticmethod, classmethod, BuiltinFunctionType, MethodType)
     data: Callable[[Any], Any]
@@ -43,17 +55,53 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         return self._get_protocol_str()
 
     def _get_protocol_str(self) -> str:
-        args = str(inspect.signature(self.data))
+        args = str(self._get_printable_signature())
         self.imports.add("Protocol")
         self.imports.import_all_unkown_symbols_from_signature(args)
 
-        if "->" not in args:
+        if inspect.signature(self.data).return_annotation is Signature.empty:
             if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
             self.imports.add("Any")
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
         return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
 
+    def _get_printable_signature(self) -> Signature:
+        """Get the signature of the function such that its representation is valid within another module.
+
+        Default values that are not literals are represented by `...` and annotations that require names that
+        are not available there are quoted.
+        """
+        signature = inspect.signature(self.data)
+        params = [
+            param.replace(
+                default=self._get_printable_default(param.default), annotation=self._get_printable(param.annotation)
+            )
+            for param in signature.parameters.values()
+        ]
+        return signature.replace(
+            parameters=params, return_annotation=self._get_printable(signature.return_annotation)
+        )
+
+    @staticmethod
+    def _get_printable_default(default: object) -> object:
+        if default is Parameter.empty:
+            return default
+        try:
+            ast.literal_eval(repr(default))
+        except Exception:  # noqa: BLE001
+            return _Verbatim("...")
+        return default
+
+    def _get_printable(self, annotation: object) -> object:
+        if annotation is Parameter.empty or isinstance(annotation, str):
+            return annotation
+        string = re.sub(r"\bNoneType\b", "None", inspect.formatannotation(annotation))
+        available_names = {*dir(builtins), *self.imports.importable_names}
+        if set(re.findall(r"[^\W\d]\w*", string)) <= available_names:
+            return _Verbatim(string)
+        return string
+
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
         return signature.parameters
@@ -72,7 +120,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data))
+                return (str(self._get_printable_signature()), self._has_return() is False)
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 17706f1..a11ddc2 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,7 +1,7 @@
 import re
 from collections import defaultdict
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Optional, Sequence, Set, Tuple
+from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Sequence, Set, Tuple
 
 from typing_extensions import TypeGuard
 
@@ -100,29 +100,15 @@ class ImportManager:
         Args:
             signature (str): The signature containing type hints.
         """
-        hints = re.findall(r":\s*([^\s,]+)", signature)
-        for hint in hints:
-            hint_ = str(hint).strip().rstrip().replace("):", "")
-            self._import_symbols(hint_)
-
-        pattern = r"->\s*([^\s,]+|$)"
-        re_output = re.search(pattern, signature)
-        return_value: Optional[str] = None
-        if re_output:
-            return_value = re_output.group(1).rstrip(":")
-            self._import_symbols(return_value)
-
-    def _import_symbols(self, symbol: str) -> None:
-        """Import all unknown symbols. Including those belonging to generic type hints."""
-        symbols = re.findall(r"\b\w+\b", symbol)
-        for symbol in symbols:
+        # Everything but the names of the parameters: hints might be generic and have commas within them
+        for symbol in re.findall(r"\b\w+\b(?!\s*:)", signature):
             symbol = self._cast_symbol(symbol)
             if self._is_importable_symbol(symbol):
                 self.add(symbol)
 
     @staticmethod
     def _cast_symbol(symbol: str) -> str:
-        if symbol in ("List", "Tuple", "Set", "Dict"):
+        if symbol in ("List", "Tuple", "Set", "Dict", "Type"):
             return symbol.lower()
         return symbol
 
-- 
2.43.0


From 93f8c47cb1c2cb76ef4ad36b4919e044d5427e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 15/52] fix: the strategy 'Do not type hint columns' is
 honoured

It was never taken into account because the option is never falsy.
---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 15def8f..fac6baa 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -141,6 +141,8 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _instantiate_children(self, data: pd.DataFrame) -> Mapping[Hashable, DataTypeTree]:
         children: Dict[Hashable, DataTypeTree] = {}
+        if self.strategies.pandas_strategies == "Do not type hint columns":
+            return {}
         if not self.are_all_columns_literal_compatible:
             return {}
 
@@ -170,7 +172,7 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("pandas")
-        if len(self) == 0 or not self.strategies.pandas_strategies:
+        if len(self) == 0:
             self.imports.add("TypeAlias")
             return f"{self.name}: TypeAlias = pd.DataFrame"
         self.imports.add("overload")
-- 
2.43.0


From 4df999943139b7efc0fbc58d0cfe899a54d04cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 16/52] fix: dictionary keys that are None or instances of
 custom classes

A None key ended the iteration over the values of a dictionary, and the names of
NoneType and of custom classes were used as if they were always available.
---
 .../generic_type/generic_data_type_tree.py          | 13 ++++++++++++-
 .../generic_type/mapping_data_type_tree.py          |  6 +-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index eda011a..32fc398 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,3 +1,4 @@
+import builtins
 from abc import abstractmethod
 from typing import (
     Hashable,
@@ -5,6 +6,7 @@ from typing import (
     List,
     Sequence,
     Tuple,
+    Type,
     final,
 )
 
@@ -59,7 +61,7 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = [type(element).__name__ for element in iterable]
+            child_types = [self._get_name_of_type(type(element)) for element in iterable]
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
@@ -77,6 +79,15 @@ class GenericDataTypeTree(DataTypeTree):
             return tuple(sorted(child_types_set))
         return tuple(child_types)
 
+    @staticmethod
+    def _get_name_of_type(type_: Type[object]) -> str:
+        """Get the name of a type such that it is valid within another module."""
+        if type_ is type(None):
+            return "None"
+        if isinstance(getattr(builtins, type_.__name__, None), type):
+            return type_.__name__
+        return f'"{type_.__name__}"'
+
     @override
     def _get_hash(self) -> Hashable:
         hashes: List[object] = []
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index c6c3696..ff466b7 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -141,8 +141,4 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+        return self.children[next(self._iterator)]
-- 
2.43.0


From 32b9cddfb9b5b9f83ee8830899206618e6bcf82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 17/52] fix: live instances work on the current interface file

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..4b67a6c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -71,6 +71,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
+        self._load_this_file_pyi()
+
+    @final
+    def _load_this_file_pyi(self) -> None:
+        """Load the `.pyi` interface, that might have been modified or removed by other instances."""
         if not self._this_file_pyi_path.exists():
             self.this_file_pyi = self._generate_this_file_pyi()
         else:
@@ -120,6 +125,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
+        self._load_this_file_pyi()
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
-- 
2.43.0


From 94f008c0602a5180f6ad8d2041d82a30f943a28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 18/52] fix: docstrings of any shape are ignored when
 validating existing type hints

---
 .../generators/lazy_type_hint_live.py         | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 4b67a6c..1b4038d 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,3 +1,4 @@
+import ast
 import os
 import re
 import shutil
@@ -152,13 +153,20 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
-            return string
-
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+        """Remove all docstrings and formatting, so that only the type hints are kept."""
+        tree = ast.parse(string)
+        for node in ast.walk(tree):
+            if isinstance(node, (ast.Module, ast.ClassDef)):
+                node.body = [
+                    statement
+                    for statement in node.body
+                    if not (
+                        isinstance(statement, ast.Expr)
+                        and isinstance(statement.value, ast.Constant)
+                        and isinstance(statement.value.value, str)
+                    )
+                ]
+        return ast.dump(tree)
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From 4553e7c640b6c47865d15e1ca60d1fca101429f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:03 +0000
Subject: [PATCH 19/52] fix: generated modules are written as UTF-8

---
 lazy_type_hint/generators/lazy_type_hint.py      | 2 +-
 lazy_type_hint/generators/lazy_type_hint_abc.py  | 2 +-
 lazy_type_hint/generators/lazy_type_hint_live.py | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 0e3e295..2caa569 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -39,7 +39,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHint(LazyTypeHintABC):
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index b143cf5..8192c4d 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -41,7 +41,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHintABC(ABC):
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 1b4038d..2d528be 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -178,7 +178,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-        content = Path(__file__).read_text()
+        content = Path(__file__).read_text(encoding="utf-8")
 
         file_handler = PyFileModifier(content)
         file_handler.remove_all_method_bodies()
@@ -191,7 +191,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             os.makedirs(self._custom_class_dir_path)
 
         path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string)
+        path.write_text(string, encoding="utf-8")
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -262,4 +262,4 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi))
+        self._this_file_pyi_path.write_text(str(self.this_file_pyi), encoding="utf-8")
-- 
2.43.0


From 0ef1091b79cbb2b64da1c794e2e30387cd712c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:14 +0000
Subject: [PATCH 20/52] fix: comments in YAML files change nothing but
 docstrings

The comments are read from the text of the file, which is not always possible:
whenever the content changes, or the text cannot be read, they are ignored.
The temporary file no longer overwrites another one, and the live generator
returns the content of the file and not the comments.
---
 .../file_modifiers/yaml_file_modifier.py      |  9 ++---
 .../generators/lazy_type_hint_abc.py          | 35 ++++++++++++++++---
 .../generators/lazy_type_hint_live.py         |  3 +-
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..f131135 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -80,7 +80,7 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text().splitlines())
+        self.lines = tuple(Path(path).read_text(encoding="utf-8").splitlines())
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
@@ -426,6 +426,7 @@ class YamlFileModifier:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        path = Path(tempfile.gettempdir()) / f"_{self.path.name}"
-        path.write_text(string)
-        return path
+        file_descriptor, path = tempfile.mkstemp(suffix=f"_{self.path.name}")
+        with open(file_descriptor, mode="w", encoding="utf-8") as file:
+            file.write(string)
+        return Path(path)
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 8192c4d..956cfb1 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -66,15 +66,42 @@ class LazyTypeHintABC(ABC):
     ) -> Any:
         if comments_are is None:
             return self.from_data(loader(path), class_name=class_name)
-        yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
         original_data = loader(path)
         try:
-            new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            potentially_modified_data = loader(new_path)
-            return self.from_data(potentially_modified_data, class_name=class_name)
+            yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
+        except UnicodeDecodeError:  # Only the loader knows how to read this file
+            return self.from_data(original_data, class_name=class_name)
+        try:
+            data = self._load_yaml_file_with_comments_as_keys(loader, path, yaml_file_modifier=yaml_file_modifier)
+            if repr(self._remove_hidden_keys(data)) != repr(original_data):
+                data = original_data
+            return self.from_data(data, class_name=class_name)
         except Exception:  # noqa: BLE001
             return self.from_data(original_data, class_name=class_name)
 
+    @staticmethod
+    def _load_yaml_file_with_comments_as_keys(
+        loader: Callable[[PathT], object], path: PathT, *, yaml_file_modifier: YamlFileModifier
+    ) -> object:
+        temporary_path = yaml_file_modifier.create_temporary_file_with_comments_as_keys()
+        try:
+            return loader(type(path)(temporary_path))
+        finally:
+            os.remove(temporary_path)
+
+    @staticmethod
+    def _remove_hidden_keys(data: object) -> object:
+        """Remove the keys that hold comments."""
+        if isinstance(data, dict):
+            return {
+                key: LazyTypeHintABC._remove_hidden_keys(value)
+                for key, value in data.items()
+                if not (isinstance(key, str) and key.startswith(YamlFileModifier.prefix))
+            }
+        if isinstance(data, list):
+            return [LazyTypeHintABC._remove_hidden_keys(element) for element in data]
+        return data
+
     def from_data(
         self,
         data: object,
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 2d528be..fb84f5b 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -113,7 +113,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)
+        return loader(path)
 
     @override
     def from_data(
-- 
2.43.0


From 69c316cfcbac5712f74494ef0d931a3bec1f26b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 21/52] fix: YAML comments do not count as inspected elements
 of a dictionary

---
 .../data_type_tree/generic_type/dict_data_type_tree.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index a9f7383..c4ad56c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -237,11 +237,15 @@ class DictDataTypeTree(MappingDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
         if self.strategies.dict_strategy != "TypedDict" and check_n_max:
-            self.data = dict(islice(self.data.items(), check_n_max))
+            visible_items = (item for item in self.data.items() if not self._is_hidden_key(item[0]))
+            self.data = dict(islice(visible_items, check_n_max))
         self.dict_metadata = DictMetadata(
             self.data, hidden_key_prefix=self.hidden_keys_prefix, strategies=self.strategies
         )
 
+    def _is_hidden_key(self, key: Hashable) -> bool:
+        return isinstance(key, str) and key.startswith(self.hidden_keys_prefix)
+
     @override
     def _get_str_top_node(self) -> str:
         if self.dict_metadata.is_typed_dict:
-- 
2.43.0


From 935f6acf36853fbda6ec78168e838000f6c975a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 22/52] fix: an element limit of 0 is rejected

---
 lazy_type_hint/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index f518eaa..fb3ba99 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -39,5 +39,5 @@ class ParsingStrategies:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
-        if self.check_max_n_elements_within_container and self.check_max_n_elements_within_container <= 0:
+        if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
             raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
-- 
2.43.0


From 45dd102c21dbb21576d8323c1434b227f524253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 23/52] fix: merging dictionaries depends on the types of their
 values, not on their order

---
 .../data_type_tree/generic_type/set_and_sequence_operations.py  | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 05af2bd..2493599 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -110,8 +110,6 @@ class SetAndSequenceOperations:
         comparison = DictDataTypeTree.compare_multiple_typed_dicts_based_trees(*children)
         if comparison.percentage_similarity < merge_if_similarity_above:
             return tuple(children)
-        if not comparison.all_corresponding_value_types_are_same_type:
-            return tuple(children)
         if not DictDataTypeTree.corresponding_values_are_equal(*children):
             return tuple(children)
 
-- 
2.43.0


From 61744b29d90012d398d6494c0003f440a7cb5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 24/52] fix: files are not hinted (and consumed) as iterators

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index afc97de..0f372c8 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -107,10 +107,13 @@ class DataTypeTree(ABC):
         if type(data) in DataTypeTree.subclasses:
             return DataTypeTree.subclasses[type(data)]
 
-        for subclass in DataTypeTree.subclasses.values():
-            for wrap in subclass.wraps:
-                if isinstance(data, wrap):
-                    return subclass
+        # The most specific one: files are also iterators, for example
+        most_specific: Optional[Type[object]] = None
+        for wrap in DataTypeTree.subclasses:
+            if isinstance(data, wrap) and (most_specific is None or issubclass(wrap, most_specific)):
+                most_specific = wrap
+        if most_specific is not None:
+            return DataTypeTree.subclasses[most_specific]
         return DataTypeTree.subclasses[int]  # For instances created from any custom class.
 
     def _check_tree_is_correct_one(self, data: object) -> None:
-- 
2.43.0


From b939fd1f5d0a8e5fd5f5c20aacebd3588b92ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 25/52] fix: unique alias names also for structures declared
 after their children

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 0f372c8..dfc9c6e 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -262,6 +262,8 @@ class DataTypeTree(ABC):
                 child._make_name_unique(declarations)
                 types.add(child.get_str_top_node())
         if self.permission_to_be_created_as_type_alias:
+            if self.parent is not None:
+                self._make_name_unique(declarations)
             types.add(self.get_str_top_node())
         return
 
-- 
2.43.0


From a6bcaf381e2cefb04ae8c8a514d887b0ce9fdad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 26/52] fix: iterators within merged dictionaries keep their
 element types

---
 .../generic_type/dict_data_type_tree.py             | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index c4ad56c..f6fd431 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -452,4 +452,17 @@ class DictDataTypeTree(MappingDataTypeTree):
             parent=trees[0].parent,
         )
         new_tree.dict_metadata = random_tree.dict_metadata
+        new_tree._recover_consumed_children(*trees)
         return new_tree
+
+    def _recover_consumed_children(self, *trees: "DictDataTypeTree") -> None:
+        """Replace the children whose data (iterators) was consumed when the given trees were created."""
+        children = dict(self.children)
+        for tree in trees:
+            for key, original in tree.children.items():
+                child = children[key]
+                if child != original and not {child.holding_type, original.holding_type} <= {int, float}:
+                    original.rename(child.name)
+                    children[key] = original
+        self.children = children
+        self.height = self._get_height()
-- 
2.43.0


From f5f9e3cceee79094986e582fa590d6674a1da168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:21 +0000
Subject: [PATCH 27/52] fix: the similarity of dictionaries is exact

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index f6fd431..e281245 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -46,7 +46,7 @@ class DictMetadataComparison:
         total_keys = len(self.common_keys) + len(self.non_common_keys)
         if total_keys == 0:
             return 0
-        return int(100 * (len(self.common_keys) / total_keys))
+        return 100 * len(self.common_keys) // total_keys
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
-- 
2.43.0


From 17ec4872f4f6f6218e1d39679ba5ee508b903734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 28/52] fix: __debug__ is rejected as a name

---
 lazy_type_hint/utils/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index fc62f8b..b15b307 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -2,6 +2,7 @@ import ast
 import keyword
 import os
 import subprocess
+import unicodedata
 from itertools import zip_longest
 from typing import Any, Final, List, Protocol, TypeVar, Union, cast
 
@@ -18,7 +19,11 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return string.isidentifier() and not keyword.iskeyword(string)
+    return (
+        string.isidentifier()
+        and not keyword.iskeyword(string)
+        and unicodedata.normalize("NFKC", string) != "__debug__"  # The only identifier that cannot be assigned
+    )
 
 
 def compare_ast(
-- 
2.43.0


From 07e69a23e0ec9463c844c392315a4ba0332195b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 29/52] fix: equal tuple elements share their type alias

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index dfc9c6e..b038c12 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -344,7 +344,8 @@ class DataTypeTree(ABC):
     def _rename(self, new_name: str, *, len_old_name: int) -> None:
         """Rename the current node and all its subsequent children."""
         if self.children:
-            for child in self:
+            # The same child can be shared by different keys
+            for child in {id(child): child for child in self}.values():
                 child._rename(new_name=new_name, len_old_name=len_old_name)
         if self.parent is not None:
             self.name = new_name + self.name[len_old_name:]
-- 
2.43.0


From 965ccda725a2d76005816edcd12d586bf88288f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 30/52] fix: side comments after values that hold quotes or #

---
 .../file_modifiers/yaml_file_modifier.py      | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index f131135..f23d20c 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -157,19 +157,34 @@ class YamlFileModifier:
         Example:
             yaml_key: value  # My comment
         """
-        idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line, "#")
+        idx = YamlFileModifier._find_start_of_side_comment(line)
         if not idx:
             return ""
-        try:
-            if line[idx - 1] != " ":
-                return ""
-        except IndexError:
-            return ""
         comment = line[idx + 1 :].strip().rstrip()
         if comment and not comment.endswith("."):
             return comment + "."
         return comment
 
+    @staticmethod
+    def _find_start_of_side_comment(line: str) -> Optional[int]:
+        """
+        Finds the `#` that starts a comment.
+
+        This one is preceded by a space and it does not belong to a quoted string.
+        """
+        quoted_string = re.compile(r"""'(?:[^']|'')*'|"(?:[^"\\]|\\.)*\"""")
+        idx = 0
+        while idx < len(line):
+            if line[idx] == "#" and line[idx - 1] == " ":
+                return idx
+            match = quoted_string.match(line, idx)
+            before = line[:idx].split() if match else []
+            if match and (not before or before[-1].endswith((*":,[{-?",)) or before[-1].startswith(("&", "!"))):
+                idx = match.end()
+            else:
+                idx += 1
+        return None
+
     def _extract_single_block_comment(self, line_idx: int, *, comments_are: Literal["above", "below"]) -> str:
         """
         Extracts a single block comment from the specified line index.
-- 
2.43.0


From cc0fc9dbc5049a31f46a6dc79a683d67c9e2b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 31/52] fix: the end of a YAML file does not document its first
 key

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index f23d20c..26a593d 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -217,7 +217,7 @@ class YamlFileModifier:
         increment = step
         multi_line_comments: List[str] = []
         with suppress(IndexError):
-            while self.lines[line_idx + increment][idx_first_char] == "#":
+            while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From c289ad479665595087d47b686b4e82d4a63ffbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 32/52] fix: comments of keys that are several spaces away from
 their dash

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 26a593d..713eecf 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -425,9 +425,12 @@ class YamlFileModifier:
         new_lines = list(self.lines).copy()
         for comment in reverse_order_comments:
             key = self.prefix + comment.associated_with_key
-            string = f"{comment.spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
+            spacing = comment.spacing
             if comment.must_replace_its_key_as_first_element_of_list:
-                new_lines[comment.key_line] = new_lines[comment.key_line].replace("-", " ", 1)
+                line = new_lines[comment.key_line]
+                new_lines[comment.key_line] = " " * len(spacing) + line[len(spacing) :]
+                spacing = line[: len(spacing)]
+            string = f"{spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
             new_lines.insert(comment.key_line, string)
         return "\n".join(new_lines)
 
-- 
2.43.0


From d846c3a1a7be2d7aa11aaa52fa5318310bcfdad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:07 +0000
Subject: [PATCH 33/52] fix: side comments of a YAML key do not document the
 neighbouring key

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 713eecf..2f1c8ff 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -218,6 +218,8 @@ class YamlFileModifier:
         multi_line_comments: List[str] = []
         with suppress(IndexError):
             while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
+                if self.lines[line_idx + increment][:idx_first_char].strip():
+                    break  # Side comment of another key
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From 57984cd0a4a8057d8e42173648828c0b0d35cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 34/52] fix: comments of YAML files without any space

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 2f1c8ff..0e10730 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -301,10 +301,7 @@ class YamlFileModifier:
             return "??"
         elif tabs_used:
             return "tabs"
-        elif spaces_used:
-            return "spaces"
-        else:
-            return "??"
+        return "spaces"
 
     @staticmethod
     def _count_spaces_or_tabs_at_start(line: str, *, indentation: Literal["spaces", "tabs"]) -> Optional[int]:
-- 
2.43.0


From 7a36b19043ac4853534dd5dcb58974b306133a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:53 +0000
Subject: [PATCH 35/52] fix: list elements without keys do not turn the YAML
 comments off

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 0e10730..8bc7702 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -348,7 +348,10 @@ class YamlFileModifier:
                 if spaces_or_tabs is None:
                     continue
 
-                key = self._extract_key_from_line(line)
+                line_without_comment = line[: self._find_start_of_side_comment(line)].rstrip()
+                if not re.search(r":(\s|$)", line_without_comment):
+                    continue
+                key = self._extract_key_from_line(line_without_comment)
                 if not key:
                     continue
 
-- 
2.43.0


From 8eccbb9527be805e477764fa577a90b73f244bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 36/52] fix: multi-line strings do not turn the YAML comments
 off

---
 .../file_modifiers/yaml_file_modifier.py      | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 8bc7702..a9ab7a8 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -80,7 +80,9 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text(encoding="utf-8").splitlines())
+        text = Path(path).read_text(encoding="utf-8")
+        self.lines = tuple(text.splitlines())
+        self._end_of_file = "\n" if text.endswith("\n") else ""
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
@@ -326,6 +328,23 @@ class YamlFileModifier:
             return len(spaces_tabs)
         return 0
 
+    def _get_block_scalar_indentation(self, line: str) -> Optional[int]:
+        """
+        Detects the start of a multi-line string.
+
+        Returns the indentation that all its lines exceed, or None if no multi-line string starts in the given line.
+
+        Example:
+            key: |
+              These lines
+              are: text
+        """
+        line = line[: self._find_start_of_side_comment(line)].rstrip()
+        if not re.search(r"[:-]\s+([&!]\S*\s+)*[|>][-+0-9]*$", line):
+            return None
+        match = re.match(r"[\s-]*-(?=\s+([&!]\S*\s+)*[|>][-+0-9]*$)|[\s-]*", line)
+        return match.end() - 1 if match and match.group().endswith("-") else len(match.group()) if match else None
+
     def _extract_comments(self) -> Tuple[Comment, ...]:
         """
         Extracts comments associated with keys in the YAML file.
@@ -341,8 +360,14 @@ class YamlFileModifier:
         if indentation == "??":
             return ()
 
+        block_scalar_indentation: Optional[int] = None
         for idx, line in enumerate(self.lines):
             line_with_no_spacing = self._remove_spacing(line)
+            if block_scalar_indentation is not None:
+                if not line.strip() or len(line) - len(line.lstrip()) > block_scalar_indentation:
+                    continue  # Text of a multi-line string
+                block_scalar_indentation = None
+            block_scalar_indentation = self._get_block_scalar_indentation(line)
             if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] == "-"):
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
                 if spaces_or_tabs is None:
@@ -448,5 +473,5 @@ class YamlFileModifier:
         string = self._create_temporary_string_with_comments_as_keys()
         file_descriptor, path = tempfile.mkstemp(suffix=f"_{self.path.name}")
         with open(file_descriptor, mode="w", encoding="utf-8") as file:
-            file.write(string)
+            file.write(string + self._end_of_file)
         return Path(path)
-- 
2.43.0


From ed8eb9000f103d91cec46d817354088f4cc2b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 37/52] fix: classes named like something within the interface
 file resolve to their own class

---
 .../file_modifiers/py_file_modifier.py        | 19 +++++++++++++++++-
 .../generators/lazy_type_hint_live.py         | 20 ++++++++++++++-----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/py_file_modifier.py b/lazy_type_hint/file_modifiers/py_file_modifier.py
index dcdf2e9..784e51f 100644
--- a/lazy_type_hint/file_modifiers/py_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/py_file_modifier.py
@@ -1,6 +1,6 @@
 import ast
 from collections.abc import Sequence
-from typing import Any, List, Literal, Tuple, Union, overload
+from typing import Any, List, Literal, Set, Tuple, Union, overload
 
 from lazy_type_hint.utils import TAB
 
@@ -247,6 +247,23 @@ class PyFileModifier:
                 continue
             self.lines.pop(idx)
 
+    def get_used_names(self) -> Set[str]:
+        """
+        Retrieves all names that are defined or used in the file.
+
+        Returns:
+            Set[str]: Names of variables, functions, classes and imports.
+        """
+        names: Set[str] = set()
+        for node in ast.walk(ast.parse(str(self))):
+            if isinstance(node, ast.Name):
+                names.add(node.id)
+            elif isinstance(node, (ast.FunctionDef, ast.ClassDef)):
+                names.add(node.name)
+            elif isinstance(node, ast.alias):
+                names.add(node.asname or node.name)
+        return names
+
     def add_imports(self, lines: Union[str, Sequence[str]], *, in_type_checking_block: bool = False) -> None:
         """
         Adds import statements to the file.
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index fb84f5b..2c87f40 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -197,22 +197,32 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
         self._add_class_created_to_this_file_pyi(new_class)
-        self._add_import_to_this_file_pyi(new_class)
+        imported_name = self._add_import_to_this_file_pyi(new_class)
         for method_name in self._methods_to_be_overloaded:
-            self._add_overload_to_this_file_pyi(new_class=new_class, method_name=method_name)
+            self._add_overload_to_this_file_pyi(
+                new_class=new_class, method_name=method_name, returned_type=imported_name
+            )
 
     @final
-    def _add_import_to_this_file_pyi(self, new_class: str) -> None:
+    def _add_import_to_this_file_pyi(self, new_class: str) -> str:
+        """Import the new class and return the name under which it can be used within the `.pyi` interface."""
+        used_names = self.this_file_pyi.get_used_names()
+        imported_name = new_class
+        while imported_name in used_names:
+            imported_name = f"_{imported_name}"
         import_statement = f"from lazy_type_hint.generators.build.{new_class} import {new_class}"
+        if imported_name != new_class:
+            import_statement += f" as {imported_name}"
         self.this_file_pyi.add_imports(
             import_statement,
             in_type_checking_block=False,
         )
         self._update_this_file_pyi()
+        return imported_name
 
     @final
     def _add_overload_to_this_file_pyi(
-        self, *, new_class: str, method_name: str, input_argument: str = "class_name"
+        self, *, new_class: str, method_name: str, returned_type: str, input_argument: str = "class_name"
     ) -> None:
         # First time the function is called it will attach an extra @overload decorator
         if not self.this_file_pyi.search_decorator(decorator_name="overload", method_name=method_name):
@@ -238,7 +248,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         # Modifying returned value
         last_idx = signature.rfind(":")
         first_idx = signature.rfind("->")
-        signature = signature[: first_idx + len("->") + 1] + new_class + signature[last_idx:]
+        signature = signature[: first_idx + len("->") + 1] + returned_type + signature[last_idx:]
 
         idx = self.this_file_pyi.search_method(method_name=method_name, return_index_above_decorator=True)[-1]
         self.this_file_pyi.add_line(idx, signature)
-- 
2.43.0


From 143bb4646b3bffe8e9ab6a1e2815bf1fd506253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 38/52] fix: data frames with repeated column labels do not
 recurse forever

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index fac6baa..512718a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -146,7 +146,9 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         if not self.are_all_columns_literal_compatible:
             return {}
 
-        # Corner case to avoid infinite recursion
+        # Corner cases to avoid infinite recursion
+        if len(self.data.columns) > 1 and self.data.columns.nunique(dropna=False) == 1:
+            return {}
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
 
-- 
2.43.0


From ec4ebd4b91f6c920638d67c6d17d8e5233cbb8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 39/52] fix: annotations with forward references or type
 variables are valid in the generated module

---
 .../simple_data_type_tree/function_data_type_tree.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 655ec4e..ecee468 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -97,6 +97,8 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         if annotation is Parameter.empty or isinstance(annotation, str):
             return annotation
         string = re.sub(r"\bNoneType\b", "None", inspect.formatannotation(annotation))
+        string = re.sub(r"\bForwardRef\('([^']*)'\)", r"\1", string)
+        string = re.sub(r"(?<![\w'\"])[~+-](?=[^\W\d])", "", string)  # Type variables
         available_names = {*dir(builtins), *self.imports.importable_names}
         if set(re.findall(r"[^\W\d]\w*", string)) <= available_names:
             return _Verbatim(string)
-- 
2.43.0


From 42c2a8954a1bb74e35322bcde03b16750bbaacf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 40/52] fix: only returns of the function itself decide whether
 it returns something

---
 .../function_data_type_tree.py                     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index ecee468..da33707 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -130,8 +130,14 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
         except Exception:  # noqa: BLE001
             return None  # There is no source available (built-in functions) or it cannot be parsed
-        if any(isinstance(node, (ast.Yield, ast.YieldFrom)) for node in ast.walk(tree)):
+        function = tree.body[0]
+        if isinstance(function, ast.AsyncFunctionDef):
             return True
-        if isinstance(tree.body[0], ast.AsyncFunctionDef):
-            return True
-        return any(isinstance(node, ast.Return) for node in ast.walk(tree))
+        nodes = list(function.body) if isinstance(function, ast.FunctionDef) else [function]
+        while nodes:
+            node = nodes.pop()
+            if isinstance(node, (ast.Return, ast.Yield, ast.YieldFrom)):
+                return True
+            if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
+                nodes.extend(ast.iter_child_nodes(node))
+        return False
-- 
2.43.0


From c4f1cda13ab362002622acc58337f9eacf81a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:13 +0000
Subject: [PATCH 41/52] fix: show equal elements of a tuple alike whatever the
 order of their own elements

---
 .../generic_type/set_and_sequence_operations.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2493599..a6ae730 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -64,7 +64,11 @@ class SetAndSequenceOperations:
             if allow_repeated_children:
                 # Tuple case
                 if child in names_added:
-                    child.rename(names_added[child])
+                    equal_child = next(child_added for child_added in children if child_added == child)
+                    if self._holds_docstrings(child) or self._holds_docstrings(equal_child):
+                        child.rename(names_added[child])
+                    else:
+                        child = equal_child
                 children.append(child)
                 names_added[child] = child.name
             else:
@@ -81,6 +85,13 @@ class SetAndSequenceOperations:
             allow_repeated_children=allow_repeated_children,
         )
 
+    @classmethod
+    def _holds_docstrings(cls, data_type_tree: "DataTypeTree") -> bool:
+        """Check whether equal trees might still differ on the docstrings of their dictionaries."""
+        if isinstance(data_type_tree, DictDataTypeTree) and data_type_tree.dict_metadata.get_key_docstrings():
+            return True
+        return any(cls._holds_docstrings(child) for child in data_type_tree)
+
     def _update_existing_typed_dict_child_from_another_equal_child(
         self, children: "Iterable[DataTypeTree]", child: DictDataTypeTree
     ) -> None:
-- 
2.43.0


From e13746233b6e42ae57a51b1982746913a224c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:01 +0000
Subject: [PATCH 42/52] fix: comments of YAML keys that are quoted or start
 with an underscore

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index a9ab7a8..b610f75 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -368,7 +368,7 @@ class YamlFileModifier:
                     continue  # Text of a multi-line string
                 block_scalar_indentation = None
             block_scalar_indentation = self._get_block_scalar_indentation(line)
-            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] == "-"):
+            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] in "-_'\""):
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
-- 
2.43.0


From b6e5e02bfc6d9866d45708a46cb7f84e61f8d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 43/52] fix: interrupted or concurrent LazyTypeHintLive calls
 left incomplete files that made later calls fail

---
 .../generators/lazy_type_hint_live.py         | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 2c87f40..00329de 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -172,10 +172,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
-        if cls._custom_class_dir_path.exists():
-            shutil.rmtree(cls._custom_class_dir_path)
+        # The interface goes first: it must not mention classes whose source code was already removed
         if cls._this_file_pyi_path.exists():
             os.remove(cls._this_file_pyi_path)
+        if cls._custom_class_dir_path.exists():
+            shutil.rmtree(cls._custom_class_dir_path)
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
@@ -188,11 +189,15 @@ class LazyTypeHintLive(LazyTypeHintABC):
         return file_handler
 
     def _create_custom_class_py(self, string: str, class_name: str) -> None:
-        if not self._custom_class_dir_path.exists():
-            os.makedirs(self._custom_class_dir_path)
+        os.makedirs(self._custom_class_dir_path, exist_ok=True)
+        self._write_file(self._custom_class_dir_path / f"{class_name}.py", string)
 
-        path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string, encoding="utf-8")
+    @final
+    def _write_file(self, path: Path, content: str) -> None:
+        """Write a file in one go, so that it is never left (or seen by other processes) incomplete."""
+        temporary_path = self._custom_class_dir_path / f"{os.getpid()}.tmp"
+        temporary_path.write_text(content, encoding="utf-8")
+        os.replace(temporary_path, path)
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -202,6 +207,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             self._add_overload_to_this_file_pyi(
                 new_class=new_class, method_name=method_name, returned_type=imported_name
             )
+        self._update_this_file_pyi()
 
     @final
     def _add_import_to_this_file_pyi(self, new_class: str) -> str:
@@ -217,7 +223,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
             import_statement,
             in_type_checking_block=False,
         )
-        self._update_this_file_pyi()
         return imported_name
 
     @final
@@ -252,7 +257,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
         idx = self.this_file_pyi.search_method(method_name=method_name, return_index_above_decorator=True)[-1]
         self.this_file_pyi.add_line(idx, signature)
-        self._update_this_file_pyi()
 
     @final
     def _add_class_created_to_this_file_pyi(self, new_class: str) -> None:
@@ -269,8 +273,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             value = value.replace("], Any]", f', "{new_class}"], Any]')
 
         self.this_file_pyi.replace_assignement(label, value)
-        self._update_this_file_pyi()
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi), encoding="utf-8")
+        self._write_file(self._this_file_pyi_path, str(self.this_file_pyi))
-- 
2.43.0


From 276f2d5ff17ce137a4f3aa15f04c5995fd038155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:15 +0000
Subject: [PATCH 44/52] fix: comments of the first key of a list within a list

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index b610f75..e9b3361 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -268,8 +268,8 @@ class YamlFileModifier:
               key2: value
         """
         line = YamlFileModifier._remove_spacing(line)
-        if line[0] == "-":  # Detect list cases
-            line = " " + line[1:]
+        while line.startswith("-"):  # Detect list cases, that might be nested
+            line = line[1:].lstrip()
 
         idx_first_char = line.find(line.strip()[0])
         idx_last_char = YamlFileModifier._find_first_occurrence_that_is_not_between(line=line, occurrence=":")
-- 
2.43.0


From 15d7aca0cc5726264177803191efaddb2fc7a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:15 +0000
Subject: [PATCH 45/52] fix: instances of frozenset subclasses were hinted as
 Set

---
 .../data_type_tree/generic_type/set_data_type_tree.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index edaf9d5..b342828 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -26,7 +26,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        container: Literal["FrozenSet", "set"] = "FrozenSet" if self.holding_type is frozenset else "set"
+        container: Literal["FrozenSet", "set"] = "FrozenSet" if issubclass(self.holding_type, frozenset) else "set"
         self.imports.add(container).add("TypeAlias")
 
         if container == "FrozenSet":
@@ -38,7 +38,7 @@ class SetDataTypeTree(GenericDataTypeTree):
         hashes: Set[object] = set()
         for child in self:
             hashes.add(child._get_hash())
-        return (type(self).__name__, self.holding_type is frozenset, frozenset(hashes))
+        return (type(self).__name__, issubclass(self.holding_type, frozenset), frozenset(hashes))
 
     @override
     def __iter__(self) -> "Self":
-- 
2.43.0


From cc00d01242c28be1942eea3608b6dc19e30923aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:15 +0000
Subject: [PATCH 46/52] fix: a single TypedDict was built twice per level, so
 that nested data took exponential time

---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index e281245..dcbe59a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -419,6 +419,9 @@ class DictDataTypeTree(MappingDataTypeTree):
             - Update `data` that holds the dictionary
             - Override `DictMetadata` with new information relative to all new information
         """
+        if all(tree is trees[0] for tree in trees):
+            return trees[0]  # type: ignore  # Nothing to merge
+
         merged_dict: Dict[Hashable, object] = {}
         for d in (tree.data for tree in trees):
             for key, value in d.items():
-- 
2.43.0


From b435565e6c29f89cf8104f930174a55f3922f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:33 +0000
Subject: [PATCH 47/52] fix: merged TypedDicts were built again, so that nested
 lists of them took exponential time

---
 .../generic_type/dict_data_type_tree.py       | 30 +++++++++----------
 .../generic_type/mapping_data_type_tree.py    | 20 +++++++------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index dcbe59a..fbfea7c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -419,15 +419,15 @@ class DictDataTypeTree(MappingDataTypeTree):
             - Update `data` that holds the dictionary
             - Override `DictMetadata` with new information relative to all new information
         """
-        if all(tree is trees[0] for tree in trees):
-            return trees[0]  # type: ignore  # Nothing to merge
-
         merged_dict: Dict[Hashable, object] = {}
-        for d in (tree.data for tree in trees):
-            for key, value in d.items():
+        children: Dict[Hashable, DataTypeTree] = {}
+        for tree in trees:
+            for key, value in tree.data.items():
                 if type(merged_dict.get(key)) is float and type(value) is int:
                     continue  # `float` also covers `int`
                 merged_dict[key] = value
+                if key in tree.children:
+                    children[key] = tree.children[key]
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
@@ -447,25 +447,23 @@ class DictDataTypeTree(MappingDataTypeTree):
             shortest_name = min(shortest_name, tree.name)
 
         new_tree = cls(
-            data=merged_dict,
+            data={},
             name=shortest_name,
             imports=check_same(trees, param="imports"),
             depth=check_same(trees, param="depth"),
             strategies=check_same(trees, param="strategies"),
             parent=trees[0].parent,
         )
+        new_tree.data = merged_dict
         new_tree.dict_metadata = random_tree.dict_metadata
-        new_tree._recover_consumed_children(*trees)
+        new_tree._adopt_children(children)
         return new_tree
 
-    def _recover_consumed_children(self, *trees: "DictDataTypeTree") -> None:
-        """Replace the children whose data (iterators) was consumed when the given trees were created."""
-        children = dict(self.children)
-        for tree in trees:
-            for key, original in tree.children.items():
-                child = children[key]
-                if child != original and not {child.holding_type, original.holding_type} <= {int, float}:
-                    original.rename(child.name)
-                    children[key] = original
+    def _adopt_children(self, children: Dict[Hashable, DataTypeTree]) -> None:
+        """Use the children of other trees, that need not be created again, as the ones of this tree."""
+        for key, child in children.items():
+            child.parent = self
+            child.rename(self._get_name_of_child(key))
+        self._assign_same_data_type_tree_to_keys_with_same_value_type(children)
         self.children = children
         self.height = self._get_height()
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index ff466b7..54e8f7f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -22,34 +22,36 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @override
     def _instantiate_children(self, data: Mapping[Hashable, object]) -> Mapping[Hashable, DataTypeTree]:  # type: ignore
         children: Dict[Hashable, DataTypeTree] = {}
-        children_info: Dict[DataTypeTree, Set[Hashable]] = defaultdict(set)
-
         for key, value in data.items():
-            suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
             if isinstance(key, str) and key.startswith(self.hidden_keys_prefix):
                 continue
             child = data_type_tree_factory(
                 data=value,
-                name=f"{self.name}{suffix}",
+                name=self._get_name_of_child(key),
                 imports=self.imports,
                 depth=self.depth + 1,
                 strategies=self.strategies,
                 parent=self,
             )
-            children_info[child].add(key)
             children[key] = child
-        self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
+        self._assign_same_data_type_tree_to_keys_with_same_value_type(children)
         return children
 
-    def _assign_same_data_type_tree_to_keys_with_same_value_type(
-        self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, Set[Hashable]]
-    ) -> None:
+    def _get_name_of_child(self, key: Hashable) -> str:
+        suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
+        return f"{self.name}{suffix}"
+
+    def _assign_same_data_type_tree_to_keys_with_same_value_type(self, children: Dict[Hashable, DataTypeTree]) -> None:
         """
         Simplify the tree.
 
         Find all values sharing the same data type tree, create a unique one and use this new one to replace all same
         values.
         """
+        children_info: Dict[DataTypeTree, Set[Hashable]] = defaultdict(set)
+        for key, child in children.items():
+            children_info[child].add(key)
+
         last_name_added: Dict[Type[object], int] = {}
         for data_type_tree, values in children_info.items():
             if len(values) > 1:  # Perform replacement if some values were detected to be the same in terms of types
-- 
2.43.0


From 52c33d568cfd444e75d558951bef75ba8ab15273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:36 +0000
Subject: [PATCH 48/52] fix: keys and columns that are members of enumerations
 gave invalid modules

---
 .../generic_type/dict_data_type_tree.py             |  1 +
 .../pandas_data_frame_data_type_tree.py             | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index fbfea7c..fe58c83 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -345,6 +345,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 modified_line += lines[idx_to_repeat].format(key=escaped_key, value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
+                key = str.__str__(key)  # Members of enumerations might be formatted otherwise
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
                 if not docstring:
                     modified_line += "\n"
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 512718a..aac790c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -126,6 +126,13 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
                 return False
         return True
 
+    @staticmethod
+    def _get_literal(label: Union[str, int]) -> str:
+        """Get the label as it can be written within `Literal`, where members of enumerations stand for their value."""
+        if isinstance(label, str):
+            return str.__repr__(label)
+        return repr(label) if isinstance(label, bool) else int.__repr__(label)
+
     def _create_child(self, column: Hashable) -> DataTypeTree:
         suffix = self._to_camel_case(str(column))
         suffix = suffix if suffix else "WSpace"
@@ -191,16 +198,16 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         for literal, child in self.children.items():
             if isinstance(literal, self.literal_compatible_types):
                 if child.permission_to_be_created_as_type_alias:
-                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=repr(literal), rtype=child.name))
+                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=self._get_literal(literal), rtype=child.name))
                 else:
                     rtype = child.get_str_top_node_without_lvalue()
-                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=repr(literal), rtype=rtype))
+                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=self._get_literal(literal), rtype=rtype))
         if self.strategies.pandas_strategies == "Full type hint":
             literal_compatible_keys: List[str] = []
             extra_types = ""
             for key in self.children:
                 if isinstance(key, self.literal_compatible_types):
-                    literal_compatible_keys.append(repr(key))
+                    literal_compatible_keys.append(self._get_literal(key))
                 else:
                     self.imports.add("Hashable")
                     extra_types = ", Hashable"  # This can be more precise, but not supported yet
-- 
2.43.0


From 1e313eb30d01f984dc065abd0ad9c0115c24b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:04 +0000
Subject: [PATCH 49/52] fix: a tree that was rendered by several threads at
 once gave incomplete modules

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index b038c12..0960136 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -5,12 +5,14 @@ This data can then be parsed to a .py compatible file that will type hint your c
 from __future__ import annotations
 
 import re
+import threading
 from abc import ABC, abstractmethod
 from typing import (
     TYPE_CHECKING,
     Any,
     ClassVar,
     Dict,
+    Final,
     FrozenSet,
     Hashable,
     Mapping,
@@ -41,6 +43,8 @@ class DataTypeTreeError(Exception):
 
 
 DataTypeT = TypeVar("DataTypeT", bound=object)
+_rendering_lock: Final = threading.RLock()
+"""Trees keep state while they are iterated and named, so that they are rendered one after another."""
 ChildrenStructure = Union[FrozenSet[DataTypeT], Sequence[DataTypeT], Mapping[Hashable, DataTypeT]]
 """Different child structures that the Tree can hold."""
 
@@ -202,12 +206,12 @@ class DataTypeTree(ABC):
         self, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> str:
         """String that represents the .py file created from the tree."""
-        return self._format_node_strings(
-            self.get_strs_all_nodes_unformatted(
+        with _rendering_lock:
+            strings = self.get_strs_all_nodes_unformatted(
                 include_imports=include_imports,
                 make_parent_class_inherit_from_original_type=make_parent_class_inherit_from_original_type,
             )
-        )
+        return self._format_node_strings(strings)
 
     @final
     def get_strs_all_nodes_unformatted(
-- 
2.43.0


From f08e3cb30325f5815c54edb74f771448c4fec224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:22 +0000
Subject: [PATCH 50/52] fix: LazyTypeHintLive used by several threads mixed up
 its files

---
 .../generators/lazy_type_hint_live.py         | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 00329de..412df98 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -2,6 +2,7 @@ import ast
 import os
 import re
 import shutil
+import threading
 from pathlib import Path
 from typing import (
     Any,
@@ -62,6 +63,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
     """Path to the .pyi file associated to this same module."""
     _custom_class_dir_path: Final = _this_file_pyi_path.parent / "build"
     """Path where the new classes will be generated.c"""
+    _files_lock: Final = threading.RLock()
+    """The files are updated by one thread after another."""
 
     @final
     def __init__(
@@ -72,7 +75,8 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
-        self._load_this_file_pyi()
+        with self._files_lock:
+            self._load_this_file_pyi()
 
     @final
     def _load_this_file_pyi(self) -> None:
@@ -127,13 +131,18 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
+        string_representation = cast(
+            DataTypeTree, super().from_data(data=data, class_name=class_name)
+        ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
+        with self._files_lock:
+            self._update_files(string_representation, class_name)
+        return data
+
+    def _update_files(self, string_representation: str, class_name: str) -> None:
         self._load_this_file_pyi()
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
-            string_representation = cast(
-                DataTypeTree, super().from_data(data=data, class_name=class_name)
-            ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
             if self._remove_docstrings(string_representation) != self._remove_docstrings(
                 custom_class_file_path.read_text(encoding="utf-8")
             ):
@@ -141,16 +150,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
                     f"Error in validation: Existing type hints were found for `{class_name}` and this one does not "
                     "match the inner structure of the input data given."
                 )
-        else:
-            string_representation = cast(
-                DataTypeTree, super().from_data(data=data, class_name=class_name)
-            ).get_str_all_nodes(make_parent_class_inherit_from_original_type=False)
 
         self._create_custom_class_py(string_representation, class_name)
         if class_name in self._get_classes_added():
-            return data
+            return
         self._add_new_class_to_loader_pyi(new_class=class_name)
-        return data
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
@@ -172,6 +176,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
+        with cls._files_lock:
+            cls._remove_files()
+
+    @classmethod
+    def _remove_files(cls) -> None:
         # The interface goes first: it must not mention classes whose source code was already removed
         if cls._this_file_pyi_path.exists():
             os.remove(cls._this_file_pyi_path)
-- 
2.43.0


From 10a33abf1b36c86fa098ab983d6876aff3404527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:01 +0000
Subject: [PATCH 51/52] fix: to_file failed if the directory was there once the
 missing ones were created

---
 lazy_type_hint/generators/lazy_type_hint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 2caa569..d71f846 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -38,7 +38,7 @@ class Tree:
                     "The given directory does not exist and permissions to create the folder "
                     "(create_non_existing_dir input argument) were not set"
                 )
-            os.makedirs(path_to_py.parent)
+            os.makedirs(path_to_py.parent, exist_ok=True)
         path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
-- 
2.43.0


From 779006aaf6a69e286dc3cdb106d79d08f9caf7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:14 +0000
Subject: [PATCH 52/52] fix: build the ellipsis of function bodies without the
 deprecated ast.Ellipsis

Where warnings are errors, the deprecation of ast.Ellipsis (Python 3.8) made every
call of LazyTypeHintLive fail.
---
 lazy_type_hint/file_modifiers/py_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/py_file_modifier.py b/lazy_type_hint/file_modifiers/py_file_modifier.py
index 784e51f..a8c705a 100644
--- a/lazy_type_hint/file_modifiers/py_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/py_file_modifier.py
@@ -180,7 +180,7 @@ class PyFileModifier:
         tree = ast.parse(str(self))
         for node in ast.walk(tree):
             if isinstance(node, ast.FunctionDef):
-                node.body = [ast.Ellipsis()]  # type: ignore
+                node.body = [ast.Constant(...)]  # type: ignore
         self.lines = ast.unparse(tree).strip().splitlines()  # type: ignore
 
     def remove_all_private_methods(self) -> None:
-- 
2.43.0

