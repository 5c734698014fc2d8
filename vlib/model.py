"""Reference model: the type that the documented inference prescribes for given data and strategies.

It works on real Python objects and shares no code with the implementation. Inference goes through shapes, which keep
what `equal from a type point of view` means (exact leaf classes, container kinds, keys and requiredness), and shapes
are then turned into the IR of vlib/ir.py.
"""
from __future__ import annotations

import builtins
import collections.abc
import inspect
import re
import io
import itertools
import types
from typing import Any, Dict, FrozenSet, Iterable, List, Optional, Sequence, Tuple

import numpy as np
import pandas as pd

from vlib import objs
from vlib.ir import signature_key, union

DEFAULTS: Dict[str, Any] = {
    "list_strategy": "list",
    "tuple_size_strategy": "fixed",
    "dict_strategy": "TypedDict",
    "pandas_strategies": "Full type hint",
    "min_height_to_define_type_alias": 1,
    "key_used_as_doc": "",
    "merge_different_typed_dicts_if_similarity_above": 50,
    "typed_dict_read_only_values": False,
    "check_max_n_elements_within_container": 500,
}
FUNCTION_TYPES = (types.FunctionType, staticmethod, classmethod, types.BuiltinFunctionType, types.MethodType)


def name_of_type(tp: type) -> Any:
    if tp is type(None):
        return ("none",)
    if isinstance(getattr(builtins, tp.__name__, None), type):
        return ("inst", tp.__name__)
    return ("fwd", tp.__name__)


def annotations_of(signature: Any, function: Any) -> Any:
    """The annotations as they are written, whether quoted or not."""
    def text(annotation: Any, empty: str) -> str:
        if annotation is signature.empty:
            return empty
        shown = annotation if isinstance(annotation, str) else inspect.formatannotation(annotation)
        return re.sub(r"\bNoneType\b", "None", re.sub(r"ForwardRef\('([^']*)'\)", r"\1", shown)).replace("'", "").replace('"', "")

    result = text(signature.return_annotation, "None" if objs.returns_nothing(function) else "Any")
    return (*(text(parameter.annotation, "") for parameter in signature.parameters.values()), result)


class Model:
    fine = False
    """Whether the annotations of functions count."""

    def __init__(self, config: Dict[str, Any]) -> None:
        self.c = {**DEFAULTS, **config}
        self.limit = self.c["check_max_n_elements_within_container"]
        self.merges = 0
        self.rejected_merges = 0

    def __call__(self, data: Any) -> Any:
        return self.to_ir(self.shape(data))

    # ------------------------------------------------------------------------------------------ shapes
    def first(self, elements: Iterable[Any]) -> List[Any]:
        return list(elements if self.limit is None else itertools.islice(elements, self.limit))

    def shape(self, data: Any) -> Any:
        if isinstance(data, dict):
            if self.c["dict_strategy"] == "TypedDict":
                if all(isinstance(key, str) for key in data):
                    return ("td", tuple((objs.plain_key(key), self.shape(value), True) for key, value in data.items()))
                items = list(data.items())
            else:
                items = self.first(data.items())
            return ("dict", frozenset((type(k), self.shape(v)) for k, v in items))
        if isinstance(data, types.MappingProxyType):
            return ("mproxy", frozenset((type(k), self.shape(v)) for k, v in self.first(data.items())))
        if isinstance(data, pd.DataFrame):
            return self.frame(data)
        if isinstance(data, pd.Series):
            return ("series", frozenset(self.children(data)))
        if isinstance(data, np.ndarray):
            return ("nd", data.dtype.type)
        if isinstance(data, list):
            return ("list", frozenset(self.children(data)))
        if isinstance(data, tuple):
            if self.c["tuple_size_strategy"] == "fixed":
                return ("tup", tuple(self.children(data)))
            return ("tupv", frozenset(self.children(data)))
        if isinstance(data, frozenset):
            return ("fset", frozenset(self.children(data)))
        if isinstance(data, set):
            return ("set", frozenset(self.children(data)))
        if isinstance(data, io.IOBase):
            return ("io", type(data))
        if isinstance(data, types.ModuleType):
            return ("mod",)
        if isinstance(data, type):
            return ("type", data)
        if isinstance(data, FUNCTION_TYPES):
            return self.function(data)
        if isinstance(data, collections.abc.Iterator):
            return ("iter", frozenset(self.children(objs.copy_iterator(data))))  # Without consuming it
        return ("instance", type(data))

    @staticmethod
    def function(data: Any) -> Any:
        try:
            signature = inspect.signature(data)
        except (ValueError, TypeError):
            return ("callable", None)
        if data.__name__ == "<lambda>":
            return ("callable", len(signature.parameters))
        return ("proto", signature_key(signature), str(signature), signature.return_annotation is signature.empty and objs.returns_nothing(data), annotations_of(signature, data))

    def frame(self, data: pd.DataFrame) -> Any:
        labels = list(data.columns)
        heads = [label[0] if isinstance(label, tuple) else label for label in labels]
        if (
            self.c["pandas_strategies"] == "Do not type hint columns"
            or not labels
            or not all(isinstance(head, (str, bool, int)) for head in heads)
            or all(isinstance(label, tuple) and len(label) == 1 for label in labels)
        ):
            return ("pddf",)
        columns: Dict[Any, Any] = {}
        for head in heads:
            if objs.exact(head) not in columns:
                columns[objs.exact(head)] = self.shape(data[head])
        return ("df", frozenset((t, h, shape) for (t, h), shape in columns.items()))

    def children(self, elements: Iterable[Any]) -> List[Any]:
        return self.merge([self.shape(element) for element in self.first(elements)])

    def merge(self, shapes: List[Any]) -> List[Any]:
        """All TypedDicts of one container become one if they are similar enough."""
        typed_dicts = [shape for shape in shapes if shape[0] == "td"]
        if not typed_dicts:
            return shapes
        keys = [frozenset(key for key, _, _ in td[1]) for td in typed_dicts]
        common, total = frozenset.intersection(*keys), frozenset.union(*keys)
        distinct = len({self.unordered(td) for td in typed_dicts})
        similarity = 100 * len(common) // len(total) if total else 0
        merged: Dict[str, Any] = {}
        same = True
        for td in typed_dicts:
            for key, value, _ in td[1]:
                previous = merged.setdefault(key, value)
                if self.unordered(previous) != self.unordered(value):
                    numbers = {("instance", int), ("instance", float)}
                    if previous in numbers and value in numbers:
                        merged[key] = ("instance", float)
                    else:
                        same = False
        if similarity < self.c["merge_different_typed_dicts_if_similarity_above"] or not same:
            self.rejected_merges += distinct > 1
            return shapes
        self.merges += distinct > 1
        result = ("td", tuple((key, value, key in common) for key, value in merged.items()))
        return [result if shape[0] == "td" else shape for shape in shapes]

    @classmethod
    def unordered(cls, shape: Any) -> Any:
        """Shape that ignores the order of the fields."""
        if isinstance(shape, tuple) and shape:
            if shape[0] == "td":
                return ("td", frozenset((k, cls.unordered(s), r) for k, s, r in shape[1]))
            return tuple(cls.unordered(s) for s in shape)
        if isinstance(shape, frozenset):
            return frozenset(cls.unordered(s) for s in shape)
        return shape

    # ------------------------------------------------------------------------------------------ IR
    def union_of(self, shapes: Iterable[Any]) -> Any:
        parts = {self.to_ir(shape) for shape in shapes}
        if not parts:
            return ("any",)
        return self.absorb(parts)

    @staticmethod
    def absorb(parts: Any) -> Any:
        if ("inst", "int") in parts and ("inst", "float") in parts:
            parts = parts - {("inst", "int")}
        return union(parts)

    def to_ir(self, shape: Any) -> Any:
        kind = shape[0]
        if kind == "instance":
            if shape[1] is type(None):
                return ("union", frozenset({("none",), ("obj",)}))
            name = name_of_type(shape[1])
            return ("obj",) if name == ("inst", "object") else name
        if kind == "td":
            read_only = bool(self.c["typed_dict_read_only_values"])
            return ("td", tuple((key, self.to_ir(value), required, read_only) for key, value, required in shape[1]))
        if kind in ("dict", "mproxy"):
            if kind == "dict" and self.c["dict_strategy"] == "Mapping":
                kind = "map"
            key_types = {name_of_type(tp) for tp, _ in shape[1]}
            keys = self.absorb(key_types) if key_types else ("any",)
            return (kind, keys, self.union_of({s for _, s in shape[1]}))
        if kind == "list":
            return ("seq" if self.c["list_strategy"] == "Sequence" else "list", self.union_of(shape[1]))
        if kind in ("set", "fset", "iter", "series", "tupv"):
            return (kind, self.union_of(shape[1]))
        if kind == "tup":
            return ("tup", tuple(self.to_ir(s) for s in shape[1])) if shape[1] else ("tupv", ("any",))
        if kind == "io":
            return ("io",)
        if kind == "type":
            return ("type", shape[1].__name__)
        if kind == "nd":
            return ("nd", shape[1].__name__)
        if kind == "proto":
            return ("proto", (shape[1], shape[4]) if self.fine else shape[1])
        if kind == "df":
            columns = tuple(((t.__name__, h), self.to_ir(s)) for t, h, s in shape[1])
            if self.c["pandas_strategies"] == "Full type hint":
                access = tuple(sorted(f"{t.__name__}:{h!r}" for t, h, _ in shape[1]))
            else:
                access = ("str",)
            return ("df", columns, access)
        return shape
