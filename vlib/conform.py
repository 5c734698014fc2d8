"""Runtime conformance: is a value a member of a type? (independent of the model)"""
from __future__ import annotations

import builtins
import collections.abc
import inspect
import io
import itertools
import types
from typing import Any, Dict, Iterable, List, Optional

import numpy as np
import pandas as pd

from vlib import objs
from vlib.ir import show, signature_key


class Conformance:
    def __init__(self, limit: Optional[int], everything_in: Any = None) -> None:
        """`everything_in`: data whose iterators are remembered, as they are going to be consumed."""
        self.limit = limit
        self.elements: Dict[int, List[Any]] = {}
        self._remember(everything_in)

    def _remember(self, value: Any) -> None:
        if isinstance(value, collections.abc.Iterator) and not isinstance(value, io.IOBase):
            if id(value) not in self.elements:
                self.elements[id(value)] = list(objs.copy_iterator(value))
                for element in self.elements[id(value)]:
                    self._remember(element)
        elif isinstance(value, (list, tuple, set, frozenset)):
            for element in value:
                self._remember(element)
        elif isinstance(value, (dict, types.MappingProxyType)):
            for element in value.values():
                self._remember(element)

    def first(self, elements: Iterable[Any]) -> List[Any]:
        return list(elements if self.limit is None else itertools.islice(elements, self.limit))

    def explain(self, value: Any, tp: Any) -> str:
        """Empty if the value is a member of the type; otherwise why not."""
        return self._check(value, tp, "value")

    def _all(self, values: Iterable[Any], tp: Any, path: str) -> str:
        for i, value in enumerate(values):
            why = self._check(value, tp, f"{path}[{i}]")
            if why:
                return why
        return ""

    def _map(self, value: Any, key_type: Any, value_type: Any, path: str, limited: bool) -> str:
        items = self.first(value.items()) if limited else list(value.items())
        return self._all((k for k, _ in items), key_type, f"{path}.key") or self._all(
            (v for _, v in items), value_type, f"{path}.value"
        )

    def _check(self, value: Any, tp: Any, path: str) -> str:
        kind = tp[0]
        no = f"{path}: {type(value).__name__} {value!r:.80} is not a member of {show(tp):.300}"
        if kind in ("any", "obj"):
            return ""
        if kind == "none":
            return "" if value is None else no
        if kind == "union":
            reasons = [self._check(value, part, path) for part in tp[1]]
            return "" if any(not reason for reason in reasons) else no
        if kind == "inst":
            cls = getattr(builtins, tp[1])
            if cls is float and isinstance(value, int):
                return ""
            return "" if isinstance(value, cls) else no
        if kind == "fwd":
            return "" if any(c.__name__ == tp[1] for c in type(value).__mro__) else no
        if kind in ("list", "seq"):
            if not isinstance(value, list if kind == "list" else collections.abc.Sequence):
                return no
            return self._all(self.first(value), tp[1], path)
        if kind in ("set", "fset"):
            if not isinstance(value, set if kind == "set" else frozenset):
                return no
            return self._all(self.first(value), tp[1], path)
        if kind == "tup":
            elements = self.first(value) if isinstance(value, tuple) else []
            if not isinstance(value, tuple) or len(elements) != len(tp[1]):
                return no
            for i, (element, part) in enumerate(zip(elements, tp[1])):
                why = self._check(element, part, f"{path}[{i}]")
                if why:
                    return why
            return ""
        if kind == "tupv":
            return self._all(self.first(value), tp[1], path) if isinstance(value, tuple) else no
        if kind == "iter":
            if not isinstance(value, collections.abc.Iterator):
                return no
            return self._all(self.first(self.elements.get(id(value), ())), tp[1], path)
        if kind in ("dict", "map"):
            if not isinstance(value, dict if kind == "dict" else collections.abc.Mapping):
                return no
            return self._map(value, tp[1], tp[2], path, limited=True)
        if kind == "mproxy":
            if not isinstance(value, types.MappingProxyType):
                return no
            return self._map(value, tp[1], tp[2], path, limited=True)
        if kind == "td":
            if not isinstance(value, dict):
                return no
            fields = {key: (t, required) for key, t, required, _ in tp[1]}
            for key, element in value.items():
                if not isinstance(key, str) or key not in fields:
                    return f"{path}: unexpected key {key!r} for {show(tp):.300}"
                why = self._check(element, fields[key][0], f"{path}[{key!r}]")
                if why:
                    return why
            for key, (_, required) in fields.items():
                if required and key not in value:
                    return f"{path}: required key {key!r} is missing in {value!r:.100}"
            return ""
        if kind == "mod":
            return "" if isinstance(value, types.ModuleType) else no
        if kind == "io":
            return "" if isinstance(value, io.IOBase) else no
        if kind == "type":
            return "" if isinstance(value, type) and any(c.__name__ == tp[1] for c in value.__mro__) else no
        if kind == "nd":
            return "" if isinstance(value, np.ndarray) and value.dtype.type.__name__ == tp[1] else no
        if kind == "series":
            return self._all(self.first(value), tp[1], path) if isinstance(value, pd.Series) else no
        if kind == "pddf":
            return "" if isinstance(value, pd.DataFrame) else no
        if kind == "df":
            if not isinstance(value, pd.DataFrame):
                return no
            columns = dict(tp[1])
            heads = {(c[0] if isinstance(c, tuple) else c) for c in value.columns}
            for head in heads:
                label = (type(head).__name__, head)
                if label not in columns:
                    return f"{path}: column {head!r} is missing in {show(tp):.300}"
                why = self._check(value[head], columns[label], f"{path}[{head!r}]")
                if why:
                    return why
            if len(columns) != len(heads):
                return f"{path}: {show(tp):.300} has columns that do not exist in {list(value.columns)}"
            return ""
        if kind == "callable":
            if not callable(value) and not isinstance(value, (staticmethod, classmethod)):
                return no
            if tp[1] is None:
                return ""
            try:
                return "" if len(inspect.signature(value).parameters) == tp[1] else no
            except (ValueError, TypeError):
                return no
        if kind == "proto":
            try:
                return "" if signature_key(inspect.signature(value)) == tp[1] else no
            except (ValueError, TypeError):
                return no
        return f"{path}: unintelligible type {tp!r}"
