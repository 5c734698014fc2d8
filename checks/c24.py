"""C24: leaf objects are hinted by their own type, wherever they are."""
from __future__ import annotations

import abc
import array
import collections
import datetime
import decimal
import enum
import fractions
import io
import os
import pathlib
import re
import sys
import tempfile
import threading
import types
import typing
import uuid
from typing import Any, Callable, Dict, Generic, List, Tuple, TypeVar

import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st

from vlib import api, gen, objs
from vlib.core import Part, Probe, Violation, require
from vlib.ir import Module, canonical, show, union

ID = "C24"
RULE = (
    "every leaf object of a table (scalars, None, ranges, slices, bytes, class objects, instances of user and library classes, enumerations, modules, files, arrays of every dtype), alone and with others of the same or of another "
    "kind, at the root and in each kind of container and dictionary, up to four containers deep. The expected type of each object is written in the table; containers are composed here. "
    "Non-trivial: at least two different objects, or an object two containers deep; distinct by case"
)
ASSUMPTIONS = [
    "user classes whose name is also the name of a built-in class or of something the module imports are out of the domain",
    "objects that are iterators, functions, data frames or series are covered by C03, C19 and C20",
    "numbers follow the documented absorption of int by float within unions",
]
T = TypeVar("T")


class Empty: ...


class Unhashable:
    __hash__ = None  # type: ignore

    def __eq__(self, other: object) -> bool:
        return isinstance(other, Unhashable)


class NeverEqual:
    def __eq__(self, other: object) -> bool:
        return False

    __hash__ = object.__hash__


class AllEqual:
    """Equal to everything, also to objects of other classes."""

    def __eq__(self, other: object) -> bool:
        return True

    def __hash__(self) -> int:
        return 0


class Undecided:
    def __bool__(self) -> bool:
        raise TypeError("no truth value")

    def __len__(self) -> int:
        raise TypeError("no length")


class Slots:
    __slots__ = ("x",)


class Named:
    __name__ = "list"
    name = "Named"


class Box(Generic[T]): ...


class Abstract(abc.ABC):
    @abc.abstractmethod
    def method(self) -> int: ...


class Concrete(Abstract):
    def method(self) -> int:
        return 1


class Meta(type):
    """Metaclass of the user."""

    def __len__(cls) -> int:
        return 0


class WithMeta(metaclass=Meta): ...


class Callable_:
    def __call__(self, a: int) -> int:
        return a


class Indexed:
    """Looks like a sequence."""

    def __getitem__(self, item: int) -> int:
        if item > 2:
            raise IndexError
        return item

    def __len__(self) -> int:
        return 3


class Iterable_:
    def __iter__(self) -> Any:
        return iter([1])


class Mapping_(collections.abc.Mapping):  # type: ignore
    def __getitem__(self, item: Any) -> Any:
        raise KeyError

    def __iter__(self) -> Any:
        return iter(())

    def __len__(self) -> int:
        return 0


class Anything:
    def __getattr__(self, name: str) -> Any:
        if name.startswith("__"):
            raise AttributeError(name)
        return self


class Outer:
    class Inner: ...


def local_class() -> type:
    class Local: ...

    return Local


class Flags(enum.Flag):
    A = 1
    B = 2


class MyFloat(float): ...


class MyBytes(bytes): ...


class MyException(ValueError): ...


Local = local_class()
Dynamic = type("Dynamic", (), {})
Diacritic = type("Número", (), {})
LIKE_FUNCTIONS = {name: type(name, (), {}) for name in ("open", "input", "vars", "license", "id", "format", "iter", "print", "NotImplemented", "copyright", "Range", "Slice", "Object", "OBJECT", "Int", "bool_", "str_")}


def inst(name: str) -> Any:
    return ("inst", name)


def fwd(name: str) -> Any:
    return ("fwd", name)


def cls(name: str) -> Any:
    return ("type", name)


NONE = ("union", frozenset({("none",), ("obj",)}))
SCALARS: Dict[str, Tuple[Callable[[], Any], Any]] = {
    "0": (lambda: 0, inst("int")), "1": (lambda: 1, inst("int")), "big": (lambda: 10**30, inst("int")), "0.0": (lambda: 0.0, inst("float")), "1.5": (lambda: 1.5, inst("float")), "nan": (lambda: float("nan"), inst("float")),
    "inf": (lambda: float("inf"), inst("float")), "text": (lambda: "text", inst("str")), "empty text": (lambda: "", inst("str")), "True": (lambda: True, inst("bool")), "False": (lambda: False, inst("bool")), "None": (lambda: None, NONE),
    "bytes": (lambda: b"abc", inst("bytes")), "no bytes": (lambda: b"", inst("bytes")), "bytearray": (lambda: bytearray(b"x"), inst("bytearray")), "complex": (lambda: 1j, inst("complex")), "range": (lambda: range(3), inst("range")),
    "no range": (lambda: range(0), inst("range")), "slice": (lambda: slice(1), inst("slice")), "object": (object, ("obj",)), "memoryview": (lambda: memoryview(b"x"), inst("memoryview")),
    "ellipsis": (lambda: ..., fwd("ellipsis")), "NotImplemented": (lambda: NotImplemented, fwd("NotImplementedType")), "property": (lambda: property(), inst("property")),
}
INSTANCES: Dict[str, Tuple[Callable[[], Any], Any]] = {
    **{c.__name__: (c, fwd(c.__name__)) for c in (Empty, Unhashable, NeverEqual, AllEqual, Undecided, Slots, Named, Box, Concrete, WithMeta, Callable_, Indexed, Iterable_, Mapping_, Anything, Local, Dynamic, Diacritic, MyFloat, MyBytes, MyException)},
    **{name: (c, fwd(name)) for name, c in LIKE_FUNCTIONS.items()},
    "Inner": (Outer.Inner, fwd("Inner")), "Flags": (lambda: Flags.A | Flags.B, fwd("Flags")), "ValueError": (ValueError, inst("ValueError")), "KeyError": (lambda: KeyError("x"), inst("KeyError")),
    **{name: (factory, fwd(name)) for name, factory in objs.INSTANCES.items()},
    "datetime": (lambda: datetime.datetime(2020, 1, 1), fwd("datetime")), "time": (lambda: datetime.time(1), fwd("time")), "timedelta": (lambda: datetime.timedelta(1), fwd("timedelta")), "UUID": (lambda: uuid.UUID(int=1), fwd("UUID")),
    "PurePosixPath": (lambda: pathlib.PurePosixPath("a"), fwd("PurePosixPath")), "PosixPath": (lambda: pathlib.PosixPath("a"), fwd("PosixPath")), "Pattern": (lambda: re.compile("a"), fwd("Pattern")), "Match": (lambda: re.match("", ""), fwd("Match")),
    "array": (lambda: array.array("i"), fwd("array")), "bool_": (lambda: np.bool_(True), fwd("bool_")), "str_": (lambda: np.str_("x"), fwd("str_")), "float32": (lambda: np.float32(1), fwd("float32")), "datetime64": (lambda: np.datetime64("2020"), fwd("datetime64")),
    "Timestamp": (lambda: pd.Timestamp("2020"), fwd("Timestamp")), "Timedelta": (lambda: pd.Timedelta("1d"), fwd("Timedelta")), "NaTType": (lambda: pd.NaT, fwd("NaTType")), "NAType": (lambda: pd.NA, fwd("NAType")), "Index": (lambda: pd.Index([1]), fwd("Index")),
    "SimpleNamespace": (lambda: types.SimpleNamespace(a=1), fwd("SimpleNamespace")), "UserDict": (collections.UserDict, fwd("UserDict")), "UserList": (collections.UserList, fwd("UserList")), "ChainMap": (collections.ChainMap, fwd("ChainMap")),
    "dict_keys": (lambda: {}.keys(), fwd("dict_keys")), "code": (lambda: compile("1", "", "eval"), fwd("code")), "Thread": (threading.Thread, fwd("Thread")), "Event": (threading.Event, fwd("Event")), "dtype": (lambda: np.dtype("i4"), fwd(type(np.dtype("i4")).__name__)),
    "TypeVar": (lambda: T, fwd("TypeVar")), "GenericAlias": (lambda: list[int], fwd("GenericAlias")),
}
CLASSES: Dict[str, Tuple[Callable[[], Any], Any]] = {
    c.__name__: ((lambda c=c: c), cls(c.__name__))
    for c in (
        int, float, str, bool, bytes, list, dict, tuple, set, frozenset, object, type, range, slice, Exception, ValueError, KeyError, complex, property, staticmethod, Empty, Unhashable, AllEqual, NeverEqual, Box, Abstract, Concrete, WithMeta, Meta, Local, Dynamic,
        Diacritic, Outer.Inner, Flags, MyFloat, MyException, objs.Shade, objs.Level, objs.Zeta, objs.Theta, objs.Point, objs.Kappa, type(None), datetime.date, decimal.Decimal, pathlib.Path, enum.Enum, abc.ABC, np.ndarray, np.float64, np.int8, pd.DataFrame, pd.Series,
        *LIKE_FUNCTIONS.values(), collections.OrderedDict, collections.deque, io.StringIO, types.FunctionType, types.SimpleNamespace, re.Pattern, yaml.SafeLoader,
    )
}
MODULES: Dict[str, Tuple[Callable[[], Any], Any]] = {
    "sys": (lambda: sys, ("mod",)), "os.path": (lambda: os.path, ("mod",)), "numpy": (lambda: np, ("mod",)), "yaml": (lambda: yaml, ("mod",)), "typing": (lambda: typing, ("mod",)), "made up": (lambda: types.ModuleType("made_up"), ("mod",)), "objs": (lambda: objs, ("mod",)),
}
FILES: Dict[str, Tuple[Callable[[], Any], Any]] = {
    "text": (lambda: io.TextIOWrapper(io.BytesIO(b"abc")), ("io",)), "string": (lambda: io.StringIO("abc"), ("io",)), "file": (lambda: open(os.devnull), ("io",)), "writing": (lambda: open(os.devnull, "w"), ("io",)), "temporary": (lambda: tempfile.TemporaryFile("w+"), ("io",)),
    "utf8": (lambda: open(__file__, encoding="utf-8"), ("io",)), "text with lines": (lambda: io.StringIO("a\nb\n"), ("io",)),
}
DTYPES: Dict[str, type] = {
    "?": np.bool_, "int8": np.int8, "int16": np.int16, "int32": np.int32, "int64": np.int64, "uint8": np.uint8, "uint16": np.uint16, "uint32": np.uint32, "uint64": np.uint64, ">i4": np.int32, ">u2": np.uint16, "longlong": np.longlong, "ulonglong": np.ulonglong,
    "float16": np.float16, "float32": np.float32, "float64": np.float64, ">f8": np.float64, "longdouble": np.longdouble, "complex64": np.complex64, "complex128": np.complex128, "clongdouble": np.clongdouble, "<U3": np.str_, "<U7": np.str_, ">U2": np.str_, "S2": np.bytes_,
    "S9": np.bytes_, "object": np.object_, "datetime64[ns]": np.datetime64, "datetime64[D]": np.datetime64, "datetime64": np.datetime64, "timedelta64[s]": np.timedelta64, "timedelta64[h]": np.timedelta64, "V4": np.void, "i4,f8": np.void,
}
ARRAYS: Dict[str, Tuple[Callable[[], Any], Any]] = {
    f"{dtype} {shape}": ((lambda dtype=dtype, shape=shape: np.zeros(shape, dtype=dtype)), ("nd", scalar.__name__)) for dtype, scalar in DTYPES.items() for shape in ((2,), (0,), (), (1, 2, 1))
}
ARRAYS.update({
    "matrix": (lambda: np.matrix([[1.5]]), ("nd", "float64")), "masked": (lambda: np.ma.masked_array([1.5]), ("nd", "float64")), "recarray": (lambda: np.rec.array([(1, 2.0)]), ("nd", np.rec.array([(1, 2.0)]).dtype.type.__name__)),
    "view": (lambda: np.arange(6, dtype="int16")[::2].reshape(3, 1), ("nd", "int16")), "read only": (lambda: np.broadcast_to(np.uint8(1), (3,)), ("nd", "uint8")), "transposed": (lambda: np.ones((2, 3), dtype="float32").T, ("nd", "float32")),
})
TABLE = {"scalar": SCALARS, "instance": INSTANCES, "class": CLASSES, "module": MODULES, "file": FILES, "array": ARRAYS}


def make(leaf: Any) -> Any:
    return TABLE[leaf[0]][leaf[1]][0]()


def expected(leaf: Any) -> Any:
    return TABLE[leaf[0]][leaf[1]][1]


def absorb(parts: Any) -> Any:
    parts = set(parts)
    if ("inst", "int") in parts and ("inst", "float") in parts:
        parts.discard(("inst", "int"))
    return union(parts)


def hashable(leaf: Any) -> bool:
    try:
        hash(make(leaf))
    except TypeError:
        return False
    return leaf != ["instance", "AllEqual"]  # Sets keep only one of the things it is equal to


def build(tree: Any) -> Tuple[Any, Any]:
    """The value and the type it should have."""
    kind, children = tree[0], tree[1]
    if kind == "leaf":
        return make(children), expected(children)
    if kind in ("set", "fset"):
        leaves = [child[1] for child in children if hashable(child[1])]
        values, types_ = [make(leaf) for leaf in leaves], [expected(leaf) for leaf in leaves]
        container: Any = set(values) if kind == "set" else frozenset(values)
        types_ = [tp for value, tp in zip(values, types_) if any(value is element for element in container)]  # 1 and True are equal
        return container, (kind, absorb(types_) if types_ else ("any",))
    pairs = [build(child) for child in children]
    values, types_ = [pair[0] for pair in pairs], [pair[1] for pair in pairs]
    if kind == "list":
        return values, ("list", absorb(types_))
    if kind == "iter":
        return iter(values), ("iter", absorb(types_))
    if kind == "tup":
        return tuple(values), ("tup", tuple(types_))
    if kind == "td":
        return {f"k{i}": value for i, value in enumerate(values)}, ("td", tuple((f"k{i}", tp, True, False) for i, tp in enumerate(types_)))
    if kind == "dict":
        return dict(enumerate(values)), ("dict", inst("int"), absorb(types_))
    if kind == "mproxy":
        return types.MappingProxyType({str(i): value for i, value in enumerate(values)}), ("mproxy", inst("str"), absorb(types_))
    if kind == "keys":
        leaves = [child[1] for child in children if child[0] == "leaf" and hashable(child[1])]
        dictionary = {make(leaf): None for leaf in leaves}
        if not dictionary or all(isinstance(key, str) for key in dictionary):
            return [], ("list", ("any",))
        present = {type(key) for key in dictionary}
        names = [key_type(expected(leaf), make(leaf)) for leaf in leaves if type(make(leaf)) in present]
        return dictionary, ("dict", absorb(names), NONE)
    raise ValueError(kind)


def key_type(tp: Any, value: Any) -> Any:
    """Keys are shown by their class."""
    if value is None:
        return ("none",)
    if isinstance(tp, tuple) and tp[0] in ("fwd", "inst", "obj"):
        return tp
    name = type(value).__name__
    import builtins

    return inst(name) if getattr(builtins, name, None) is type(value) else fwd(name)


def judge(case: Dict[str, Any]) -> Any:
    value, tp = build(case["tree"])
    text = api.render(value, {"check_max_n_elements_within_container": 500, "merge_different_typed_dicts_if_similarity_above": 100, **case["config"]}, "Example")
    module = Module(text, "Example")
    got, want = canonical(module.root), canonical(tp)
    require(got == want, lambda: f"the type is\n  {show(got)}\nbut should be\n  {show(want)}\nmodule:\n{text}")
    leaves = leaves_of(case["tree"])
    labels = sorted({f"has {leaf[0]}" for leaf in leaves} | {f"in {kind}" for kind in kinds_of(case["tree"])})
    return {"key": case if len({tuple(leaf) for leaf in leaves}) > 1 or depth(case["tree"]) > 1 else None, "labels": labels}


def leaves_of(tree: Any) -> List[Any]:
    return [tree[1]] if tree[0] == "leaf" else [leaf for child in tree[1] for leaf in leaves_of(child)]


def kinds_of(tree: Any) -> set:
    return {"root"} if tree[0] == "leaf" else {tree[0]}.union(*(kinds_of(child) - {"root"} for child in tree[1]))


def depth(tree: Any) -> int:
    return 0 if tree[0] == "leaf" else 1 + max(map(depth, tree[1]), default=0)


class Trees(gen.Drawer):
    def leaf(self) -> Any:
        group = self.pick(tuple(TABLE))
        return ["leaf", [group, self.pick(tuple(TABLE[group]))]]

    def tree(self, level: int) -> Any:
        if level == 0:
            return self.leaf()
        kind = self.pick(("list", "td", "tup", "dict", "set", "fset", "mproxy", "iter", "keys"))
        if kind in ("set", "fset", "keys"):
            return [kind, [self.leaf() for _ in range(self.below(3) + 1)]]
        same = self.pick((None, None, "array", "instance", "class"))
        children = []
        for _ in range(self.below(4) + 1):
            if same and self.below(3):
                children.append(["leaf", [same, self.pick(tuple(TABLE[same]))]])
            else:
                children.append(self.tree(self.below(level)))
        if not depth([kind, children]) == level:
            children.append(self.tree(level - 1))
        if kind == "list" or kind == "iter":
            children = [c for c in children if c[0] != "td"] or [self.leaf()]  # Merging is the matter of C04
        if kind in ("dict", "mproxy", "tup"):
            children = [c for c in children if c[0] != "td"] or [self.leaf()]
        return [kind, children]


@st.composite
def cases(draw: Any, level: Any) -> Any:
    drawer = Trees(draw, gen.FULL)
    config = {"min_height_to_define_type_alias": drawer.pick((1, 0, 2, 5))}
    return {"tree": drawer.tree(drawer.pick(level)), "config": config}


def every(group: str) -> None:
    """Each object of the table at the root and in each container."""
    for name in TABLE[group]:
        leaf = ["leaf", [group, name]]
        for tree in (leaf, *([kind, [leaf]] for kind in ("list", "td", "tup", "dict", "set", "fset", "mproxy", "iter", "keys"))):
            try:
                judge({"tree": tree, "config": {}})
            except Violation as violation:
                raise Violation(f"{tree}: {violation}") from None


PARTS = [
    Part("one or two containers", lambda: cases((1, 1, 2)), judge, quick=16000),
    Part("deeper", lambda: cases((2, 3, 4)), judge, quick=8000),
]
PROBES = [Probe(f"each {group}", (lambda group=group: every(group))) for group in TABLE]
