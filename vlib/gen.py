"""Generators of data (as JSON-able specs), strategies and class names, and the builder of real objects from specs.

A spec is a nested list, for instance ["list", [["i", 1], ["dict", [[["s", "a"], ["n"]]]]]]; build(spec) makes fresh objects.
"""
from __future__ import annotations

import collections
import types
from dataclasses import dataclass, field, replace
from functools import lru_cache
from typing import Any, Callable, Dict, Iterator, List, Optional, Sequence, Tuple

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import objs

Spec = List[Any]

# ------------------------------------------------------------------------------------------------ building objects


def build(spec: Spec) -> Any:
    kind = spec[0]
    if kind == "i":
        return int(spec[1])
    if kind == "f":
        return float(spec[1])
    if kind == "s":
        return objs.word(spec[1], spec[2]) if len(spec) > 2 else str(spec[1])
    if kind == "b":
        return bool(spec[1])
    if kind == "n":
        return None
    if kind == "y":
        return bytes(spec[1], "latin-1")
    if kind == "c":
        return complex(spec[1], 1)
    if kind == "range":
        return range(spec[1])
    if kind == "slice":
        return slice(spec[1])
    if kind == "ts":
        return pd.Timestamp(2020, 1, 1 + spec[1])
    if kind == "inst":
        return objs.INSTANCES[spec[1]]()
    if kind == "cls":
        return objs.CLASSES[spec[1]]
    if kind == "mod":
        return objs.MODULES[spec[1]]
    if kind == "io":
        return objs.make_file(spec[1])
    if kind == "np":
        return np.zeros(tuple(spec[2]), dtype=spec[1])
    if kind == "fn":
        return objs.EVERY_FUNCTION[spec[1]]
    if kind == "list":
        return (objs.MyList if len(spec) > 2 else list)(build(e) for e in spec[1])
    if kind == "tuple":
        return (objs.MyTuple if len(spec) > 2 else tuple)(build(e) for e in spec[1])
    if kind == "set":
        return (objs.MySet if len(spec) > 2 else set)(build(e) for e in spec[1])
    if kind == "frozenset":
        return (objs.MyFrozenset if len(spec) > 2 else frozenset)(build(e) for e in spec[1])
    if kind == "dict":
        return {build(k): build(v) for k, v in spec[1]}
    if kind == "odict":
        return collections.OrderedDict((build(k), build(v)) for k, v in spec[1])
    if kind == "ddict":
        out: Any = collections.defaultdict(int)
        out.update((build(k), build(v)) for k, v in spec[1])
        return out
    if kind == "mproxy":
        return types.MappingProxyType({build(k): build(v) for k, v in spec[1]})
    if kind == "iter":
        elements = [build(e) for e in spec[1]]
        return objs.ITERATORS[spec[2]](elements) if len(spec) > 2 else iter(elements)
    if kind == "point":
        return objs.Point(build(spec[1]), build(spec[2]))
    if kind == "series":
        return build_series(spec)
    if kind == "df":
        return build_df(spec)
    raise ValueError(f"unknown spec {spec!r}")


def build_series(spec: Spec) -> "pd.Series[Any]":
    values = [build(e) for e in spec[1]]
    if not values:
        return pd.Series([], dtype="float64")
    return pd.Series(values, dtype=spec[2]) if len(spec) > 2 and spec[2] else pd.Series(values)


def build_column_name(name: Any) -> Any:
    if not isinstance(name, list):
        return name
    if name[0] == "word":
        return objs.word(name[1], name[2])
    if name[0] == "level":
        return objs.Level(name[1])
    return tuple(build_column_name(n) for n in name[1])


def build_df(spec: Spec) -> pd.DataFrame:
    """["df", [[column name, [values], dtype?]...], style?]; tuples are ["t", [...]]; the style "native" lets pandas choose the type of the labels."""
    names = [build_column_name(column[0]) for column in spec[1]]
    n_rows = max((len(column[1]) for column in spec[1]), default=0)
    columns = [[build(v) for v in column[1]] for column in spec[1]]
    dtypes = [(column[2] or None) if len(column) > 2 else None for column in spec[1]]
    frame = pd.DataFrame({i: pd.Series(values, dtype=object if not values else dtypes[i]) for i, values in enumerate(columns)})
    frame = frame.reindex(range(n_rows)) if n_rows else frame
    if not names:
        return pd.DataFrame()
    if all(isinstance(name, tuple) for name in names) and len({len(n) for n in names}) == 1:
        frame.columns = pd.MultiIndex.from_tuples(names)
    elif len(spec) > 2 and spec[2] == "native":
        frame.columns = pd.Index(names)
    else:
        frame.columns = pd.Index(names, dtype=object)
    return frame


def size(spec: Any) -> int:
    """Number of containers and leaves of a spec."""
    if isinstance(spec, list):
        return (1 if spec and isinstance(spec[0], str) else 0) + sum(size(e) for e in spec)
    return 0


def depth(spec: Any) -> int:
    if not isinstance(spec, list) or not spec:
        return 0
    inner = max((depth(e) for e in spec), default=0)
    return inner + (1 if isinstance(spec[0], str) and spec[0] in CONTAINER_KINDS else 0)


CONTAINER_KINDS = {
    "list", "tuple", "set", "frozenset", "dict", "odict", "ddict", "mproxy", "iter", "point", "series", "df",
}
HASHABLE_LEAVES = {"i", "f", "s", "b", "n", "y", "c", "range"}


def smaller(spec: Spec) -> Iterator[Spec]:
    """Smaller variants of a spec, the boldest first."""
    kind = spec[0]
    if kind in ("list", "tuple", "set", "frozenset", "iter", "series"):
        if kind in ("list", "tuple", "iter"):
            yield from spec[1]
        for i in range(len(spec[1])):
            yield [kind, spec[1][:i] + spec[1][i + 1 :], *spec[2:]]
        for i, element in enumerate(spec[1]):
            for variant in smaller(element):
                if kind in ("list", "tuple", "iter") or is_hashable(variant):
                    yield [kind, [*spec[1][:i], variant, *spec[1][i + 1 :]], *spec[2:]]
    elif kind in ("dict", "odict", "ddict", "mproxy"):
        yield from (value for _, value in spec[1])
        for i in range(len(spec[1])):
            yield [kind, spec[1][:i] + spec[1][i + 1 :]]
        for i, (key, value) in enumerate(spec[1]):
            for variant in smaller(value):
                yield [kind, [*spec[1][:i], [key, variant], *spec[1][i + 1 :]]]


def kinds_of(spec: Any, out: Optional[set] = None) -> set:
    out = set() if out is None else out
    if isinstance(spec, list):
        if spec and isinstance(spec[0], str):
            out.add(spec[0])
        for e in spec:
            kinds_of(e, out)
    return out


def is_hashable(spec: Spec) -> bool:
    if spec[0] in ("tuple", "frozenset"):
        return all(is_hashable(e) for e in spec[1])
    if spec[0] == "point":
        return is_hashable(spec[1]) and is_hashable(spec[2])
    if spec[0] == "inst":
        return spec[1] not in ("deque",)
    return spec[0] in HASHABLE_LEAVES or spec[0] in ("cls", "fn", "mod")


# ------------------------------------------------------------------------------------------------ generation

FRIENDLY_KEYS = (
    "a", "b", "c", "name", "key_one", "keyOne", "key one", "value", "x1", "age", "B", "A", "id", "list", "Dict", "int",
    "data", "Int", "Str", "2", "dict2", "é", "class", "a.b",
)
NASTY_KEYS = (
    "", " ", "1a", "a-b", "a b", "class", "None", "def", "__x", "__x__", "_y", "a'b", 'a"b', "a\\b", "a\nb", "a\tb", "{x}",
    "{", "}", "%s", "ªº", "²", "ﬁ", "µ", "λ", "日本", "a=b", "a: b", "#", "\\", '"', "'", '"""', "\x00", "\r", "\u2028", "🙂", "self",
    "import", "x" * 60, "TypedDict", "Any", "total", "mro", "a\\", "\\n", "x\x1f", "key\x7f", "\ufeff", "0", "-1", "a,b", "NotRequired", "\\u0041", "𝔘nicode", "match", "True", "__init__", "__annotations__",
)
CLASH_KEYS = (
    "a", "A", "a b", "a_b", "aB", "AB", "a-b", "dict", "Dict", "list", "List", "list2", "dict2", "Dict2", "a2", "", "b", "B",
    "ListList", "1a", "2", "a_list", "aList", "Set", "set", "tuple", "str", "AStr", "aDict", "aDict2", "int",
)
safe_text = st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=8)
keys_friendly = st.sampled_from(FRIENDLY_KEYS)
keys_nasty = st.one_of(st.sampled_from(NASTY_KEYS), safe_text)


@dataclass(frozen=True)
class Profile:
    """What the generated data are made of."""

    leaves: Tuple[str, ...] = ("i", "f", "s", "b", "n", "y", "c", "range", "slice", "inst", "cls", "mod", "io", "np", "fn")
    containers: Tuple[str, ...] = ("list", "tuple", "set", "frozenset", "dict", "mproxy", "dict", "list", "dict")
    keys: Tuple[str, ...] = ("friendly", "friendly", "friendly", "nasty", "other")
    depth: int = 4
    width: int = 4
    vary: bool = True
    series: bool = False
    subclasses: bool = False
    """Also instances of subclasses of the containers, and iterators of several classes."""


SIMPLE = Profile(leaves=("i", "f", "s", "b", "n"), keys=("friendly",), containers=("list", "tuple", "set", "dict", "frozenset", "dict", "mproxy"))
BUILTIN = Profile(leaves=("i", "f", "s", "b", "n", "y", "c", "range", "i", "f", "s"), keys=("friendly", "friendly", "nasty", "other"))
FULL = replace(
    Profile(), containers=("list", "tuple", "set", "frozenset", "dict", "mproxy", "dict", "list", "dict", "iter", "odict", "ddict", "point", "series", "df"), subclasses=True,
    keys=("friendly", "friendly", "friendly", "nasty", "other", "words"),
)
FULL_NO_ITER = replace(FULL, containers=tuple(c for c in FULL.containers if c != "iter"))

# Data that can be built several times with the same order everywhere
ITERATORS = replace(
    Profile(), leaves=("i", "f", "s", "b", "n"), keys=("friendly", "friendly", "other without inst"),
    containers=("iter", "list", "tuple", "dict", "iter", "set", "dict", "mproxy"), subclasses=True,
)
# Keys and containers that tend to give the same alias name to different structures
NAMING = replace(
    Profile(), leaves=("i", "f", "s", "n"), keys=("clash",), containers=("dict", "list", "dict", "tuple", "set", "dict"), width=5
)

_int = {k: st.integers(0, k) for k in range(0, 64)}
_float = st.sampled_from([0.0, 1.5, -2.25, 1e10, 3.0])
_small = st.integers(-2, 5)
_text = st.sampled_from(["", "x", "text", "doc text", "é"])


class Drawer:
    """Draws specs through Hypothesis' `draw`."""

    def __init__(self, draw: Callable[[Any], Any], profile: Profile) -> None:
        self.draw = draw
        self.p = profile

    def below(self, n: int) -> int:
        return self.draw(_int[n - 1]) if n <= 64 else self.draw(st.integers(0, n - 1))

    def pick(self, options: Sequence[Any]) -> Any:
        return options[self.below(len(options))]

    def width(self) -> int:
        """Number of children; Hypothesis prefers small choices, so that 0 stands for a common number."""
        return min((2, 3, 1, 2, 4, 0, 3, self.p.width)[self.below(8)], self.p.width)

    def leaf(self, hashable: bool = False) -> Spec:
        options = self.p.leaves
        if hashable:
            options = tuple(k for k in options if k in HASHABLE_LEAVES or k in ("cls", "inst")) or ("i",)
        kind = self.pick(options)
        return self.leaf_of(kind, hashable)

    def leaf_of(self, kind: str, hashable: bool = False) -> Spec:
        if kind == "i":
            return ["i", self.draw(_small)]
        if kind == "f":
            return ["f", self.draw(_float)]
        if kind == "s":
            return ["s", self.draw(_text)]
        if kind == "b":
            return ["b", bool(self.below(2))]
        if kind == "n":
            return ["n"]
        if kind == "y":
            return ["y", self.pick(("", "ab"))]
        if kind == "c":
            return ["c", self.below(3)]
        if kind in ("range", "slice"):
            return [kind, self.below(4)]
        if kind == "inst":
            names = sorted(objs.INSTANCES)
            if hashable:
                names = [n for n in names if n != "deque"]
            return ["inst", self.pick(names)]
        if kind == "cls":
            return ["cls", self.pick(sorted(objs.CLASSES))]
        if kind == "mod":
            return ["mod", self.pick(sorted(objs.MODULES))]
        if kind == "io":
            return ["io", self.pick(("text", "string", "bytes"))]
        if kind == "np":
            return ["np", self.pick(objs.DTYPES), self.pick(([2], [0], [2, 1], []))]
        if kind == "fn":
            return ["fn", self.pick(sorted(objs.ALL_FUNCTIONS))]
        raise ValueError(kind)

    def key(self, mode: str) -> Spec:
        if mode == "friendly":
            return ["s", self.draw(keys_friendly)]
        if mode == "clash":
            return ["s", self.pick(CLASH_KEYS)]
        if mode == "nasty":
            return ["s", self.draw(keys_nasty)]
        if mode == "words":  # Strings of subclasses of str
            return ["s", self.pick(objs.WORDS), self.pick(("member", "plain", "odd"))]
        kind = self.below(9)
        if kind == 7 and mode == "other without inst":
            kind = 1
        if kind == 0:
            return ["s", self.draw(keys_friendly)]
        if kind <= 2:
            return ["i", self.draw(_small)]
        if kind == 3:
            return ["f", self.draw(_float)]
        if kind == 4:
            return ["b", bool(self.below(2))]
        if kind == 5:
            return ["n"]
        if kind == 6:
            return ["tuple", [["i", self.draw(_small)]]]
        if kind == 7:
            return ["inst", self.pick(("Zeta", "Kappa", "Shade", "Level", "MyInt"))]
        return ["y", "k"]

    def items(self, depth: int) -> List[List[Spec]]:
        n = self.width()
        mode = self.pick(self.p.keys)
        out: List[List[Spec]] = []
        seen: set = set()
        values = self.many(depth, n)
        for value in values:
            key = self.key(mode)
            built = build(key)
            if built in seen:
                continue
            seen.add(built)
            out.append([key, value])
        return out

    def many(self, depth: int, n: int, hashable: bool = False) -> List[Spec]:
        """Children of one container: new ones, repetitions and slight variations of the previous ones."""
        out: List[Spec] = []
        for _ in range(n):
            action = self.below(8) if out and self.p.vary else 0
            if action <= 3:
                out.append(self.node(depth, hashable))
            elif action <= 4:
                out.append(self.pick(out))
            else:
                varied = self.variation(self.pick(out), depth)
                out.append(varied if not hashable or is_hashable(varied) else self.pick(out))
        return out

    def node(self, depth: int, hashable: bool = False) -> Spec:
        if depth <= 0 or self.below(16) >= 11:
            return self.leaf(hashable)
        return self.container(depth, hashable)

    def container(self, depth: int, hashable: bool = False) -> Spec:
        options = self.p.containers
        if hashable:
            options = tuple(c for c in options if c in ("tuple", "frozenset", "point"))
            if not options:
                return self.leaf(hashable)
        return self.container_of(self.pick(options), depth, hashable)

    def container_of(self, kind: str, depth: int, hashable: bool = False) -> Spec:
        n = self.width()
        if kind in ("list", "tuple", "iter", "set", "frozenset"):
            spec: Spec = [kind, self.many(depth - 1, n, hashable or kind in ("set", "frozenset"))]
            if self.p.subclasses and self.below(8) == 0:
                spec.append("sub" if kind != "iter" else self.pick(tuple(objs.ITERATORS)))
            return spec
        if kind in ("dict", "mproxy", "odict", "ddict"):
            return [kind, self.items(depth - 1)]
        if kind == "point":
            return ["point", *self.many(depth - 1, 2, hashable)]
        if kind == "series":
            return self.series_spec()
        if kind == "df":
            return self.df_spec()
        raise ValueError(kind)

    def scalar_values(self, n: int) -> List[Spec]:
        mode = self.below(7)
        kinds: Dict[int, Tuple[str, ...]] = {0: ("i",), 1: ("f",), 2: ("s",), 3: ("b",), 4: ("i", "f"), 5: ("i", "s", "n"), 6: ("s", "b", "f", "i")}
        return [self.leaf_of(self.pick(kinds[mode])) for _ in range(n)]

    def series_spec(self) -> Spec:
        spec: Spec = ["series", self.scalar_values(self.below(4))]
        if spec[1] and self.below(3) == 0:
            spec.append("object")
            if self.below(2):
                spec[1].append(["list", [["i", 1]]])
        return spec

    def df_spec(self, levels: int = 0) -> Spec:
        n_columns = self.below(4)
        rows = self.below(3)
        multi = levels or (2 if self.below(4) == 0 else 3 if self.below(12) == 0 else 1)
        columns: List[Any] = []
        seen: set = set()
        pool = ("a", "b", "key one", "A", "it's", 'say "x"', "back\\slash", "é", "a_b", "aB", "", " ")
        for _ in range(n_columns):
            name: Any
            if multi > 1:
                name = ["t", [self.pick(("a", "b", "c d")) for _ in range(multi)]]
            else:
                which = self.below(8)
                name = self.pick(pool) if which < 6 else self.below(4) + 2 if which < 7 else bool(self.below(2))
            mark = repr(name)
            if mark in seen:
                continue
            seen.add(mark)
            columns.append([name, self.scalar_values(rows)])
        return ["df", columns]

    # ------------------------------------------------------------------ unusual shapes
    def chain(self) -> Spec:
        """Containers within containers, many levels deep."""
        spec = self.container(2)
        kinds = tuple(k for k in self.p.containers if k in ("list", "tuple", "dict", "mproxy", "iter"))
        mode = self.pick(self.p.keys)
        alone = self.below(2)
        for _ in range((5, 8, 12, 6, 18)[self.below(5)]):
            kind = self.pick(kinds)
            sibling = None if alone or self.below(3) else self.leaf()
            if kind in ("list", "tuple", "iter"):
                spec = [kind, [spec] if sibling is None else [spec, sibling] if self.below(2) else [sibling, spec]]
                continue
            items = [[self.key(mode), spec]]
            if sibling is not None:
                key = self.key(mode)
                if build(key) != build(items[0][0]):
                    items.insert(self.below(2), [key, sibling])
            spec = [kind, items]
        return spec

    def wide(self) -> Spec:
        """A container with children of many types, or with many keys."""
        kind = self.pick(tuple(k for k in self.p.containers if k in ("list", "tuple", "set", "frozenset", "dict", "mproxy", "iter")))
        hashable = kind in ("set", "frozenset")
        leaves = sorted(set(self.p.leaves) & HASHABLE_LEAVES) if hashable else sorted(set(self.p.leaves))
        children = [self.leaf_of(k, hashable) for k in leaves]
        children += self.many(1, 2 + self.below(12), hashable)
        children = self.draw(st.permutations(children))
        if kind not in ("dict", "mproxy"):
            return [kind, children]
        if self.below(2):
            children = [self.pick(children) for _ in children]
        if self.below(3) == 0:
            children = (children * 150)[: 30 + self.below(41) if self.below(6) else 120 + self.below(30)]
        spec: Spec = [kind, [[["s", f"{'k' if i % 2 else 'Key '}{i}"], child] for i, child in enumerate(children)]]
        return ["list", [self.variation(spec, 1), spec, self.variation(spec, 1)]] if "list" in self.p.containers and self.below(3) == 0 else spec

    def alike(self) -> Spec:
        """Many equal children, and sometimes one that is not, in a container that may be within another one."""
        kind = self.pick(tuple(k for k in self.p.containers if k in ("list", "tuple", "tuple", "iter")) or self.p.containers[:1])
        if kind not in ("list", "tuple", "iter"):
            return self.container(2)
        child = self.leaf() if self.below(2) else self.node(2)
        many = [child] * (33, 10, 49, 65, 101, 130, 257, 600, 1100)[self.below(9)]
        other = (0, 0, 1, 2)[self.below(4)]
        if other:
            many.insert(len(many) if other == 1 else self.below(len(many)), self.variation(child, 1) if self.below(2) else self.leaf())
        spec: Spec = [kind, many]
        if self.below(3) == 0:
            spec = ["dict", [[self.key("friendly"), spec]]] if "dict" in self.p.containers else spec
        return spec

    # ------------------------------------------------------------------ variations
    def variation(self, spec: Spec, depth: int) -> Spec:
        """A copy of the spec with one change, often one that is invisible from the point of view of types."""
        kind = spec[0]
        if kind == "df" and spec[1] and self.below(4):
            columns = [list(column) for column in spec[1]]
            changed = columns[self.below(len(columns))]
            if self.below(4) == 0 and len(columns) > 1:
                columns.remove(changed)
            else:
                changed[1] = [self.pick((["i", 1], ["s", "x"], ["f", 1.5], ["b", True]))] * len(changed[1])
            return ["df", columns, *spec[2:]]
        if kind == "series" and spec[1] and self.below(4):
            return ["series", [self.pick((["i", 1], ["s", "x"], ["f", 1.5], ["b", True]))] * len(spec[1])]
        if kind not in CONTAINER_KINDS or kind in ("series", "df"):
            which = self.below(4)
            if kind == "i" and which < 2:
                return ["f", 0.5] if which == 0 else ["i", spec[1] + 1]
            if kind == "f" and which < 2:
                return ["i", 7] if which == 0 else ["f", 9.5]
            if kind == "s" and which < 2:
                return ["s", spec[1] + "z"]
            return self.leaf()
        if kind == "point":
            position = 1 + self.below(2)
            new = list(spec)
            new[position] = self.variation(spec[position], depth - 1)
            return new
        children = list(spec[1])
        is_map = kind in ("dict", "mproxy", "odict", "ddict")
        action = self.below(7)
        if action == 0 and children:  # drop one
            del children[self.below(len(children))]
            return [kind, children]
        if action == 1:  # add one
            if is_map:
                mode = self.pick(self.p.keys)
                key = self.key(mode)
                built = build(key)
                if any(build(k) == built for k, _ in children):
                    return [kind, children]
                children.insert(self.below(len(children) + 1), [key, self.node(min(depth, 1))])
                return [kind, children]
            hashable = kind in ("set", "frozenset")
            children.insert(self.below(len(children) + 1), self.node(min(depth, 1), hashable))
            return [kind, children]
        if action == 2:  # another container
            if kind in ("set", "frozenset"):
                return [self.pick(("set", "frozenset")), children]
            if kind in ("list", "tuple"):
                return [self.pick(("list", "tuple")), children]
            if is_map:
                options = [c for c in ("dict", "mproxy", "odict") if c in self.p.containers] or ["dict"]
                return [self.pick(options), children]
        if action == 3 and len(children) > 1:  # another order
            i = self.below(len(children) - 1)
            children[i], children[i + 1] = children[i + 1], children[i]
            return [kind, children]
        if action == 4 and children and not is_map:  # repeat one
            children.append(children[self.below(len(children))])
            return [kind, children]
        if children:  # change one
            i = self.below(len(children))
            if is_map:
                children[i] = [children[i][0], self.variation(children[i][1], depth - 1)]
            else:
                varied = self.variation(children[i], depth - 1)
                if kind in ("set", "frozenset") and not is_hashable(varied):
                    varied = self.leaf(hashable=True)
                children[i] = varied
            return [kind, children]
        return spec


@lru_cache(maxsize=None)
def data(profile: Profile = FULL_NO_ITER, kind: str = "") -> st.SearchStrategy[Spec]:
    @st.composite
    def make(draw: Any) -> Spec:
        drawer = Drawer(draw, profile)
        depth_ = min((3, 2, 4, 1)[drawer.below(4)], profile.depth)
        if kind:
            return drawer.container_of(kind, depth_)
        if drawer.below(12) == 11:
            return drawer.leaf()
        if profile.depth >= 4:
            shape = drawer.below(32)
            if shape == 31:
                return drawer.chain()
            if shape == 30:
                return drawer.wide()
            if shape == 29:
                return drawer.alike()
        return drawer.container(depth_)

    return make()


@st.composite
def alike(draw: Any, profile: Profile = FULL_NO_ITER) -> Spec:
    return Drawer(draw, profile).alike()


# ------------------------------------------------------------------------------------------------ configuration

NAMES = ("Example", "MyClass", "example", "my_class", "_Private", "A", "x", "Data2", "CamelCase", "λData", "T1")


@st.composite
def configs(draw: Any, **fixed: Any) -> Dict[str, Any]:
    """Keyword arguments of ParsingStrategies."""
    out: Dict[str, Any] = {
        "list_strategy": draw(st.sampled_from(["list", "list", "Sequence"])),
        "tuple_size_strategy": draw(st.sampled_from(["fixed", "fixed", "any size"])),
        "dict_strategy": draw(st.sampled_from(["TypedDict", "TypedDict", "TypedDict", "dict", "Mapping"])),
        "pandas_strategies": draw(
            st.sampled_from(["Full type hint", "Type hint only for autocomplete", "Do not type hint columns"])
        ),
        "min_height_to_define_type_alias": draw(st.sampled_from([1, 0, 2, 3, 5, 1, 0, 2, 8])),
        "merge_different_typed_dicts_if_similarity_above": draw(st.sampled_from([50, 1, 25, 33, 34, 66, 67, 75, 80, 100])),
        "typed_dict_read_only_values": draw(st.sampled_from([False, False, True])),
        "check_max_n_elements_within_container": draw(st.sampled_from([500, 500, None, 1, 2, 3])),
    }
    out.update(fixed)
    return {k: v for k, v in out.items() if v is not ...}


names = st.sampled_from(NAMES)

NASTY_NAMES = (
    "_", "_1", "ª", "µm", "ﬁle", "𝔘x", "日本", "e\u0301a", "def_", "Class", "match", "type_", "_x_", "x__", "x" * 80, "ℼ",
    "Ⅷ", "print_", "a·b", "self", "cls", "DATA", "dictionary", "Typed", "ListList", "Dict2", "ExampleInt",
)
_name_start = st.sampled_from("abXYZ_λé日ªℼ")
_name_rest = st.text(alphabet="abAZ019_λé日·²ªㄱ\u0301", max_size=6)


def usable_name(name: str) -> bool:
    """Names of the domain: valid, and neither built in nor used by the generated modules themselves."""
    import keyword
    import unicodedata

    normal = unicodedata.normalize("NFKC", name)
    return (
        name.isidentifier()
        and not keyword.iskeyword(name)
        and normal not in RESERVED_NAMES
        and not normal.startswith("__")  # Known finding of C01
    )


RESERVED_NAMES = frozenset(dir(__import__("builtins"))) | {
    "List", "Set", "Tuple", "Type", "Dict", "Sequence", "Hashable", "FrozenSet", "Mapping", "MappingProxyType", "TypedDict",
    "Any", "Union", "Optional", "NotRequired", "ReadOnly", "Callable", "ModuleType", "Protocol", "Literal", "overload",
    "pandas", "pd", "np", "npt", "numpy", "NDArray", "Scalar", "TextIO", "Iterator", "TypeAlias", "annotations",
}
any_names = st.one_of(
    names, st.sampled_from(NASTY_NAMES), st.builds(str.__add__, _name_start, _name_rest).filter(usable_name)
)


def cases(profile: Profile = FULL_NO_ITER, kind: str = "", **fixed: Any) -> st.SearchStrategy[Dict[str, Any]]:
    """Data together with the strategies and the class name."""
    return with_config(data(profile, kind), **fixed)


def with_config(strategy: st.SearchStrategy[Spec], name: Any = names, **fixed: Any) -> st.SearchStrategy[Dict[str, Any]]:
    return st.fixed_dictionaries({"data": strategy, "config": configs(**fixed), "name": name})
