"""C09: the element limit inspects exactly the first n elements of each limited container."""
from __future__ import annotations

import itertools
import types
from typing import Any, Dict, List

import pandas as pd
from hypothesis import strategies as st

from vlib import api, common, gen
from vlib.core import Part, Violation, require, sut
from vlib.ir import canonical, show

ID = "C09"
RULE = (
    "part `cut`: the type at limit n must be the type, without limit, of the same data with every limited container cut to its "
    "first n elements at every depth; part `long`: containers around the limit (default 500 included) with one odd element at a "
    "chosen position, seen exactly if it is within the limit; part `endless`: endless iterators, read at most a little beyond "
    "the limit. Non-trivial: something was cut; distinct by case"
)
ASSUMPTIONS = ["under dict_strategy='TypedDict' no dictionary is limited, but mappingproxies are"]


class Counted:
    """Iterator that knows how many elements were taken, and gives up far beyond any sensible number."""

    def __init__(self, elements: Any, most: int) -> None:
        self.elements, self.most, self.taken = iter(elements), most, 0

    def __iter__(self) -> "Counted":
        return self

    def __next__(self) -> Any:
        self.taken += 1
        if self.taken > self.most:
            raise Violation(f"more than {self.most} elements of an endless iterator were inspected")
        return next(self.elements)


class Cutter:
    def __init__(self, limit: int, typed_dict: bool) -> None:
        self.limit, self.typed_dict, self.cuts = limit, typed_dict, 0

    def first(self, elements: List[Any]) -> List[Any]:
        self.cuts += len(elements) > self.limit
        return elements[: self.limit]

    def __call__(self, data: Any) -> Any:
        if isinstance(data, list):
            return [self(e) for e in self.first(data)]
        if isinstance(data, tuple) and not hasattr(data, "_fields"):
            return tuple(self(e) for e in self.first(list(data)))
        if isinstance(data, (set, frozenset)):
            return type(data)(self(e) for e in self.first(list(data)))
        if isinstance(data, types.MappingProxyType):
            return types.MappingProxyType({self.key(k): self(v) for k, v in self.first(list(data.items()))})
        if type(data) is dict:
            items = list(data.items()) if self.typed_dict else self.first(list(data.items()))
            return {self.key(k): self(v) for k, v in items}
        if isinstance(data, pd.Series):
            self.cuts += len(data) > self.limit
            return data.iloc[: self.limit]
        if isinstance(data, pd.DataFrame):
            self.cuts += len(data) > self.limit
            return data.iloc[: self.limit]
        if isinstance(data, Counted):
            elements = list(itertools.islice(data, self.limit + 1))
            return iter([self(e) for e in self.first(elements)])
        return data

    def key(self, key: Any) -> Any:
        return key


def build_iterators(spec: Any, limit: int) -> Any:
    """As gen.build, with counted iterators."""
    if spec[0] == "iter":
        return Counted([build_iterators(e, limit) for e in spec[1]], limit + 50)
    if spec[0] == "list":
        return [build_iterators(e, limit) for e in spec[1]]
    if spec[0] == "tuple":
        return tuple(build_iterators(e, limit) for e in spec[1])
    if spec[0] == "dict":
        return {gen.build(k): build_iterators(v, limit) for k, v in spec[1]}
    return gen.build(spec)


def judge_cut(case: Dict[str, Any]) -> Any:
    config, name = case["config"], case["name"]
    limit = config["check_max_n_elements_within_container"]
    cutter = Cutter(limit, config["dict_strategy"] == "TypedDict")
    has_iterators = "iter" in gen.kinds_of(case["data"])
    data = build_iterators(case["data"], limit)
    short = cutter(build_iterators(case["data"], limit) if has_iterators else data)
    limited = common.Module(api.render(data, config, name), name)
    whole = {**config, "check_max_n_elements_within_container": None}
    cut = common.Module(api.render(short, whole, name), name)
    require(
        canonical(limited.root) == canonical(cut.root),
        lambda: f"limit {limit} gives\n  {show(canonical(limited.root))}\nthe first {limit} elements give\n  {show(canonical(cut.root))}\n{limited.text}\n{cut.text}",
    )
    labels = common.labels_of(case) + ([f"{min(cutter.cuts, 4)} cuts"])
    return {"key": case if cutter.cuts else None, "labels": labels}


DEFAULT = 500


def judge_long(case: Dict[str, Any]) -> Any:
    """n equal elements with an odd one at some position."""
    config = dict(case["config"])
    limit = config.get("check_max_n_elements_within_container", DEFAULT)
    kind, length, position = case["kind"], case["length"], case["position"]
    seen = limit is None or position < limit
    data: Any
    if kind in ("dict", "mproxy", "typed dict"):
        config["dict_strategy"] = "TypedDict" if kind != "dict" else case["config"]["dict_strategy"]
        items: Dict[Any, Any] = {f"k{i}": "odd" if i == position else i for i in range(length)}
        if kind == "dict":
            seen = seen or config["dict_strategy"] == "TypedDict"
        data = types.MappingProxyType(items) if kind == "mproxy" else items
        if kind == "typed dict":
            seen = True
    else:
        elements: List[Any] = ["odd" if i == position else i for i in range(length)]
        if kind == "set":
            data = set(elements)
            order = list(data)
            seen = limit is None or order.index("odd") < limit
        elif kind == "iter":
            data = iter(elements)
        elif kind == "series":
            data = pd.Series(elements, dtype=object)
        elif kind == "df":
            data = pd.DataFrame({"x": pd.Series([1.5] * length), "odd one": pd.Series(elements, dtype=object)})
        else:
            data = {"list": list, "tuple": tuple, "frozenset": frozenset}[kind](elements)
            if kind == "frozenset":
                seen = limit is None or list(data).index("odd") < limit
    if case["nested"]:
        data = {"inner": [data]}
    text = api.render(data, config, "Example")
    module = common.Module(text, "Example")
    shown = "('inst', 'str')" in repr(module.root)
    if kind in ("dict", "mproxy"):
        tp = module.root
        if case["nested"]:
            tp = tp[1][0][1][1] if tp[0] == "td" else tp[2][1]
        shown = (
            any(t == ("inst", "str") for _, t, _, _ in tp[1]) if tp[0] == "td" else "('inst', 'str')" in repr(tp[2])
        )
    if kind == "typed dict":
        require(repr(module.root).count("'k") == length, lambda: f"fields of the TypedDict were dropped\n{text:.3000}")
    elif config.get("dict_strategy") != "TypedDict" and case["nested"] and kind not in ("dict", "mproxy"):
        shown = "('inst', 'str')" in repr(module.root[2])
    require(
        shown == seen,
        lambda: f"an odd element at position {position} of {length} is {'' if shown else 'not '}part of the hint, with limit {limit}\n{text:.3000}",
    )
    # Non-trivial if the limit is close to the odd element or to the length
    return {"key": case if limit is not None else None, "labels": [kind, f"limit {limit}", "seen" if seen else "not seen"]}


def judge_endless(case: Dict[str, Any]) -> Any:
    limit = case["limit"]
    effective = limit or DEFAULT
    config = {**case["config"]}
    if limit:
        config["check_max_n_elements_within_container"] = limit
    iterators: List[Counted] = []

    def endless(spec: Any) -> Counted:
        elements = [gen.build(e) for e in spec]
        iterators.append(Counted(itertools.cycle(elements), effective + 50))
        return iterators[-1]

    data: Any = endless(case["elements"])
    where = case["where"]
    if where == "list":
        data = [data, endless(case["elements"][::-1])]
    elif where == "dict":
        data = {"a": data, "b": (endless(case["elements"]), 1)}
    elif where == "iterator":
        iterators.append(Counted(itertools.chain([data], itertools.repeat(1)), effective + 50))
        data = iterators[-1]
    text = api.render(data, config, "Example")
    module = common.Module(text, "Example")
    require("('iter', " in repr(module.root), lambda: f"no iterator is hinted\n{text}")
    if where == "":
        expected = common.module_of(["list", (case["elements"] * effective)[:effective]], {**config, "check_max_n_elements_within_container": effective})
        require(
            canonical(module.root)[1] == canonical(expected.root)[1],
            lambda: f"endless iterator:\n{text}\nits first elements as list:\n{expected.text}",
        )
    return {"key": case, "labels": [f"limit {limit}", where or "root"]}


limits = st.sampled_from([1, 2, 3, 1, 2, 4])
HASHED = gen.replace(gen.FULL, containers=tuple(c for c in gen.FULL.containers if c not in ("iter", "odict", "ddict", "point")), width=5)
WITH_ITERATORS = gen.replace(gen.ITERATORS, containers=("iter", "list", "tuple", "dict", "iter", "dict"), width=5)


def cut_cases(profile: Any) -> Any:
    return st.builds(
        lambda case, limit: {**case, "config": {**case["config"], "check_max_n_elements_within_container": limit}},
        gen.cases(profile), limits,
    )


def long_cases() -> Any:
    def finish(limit: Any, length: int, position: int, kind: str, nested: bool, dict_strategy: str, list_strategy: str, unlimited: int) -> Any:
        centre = {None: unlimited, ...: DEFAULT}.get(limit, limit)
        length = max(1, centre + length)
        position = max(0, min(length - 1, centre + position if position < 50 else 0))
        config: Dict[str, Any] = {"dict_strategy": dict_strategy, "list_strategy": list_strategy}
        if limit is not ...:
            config["check_max_n_elements_within_container"] = limit
        return {"config": config, "kind": kind, "length": length, "position": position, "nested": nested}

    return st.builds(
        finish,
        st.sampled_from([..., None, 1, 2, 5, 7, 64, 499, 501, 600, None, 1100, 2100]),
        st.sampled_from([1, 0, 2, -1, 5, 130]),
        st.sampled_from([0, -1, 1, -2, 2, 4, 60]),
        st.sampled_from(["list", "tuple", "set", "frozenset", "iter", "series", "df", "dict", "mproxy", "typed dict"]),
        st.booleans(),
        st.sampled_from(["TypedDict", "dict", "Mapping"]),
        st.sampled_from(["list", "Sequence"]),
        st.sampled_from([600, 1200, 2500]),
    )


def endless_cases() -> Any:
    def config(c: Any) -> Any:
        return {k: v for k, v in c.items() if k != "check_max_n_elements_within_container"}

    drawn = st.lists(gen.data(gen.SIMPLE), min_size=1, max_size=4)
    return st.fixed_dictionaries(
        {
            "elements": drawn, "config": gen.configs().map(config), "limit": st.sampled_from([1, 2, 3, 5, 20, 0]),
            "where": st.sampled_from(["", "list", "dict", "iterator"]),
        }
    )


PARTS = [
    Part("cut", lambda: cut_cases(HASHED), judge_cut, quick=6000),
    Part("cut, iterators", lambda: cut_cases(WITH_ITERATORS), judge_cut, quick=5000),
    Part("long", long_cases, judge_long, quick=800),
    Part("endless", endless_cases, judge_endless, quick=300),
]
