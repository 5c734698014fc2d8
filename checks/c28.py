"""C28: the effort of hinting grows moderately with the depth and with the number of elements."""
from __future__ import annotations

import sys
from typing import Any, Callable, Dict, List

from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Part, Probe, require, sut

from lazy_type_hint import LazyTypeHint

ID = "C28"
RULE = (
    "`deep`: a pattern of 1-4 levels (sequences, mappings and iterators with siblings) is nested n and 2n times in itself; `wide`: a container has n and 2n elements or keys that differ from one another; `rows`: "
    "the same for merging dictionaries, series and frames. The calls (of Python and built-in functions) of from_data and to_string are counted: twice the size must need at most FACTOR times the calls. "
    "Non-trivial: more than 5000 calls; distinct by case"
)
FACTOR = 16
"""Anything up to the fourth power passes; doubling with each of 7 levels would be 128."""
REPEAT = 7
ASSUMPTIONS = [
    "calls are a measure of effort that does not depend on the machine; work within one built-in call is not counted",
    "tuples with merged dictionaries that are nested in each other are left out (known finding)",
]


class TooMuch(BaseException):
    pass


def calls_of(action: Callable[[], Any], most: float = float("inf")) -> int:
    count = 0

    def profile(frame: Any, event: str, arg: Any) -> None:
        nonlocal count
        if event in ("call", "c_call"):
            count += 1
            if count > most:
                sys.setprofile(None)
                raise TooMuch

    previous = sys.getprofile()
    sys.setprofile(profile)
    try:
        action()
    except TooMuch:
        pass
    finally:
        sys.setprofile(previous)
    return count


def measure(small: Any, large: Any, config: Dict[str, Any], what: str) -> int:
    def run(spec: Any) -> Callable[[], Any]:
        data = gen.build(spec)
        generator = LazyTypeHint(api.strategies(config))
        return lambda: generator.from_data(data, class_name="Example").to_string()

    before = sut(calls_of, run(small), what="from_data")
    most = FACTOR * (before + 500)
    after = sut(calls_of, run(large), most, what="from_data")
    require(after <= most, lambda: f"{what}: {before} calls, and more than {most} for twice the size\n{gen.build(small)!r:.800}\n{config}")
    return after


def nested(case: Dict[str, Any], repeat: int) -> Any:
    spec = case["leaf"]
    for i in range(repeat):
        for kind, key, before, after in case["pattern"]:
            if kind in ("list", "tuple", "iter", "frozenset"):
                spec = [kind, [*before, spec, *after]]
            elif kind == "series":
                spec = [kind, [*before, spec, *after, ["list", []]], "object"]
            elif kind == "df":
                spec = [kind, [["a", [*before, spec, *after], "object"], [key, [["i", 1]] * (1 + len(before) + len(after))]]]
            else:
                items = [[["s", f"{key}{j or ''}"], value] for j, value in enumerate([spec, *before, *after])]
                spec = [kind, items if len(before) < 2 else items[::-1]]
    return spec


def judge_deep(case: Dict[str, Any]) -> Any:
    calls = measure(nested(case, REPEAT), nested(case, 2 * REPEAT), case["config"], f"{REPEAT} and {2 * REPEAT} levels")
    return {"key": case if calls > 5000 else None, "labels": [f"{len(case['pattern'])} levels", *sorted({f"of {level[0]}" for level in case["pattern"]})]}


@st.composite
def deep(draw: Any) -> Any:
    drawer = gen.Drawer(draw, gen.BUILTIN)
    pattern: List[Any] = []
    leaf = drawer.leaf() if drawer.below(3) else drawer.container(1)
    hashable = drawer.below(5) == 4
    if hashable:
        leaf = ["i", 1]
    for _ in range(1 + drawer.below(4)):
        kind = drawer.pick(("frozenset", "tuple", "frozenset") if hashable else ("list", "dict", "dict", "list", "tuple", "mproxy", "iter", "series", "df", "ddict"))
        siblings = []
        for _ in range((0, 1, 2, 0)[drawer.below(4)]):
            sibling = drawer.leaf(hashable) if drawer.below(3) else drawer.container(1, hashable)
            if kind in ("tuple", "iter") and "dict" in gen.kinds_of(sibling):
                sibling = ["s", ""]
            siblings.append(sibling)
        where = drawer.below(len(siblings) + 1)
        pattern.append([kind, drawer.pick(("a", "key", "a b", "Items", "items", "2")), siblings[:where], siblings[where:]])
    # The same dictionary with fewer or more keys next to the nested one
    if drawer.below(3) == 2 and any(level[0] == "dict" for level in pattern):
        twin = next(level for level in pattern if level[0] == "dict")
        items = [[["s", f"{twin[1]}{j + 1}"], value] for j, value in enumerate([*twin[2], *twin[3]])]
        pattern.append(["list", "a", [], [["dict", items]]])
    return {"pattern": pattern, "leaf": leaf, "config": draw(gen.configs())}


def elements(case: Dict[str, Any], n: int) -> Any:
    """n different elements in a container."""
    out: List[Any] = []
    for i in range(n):
        spec = case["base"]
        for j, (kind, key) in enumerate(case["pattern"]):
            number = (i // 3**j) % 3 if kind in ("list", "tuple") else i
            if kind in ("list", "tuple"):
                spec = [kind, [spec] * (1 + number)]
            else:
                spec = [kind, [[["s", f"{key}{number}"], spec], [["s", "common"], ["i", 1]]]]
        out.append(spec)
    root = case["root"]
    if root in ("list", "tuple", "iter"):
        return [root, out]
    return [root, [[["s", f"{case['key']}{i if case['different'] else 'x' * (i % 4) + str(i)}"], spec] for i, spec in enumerate(out)]]


def judge_wide(case: Dict[str, Any]) -> Any:
    calls = measure(elements(case, case["n"]), elements(case, 2 * case["n"]), case["config"], f"{case['n']} and {2 * case['n']} elements")
    return {"key": case if calls > 5000 else None, "labels": [case["root"], *sorted({f"of {level[0]}" for level in case["pattern"]})]}


@st.composite
def wide(draw: Any) -> Any:
    drawer = gen.Drawer(draw, gen.BUILTIN)
    pattern = [[drawer.pick(("dict", "list", "tuple", "mproxy")), drawer.pick(("k", "a b", "Key"))] for _ in range(drawer.below(4))]
    return {
        "base": drawer.leaf(), "pattern": pattern, "root": drawer.pick(("list", "dict", "tuple", "mproxy", "iter")), "key": drawer.pick(("k", "a b", "é")),
        "different": bool(drawer.below(2)), "n": drawer.pick((20, 30, 45)), "config": {**draw(gen.configs()), "check_max_n_elements_within_container": draw(st.sampled_from([None, 500]))},
    }


def rows(case: Dict[str, Any], n: int) -> Any:
    kind = case["kind"]
    values = [case["values"][i % len(case["values"])] for i in range(n)]
    if kind == "series":
        return ["series", values, "object"]
    if kind == "rows":
        return ["df", [["a", values, "object"], ["b", [["i", 1]] * n]]]
    if kind == "columns":
        return ["df", [[f"c{i}", [value], "object"] for i, value in enumerate(values)]]
    if kind == "levels":
        return ["df", [[["t", [f"c{i // 3}", f"d{i % 3}"]], [value], "object"] for i, value in enumerate(values)]]
    keys = [["s", f"k{i}"] for i in range(n)]
    dictionaries = [["dict", [[key, value] for j, (key, value) in enumerate(zip(keys, values)) if j != i or kind == "equal"]] for i in range(n)]
    return ["list" if kind != "tuple" else "tuple", dictionaries]


def judge_rows(case: Dict[str, Any]) -> Any:
    calls = measure(rows(case, case["n"]), rows(case, 2 * case["n"]), case["config"], f"{case['n']} and {2 * case['n']} {case['kind']}")
    return {"key": case if calls > 5000 else None, "labels": [case["kind"]]}


@st.composite
def tables(draw: Any) -> Any:
    drawer = gen.Drawer(draw, gen.BUILTIN)
    return {
        "values": [drawer.leaf() for _ in range(1 + drawer.below(4))], "kind": drawer.pick(("series", "rows", "columns", "levels", "merged", "tuple", "equal")), "n": drawer.pick((12, 16, 24)),
        "config": draw(gen.configs()),
    }


def tuples_of_merged() -> None:
    """Each level of tuples of two dictionaries that merge takes twice as long."""
    def data(n: int) -> Any:
        out: Any = ["i", 1]
        for _ in range(n):
            out = ["tuple", [["dict", [[["s", "id"], ["i", 1]], [["s", "next"], out]]], ["dict", [[["s", "id"], ["i", 1]]]]]]
        return out

    measure(data(REPEAT), data(2 * REPEAT), {}, f"{REPEAT} and {2 * REPEAT} levels")


PARTS = [
    Part("deep", deep, judge_deep, quick=2500),
    Part("wide", wide, judge_wide, quick=600),
    Part("rows", tables, judge_rows, quick=600),
]
PROBES = [Probe("tuples of merged dictionaries", tuples_of_merged, finding="nested-tuples-of-merged")]
