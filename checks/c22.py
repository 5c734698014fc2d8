"""C22: order and repetition of elements, and order of dictionaries, do not matter."""
from __future__ import annotations

import random
from typing import Any, Dict, List

from hypothesis import strategies as st

from vlib import common, gen
from vlib.core import Part, require
from vlib.ir import canonical, show

ID = "C22"
RULE = (
    "nested data and three rearrangements of them by a seed (elements of lists, iterators and any-size tuples permuted and repeated, items of dictionaries and mapping proxies permuted, "
    "at every depth), and the same data built again: the meanings of the executed modules must be equal apart from the order of fields. Non-trivial: a rearrangement differs from the data; distinct by case"
)
ASSUMPTIONS = ["containers are within the element limit", "fixed-size tuples keep the order of their elements"]


def rearranged(spec: Any, rng: random.Random, config: Dict[str, Any]) -> Any:
    kind = spec[0]
    if kind in ("list", "iter") or (kind == "tuple" and config["tuple_size_strategy"] == "any size"):
        elements: List[Any] = []
        for element in spec[1]:
            elements.append(rearranged(element, rng, config))
            if rng.random() < 0.25:
                elements.append(rearranged(element, rng, config))
        rng.shuffle(elements)
        return [kind, elements]
    if kind == "tuple":
        return [kind, [rearranged(e, rng, config) for e in spec[1]]]
    if kind in ("set", "frozenset"):
        elements = list(spec[1])
        if len({gen.build(e) for e in elements}) == len(elements):  # Otherwise another one of several equal elements is kept
            rng.shuffle(elements)
        return [kind, elements]
    if kind in ("dict", "mproxy", "odict", "ddict"):
        items = [[k, rearranged(v, rng, config)] for k, v in spec[1]]
        rng.shuffle(items)
        return [kind, items]
    if kind == "point":
        return [kind, rearranged(spec[1], rng, config), rearranged(spec[2], rng, config)]
    if kind == "series" and len(spec) > 2 and spec[2] == "object":
        elements = [rearranged(e, rng, config) for e in spec[1]]
        rng.shuffle(elements)
        return [kind, elements + elements[: rng.randrange(2)], "object"]
    if kind == "df":
        columns = list(spec[1])
        if len({repr(c[0]) for c in columns}) == len(columns):
            rng.shuffle(columns)
        return [kind, columns, *spec[2:]]
    return spec


def judge(case: Dict[str, Any]) -> Any:
    config, name = case["config"], case["name"]
    first = common.module_of(case["data"], config, name)
    different = 0
    for k in range(3):
        spec = rearranged(case["data"], random.Random(f"{case['seed']}-{k}"), config) if k else case["data"]
        different += spec != case["data"]
        other = common.module_of(spec, config, name)
        require(
            canonical(other.root) == canonical(first.root),
            lambda: f"{spec}\nmeans\n  {show(canonical(other.root))}\nbut the original\n  {show(canonical(first.root))}\n{other.text}\n{first.text}",
        )
    return {"key": case if different else None, "labels": common.labels_of(case) + [f"{different} rearrangements differ"]}


def strategy(profile: Any, kind: str = "") -> Any:
    return st.builds(lambda case, seed: {**case, "seed": seed}, gen.cases(profile, kind, check_max_n_elements_within_container=5000), st.integers(0, 10**6))


@st.composite
def similar(draw: Any) -> Dict[str, Any]:
    """Containers of nearly equal dictionaries, close to the similarity limits."""
    drawer = gen.Drawer(draw, gen.replace(gen.SIMPLE, depth=3))
    base = drawer.container_of("dict", draw(st.integers(0, 2)))
    elements = [base]
    for _ in range(draw(st.integers(1, 4))):
        elements.append(drawer.variation(draw(st.sampled_from(elements)), 2))
    spec: Any = [draw(st.sampled_from(["list", "list", "tuple", "iter"])), elements]
    if draw(st.integers(0, 2)) == 0:
        spec = [draw(st.sampled_from(["list", "tuple"])), [spec, [spec[0], [drawer.variation(e, 2) for e in elements]]]]
    case = {"data": spec, "config": draw(gen.configs(check_max_n_elements_within_container=5000)), "name": draw(gen.names), "seed": draw(st.integers(0, 10**6))}
    case["config"]["dict_strategy"] = "TypedDict"
    return case


PARTS = [
    Part("full", lambda: strategy(gen.FULL), judge, quick=7000),
    Part("similar dictionaries", similar, judge, quick=10000),
    Part("iterators", lambda: strategy(gen.ITERATORS), judge, quick=2400),
    Part("dictionaries", lambda: strategy(gen.SIMPLE, "dict"), judge, quick=4500),
]
