"""C07: the text is a function of data, strategies and name alone."""
from __future__ import annotations

import ast
import os
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st

from vlib import api, common, gen
from vlib.core import Part, Probe, Violation, require, sut
from vlib.server import OtherProcess

ID = "C07"
RULE = (
    "part `history`: sequences of to_string calls with and without imports, interleaved with other data (also ones that are equal by value and have other types) given to the same and "
    "other instances; part `changed in place`: one object, with other content in later calls; part `process`: the same cases in another process with another hash seed and another history (also classes and keys whose names only differ in letter case). "
    "Non-trivial: at least 3 nodes; distinct by case"
)
ASSUMPTIONS = ["across processes only sets of at most one element are generated, as the order of others depends on the hash seed"]
_other: Optional[OtherProcess] = None


def worker_setup() -> None:
    global _other
    number = 8 * int(os.environ.get("VERIF_SEED", "1")) + int(os.environ.get("VERIF_WORKER", "0"))
    _other = OtherProcess((number + 12345) % 4294967295)


def worker_teardown() -> None:
    if _other:
        _other.close()


def without_imports(text: str) -> List[str]:
    """Lines of the module that are neither blank nor part of an import statement."""
    lines: List[Optional[str]] = list(text.split("\n"))
    for node in sut(ast.parse, text, what="parsing the module").body:
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            for i in range(node.lineno - 1, node.end_lineno or node.lineno):
                lines[i] = None
    return [line for line in lines if line is not None and line.strip()]


def equal_values(spec: Any, seed: int) -> Any:
    """The same data with numbers that are equal and of other types."""
    if not isinstance(spec, list):
        return spec
    if len(spec) == 2 and spec[0] in ("i", "b", "f") and isinstance(spec[1], (int, float)):
        number = spec[1]
        if number in (0, 1):
            kinds = [["i", int(number)], ["b", bool(number)], ["f", float(number)]]
            return kinds[(seed + [k[0] for k in kinds].index(spec[0])) % 3]
        return ["f", float(number)] if spec[0] == "i" else ["i", int(number)] if number == number and abs(number) < 1e15 and number == int(number) else spec
    return [equal_values(e, seed) for e in spec]


def judge_history(case: Dict[str, Any]) -> Any:
    config, name = case["config"], case["name"]
    fresh = common.source(case)
    generator = sut(lambda: api.LazyTypeHint(api.strategies(config)))
    tree = sut(generator.from_data, fresh(), class_name=name)
    texts: Dict[bool, str] = {}
    trees = [tree]

    def render(which: Any, include: bool) -> None:
        text = sut(which.to_string, include_imports=include, what="to_string")
        require(
            texts.setdefault(include, text) == text,
            lambda: f"include_imports={include} gave\n{texts[include]}\nand later\n{text}",
        )

    for step in case["steps"]:
        kind = step[0]
        if kind == "render":
            render(trees[-1], step[1])
        elif kind == "render first":
            render(trees[0], step[1])
        elif kind == "again":
            trees.append(sut(generator.from_data, fresh(), class_name=name))
        elif kind == "other instance":
            trees.append(api.tree(fresh(), config, name))
        elif kind == "equal data":
            equal = equal_values(case["data"], step[1])
            equal_data = common.source({"data": equal})
            got = sut(sut(generator.from_data, equal_data(), class_name=name).to_string)
            expected = api.render(equal_data(), config, name)
            require(got == expected, lambda: f"after equal data:\n{got}\nwithout:\n{expected}")
        elif kind == "other data":
            noise = step[1]
            sut(sut(generator.from_data, gen.build(noise["data"]), class_name=noise["name"]).to_string)
        else:
            noise = step[1]
            api.render(gen.build(noise["data"]), noise["config"], noise["name"])
    for include in case["last"]:
        render(trees[-1], include)
    render(trees[0], True)
    render(trees[0], False)
    require(
        without_imports(texts[True]) == [line for line in texts[False].split("\n") if line.strip()],
        lambda: f"without imports:\n{texts[False]}\nwith them:\n{texts[True]}",
    )
    same = ast.dump(ast.parse("\n".join(without_imports(texts[True])))) == ast.dump(ast.parse(texts[False]))
    require(same, lambda: f"without imports:\n{texts[False]}\nwith them:\n{texts[True]}")
    labels = common.labels_of(case) + [f"step {step[0]}" for step in case["steps"]]
    return {"key": common.nested_key(case), "labels": labels}


def judge_changed(case: Dict[str, Any]) -> Any:
    """An object that is changed in place between two calls is as good as a new one."""
    config, name = case["config"], case["name"]

    def around(inner: Any) -> Any:
        return inner if case["around"] == "nothing" else [inner] if case["around"] == "list" else {"k": inner, "other": 1} if case["around"] == "dict" else ([inner], inner)

    generator = sut(lambda: api.LazyTypeHint(api.strategies(config)))
    subject, later = gen.build(case["data"]), gen.build(case["later"])
    data = around(subject)
    sut(sut(generator.from_data, data, class_name=name).to_string)
    if isinstance(subject, list):
        subject[:] = later
    else:
        subject.clear()
        subject.update(later)
    got = sut(sut(generator.from_data, data, class_name=name).to_string)
    expected = api.render(around(gen.build(case["later"])), config, name)
    require(got == expected, lambda: f"after the data were changed in place:\n{got}\nfor new data:\n{expected}")
    return {"key": case if case["data"] != case["later"] else None, "labels": [f"around {case['around']}", case["data"][0]]}


@st.composite
def changed(draw: Any) -> Dict[str, Any]:
    drawer = gen.Drawer(draw, gen.BUILTIN)
    kind = draw(st.sampled_from(("list", "dict")))
    data, later = drawer.container_of(kind, 2), drawer.container_of(kind, 2)
    data, later = [data[0], data[1]], [later[0], later[1]]
    return {"data": data, "later": later, "config": draw(gen.configs()), "name": draw(gen.names), "around": draw(st.sampled_from(("nothing", "list", "dict", "tuple")))}


def judge_process(case: Dict[str, Any]) -> Any:
    assert _other
    here = api.render(gen.build(case["data"]), case["config"], case["name"])
    there = _other.render(case)
    require(here == there, lambda: f"here:\n{here}\nin another process:\n{there}")
    return {"key": common.nested_key(case), "labels": common.labels_of(case)}


def small_sets(spec: Any) -> Any:
    if not isinstance(spec, list):
        return spec
    if len(spec) in (2, 3) and spec[0] in ("set", "frozenset"):
        return [spec[0], [small_sets(e) for e in spec[1][:1]], *spec[2:]]
    return [small_sets(e) for e in spec]


def histories(profile: Any) -> Any:
    noise = gen.cases(gen.BUILTIN)
    steps = st.lists(
        st.one_of(
            st.tuples(st.sampled_from(["render", "render first"]), st.booleans()),
            st.tuples(st.just("render"), st.booleans()),
            st.tuples(st.sampled_from(["again", "other instance"])),
            st.tuples(st.sampled_from(["other data", "other"]), noise),
            st.tuples(st.just("equal data"), st.integers(0, 7)),
        ).map(list),
        max_size=4,
    )
    return st.builds(
        lambda case, steps, last: {**case, "steps": steps, "last": last},
        gen.cases(profile), steps, st.sampled_from([[True, False, True], [False, True, False], [False, True]]),
    )


def for_processes(profile: Any) -> Any:
    return gen.with_config(gen.data(profile).map(small_sets), gen.any_names)


def similar_names() -> Any:
    """Containers with instances of, and references to, classes whose names are alike."""
    leaf = st.sampled_from([["inst", "Kappa"], ["inst", "KAPPA"], ["inst", "kappa"], ["inst", "Zeta"], ["cls", "KAPPA"], ["cls", "kappa"], ["i", 1], ["n"]])
    few = st.lists(leaf, min_size=1, max_size=5)
    inner = st.one_of(st.builds(lambda kind, elements: [kind, elements], st.sampled_from(["list", "tuple", "tuple"]), few), leaf)
    keys = st.sampled_from(["ab", "aB", "AB", "Ab", "a b", "a_b"])
    middle = st.one_of(
        inner, st.builds(lambda pairs: ["dict", [[["s", key], value] for key, value in pairs]], st.lists(st.tuples(keys, inner), max_size=4, unique_by=lambda pair: pair[0]))
    )
    return gen.with_config(st.builds(lambda kind, elements: [kind, elements], st.sampled_from(["list", "tuple"]), st.lists(middle, min_size=1, max_size=4)))


PARTS = [
    Part("history", lambda: histories(gen.FULL_NO_ITER), judge_history, quick=3000),
    Part("history, iterators", lambda: histories(gen.ITERATORS), judge_history, quick=1200),
    Part("history, builtin", lambda: histories(gen.BUILTIN), judge_history, quick=2500),
    Part("changed in place", changed, judge_changed, quick=1500),
    Part("process", lambda: for_processes(gen.FULL), judge_process, quick=6000),
    Part("process, dictionaries", lambda: for_processes(gen.NAMING), judge_process, quick=5000),
    Part("process, similar names", similar_names, judge_process, quick=2500),
]


def many_imports() -> None:
    """Enough distinct imports for several lines, in both processes."""
    spec = ["list", [["set", [["i", 1]]], ["tuple", [["n"]]], ["frozenset", []], ["dict", [[["s", "a"], ["list", []]]]],
                     ["dict", [[["i", 1], ["f", 1.5]]]], ["mproxy", []], ["cls", "int"], ["fn", "f_any"], ["mod", "math"]]]
    judge_process({"data": spec, "config": {"typed_dict_read_only_values": True}, "name": "Example"})


PROBES = [Probe("many imports", many_imports)]
