"""C06: every strategy rewrites its own constructor at every depth, and nothing else."""
from __future__ import annotations

from typing import Any, Callable, Dict

from hypothesis import strategies as st

from vlib import api, common, gen
from vlib.core import Part, require
from vlib.ir import canonical, show, union
from vlib.model import Model

ID = "C06"
RULE = (
    "the same data under two configurations that differ in one strategy: the second type must be the first one with the "
    "constructor rewritten (a metamorphic relation on the types of the executed modules). Where the strategy also takes part "
    "in comparing TypedDicts (tuples and TypedDicts within merged dictionaries) both must equal the reference model. "
    "Non-trivial: the two types differ; distinct by (data, strategies, switch)"
)


def rewrite(tp: Any, rule: Callable[[Any], Any]) -> Any:
    """Apply the rule to every type, from the innermost to the outermost."""
    if not isinstance(tp, tuple) or not tp:
        return tp
    kind = tp[0]
    if kind == "td":
        return rule(("td", tuple((k, rewrite(t, rule), r, o) for k, t, r, o in tp[1])))
    if kind == "df":
        return rule(("df", tuple((k, rewrite(t, rule)) for k, t in tp[1]), tp[2]))
    if kind == "union":
        return union(rewrite(t, rule) for t in tp[1])
    if kind == "tup":
        return rule(("tup", tuple(rewrite(t, rule) for t in tp[1])))
    if kind in ("proto", "callable", "type", "inst", "fwd", "nd"):
        return tp
    return rule((kind, *(rewrite(t, rule) for t in tp[1:])))


def to_sequence(tp: Any) -> Any:
    return ("seq", *tp[1:]) if tp[0] == "list" else tp


def to_mapping(tp: Any) -> Any:
    return ("map", *tp[1:]) if tp[0] == "dict" else tp


def to_read_only(tp: Any) -> Any:
    return ("td", tuple((k, t, r, True) for k, t, r, _ in tp[1])) if tp[0] == "td" else tp


def to_any_size(tp: Any) -> Any:
    if tp[0] != "tup":
        return tp
    parts = union(tp[1])
    return ("tupv", Model.absorb(parts[1]) if parts[0] == "union" else parts)


SWITCHES: Dict[str, Any] = {
    "list": ({"list_strategy": "list"}, {"list_strategy": "Sequence"}, to_sequence),
    "mapping": ({"dict_strategy": "dict"}, {"dict_strategy": "Mapping"}, to_mapping),
    "read only": ({"typed_dict_read_only_values": False}, {"typed_dict_read_only_values": True}, to_read_only),
    "tuple": ({"tuple_size_strategy": "fixed", "dict_strategy": "dict"}, {"tuple_size_strategy": "any size", "dict_strategy": "dict"}, to_any_size),
    "tuple with TypedDict": ({"tuple_size_strategy": "fixed"}, {"tuple_size_strategy": "any size"}, None),
    "TypedDict": ({"dict_strategy": "TypedDict"}, {"dict_strategy": "dict"}, None),
}


def judge(case: Dict[str, Any]) -> Any:
    before, after, rule = SWITCHES[case["switch"]]
    modules, expected = [], []
    source = common.source(case)
    for change in (before, after):
        data = source()
        config = {**case["config"], **change}
        if rule is None:
            expected.append(Model(config)(data))
        modules.append(common.Module(api.render(data, config, case["name"]), case["name"]))
    first, second = modules
    if rule is None:
        common.expect_same(first.root, expected[0], first.text)
        common.expect_same(second.root, expected[1], second.text)
    else:
        wanted, got = canonical(rewrite(first.root, rule)), canonical(second.root)
        require(
            got == wanted,
            lambda: f"switching `{case['switch']}` gives\n  {show(got)}\nbut should give\n  {show(wanted)}\nbefore:\n{first.text}\nafter:\n{second.text}",
        )
    differ = canonical(first.root) != canonical(second.root)
    return {"key": case if differ else None, "labels": [f"switch {case['switch']}{'' if differ else ' (no effect)'}"]}


def switched(profile: Any, **fixed: Any) -> Any:
    return st.builds(lambda case, switch: {**case, "switch": switch}, gen.cases(profile, **fixed), st.sampled_from(sorted(SWITCHES)))


PARTS = [
    Part("everything", lambda: switched(gen.FULL_NO_ITER), judge, quick=12000),
    Part("iterators", lambda: switched(gen.ITERATORS), judge, quick=4000),
    Part("builtin", lambda: switched(gen.BUILTIN), judge, quick=12000),
]
