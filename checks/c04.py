"""C04: similar dictionaries of one container are merged by the documented rule."""
from __future__ import annotations

from typing import Any, Dict, List

from hypothesis import strategies as st

from vlib import api, common, gen
from vlib.core import Part, require
from vlib.ir import canonical
from vlib.model import Model

ID = "C04"
RULE = (
    "containers of TypedDicts that share keys, at random thresholds; the generated type must be the one of the reference "
    "model of the merging rule. Non-trivial: different shapes met and were merged, or were kept apart by the rule; "
    "distinct by (data, strategies, name)"
)
THRESHOLDS = (50, 1, 10, 20, 25, 33, 34, 40, 49, 51, 60, 66, 67, 75, 80, 90, 99, 100)


@st.composite
def similar(draw: Any, kinds: Any = ("list", "tuple", "list", "iter")) -> Any:
    """A container of dictionaries with keys from one small pool, whose values mostly have the type that the key has elsewhere."""
    drawer = gen.Drawer(draw, gen.SIMPLE)
    pool = ["a", "b", "c", "d", "e", "f g", "class"][: 2 + drawer.below(6)]
    if drawer.below(4) == 3:
        pool[drawer.below(len(pool))] = drawer.pick(("", "__x", "a-b", "é", "2", 'say "x"', "\\", "None"))
    palette = {key: drawer.node(drawer.pick((0, 0, 1, 0, 0, 2))) for key in pool}

    variable = drawer.below(5) >= 3

    def dictionary(nested: int) -> Any:
        items = []
        for key in pool:
            if drawer.below(4) == 3:
                continue
            action = drawer.below(10) if variable else 0
            value = palette[key]
            if action == 9:
                value = drawer.node(1)
            elif action >= 7:
                value = drawer.variation(value, 1)
            elif action == 6 and nested:
                value = dictionary(0)
            elif action == 5 and nested:
                value = [drawer.pick(("list", "tuple")), [dictionary(0) for _ in range(1 + drawer.below(3))]]
            items.append([["s", key], value])
        if drawer.below(3) == 0:
            items.reverse()
        return ["dict", items]

    elements = [dictionary(1) for _ in range(1 + drawer.below(5))]
    for _ in range(drawer.below(3)):
        elements.insert(drawer.below(len(elements) + 1), drawer.leaf() if drawer.below(2) else drawer.pick(elements))
    out: Any = [drawer.pick(kinds), elements]
    wrap = drawer.below(6)
    if wrap == 4:
        out = ["dict", [[["s", "outer"], out], [["s", "other"], drawer.leaf()]]]
    if wrap == 5:
        out = ["list", [out, drawer.leaf()]]
    return out


@st.composite
def many_keys(draw: Any) -> Any:
    """Two or three large dictionaries, whose similarity is about the threshold."""
    total = draw(st.sampled_from([50, 100, 20, 7, 30]))
    common_keys = draw(st.integers(1, total))
    threshold = max(1, min(100, 100 * common_keys // total + draw(st.sampled_from([0, 0, 1, -1]))))
    rest = total - common_keys
    split = draw(st.integers(0, rest))
    first = list(range(common_keys + split))
    second = list(range(common_keys)) + list(range(common_keys + split, total))
    dictionaries = [["dict", [[["s", f"k{i}"], ["i", 1]] for i in keys]] for keys in (first, second)]
    data = [draw(st.sampled_from(["list", "tuple"])), dictionaries]
    return {"data": data, "config": {"merge_different_typed_dicts_if_similarity_above": threshold}, "name": "Example"}


def judge(case: Dict[str, Any]) -> Any:
    data = gen.build(case["data"])
    model = Model(case["config"])
    expected = model(data)
    text = api.render(data, case["config"], case["name"])
    module = common.Module(text, case["name"])
    common.expect_same(module.root, expected, text)
    labels: List[str] = []
    if model.merges:
        labels.append("merged")
    if model.rejected_merges:
        labels.append("kept apart")
    if "False, " in repr(module.root):
        labels.append("NotRequired fields")
    return {"key": case if labels else None, "labels": labels}


def config(**fixed: Any) -> Any:
    return dict(
        dict_strategy="TypedDict", check_max_n_elements_within_container=..., pandas_strategies=..., **fixed
    )


def at_thresholds(data: Any) -> Any:
    return st.builds(
        lambda case, threshold: {
            **case, "config": {**case["config"], "merge_different_typed_dicts_if_similarity_above": threshold}
        },
        gen.with_config(data, **config()),
        st.sampled_from(THRESHOLDS),
    )


PARTS = [
    Part("similar", lambda: at_thresholds(similar()), judge, quick=16000),
    Part("many keys", lambda: many_keys(), judge, quick=1500),
    Part("nested", lambda: at_thresholds(gen.data(gen.NAMING, "list")), judge, quick=5000),
]
