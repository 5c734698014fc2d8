"""C08: input data are not modified, and the live generator hands the same object back."""
from __future__ import annotations

import collections
import io
import types
from typing import Any, Callable, Dict, List

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, live, objs
from vlib.core import Part, require, sut

ID = "C08"
RULE = (
    "nested data, with parts shared between several places, are given to both generators and rendered repeatedly; a deep "
    "snapshot (identity, type, order, content, attributes, positions of files) must be the same afterwards, and the live "
    "generator must return the same object. Non-trivial: at least 3 nodes; distinct by case"
)
ASSUMPTIONS = ["iterators are consumed by design and are left out", "the live generator works in a scratch copy of the package"]


def worker_setup() -> None:
    live.open_sandbox()


def worker_teardown() -> None:
    live.close_sandbox()


def snapshot(value: Any) -> Any:
    """Everything that must not change. Objects stay alive during the case, so that identities are unique."""
    head = (type(value), id(value))
    if isinstance(value, (list, tuple)):
        return (*head, tuple(snapshot(e) for e in value))
    if isinstance(value, (set, frozenset)):
        return (*head, tuple(snapshot(e) for e in value))
    if isinstance(value, (dict, types.MappingProxyType)):
        extra = value.default_factory if isinstance(value, collections.defaultdict) else None
        return (*head, extra, tuple((snapshot(k), snapshot(v)) for k, v in value.items()))
    if isinstance(value, np.ndarray):
        return (*head, value.shape, str(value.dtype), value.tobytes(), value.flags.writeable)
    if isinstance(value, pd.Series):
        return (*head, str(value.dtype), tuple(value.index), value.name, tuple(repr(e) for e in value), tuple(map(type, value)))
    if isinstance(value, pd.DataFrame):
        columns = tuple((repr(c), str(t)) for c, t in zip(value.columns, value.dtypes))
        cells = tuple(tuple(repr(e) for e in row) for row in value.itertuples())
        return (*head, type(value.columns), columns, cells, repr(value.index), repr(value.attrs))
    if isinstance(value, io.IOBase):
        return (*head, value.closed, None if value.closed else value.tell())
    if isinstance(value, (types.ModuleType, type)) or callable(value):
        return (*head, tuple(sorted(map(str, vars(value)))) if hasattr(value, "__dict__") else ())
    return (*head, repr(value), tuple((k, snapshot(v)) for k, v in sorted(getattr(value, "__dict__", {}).items())))


def build(case: Dict[str, Any]) -> Any:
    data = gen.build(case["data"])
    shared = case["shared"]
    if shared == "list":
        return [data, data, {"a": data, "b": [data]}]
    if shared == "dict":
        return {"a": data, "b": data, "c": (data, [data])}
    if shared == "merged":
        return [{"a": data, "x": 1}, {"a": data, "y": 2}, {"a": data}]
    return data


def judge(case: Dict[str, Any]) -> Any:
    box = live.sandbox()
    box.clean()
    data = build(case)
    before = snapshot(data)
    strategies = sut(box.strategies, case["config"])
    tree = sut(box.package.LazyTypeHint(strategies).from_data, data, class_name="Example")
    for include in case["renders"]:
        sut(tree.to_string, include_imports=include)
        require(snapshot(data) == before, lambda: f"the data were modified; now they are {data!r:.1000}")
    generator = sut(box.Live, strategies, case["mode"])
    for _ in range(case["calls"]):
        back = sut(generator.from_data, data, "Example")
        require(back is data, lambda: f"from_data returned another object: {back!r:.500}")
        require(snapshot(data) == before, lambda: f"the data were modified; now they are {data!r:.1000}")
    labels = [f"shared {case['shared']}", f"{case['calls']} live calls"]
    return {"key": case if gen.size(case["data"]) >= 3 else None, "labels": labels}


def judge_yaml(case: Dict[str, Any]) -> Any:
    """from_yaml_file hands back what the loader returns for the original file."""
    box = live.sandbox()
    box.clean()
    path = box.root / "data.yaml"
    path.write_text(case["text"], encoding="utf-8")
    returned: List[Any] = []

    def loader(location: Any) -> Any:
        import yaml

        with open(location, encoding="utf-8") as file:
            out = yaml.safe_load(file)
        returned.append((location, out, snapshot(out)))
        return out

    generator = sut(box.Live, sut(box.strategies, case["config"]), "overwrite")
    back = sut(generator.from_yaml_file, loader, path, class_name="Example", comments_are=case["comments"])
    require(
        any(back is out for location, out, _ in returned if location == path),
        lambda: f"from_yaml_file returned {back!r:.500}, not an object loaded from the file",
    )
    for _, out, before in returned:
        require(snapshot(out) == before, lambda: f"the loaded data were modified; now they are {out!r:.1000}")
    require(path.read_text(encoding="utf-8") == case["text"], "the YAML file was modified")
    return {"key": case, "labels": [f"comments {case['comments']}"]}


def cases(profile: Any) -> Any:
    return st.fixed_dictionaries(
        {
            "data": gen.data(profile),
            "config": st.builds(
                lambda config, doc: {**config, **({"key_used_as_doc": doc} if doc else {})},
                gen.configs(), st.sampled_from(["", "a", "name"]),
            ),
            "shared": st.sampled_from(["", "list", "dict", "merged", ""]),
            "renders": st.lists(st.booleans(), min_size=1, max_size=3),
            "mode": st.sampled_from(["overwrite", "validate"]),
            "calls": st.sampled_from([1, 0, 2]),
        }
    )


def yaml_cases() -> Any:
    text = st.sampled_from(
        ["a: 1  # doc\nb:\n  # above\n  c: [1, 2]\n", "- a: 1  # one\n- a: 2\n", "a: {}\n", "# nothing\n", "- 1\n- b\n", "a: 1 # x\n"]
    )
    comments = st.sampled_from(["side", "above", "below", ["side", "above"], None])
    return st.fixed_dictionaries({"text": text, "config": gen.configs(), "comments": comments})


NO_ITER = gen.FULL_NO_ITER
PARTS = [
    Part("everything", lambda: cases(NO_ITER), judge, quick=4000),
    Part("builtin", lambda: cases(gen.BUILTIN), judge, quick=4000),
    Part("yaml", yaml_cases, judge_yaml, quick=300),
]
