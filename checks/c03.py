"""C03: the generated type is the one the reference model infers."""
from __future__ import annotations

from typing import Any, Dict

from vlib import api, common, gen
from vlib.core import Part
from vlib.model import Model

ID = "C03"
RULE = (
    "random nested data x strategies, and (part `many alike`) up to 257 equal elements with one that may differ; the type read from the executed module must equal the one inferred by the "
    "reference model. Non-trivial: at least 3 nodes; distinct by (data, strategies, name)"
)


def judge(case: Dict[str, Any]) -> Any:
    data = gen.build(case["data"])
    expected = Model(case["config"])(data)

    text = api.render(data, case["config"], case["name"])
    module = common.Module(text, case["name"])
    common.expect_same(module.root, expected, text)
    return {"key": common.nested_key(case), "labels": common.labels_of(case)}


PARTS = [
    Part("builtin", lambda: gen.cases(gen.BUILTIN), judge, quick=9000),
    Part("everything", lambda: gen.cases(gen.FULL), judge, quick=6000),
    Part("many alike", lambda: gen.with_config(gen.alike(gen.BUILTIN)), judge, quick=1500),
    Part("plain", lambda: gen.cases(gen.SIMPLE), judge, quick=5000),
]
