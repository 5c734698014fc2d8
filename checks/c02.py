"""C02: the value given is a member of the generated type."""
from __future__ import annotations

from typing import Any, Dict

from checks import c04
from vlib import api, common, gen
from vlib.conform import Conformance
from vlib.core import Part, require

ID = "C02"
RULE = (
    "random nested data x strategies; a runtime membership test (independent of the reference model) of the value against "
    "the type read from the executed module. Non-trivial: at least 3 nodes; distinct by (data, strategies, name)"
)
ASSUMPTIONS = ["TypedDicts are closed: a key that the type does not list is a mismatch"]


def judge(case: Dict[str, Any]) -> Any:
    data = gen.build(case["data"])
    limit = case["config"].get("check_max_n_elements_within_container", 500)
    conformance = Conformance(limit, data)
    text = api.render(data, case["config"], case["name"])
    module = common.Module(text, case["name"])
    why = conformance.explain(data, module.root)
    require(not why, lambda: f"{why}\nmodule:\n{text}")
    return {"key": common.nested_key(case), "labels": common.labels_of(case)}


PARTS = [
    Part("everything", lambda: gen.cases(gen.FULL), judge, quick=9000),
    Part("builtin", lambda: gen.cases(gen.BUILTIN), judge, quick=8000),
    Part("no limit", lambda: gen.cases(gen.FULL, check_max_n_elements_within_container=None), judge, quick=6000),
    Part("dictionaries", lambda: gen.with_config(gen.data(gen.NAMING, "list"), dict_strategy="TypedDict"), judge, quick=8000),
    Part("similar dictionaries", lambda: c04.at_thresholds(c04.similar()), judge, quick=5000),
]
