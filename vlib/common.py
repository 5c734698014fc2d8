"""Pieces shared by several checks."""
from __future__ import annotations

from typing import Any, Callable, Dict, List, Optional, Tuple

from vlib import api, gen, ir
from vlib.conform import Conformance
from vlib.core import Violation, require, sut
from vlib.ir import Module, canonical, show
from vlib.model import Model


def generate(case: Dict[str, Any]) -> Tuple[Any, Module]:
    data = gen.build(case["data"])
    text = api.render(data, case["config"], case["name"])
    return data, Module(text, case["name"])


def module_of(spec: Any, config: Dict[str, Any], name: str = "Example") -> Module:
    return Module(api.render(gen.build(spec), config, name), name)


def labels_of(case: Dict[str, Any]) -> List[str]:
    spec = case["data"]
    out = [f"depth {min(gen.depth(spec), 6)}"]
    out += sorted(f"has {kind}" for kind in gen.kinds_of(spec) if kind in gen.CONTAINER_KINDS)
    if "config" in case:
        out.append(f"dict_strategy {case['config'].get('dict_strategy', 'TypedDict')}")
    return out


def nested_key(case: Dict[str, Any], minimum: int = 3) -> Optional[Any]:
    """Cases with a container within a container, or several elements, count as non-trivial."""
    return case if gen.size(case["data"]) >= minimum and gen.depth(case["data"]) >= 1 else None


def expect_same(got: Any, expected: Any, text: str, what: str = "type") -> None:
    a, b = canonical(got), canonical(expected)
    require(a == b, lambda: f"{what} is\n  {show(a)}\nbut should be\n  {show(b)}\nmodule:\n{text}")


def source(case: Dict[str, Any]) -> Callable[[], Any]:
    """The data of the case: always the same object, unless it holds iterators, which are consumed and so built again."""
    if "iter" in gen.kinds_of(case["data"]):
        return lambda: gen.build(case["data"])
    data = gen.build(case["data"])
    return lambda: data


def without_unstable_sets(case: Dict[str, Any]) -> bool:
    """Sets of objects hashed by identity have another order once they are built again."""
    kinds = gen.kinds_of(case["data"])
    return not ({"set", "frozenset"} & kinds and {"inst"} & kinds)
