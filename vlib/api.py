"""Access to the code under test."""
from __future__ import annotations

import os
from typing import Any, Dict

from vlib.core import REPO, sut

import lazy_type_hint  # noqa: E402
from lazy_type_hint import LazyTypeHint, ParsingStrategies

_location = os.path.realpath(os.path.dirname(lazy_type_hint.__file__))


def strategies(config: Dict[str, Any]) -> Any:
    return sut(ParsingStrategies, **config)


def tree(data: Any, config: Dict[str, Any], name: str) -> Any:
    return sut(lambda: LazyTypeHint(strategies(config)).from_data(data, class_name=name), what="from_data")


def render(data: Any, config: Dict[str, Any], name: str) -> str:
    result = tree(data, config, name)
    return sut(result.to_string, what="to_string")
