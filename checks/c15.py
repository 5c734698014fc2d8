"""C15: files of the live registry are those of the classes created since the last reset."""
from __future__ import annotations

from typing import Any, Dict

from vlib import common, history, live
from vlib.core import Part, Violation, require

ID = "C15"
RULE = (
    "histories of from_data, from_yaml_file, new instances, rejected names and resets by up to 3 instances with different strategies, in a sandboxed copy "
    "of the package. After every operation the files are compared with a model of the registry and with what a plain LazyTypeHint gives for the latest accepted "
    "data. Part `many classes`: 12 to 100 classes. Non-trivial: a class was given data again, or something happened after a reset; distinct by history"
)
ASSUMPTIONS = [
    "instances of one process stand for sessions: instances are constructed before and after others wrote their files",
    "class names that the interface file itself uses, that start with two underscores or that are not NFKC-normal are out of the domain",
]
worker_setup = live.open_sandbox
worker_teardown = live.close_sandbox
_read: Dict[str, Any] = {}


def module_of(text: str, name: str) -> Any:
    key = f"{name}:{text}"
    if key not in _read:
        if len(_read) > 500:
            _read.clear()
        _read[key] = common.Module(text, name)
    return _read[key]


def observe(state: history.State, event: history.Event) -> None:
    sandbox = state.sandbox
    generated = sandbox.generated()
    if event.kind == "reset":
        require(not generated and not sandbox.build.exists(), lambda: f"files left after reset: {sorted(generated)}\n{state.history()}")
    modules = sandbox.modules()
    require(
        set(modules) == {f"{name}.py" for name in state.classes},
        lambda: f"modules {sorted(modules)} of the classes {sorted(state.classes)}\n{state.history()}",
    )
    for name, reference in state.classes.items():
        stored = module_of(modules[f"{name}.py"], name)
        expected = module_of(reference, name)
        require(
            stored.root == expected.root and stored.docstrings() == expected.docstrings() and stored.field_docstrings() == expected.field_docstrings(),
            lambda: f"module of {name}:\n{stored.text}\nbut its latest data give\n{reference}\n{state.history()}",
        )
    others = set(generated) - {f"lazy_type_hint/generators/build/{name}.py" for name in state.classes} - {f"lazy_type_hint/generators/{live.PYI}"}
    require(not others, lambda: f"other files were written or changed: {sorted(others)}\n{state.history()}")
    if sandbox.pyi.exists():
        text = sandbox.pyi.read_text(encoding="utf-8")
        created = history.Interface(text, state.history()).classes_created()
        require(
            sorted(created) == sorted(state.classes),
            lambda: f"classes_created lists {created}, but the classes are {sorted(state.classes)}\n{state.history()}\n{text}",
        )
    else:
        require(not state.classes, lambda: f"there is no interface file\n{state.history()}")


def judge(case: Dict[str, Any]) -> Any:
    return history.judge_with(observe, case)


PARTS = [
    Part("histories", history.histories, judge, quick=2000),
    Part("many classes", history.with_many, judge, quick=60),
]
