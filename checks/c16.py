"""C16: validation of existing classes."""
from __future__ import annotations

from typing import Any, Dict

from vlib import history, live
from vlib.core import Part, require

ID = "C16"
RULE = (
    "histories as in C15, with data that often have equal hints but other values or docstrings. Each call must be accepted exactly when the class is new, the "
    "instance overwrites, or the module a plain LazyTypeHint gives equals, docstrings removed, the one it gave for the latest accepted data; a rejected call leaves "
    "all files byte for byte. Part `nearly equal`: one class, data with a key spelled in a slightly different way (letter case, white space, punctuation). Part `other modules`: the build folder also has modules of no class (left by interrupted calls). Non-trivial: a class was given data again; distinct by history"
)
ASSUMPTIONS = ["hints are compared as the generated modules (the names of aliases belong to the hints)"]
worker_setup = live.open_sandbox
worker_teardown = live.close_sandbox


def observe(state: history.State, event: history.Event) -> None:
    if event.kind == "bad":
        require(state.sandbox.snapshot() == event.before, lambda: f"a rejected class name changed files\n{state.history()}")
    if event.kind not in ("data", "yaml"):
        return
    matches = event.existing is None or history.without_docstrings(event.existing) == history.without_docstrings(event.reference)
    accepted = matches or event.policy == "overwrite"
    require(
        accepted == (not event.rejected),
        lambda: f"{event.policy}: {'rejected' if event.rejected else 'accepted'} although the stored hints {'' if matches else 'do not '}match\n"
        f"stored:\n{event.existing}\nnow:\n{event.reference}\n{event.rejected}\n{state.history()}",
    )
    after = state.sandbox.snapshot()
    if event.rejected:
        changed = sorted(k for k in {*after, *event.before} if after.get(k) != event.before.get(k))
        require(not changed, lambda: f"a rejected call changed {changed}\n{state.history()}")
    else:
        stored = state.sandbox.modules().get(f"{event.name}.py", "")
        require(
            stored and history.without_docstrings(stored) == history.without_docstrings(event.reference),
            lambda: f"the stored hints of {event.name} are\n{stored}\nafter data with the hints\n{event.reference}\n{state.history()}",
        )


def judge(case: Dict[str, Any]) -> Any:
    return history.judge_with(observe, case, snapshots=True)


PARTS = [
    Part("histories", history.histories, judge, quick=2000),
    Part("nearly equal", history.nearly_equal, judge, quick=3000),
    Part("other modules", history.with_strays, judge, quick=700),
]
