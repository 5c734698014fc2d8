"""C21: mypy accepts the generated modules and the data they were generated from."""
from __future__ import annotations

import copy
import os
import re
import shutil
import sys
import tempfile
import types
from typing import Any, Dict, Iterator, List, Optional, Tuple

from hypothesis import strategies as st

from vlib import api, gen
from vlib.core import Part, Violation, require
from vlib.model import Model

ID = "C21"
RULE = (
    "batches of literals of built-in types (nested lists, tuples, sets, frozensets, dictionaries with any string keys, mapping proxies, iterators), generated with random strategies and checked in one run of mypy: the generated "
    "module, a variable of its type assigned the literal (errors: none), and variables assigned the literal with one element replaced by an instance of a class that does not occur in it, with an extra or missing key or with an "
    "extra tuple slot (an error for each). Another part only checks that modules for any supported data have no errors. Each literal counts as one case. Non-trivial: a container within a container; distinct by literal and strategies"
)
ASSUMPTIONS = [
    "mypy 1.9 decides, in strict mode except for bare generic classes (keys are hinted by their class alone); ReadOnly and pandas' own types are unknown to it, so these strategies and data are left out",
    "literals with more than one kind of structure within one union are only checked for errors of the module: mypy cannot infer literals against such unions",
    "literals of more than 7 levels are only checked for errors of the module: mypy fails on them",
    "elements hinted by Any or object (None and empty containers) accept everything, so rejections are asked for literals without them",
]
LINE = re.compile(r"^(.+?):(\d+)(?::\d+)?: error: (.*)$")
STATE: Dict[str, Any] = {"run": 0}


def worker_setup() -> None:
    STATE["folder"] = tempfile.mkdtemp(prefix="verif-c21-")


def worker_teardown() -> None:
    shutil.rmtree(STATE.pop("folder"), ignore_errors=True)


def mypy_errors(texts: List[str]) -> List[Optional[Dict[int, List[str]]]]:
    """Errors of each text, by line; None if mypy itself fails."""
    if "folder" not in STATE:
        worker_setup()
        import atexit

        atexit.register(lambda: "folder" in STATE and worker_teardown())
    from mypy import api as mypy_api

    STATE["run"] += 1
    folder = os.path.join(STATE["folder"], f"run{STATE['run']}")
    os.mkdir(folder)
    files = []
    for number, text in enumerate(texts):
        files.append(os.path.join(folder, f"case_{STATE['run']}_{number}.py"))
        with open(files[-1], "w", encoding="utf-8") as file:
            file.write(text)
    limit = sys.getrecursionlimit()
    out, problems, status = mypy_api.run(
        ["--config-file=", f"--cache-dir={STATE['folder']}/cache", "--no-error-summary", "--no-color-output", "--hide-error-context", "--show-absolute-path", "--ignore-missing-imports", "--strict", "--allow-any-generics", "--no-warn-unused-ignores", "--python-version=3.12", *files]
    )
    sys.setrecursionlimit(limit)
    for path in files:
        relative = os.path.basename(path)[:-3]
        for suffix in (".data.json", ".meta.json"):
            try:
                os.remove(f"{STATE['folder']}/cache/3.12/{relative}{suffix}")
            except OSError:
                pass
    shutil.rmtree(folder, ignore_errors=True)
    if status not in (0, 1):
        if len(texts) > 1:
            return [mypy_errors([text])[0] for text in texts]
        if not any(os.path.basename(f) in out for f in files):
            return [None]
    result: List[Any] = [{} for _ in texts]
    for line in out.splitlines():
        match = LINE.match(line)
        if match:
            for number, path in enumerate(files):
                if os.path.basename(match[1]) == os.path.basename(path):
                    result[number].setdefault(int(match[2]), []).append(match[3])
    return result


# ------------------------------------------------------------------------------------------------ literals
class Stranger:
    """Replaces an element."""


def literal(value: Any) -> str:
    if isinstance(value, Stranger):
        return "verif_stranger"
    if isinstance(value, dict):
        return "{" + ", ".join(f"{literal(k)}: {literal(v)}" for k, v in value.items()) + "}"
    if isinstance(value, types.MappingProxyType):
        return f"verif_proxy({literal(dict(value))})"
    if isinstance(value, list):
        return "[" + ", ".join(map(literal, value)) + "]"
    if isinstance(value, tuple):
        return "(" + "".join(literal(v) + ", " for v in value) + ")"
    if isinstance(value, frozenset):
        return f"frozenset({{{', '.join(map(literal, value))}}})" if value else "frozenset()"
    if isinstance(value, set):
        return "{" + ", ".join(map(literal, value)) + "}" if value else "set()"
    if isinstance(value, complex):
        return f"complex({value.real!r}, {value.imag!r})"
    if isinstance(value, Sequence_):
        return f"iter([{', '.join(map(literal, value.values))}])"
    return repr(value)


class Sequence_:
    """Stands for an iterator over the values."""

    def __init__(self, values: List[Any]) -> None:
        self.values = values


def mirror(spec: Any) -> Any:
    """The data of the spec, with Sequence_ for iterators."""
    kind = spec[0]
    if kind == "iter":
        return Sequence_([mirror(e) for e in spec[1]])
    if kind == "list":
        return [mirror(e) for e in spec[1]]
    if kind == "tuple":
        return tuple(mirror(e) for e in spec[1])
    if kind in ("dict", "mproxy"):
        items = {gen.build(k): mirror(v) for k, v in spec[1]}
        return items if kind == "dict" else types.MappingProxyType(items)
    return gen.build(spec)


def positions(value: Any, path: Tuple[Any, ...] = ()) -> Iterator[Tuple[Any, ...]]:
    """Paths to the leaves that can be replaced."""
    if isinstance(value, (dict, types.MappingProxyType)):
        for key, child in value.items():
            yield from positions(child, (*path, key))
    elif isinstance(value, (list, tuple)):
        for index, child in enumerate(value):
            yield from positions(child, (*path, index))
    elif isinstance(value, Sequence_):
        for index, child in enumerate(value.values):
            yield from positions(child, (*path, index))
    elif not isinstance(value, (set, frozenset)):
        yield path


def replaced(value: Any, path: Tuple[Any, ...], new: Any) -> Any:
    if not path:
        return new(value)
    head, rest = path[0], path[1:]
    if isinstance(value, Sequence_):
        return Sequence_(replaced(value.values, path, new))
    if isinstance(value, (dict, types.MappingProxyType)):
        copied = {k: replaced(v, rest, new) if (type(k), k) == (type(head), head) else v for k, v in value.items()}
        return types.MappingProxyType(copied) if isinstance(value, types.MappingProxyType) else copied
    copied_list = [replaced(v, rest, new) if i == head else v for i, v in enumerate(value)]
    return tuple(copied_list) if isinstance(value, tuple) else copied_list


def rigid(value: Any, config: Dict[str, Any], path: Tuple[Any, ...] = ()) -> Iterator[Tuple[Any, ...]]:
    """Paths through fields of TypedDicts and slots of tuples only."""
    if isinstance(value, dict) and config["dict_strategy"] == "TypedDict" and all(isinstance(k, str) for k in value):
        yield path
        for key, child in value.items():
            yield from rigid(child, config, (*path, key))
    elif isinstance(value, tuple) and config["tuple_size_strategy"] == "fixed" and not any(isinstance(e, dict) for e in value):
        if value:
            yield path
        for index, child in enumerate(value):
            yield from rigid(child, config, (*path, index))


STRUCTURES = {"td", "dict", "map", "mproxy", "list", "seq", "set", "fset", "tup", "tupv", "iter"}


def inferable(tp: Any) -> bool:
    """No union with more than one structure, or with one that is written as a call."""
    if isinstance(tp, frozenset):
        return all(inferable(part) for part in tp)
    if not isinstance(tp, tuple) or not tp:
        return True
    if tp[0] == "union" and isinstance(tp[1], frozenset):
        if sum(part[0] in STRUCTURES for part in tp[1]) > 1 or any(part[0] in ("iter", "mproxy", "fset") for part in tp[1]):
            return False
    return all(inferable(part) for part in tp if isinstance(part, (tuple, frozenset)))


def mentions(tp: Any, kinds: Tuple[str, ...]) -> bool:
    if isinstance(tp, frozenset):
        return any(mentions(part, kinds) for part in tp)
    return isinstance(tp, tuple) and bool(tp) and (tp[0] in kinds or any(mentions(part, kinds) for part in tp if isinstance(part, (tuple, frozenset))))


class Prepared:
    def __init__(self, item: Dict[str, Any]) -> None:
        self.item = item
        config = item["config"]
        self.text = api.render(gen.build(item["data"]), config, item["name"])
        self.accepted: List[str] = []
        self.rejected: List[str] = []
        if item["literal"]:
            tp = Model(config)(gen.build(item["data"]))
            value = mirror(item["data"])
            if inferable(tp) and gen.depth(item["data"]) <= 7:
                self.accepted.append(literal(value))
                if not mentions(tp, ("any", "obj")):
                    self.rejected += self.mutations(value, item["choices"], config)
        lines = self.text.rstrip("\n").split("\n")
        self.last = len(lines)
        lines += ["import types as verif_types", "class VerifStranger: ...", "verif_stranger = VerifStranger()", "verif_proxy = verif_types.MappingProxyType"]
        self.expected: Dict[int, Tuple[bool, str]] = {}
        for ok, texts in ((True, self.accepted), (False, self.rejected)):
            for number, text in enumerate(texts):
                lines.append(f"verif_{ok}_{number}: {item['name']} = {text}")
                self.expected[len(lines)] = (ok, text)
        self.full = "\n".join(lines) + "\n"

    @staticmethod
    def mutations(value: Any, choices: List[int], config: Dict[str, Any]) -> List[str]:
        out: List[str] = []
        paths = list(positions(value))
        for choice in choices[:2]:
            if paths:
                out.append(literal(replaced(value, paths[choice % len(paths)], lambda _: Stranger())))
        firm = list(rigid(value, config))
        for choice in choices[2:]:
            if firm:
                path = firm[choice % len(firm)]
                target = value
                for step in path:
                    target = target[step]
                if isinstance(target, tuple):
                    out.append(literal(replaced(value, path, lambda t: t + (t[0],))))
                    out.append(literal(replaced(value, path, lambda t: t[:-1])))
                else:
                    out.append(literal(replaced(value, path, lambda d: {**d, "verif extra key": 1})))
                    if target:
                        out.append(literal(replaced(value, path, lambda d: dict(list(d.items())[:-1]))))
        return out

    def verify(self, errors: Dict[int, List[str]]) -> None:
        for line, messages in errors.items():
            if line in self.expected:
                continue
            serious = [m for m in messages if not self.foreign(m)]
            require(not serious, lambda: f"mypy: line {line}: {serious}\n{self.full}")
        for line, (ok, text) in self.expected.items():
            if ok:
                require(line not in errors, lambda: f"mypy does not accept\n  {text}\nas {self.item['name']}: {errors[line]}\n{self.full}")
            else:
                require(line in errors, lambda: f"mypy accepts\n  {text}\nas {self.item['name']}\n{self.full}")

    def foreign(self, message: str) -> bool:
        """Classes of the user are not imported by the module."""
        match = re.match(r'Name "(\w+)" is not defined', message)
        return bool(match) and not self.item["literal"] and match[1] in FORWARD  # type: ignore


from vlib import objs  # noqa: E402

FORWARD = {type(factory()).__name__ for factory in objs.INSTANCES.values()} | set(objs.CLASSES) | {"Timestamp", "Word", "OddStr", "MyStr"}


def judge(case: Dict[str, Any]) -> Any:
    prepared = [Prepared(item) for item in case["items"]]
    crashes = 0
    for one, errors in zip(prepared, mypy_errors([p.full for p in prepared])):
        if errors is None:
            crashes += 1
            one.accepted, one.rejected = [], []
        else:
            one.verify(errors)
    keys = [{k: p.item[k] for k in ("data", "config", "name")} for p in prepared if gen.depth(p.item["data"]) > 1]
    accepted, rejected = sum(len(p.accepted) for p in prepared), sum(len(p.rejected) for p in prepared)
    return {"keys": keys, "evaluations": len(prepared), "labels": ["literal accepted"] * accepted + ["mutation rejected"] * rejected + ["mypy crashed"] * crashes + [f"depth {min(5, gen.depth(p.item['data']))}" for p in prepared]}


def reduce(case: Dict[str, Any]) -> Iterator[Dict[str, Any]]:
    if len(case["items"]) > 1:
        for item in case["items"]:
            yield {"items": [item]}
        return
    item = case["items"][0]
    for smaller in gen.smaller(item["data"]):
        yield {"items": [{**item, "data": smaller}]}


LITERALS = gen.replace(gen.SIMPLE, leaves=("i", "f", "s", "b", "y", "c", "range"), containers=("list", "dict", "tuple", "dict", "set", "frozenset", "mproxy", "iter"), keys=("friendly", "friendly", "nasty", "other without inst"), width=3)
NONES = gen.replace(LITERALS, leaves=("i", "n", "s", "f", "b"))
ANYTHING = gen.replace(gen.FULL_NO_ITER, containers=tuple(c for c in gen.FULL_NO_ITER.containers if c not in ("series", "df")), leaves=tuple(k for k in gen.FULL.leaves if k != "fn"))


@st.composite
def batches(draw: Any, profile: Any, size: int, is_literal: bool, **fixed: Any) -> Any:
    items = []
    for _ in range(size):
        config = draw(gen.configs(typed_dict_read_only_values=False, check_max_n_elements_within_container=5000, **fixed))
        item = {"data": draw(gen.data(profile)), "config": config, "name": draw(gen.names), "literal": is_literal}
        item["choices"] = [draw(st.integers(0, 40)) for _ in range(4)] if is_literal else []
        items.append(item)
    return {"items": items}


PARTS = [
    Part("literals", lambda: batches(LITERALS, 10, True), judge, quick=320, shrink=False, reduce=reduce),
    Part("literals with None", lambda: batches(NONES, 10, True), judge, quick=120, shrink=False, reduce=reduce),
    Part("modules", lambda: batches(ANYTHING, 10, False), judge, quick=120, shrink=False, reduce=reduce),
]
