"""C17: the interface file, read as a type checker does, resolves every created class to its own module."""
from __future__ import annotations

import ast
import os
import re
import shutil
import sys
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st

from vlib import history, live
from vlib.core import Part, require

ID = "C17"
RULE = (
    "histories of from_data, from_yaml_file, new instances, rejected names and resets by up to 3 instances, with class names that are prefixes of one another, equal names "
    "that the interface file itself uses (Any, Path, str, from_data, overload...) or hold any identifier characters, in a sandboxed copy of the package. After every operation "
    "the interface file is parsed and its overloads are resolved as a type checker does; part `mypy` lets mypy infer the types of calls at the end of a history and compares them with the classes of the "
    "modules. Non-trivial: a class was given data again, or something happened after a reset; distinct by history"
)
ASSUMPTIONS = [
    "resolution: the first overload whose literal holds the name; names are looked up in the class body, then in the module",
    "class names that start with two underscores or are not NFKC-normal are out of the domain",
]
worker_setup = live.open_sandbox
worker_teardown = live.close_sandbox
METHODS = ("from_data", "from_yaml_file")
BUILD = "lazy_type_hint.generators.build"
_original: Dict[str, Any] = {}


def original() -> Dict[str, Any]:
    """Signatures and imports of the module that the interface file stands for."""
    sandbox = live.sandbox()
    if _original.get("root") != sandbox.root:
        tree = history.Interface((sandbox.folder / "lazy_type_hint_live.py").read_text(encoding="utf-8"), "")
        _original.update(root=sandbox.root, interface=tree, bound=tree.imports())
    return _original


def is_overload(function: ast.FunctionDef, bound: Dict[str, str]) -> bool:
    return any(isinstance(d, ast.Name) and bound.get(d.id) == "typing.overload" for d in function.decorator_list)


def annotation_of(function: ast.FunctionDef, name: str) -> Optional[ast.expr]:
    for argument in [*function.args.posonlyargs, *function.args.args, *function.args.kwonlyargs]:
        if argument.arg == name:
            return argument.annotation
    return None


def literals(annotation: Optional[ast.expr], bound: Dict[str, str]) -> Optional[List[Any]]:
    if isinstance(annotation, ast.Subscript) and isinstance(annotation.value, ast.Name) and bound.get(annotation.value.id) in ("typing.Literal", "typing_extensions.Literal"):
        elements = annotation.slice.elts if isinstance(annotation.slice, ast.Tuple) else [annotation.slice]
        return [element.value for element in elements if isinstance(element, ast.Constant)]
    return None


def parameters(function: ast.FunctionDef, without: str = "") -> Any:
    arguments = ast.parse(ast.unparse(function)).body[0].args  # type: ignore
    for argument in [*arguments.posonlyargs, *arguments.args, *arguments.kwonlyargs]:
        if argument.arg == without:
            argument.annotation = None
    return ast.dump(arguments)


def observe(state: history.State, event: history.Event) -> None:
    sandbox = state.sandbox
    if not sandbox.pyi.exists():
        require(not state.classes, lambda: f"there is no interface file\n{state.history()}")
        return
    text = sandbox.pyi.read_text(encoding="utf-8")
    interface = history.Interface(text, state.history())
    bound = interface.imports()
    source = original()

    def fail(message: str) -> str:
        return f"{message}\n{state.history()}\n{text}"

    in_class = {node.name for node in interface.cls.body if isinstance(node, ast.FunctionDef)}
    in_class |= {node.target.id for node in interface.cls.body if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name)}
    for method in METHODS:
        functions = interface.methods(method)
        expected = source["interface"].methods(method)[-1]
        literal = [literals(annotation_of(f, "class_name"), bound) for f in functions]
        general = [f for f, names in zip(functions, literal) if names is None]
        require(len(general) == 1, lambda: fail(f"{len(general)} signatures of {method} for other names"))
        require(functions[-1] is general[0], lambda: fail(f"the general signature of {method} is not the last one"))
        require(parameters(general[0]) == parameters(expected), lambda: fail(f"the general signature of {method} is not the one of the class"))
        require(
            ast.dump(general[0].returns) == ast.dump(expected.returns),  # type: ignore
            lambda: fail(f"the general signature of {method} does not return what the class does"),
        )
        for node in ast.walk(general[0]):
            if isinstance(node, ast.Name):
                require(
                    bound.get(node.id) == source["bound"].get(node.id) and node.id not in in_class,
                    lambda: fail(f"`{node.id}` in the general signature of {method} stands for {bound.get(node.id)} instead of {source['bound'].get(node.id)}"),
                )
        seen = [name for names in literal for name in names or ()]
        require(sorted(seen) == sorted(state.classes), lambda: fail(f"{method} is overloaded for {sorted(seen)}, the classes are {sorted(state.classes)}"))
        if state.classes:
            for function in functions:
                require(is_overload(function, bound), lambda: fail(f"a signature of {method} is no overload"))
        else:
            require(not is_overload(general[0], bound), lambda: fail(f"{method} is a single overload"))
        for function, names in zip(functions, literal):
            for name in names or ():
                returns = function.returns
                require(isinstance(returns, ast.Name), lambda: fail(f"{method}: the overload of {name} returns {ast.dump(returns) if returns else None}"))
                require(
                    bound.get(returns.id) == f"{BUILD}.{name}.{name}" and returns.id not in in_class,  # type: ignore
                    lambda: fail(f"{method}: {name} resolves to {'a member of the class' if returns.id in in_class else bound.get(returns.id)}"),
                )
                require(parameters(function, "class_name") == parameters(expected, "class_name"), lambda: fail(f"{method}: the overload of {name} has other parameters"))


def judge(case: Dict[str, Any]) -> Any:
    return history.judge_with(observe, case)


# ------------------------------------------------------------------------------------------------ mypy
REVEALED = re.compile(r"^use\.py:(\d+): note: Revealed type is \"(.*)\"$")


def run_mypy(folder: str, name: str) -> Any:
    """Revealed types and errors, by line."""
    from mypy import api as mypy_api

    cache = os.path.join(folder, "mypy_cache")
    for path in (os.path.join(cache, "3.12", "lazy_type_hint"), *(os.path.join(cache, "3.12", f"{name}.{kind}.json") for kind in ("data", "meta"))):
        if os.path.isdir(path):  # Their times and sizes may be the same although the files changed
            shutil.rmtree(path)
        elif os.path.exists(path):
            os.remove(path)
    limit, before, path_before = sys.getrecursionlimit(), os.getcwd(), os.environ.get("MYPYPATH")
    os.chdir(folder)
    os.environ["MYPYPATH"] = folder
    try:
        out, problems, status = mypy_api.run(
            ["--config-file=", f"--cache-dir={cache}", "--no-error-summary", "--no-color-output", "--hide-error-context", "--ignore-missing-imports", "--follow-imports=silent",
             "--python-version=3.12", f"{name}.py"]
        )
    finally:
        os.chdir(before)
        sys.setrecursionlimit(limit)
        if path_before is None:
            del os.environ["MYPYPATH"]
        else:
            os.environ["MYPYPATH"] = path_before
    if status not in (0, 1):
        raise RuntimeError(f"mypy failed: {problems}{out}")
    revealed: Dict[int, str] = {}
    errors: List[str] = []
    for line in out.splitlines():
        match = REVEALED.match(line)
        if match:
            revealed[int(match[1])] = match[2]
        elif line.startswith(f"{name}.py:") and ": error:" in line:
            errors.append(line)
    return revealed, errors


def judge_mypy(case: Dict[str, Any]) -> Any:
    result = history.judge_with(observe, case)
    sandbox = live.sandbox()
    classes = sorted({op[2] for op in case["ops"] if op[0] in ("data", "yaml")} & set(sandbox_classes(sandbox)))
    lines = ["from pathlib import Path", "from lazy_type_hint import LazyTypeHintLive"]
    lines += [f"import lazy_type_hint.generators.build.{name} as module_{number}" for number, name in enumerate(classes)]
    lines += ["def load(path: str) -> bytes: ...  # type: ignore", "def load_path(path: Path) -> bytes: ...  # type: ignore"]
    lines += [f"def value_{number}() -> module_{number}.{name}: ...  # type: ignore" for number, name in enumerate(classes)]
    lines += ["def check(live: LazyTypeHintLive, data: object, other: bytearray, name: str) -> None:"]
    expected: Dict[int, Any] = {}

    def reveal(expression: str, value: Any) -> None:
        lines.append(f"    reveal_type({expression})")
        expected[len(lines)] = (expression, value)

    for number, name in enumerate(classes):
        reveal(f"value_{number}()", None)
        base = len(lines)
        reveal(f'live.from_data(data, "{name}")', base)
        reveal(f'live.from_data(data, class_name="{name}")', base)
        reveal(f'live.from_yaml_file(load, "x.yaml", class_name="{name}")', base)
        reveal(f'live.from_yaml_file(load_path, Path("x"), class_name="{name}", comments_are="above")', base)
    for other in ("name", *(f'"{name}_"' for name in classes if f"{name}_" not in classes), '"NotCreated"'):
        reveal(f"live.from_data(other, class_name={other})", "builtins.bytearray")
        reveal(f'live.from_yaml_file(load, "x.yaml", class_name={other})', "builtins.bytes")
    (sandbox.root / "use.py").write_text("\n".join(lines) + "\n", encoding="utf-8")
    try:
        revealed, errors = run_mypy(str(sandbox.root), "use")
    finally:
        os.remove(sandbox.root / "use.py")

    def fail(message: str) -> str:
        numbered = "\n".join(f"{n}: {line}" for n, line in enumerate(lines, start=1))
        return f"{message}\n{case['ops']}\n{numbered}\n{sandbox.pyi.read_text(encoding='utf-8') if sandbox.pyi.exists() else 'no interface file'}"

    require(not errors, lambda: fail(f"mypy: {errors}"))
    for line, (expression, value) in expected.items():
        wanted = revealed.get(value) if isinstance(value, int) else value
        if wanted is None:
            require(line in revealed, lambda: fail(f"mypy did not reveal {expression}"))
            continue
        require(revealed.get(line, "").lower() == wanted.lower(), lambda: fail(f"mypy infers {revealed.get(line)} for {expression} instead of {wanted}"))
    result["labels"] = [*result.get("labels", []), f"{min(len(classes), 4)} classes for mypy"]
    result["key"] = case if classes else None
    return result


def sandbox_classes(sandbox: Any) -> List[str]:
    return history.Interface(sandbox.pyi.read_text(encoding="utf-8"), "").classes_created() if sandbox.pyi.exists() else []


SPECIAL = sorted(history.INTERFACE - {"PathT"}) + ["PathT", "self", "_Any", "__init__", "typing", "kwargs", "path", "Literal_", "lazy_type_hint", "classes_created2", "Union2"]
PLAIN = ["Data", "Data2", "A", "AB", "my_class", "λData", "x"]


@st.composite
def name_histories(draw: Any) -> Dict[str, Any]:
    """Many classes with names that resemble the ones in the interface file, and little data."""
    names = draw(st.lists(st.one_of(st.sampled_from([n for n in SPECIAL if not n.startswith("__")]), st.sampled_from(PLAIN), st.sampled_from(history.NAMES)), min_size=1, max_size=6, unique=True))
    ops: List[Any] = []
    for _ in range(draw(st.integers(1, 10))):
        which = draw(st.integers(0, 19))
        if which < 18:
            ops.append(["data", draw(st.integers(0, 1)), draw(st.sampled_from(names)), draw(st.sampled_from([["i", 1], ["list", [["s", "a"]]], ["dict", [[["s", "k"], ["i", 1]]]]]))])
        elif which < 19:
            ops.append(["yaml", 0, draw(st.sampled_from(names)), "a: 1  # c\n", "side"])
        else:
            ops.append(["reset", -1])
    return {"instances": [{"config": {}, "policy": ""}, {"config": {"min_height_to_define_type_alias": 0}, "policy": "overwrite"}], "ops": ops}


def mypy_histories() -> Any:
    return st.one_of(name_histories(), history.histories())


PARTS = [
    Part("histories", history.histories, judge, quick=1200),
    Part("names", name_histories, judge, quick=1600),
    Part("mypy", mypy_histories, judge_mypy, quick=64),
]
