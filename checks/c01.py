"""C01: generated modules execute on their own, define the name, and declare everything once and before its use."""
from __future__ import annotations

import ast
import builtins
from typing import Any, Dict, Iterator, List, Set, Tuple

from checks import c04
from vlib import api, common, gen, objs
from vlib.core import Part, Probe, Violation, require

ID = "C01"
RULE = (
    "random nested data (all kinds) x strategies x class names. The module is compiled and executed in an empty namespace, "
    "and its syntax tree is walked for names used before their declaration, unknown names and repeated declarations. "
    "Non-trivial: at least 3 nodes; distinct by (data, strategies, name)"
)
ASSUMPTIONS = [
    "class names that are built in, or that the generated modules import themselves (List, pd...), are out of the domain",
    "pd.Series is made subscriptable while a module is executed (see known_findings.txt)",
]
USER_NAMES = (
    {type(make()).__name__ for make in objs.INSTANCES.values()}
    | {cls.__name__ for cls in objs.CLASSES.values()}
    | {"Point", "Zeta", "Omega", "Shade", "Kappa", "vlib", "list_iterator", "str_iterator", "defaultdict", "OrderedDict", "Word", "OddStr", "MyStr"}
)


def used_names(node: ast.AST, bound: Set[str]) -> Iterator[Tuple[str, bool]]:
    """Names read by a node, and whether they are quoted. Positions that hold plain strings are left out."""
    if isinstance(node, ast.Name):
        if isinstance(node.ctx, ast.Load) and node.id not in bound:
            yield node.id, False
    elif isinstance(node, ast.Constant) and isinstance(node.value, str):
        try:
            inner = ast.parse(node.value, mode="eval").body
        except (SyntaxError, ValueError):
            raise Violation(f"quoted type {node.value!r} is not an expression") from None
        for name, _ in used_names(inner, bound):
            yield name, True
    elif isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id == "Literal":
        yield from used_names(node.value, bound)
    elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "TypedDict":
        yield from used_names(node.func, bound)
        require(len(node.args) == 2 and isinstance(node.args[1], ast.Dict), "unexpected TypedDict call")
        for value in node.args[1].values:
            yield from used_names(value, bound)
    elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for decorator in node.decorator_list:
            yield from used_names(decorator, bound)
        arguments = node.args
        every = [*arguments.posonlyargs, *arguments.args, *arguments.kwonlyargs]
        every += [a for a in (arguments.vararg, arguments.kwarg) if a]
        for argument in every:
            if argument.annotation:
                yield from used_names(argument.annotation, bound)
        for default in [*arguments.defaults, *(d for d in arguments.kw_defaults if d)]:
            if not isinstance(default, ast.Constant):
                for child in ast.walk(default):
                    if isinstance(child, ast.Name):
                        yield child.id, False
        if node.returns:
            yield from used_names(node.returns, bound)
        inner_bound = bound | {argument.arg for argument in every}
        for statement in node.body:
            if isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant):
                continue
            yield from used_names(statement, inner_bound)
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
        return
    else:
        for child in ast.iter_child_nodes(node):
            yield from used_names(child, bound)


def inspect_module(module: Any) -> None:
    known = set(dir(builtins))
    declared: Dict[str, int] = {}
    for statement in module.tree.body:
        if isinstance(statement, (ast.Import, ast.ImportFrom)):
            names = [alias.asname or alias.name.split(".")[0] for alias in statement.names]
            for name in names:
                require(name not in declared, lambda: f"`{name}` is imported twice\n{module.text}")
                declared[name] = 1
            known.update(names)
            continue
        own: List[str] = []
        if isinstance(statement, ast.ClassDef):
            own = [statement.name]
        elif isinstance(statement, ast.AnnAssign) and isinstance(statement.target, ast.Name):
            own = [statement.target.id]
        elif isinstance(statement, ast.Assign):
            own = [t.id for t in statement.targets if isinstance(t, ast.Name)]
        for name, quoted in used_names(statement, set()):
            fine = name in known or (quoted and name in USER_NAMES)
            require(
                fine, lambda: f"`{name}` is used but neither imported, built in nor declared before\n{module.text}"
            )
        for name in own:
            require(name not in declared, lambda: f"`{name}` is declared more than once\n{module.text}")
            declared[name] = 1
            known.add(name)
    require(module.declared and module.declared[-1] == module.root_name, lambda: f"the class is not the last declaration\n{module.text}")


def judge(case: Dict[str, Any]) -> Any:
    _, module = common.generate(case)
    inspect_module(module)
    labels = common.labels_of(case)
    labels.append(f"{min(len(module.declared), 8)} declarations")
    return {"key": common.nested_key(case), "labels": labels}


def series_is_executable() -> None:
    text = api.render(__import__("pandas").Series([1, 2]), {}, "Example")
    try:
        exec(compile(text, "<module>", "exec", dont_inherit=True), {"__name__": "module"})  # noqa: S102
    except TypeError as error:
        raise Violation(f"{error}\n{text}") from None


def dunder_names() -> None:
    common.module_of(["dict", [[["s", "a"], ["dict", [[["s", "b"], ["i", 1]]]]]]], {}, "__x")


PARTS = [
    Part("everything", lambda: gen.with_config(gen.data(gen.FULL), gen.any_names), judge, quick=9000),
    Part("builtin", lambda: gen.with_config(gen.data(gen.BUILTIN), gen.any_names), judge, quick=9000),
    Part("dictionaries", lambda: gen.with_config(gen.data(gen.NAMING, "dict"), gen.any_names), judge, quick=9000),
    Part("similar dictionaries", lambda: c04.at_thresholds(c04.similar()), judge, quick=5000),
]
PROBES = [
    Probe("series executes", series_is_executable, finding="series-subscript"),
    Probe("class names with two underscores", dunder_names, finding="dunder-class-name"),
]
