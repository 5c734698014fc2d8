"""C05: min_height_to_define_type_alias only decides which aliases are declared."""
from __future__ import annotations

import ast
from typing import Any, Dict, Iterator, List

from checks import c04
from vlib import api, common, gen
from vlib.core import Part, require
from vlib.ir import canonical, patched_series, show

ID = "C05"
HEIGHTS = (0, 1, 2, 3, 4, 6, 50)
RULE = (
    f"the same data at every height of {HEIGHTS}: the meanings of the executed modules must be identical (field order "
    "included), the number of declarations must not grow, the same classes must be declared, every alias but the root must stand for "
    "a structure higher than the value, and every structure that is written inline must not be. Non-trivial: the number of declarations changes; distinct by "
    "(data, strategies, name)"
)


def judge(case: Dict[str, Any]) -> Any:
    counts = []
    data = common.source(case)
    first = None
    for height in HEIGHTS:
        config = {**case["config"], "min_height_to_define_type_alias": height}
        module = common.Module(api.render(data(), config, case["name"]), case["name"])
        if first is None:
            first = module
        require(
            canonical(module.root) == canonical(first.root),
            lambda: f"height {height} means\n  {show(canonical(module.root))}\nheight {HEIGHTS[0]} means\n  "
            f"{show(canonical(first.root))}\n{module.text}\n{first.text}",
        )
        classes = {canonical(module.class_meaning(name)) for name in module.declared if not is_alias(module, name)}
        if counts:
            require(
                len(module.declared) <= counts[-1],
                lambda: f"height {height} declares {len(module.declared)} names, a smaller height {counts[-1]}\n{module.text}",
            )
            require(
                classes == previous,
                lambda: f"height {height} declares the classes {sorted(map(show, classes))}, a smaller height "
                f"{sorted(map(show, previous))}\n{module.text}",
            )
        check_heights(module, height)
        previous = classes
        counts.append(len(module.declared))
        require(module.declared.count(module.root_name) == 1, lambda: f"the root is not declared\n{module.text}")
    changes = len(set(counts)) > 1
    return {"key": case if changes else None, "labels": [f"{len(set(counts))} different numbers of declarations"]}


LEAVES = {"any", "obj", "none", "inst", "fwd", "mod", "io", "type", "nd", "callable", "proto"}
CONTAINERS = {"List", "Sequence", "Set", "FrozenSet", "Tuple", "Dict", "Mapping", "MappingProxyType", "Iterator", "Series"}


def height_of(tp: Any) -> int:
    """Levels of containers."""
    kind = tp[0]
    if kind in LEAVES:
        return 0
    if kind == "union":
        return max(map(height_of, tp[1]))
    children: List[Any]
    if kind == "td":
        children = [t for _, t, _, _ in tp[1]]
    elif kind == "df":
        children = [t for _, t in tp[1]]
    elif kind == "tup":
        children = list(tp[1])
    elif kind in ("dict", "map", "mproxy"):
        children = [tp[2]]
    elif kind == "pddf":
        children = []
    else:
        children = [tp[1]]
    return 1 + max(map(height_of, children), default=0)


def inlined(module: Any) -> Iterator[ast.expr]:
    """The structures that are written within the declarations of other ones."""
    for node in module.tree.body:
        expressions: List[ast.expr] = []
        if isinstance(node, ast.AnnAssign) and isinstance(node.value, ast.Subscript):
            expressions = [node.value.slice]
        elif isinstance(node, ast.Assign) and isinstance(node.value, ast.Call):
            expressions = [value for argument in node.value.args if isinstance(argument, ast.Dict) for value in argument.values]
        elif isinstance(node, ast.ClassDef):
            for statement in node.body:
                if isinstance(statement, ast.AnnAssign):
                    expressions.append(statement.annotation)
                elif isinstance(statement, ast.FunctionDef) and "Literal" in ast.unparse(statement.args) and "Series" not in ast.unparse(statement.args):
                    if statement.decorator_list and statement.returns is not None:
                        expressions.append(statement.returns)
        for expression in expressions:
            for part in ast.walk(expression):
                if isinstance(part, ast.Subscript):
                    name = part.value.attr if isinstance(part.value, ast.Attribute) else getattr(part.value, "id", "")
                    if name in CONTAINERS:
                        yield part


def check_heights(module: Any, height: int) -> None:
    for name in module.declared:
        if is_alias(module, name) and name != module.root_name:
            meaning = module.class_meaning(name)
            require(
                meaning[0] in ("callable", "pddf") or height_of(meaning) > height,
                lambda: f"at height {height} `{name}` is declared, although {show(canonical(meaning))} is not higher\n{module.text}",
            )
    with patched_series():
        for part in inlined(module):
            meaning = module.meaning(module.evaluate(ast.unparse(part)))
            require(
                height_of(meaning) <= height,
                lambda: f"at height {height} `{ast.unparse(part)}` is not declared, although it is higher\n{module.text}",
            )


def is_alias(module: Any, name: str) -> bool:
    """An alias can be expanded; a class cannot."""
    return not isinstance(module.ns[name], type) or module.ns[name].__module__ != module.name


def fixed() -> Dict[str, Any]:
    return {"min_height_to_define_type_alias": ...}


PARTS = [
    Part("everything", lambda: gen.cases(gen.FULL_NO_ITER, **fixed()), judge, quick=3500),
    Part("iterators", lambda: gen.cases(gen.ITERATORS, **fixed()), judge, quick=1500),
    Part("builtin", lambda: gen.cases(gen.BUILTIN, **fixed()), judge, quick=4000),
    Part("dictionaries", lambda: gen.with_config(gen.data(gen.NAMING), gen.names, **fixed()), judge, quick=4000),
    Part("similar dictionaries", lambda: c04.at_thresholds(c04.similar(kinds=("list", "tuple"))), judge, quick=2500),
]
