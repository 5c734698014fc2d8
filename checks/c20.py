"""C20: hints of callables reproduce their signatures."""
from __future__ import annotations

import ast
import builtins
import inspect
import itertools
import linecache
import typing
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st

from vlib import api, gen, objs
from vlib.core import Part, Probe, Violation, require
from vlib.ir import Module, patched_series, show
from vlib.model import Model

ID = "C20"
RULE = (
    "functions, methods (bound and not), static and class methods, wrapped functions, generators and coroutines, compiled from generated source (parameters of all kinds, names, annotations of about 50 forms, "
    "defaults of many kinds, bodies with and without return, yield, nested functions and classes; with postponed annotations or without, with source available or not), two nearly equal ones in one dictionary; lambdas with "
    "generated parameters; and the builtins of Python. The signature of the executed Protocol is compared parameter by parameter with the source. Non-trivial: at least two parameters; distinct by case"
)
ASSUMPTIONS = [
    "annotations are compared as expressions, whether quoted or not, without the modules of dotted names",
    "parameter names that start with two underscores are out of the domain (class bodies mangle them)",
    "defaults that are no literals may be shown as `...`",
]
# Text of the annotation, as in the source
ANNOTATIONS = (
    "int", "str", "float", "None", "bytes", "object", "type", "range", "Any", "List[int]", "Dict[str, List[int]]", "Optional[int]", "Union[int, str]", "Tuple[int, ...]", "Tuple[int, str]", "Tuple[()]",
    "Callable[[int], str]", "Callable[..., Any]", "Callable[[], None]", "Sequence[int]", "Mapping[str, int]", "list[int]", "dict[str, 'int']", "tuple[int, ...]", "int | None", "int | str", "Set[str]", "FrozenSet[int]",
    "Literal['a', 1]", "Literal['x, y: z']", "Literal['int']", "Literal[True]", "Type[int]", "type[int]", "Iterator[int]", "Iterable[int]", "Hashable", "Zeta", "'Zeta'", "List[Zeta]", "List['Zeta']", "Optional['Zeta']", "Optional[Zeta]", "Dict['Zeta', Zeta]",
    "'List[int]'", "'int | str'", "'Dict[str, Any]'", "T", "List[T]", "Path", "Shade", "List", "Dict", "list", "Optional[Dict[str, Union[int, Tuple[str, ...]]]]", "Union[None, Zeta, int]", "Type['Zeta']",
    "Sequence[Sequence[List[Dict[str, int]]]]", "'Unknown'", "List['Unknown']", "'pkg.Unknown'", "NoneType",
)
DEFAULTS = (
    "None", "1", "-1", "1.5", "'x'", "''", "'it\\'s \"quoted\"'", "'back\\\\slash'", "'new\\nline'", "'日本'", "()", "(1, 'x')", "[]", "[1, 2]", "{}", "{'k': None}", "True", "b'y'", "float('inf')", "float('nan')", "Zeta()", "print", "int",
    "Shade.DARK", "...", "{1, 2}", "set()", "frozenset()", "range(3)", "lambda: 1", "object()", "1j", "[Zeta()]", "'a: int = 1) -> None: ...'", "10**20", "NotImplemented", "slice(1)", "(1,)", "MARK",
)
PARAMETERS = ("a", "b", "c", "x", "value", "key", "self", "cls", "args", "kwargs", "_", "_x", "é", "data", "match", "type", "List", "Any", "return_", "x1", "日本", "int", "str", "Protocol", "Zeta")
BODIES = {
    "pass": "pass", "ellipsis": "...", "doc": "'''Documentation with return.'''", "call": "print('return')", "return": "return 1", "return none": "return None", "bare": "if 1:\n    return\nprint()",
    "yield": "yield 1", "yield from": "yield from []", "nested": "def inner():\n    return 1\ninner()", "nested yield": "def inner():\n    yield 1\ninner()", "nested class": "class Inner:\n    def method(self):\n        return 1\nInner()",
    "lambda": "f = lambda: (yield)\nf()", "nested and return": "def inner():\n    pass\nreturn inner", "loop": "for _ in []:\n    if _:\n        return _", "try": "try:\n    pass\nfinally:\n    return 1",
    "raise": "raise ValueError", "comment": "pass  # return 1", "with": "with open(''):\n    return", "match": "match 1:\n    case 1:\n        return 2", "expression": "x = yield", "comprehension": "[(i) for i in []]",
}
# Names of functions, each one with the number of the function
NAMES = ("func", "func", "func", "lambda_", "_lambda", "my_lambda_handler_", "return_", "_private", "__init__", "__call__", "__lambda", "List", "Any", "Protocol", "é", "日本", "_", "yield_", "def_", "self", "print", "Callable", "None_")
RETURNING = {"return", "return none", "bare", "yield", "yield from", "nested and return", "loop", "try", "with", "match", "expression"}
HEADER = (
    "from typing import *\nfrom types import NoneType\nfrom pathlib import Path\nimport functools\nfrom vlib.objs import Zeta, Shade\nT = TypeVar('T')\nMARK = object()\n"
    "def plain(f):\n    @functools.wraps(f)\n    def wrapper(*args, **kwargs):\n        return f(*args, **kwargs)\n    return wrapper\n"
)
IMPORTABLE = {"List", "Set", "Tuple", "Type", "Dict", "Sequence", "Hashable", "FrozenSet", "Mapping", "Any", "Union", "Optional", "Callable", "Iterator", "Literal"}
_number = itertools.count()


# ------------------------------------------------------------------------------------------------ generation
@st.composite
def functions(draw: Any) -> Dict[str, Any]:
    pick = lambda options: draw(st.sampled_from(options))  # noqa: E731
    names = draw(st.lists(st.sampled_from(PARAMETERS), max_size=5 if draw(st.integers(0, 9)) < 9 else 20, unique=True))
    n_positional_only = draw(st.integers(0, 2)) if draw(st.integers(0, 2)) == 0 else 0
    parameters: List[Any] = []
    kind = "positional only" if n_positional_only else "normal"
    defaults = False
    for i, name in enumerate(names):
        if kind == "positional only" and i >= n_positional_only:
            kind = "normal"
        if kind in ("positional only", "normal") and draw(st.integers(0, 4)) == 0:
            kind = pick(("*", "keyword"))
            if kind == "*":
                parameters.append(["*", name, pick(ANNOTATIONS) if draw(st.booleans()) else None, None])
                kind = "keyword"
                continue
        if i == len(names) - 1 and draw(st.integers(0, 5)) == 0:
            parameters.append(["**", name, pick(ANNOTATIONS) if draw(st.booleans()) else None, None])
            continue
        default: Optional[str] = pick(DEFAULTS) if draw(st.integers(0, 2)) == 0 else None
        if kind != "keyword":
            if defaults and default is None:
                default = pick(DEFAULTS)
            defaults = defaults or default is not None
        parameters.append([kind, name, pick(ANNOTATIONS) if draw(st.integers(0, 3)) else None, default])
    return {
        "parameters": parameters,
        "returns": pick(ANNOTATIONS) if draw(st.integers(0, 1)) else None,
        "body": pick(sorted(BODIES)), "name": pick(NAMES),
        "how": pick(("function", "function", "function", "async", "method", "unbound", "static", "static object", "class method", "class method object", "wrapped", "multiline")),
    }


@st.composite
def programs(draw: Any) -> Dict[str, Any]:
    first = draw(functions())
    case = {"functions": [first], "future": draw(st.integers(0, 4)) == 0, "no source": draw(st.integers(0, 7)) == 0, "config": draw(gen.configs()), "name": draw(gen.names)}
    case["config"]["dict_strategy"] = "TypedDict"
    which = draw(st.integers(0, 3))
    if which == 1:
        case["functions"].append(draw(functions()))
    elif which == 2:
        second = {**first, "parameters": [list(p) for p in first["parameters"]]}
        change = draw(st.integers(0, 4))
        if change == 0:
            second["returns"] = draw(st.sampled_from(ANNOTATIONS))
        elif change == 1:
            second["body"] = draw(st.sampled_from(sorted(BODIES)))
        elif change == 2 and second["parameters"]:
            k = draw(st.integers(0, len(second["parameters"]) - 1))
            second["parameters"][k][2] = draw(st.sampled_from(ANNOTATIONS))
        elif change == 3 and second["parameters"]:
            k = draw(st.integers(0, len(second["parameters"]) - 1))
            if second["parameters"][k][3] is not None:
                second["parameters"][k][3] = draw(st.sampled_from(DEFAULTS))
        elif second["parameters"]:
            k = draw(st.integers(0, len(second["parameters"]) - 1))
            second["parameters"][k][1] = "other"
        case["functions"].append(second)
    return case


def parameter_text(parameters: List[Any], multiline: bool = False) -> str:
    out: List[str] = []
    kinds = [p[0] for p in parameters]
    star = False
    for i, (kind, name, annotation, default) in enumerate(parameters):
        if kind == "keyword" and not star and "*" not in kinds:
            out.append("*")
            star = True
        text = ("" if kind in ("positional only", "normal", "keyword") else kind) + name
        if annotation:
            text += f": {annotation}"
        if default is not None:
            text += f" = {default}"
        out.append(text)
        if kind == "positional only" and (i + 1 == len(parameters) or kinds[i + 1] != "positional only"):
            out.append("/")
    return (",\n        " if multiline else ", ").join(out)


def name_of(function: Dict[str, Any], number: int) -> str:
    return f"{function['name']}{number}" + ("__" if function["name"].startswith("__") else "")


def source_of(function: Dict[str, Any], number: int) -> str:
    how = function["how"]
    returns = f" -> {function['returns']}" if function["returns"] else ""
    body = BODIES[function["body"]]
    if how == "async" and function["body"] == "yield from":
        body = "yield 1"
    name = name_of(function, number)
    text = parameter_text(function["parameters"], how == "multiline")
    if how in ("function", "async", "wrapped", "multiline"):
        indented = body.replace("\n", "\n    ")
        start = {"async": "async def", "wrapped": "@plain\ndef"}.get(how, "def")
        return f"{start} {name}({text}){returns}:\n    {indented}\n"
    first = {"method": "this", "unbound": "this", "class method": "klass", "class method object": "klass"}.get(how, "")
    decorator = {"static": "    @staticmethod\n", "static object": "    @staticmethod\n", "class method": "    @classmethod\n", "class method object": "    @classmethod\n"}.get(how, "")
    if first:
        if any(p[0] == "positional only" for p in function["parameters"]):
            text = f"{first}, {text}"
        else:
            text = f"{first}, {text}" if text else first
    indented = body.replace("\n", "\n        ")
    return f"class Class{number}:\n{decorator}    def {name}({text}){returns}:\n        {indented}\n"


def compile_functions(case: Dict[str, Any]) -> List[Any]:
    text = "from __future__ import annotations\n" if case["future"] else ""
    text += HEADER
    for number, function in enumerate(case["functions"]):
        text += source_of(function, number)
    file = f"<verif-{next(_number)}>"
    ns: Dict[str, Any] = {"__name__": "user_module"}
    exec(compile(text, file, "exec", dont_inherit=True), ns)  # noqa: S102
    if not case["no source"]:
        linecache.cache[file] = (len(text), None, text.splitlines(keepends=True), file)
    out: List[Any] = []
    for number, function in enumerate(case["functions"]):
        how, name = function["how"], name_of(function, number)
        if how in ("function", "async", "wrapped", "multiline"):
            out.append(ns[name])
        elif how == "method":
            out.append(getattr(ns[f"Class{number}"](), name))
        elif how in ("static object", "class method object"):
            out.append(ns[f"Class{number}"].__dict__[name])
        else:
            out.append(getattr(ns[f"Class{number}"], name))
    case_files.append(file)
    while len(case_files) > 50:
        linecache.cache.pop(case_files.pop(0), None)
    return out


case_files: List[str] = []


# ------------------------------------------------------------------------------------------------ judging
class Plain(ast.NodeTransformer):
    """Annotations without quotes and without the modules of dotted names."""

    def visit_Subscript(self, node: ast.Subscript) -> Any:
        node.value = self.visit(node.value)
        if not (isinstance(node.value, ast.Name) and node.value.id == "Literal"):
            node.slice = self.visit(node.slice)
        return node

    def visit_Constant(self, node: ast.Constant) -> Any:
        if isinstance(node.value, str):
            return self.visit(ast.parse(node.value, mode="eval").body)
        return node

    def visit_Attribute(self, node: ast.Attribute) -> Any:
        return self.visit(ast.Name(node.attr, ast.Load()))

    def visit_Name(self, node: ast.Name) -> Any:
        return ast.Constant(None) if node.id == "NoneType" else node


def plain(text: str) -> str:
    return ast.unparse(ast.fix_missing_locations(Plain().visit(ast.parse(text, mode="eval").body)))


def annotation_text(annotation: Any, text: str) -> Optional[str]:
    """The annotation that the module shows."""
    if annotation is inspect.Parameter.empty:
        return None
    shown = annotation if isinstance(annotation, str) else "None" if annotation is None else inspect.formatannotation(annotation)
    try:
        return plain(shown)
    except (SyntaxError, ValueError):
        raise Violation(f"the annotation {shown!r} is not an expression\n{text}") from None


def check_names(annotation: Any, module: Module) -> None:
    """What a quoted annotation needs of typing is imported."""
    if isinstance(annotation, str):
        for node in ast.walk(ast.parse(plain(annotation))):
            if isinstance(node, ast.Name) and node.id in IMPORTABLE and hasattr(typing, node.id):
                require(node.id in module.ns, lambda: f"`{node.id}` of the annotation {annotation!r} is not imported\n{module.text}")


def expected_return(function: Dict[str, Any], case: Dict[str, Any]) -> str:
    if function["returns"]:
        return plain(function["returns"])
    if case["no source"] or function["how"] == "async" or function["body"] in RETURNING:
        return "Any"
    return "None"


def judge_function(function: Dict[str, Any], data: Any, tp: Any, module: Module, case: Dict[str, Any]) -> None:
    text = module.text
    source = source_of(function, 0)
    if function["how"] == "class method object":
        with patched_series():
            meaning = module.meaning(tp)
        require(meaning == ("callable", None), lambda: f"a class method that is not bound cannot be called, but is {show(meaning)}\n{source}\n{text}")
        return
    require(getattr(tp, "_is_protocol", False), lambda: f"{tp!r} is no protocol\n{source}\n{text}")
    signature = inspect.signature(tp.__dict__["__call__"])
    got = list(signature.parameters.values())
    kinds = {"positional only": "POSITIONAL_ONLY", "normal": "POSITIONAL_OR_KEYWORD", "*": "VAR_POSITIONAL", "keyword": "KEYWORD_ONLY", "**": "VAR_KEYWORD"}
    expected = [list(p) for p in function["parameters"]]
    if function["how"] == "unbound":
        only = bool(expected) and expected[0][0] == "positional only"
        expected.insert(0, ["positional only" if only else "normal", "this", None, None])
    require(
        [(p.kind.name, p.name) for p in got] == [(kinds[kind], name) for kind, name, _, _ in expected],
        lambda: f"the parameters are {[(p.kind.name, p.name) for p in got]}\n{source}\n{text}",
    )
    real = {p.name: p for p in inspect.signature(data).parameters.values()}
    for parameter, (_, name, annotation, default) in zip(got, expected):
        shown = annotation_text(parameter.annotation, text)
        require(shown == (plain(annotation) if annotation else None), lambda: f"{name} is annotated with {shown} instead of {annotation}\n{source}\n{text}")
        check_names(parameter.annotation, module)
        require((parameter.default is inspect.Parameter.empty) == (default is None), lambda: f"the default of {name} is {parameter.default} instead of {default}\n{source}\n{text}")
        if default is not None:
            require(parameter.default is Ellipsis or same(parameter.default, real[name].default), lambda: f"the default of {name} is {parameter.default!r} instead of {default}\n{source}\n{text}")
    returned = annotation_text(signature.return_annotation, text)
    wanted = expected_return(function, case)
    require(returned == wanted, lambda: f"the return is {returned} instead of {wanted}\n{source}\n{text}")
    check_names(signature.return_annotation, module)


def same(a: Any, b: Any) -> bool:
    return type(a) is type(b) and repr(a) == repr(b)


def judge(case: Dict[str, Any]) -> Any:
    try:
        functions_ = compile_functions(case)
    except SyntaxError:
        return {"key": None, "labels": ["not valid Python"]}
    if len(functions_) == 1:
        text = api.render(functions_[0], case["config"], case["name"])
        module = Module(text, case["name"])
        judge_function(case["functions"][0], functions_[0], module.ns[module.root_name], module, case)
    else:
        text = api.render({"f": functions_[0], "g": functions_[1]}, case["config"], case["name"])
        module = Module(text, case["name"])
        for key, function, data in zip("fg", case["functions"], functions_):
            tp = module.ns[module.root_name].__annotations__[key]
            while typing.get_origin(tp) is not None and "ReadOnly" in repr(typing.get_origin(tp)):
                tp = typing.get_args(tp)[0]
            if isinstance(tp, typing.ForwardRef):
                inner = tp.__forward_arg__
                inner = inner[len("ReadOnly[") : -1].strip("'\"") if inner.startswith("ReadOnly[") else inner
                require(inner in module.ns, lambda: f"{inner} is not declared\n{text}")
                tp = module.ns[inner]
            judge_function(function, data, tp, module, case)
    first = case["functions"][0]
    labels = [f["how"] for f in case["functions"]] + [f"{len(first['parameters'])} parameters"]
    return {"key": case if len(first["parameters"]) >= 2 else None, "labels": labels}


# ------------------------------------------------------------------------------------------------ lambdas, builtins
@st.composite
def lambdas(draw: Any) -> Dict[str, Any]:
    out: List[str] = []
    for _ in range(draw(st.integers(1, 3))):
        parameters = [[k, n, None, d] for k, n, _, d in draw(functions())["parameters"]]
        out.append(f"lambda {parameter_text(parameters)}: {draw(st.sampled_from(['None', '1', '(yield)', 'lambda x: x']))}")
    return {"lambdas": out, "container": draw(st.sampled_from(["root", "list", "tuple", "dict"])), "config": draw(gen.configs()), "name": draw(gen.names)}


def judge_lambda(case: Dict[str, Any]) -> Any:
    ns: Dict[str, Any] = {}
    exec(HEADER, ns)  # noqa: S102
    try:
        made = [eval(text, ns) for text in case["lambdas"]]  # noqa: S307
    except SyntaxError:
        return {"key": None, "labels": ["not valid Python"]}
    which = case["container"]
    data: Any = made[0] if which == "root" else made if which == "list" else tuple(made) if which == "tuple" else {f"k{i}": f for i, f in enumerate(made)}
    text = api.render(data, case["config"], case["name"])
    module = Module(text, case["name"])
    expected = Model(case["config"])(data)
    require(module.root == expected, lambda: f"{case['lambdas']} ({which}) hinted as\n  {show(module.root)}\nbut should be\n  {show(expected)}\n{text}")
    for function in made:
        n = len(inspect.signature(function).parameters)
        alone = Module(api.render(function, case["config"], "Example"), "Example")
        require(alone.root == ("callable", n), lambda: f"{n} parameters, but {show(alone.root)}\n{alone.text}")
    return {"key": case if len(made) > 1 else None, "labels": [which]}


def builtin_functions() -> List[str]:
    import math
    import operator

    out: List[str] = []
    for prefix, place in (("", builtins), ("math.", math), ("operator.", operator), ("str.", str), ("dict.", dict), ("int.", int), ("[].", []), ("''.", "")):
        for name in sorted(dir(place)):
            value = getattr(place, name)
            if isinstance(value, (type(len), type([].append))) and not isinstance(value, type):
                out.append(prefix + name)
    return out


def judge_builtin(case: Dict[str, Any]) -> Any:
    import math
    import operator

    data = eval(case["builtin"], {"math": math, "operator": operator, "builtins": builtins})  # noqa: S307
    text = api.render(data, case["config"], case["name"])
    module = Module(text, case["name"])
    try:
        signature: Any = inspect.signature(data)
    except (ValueError, TypeError):
        require(module.root == ("callable", None), lambda: f"{case['builtin']} cannot be inspected, but is {show(module.root)}\n{text}")
        return {"key": case["builtin"], "labels": ["cannot be inspected"]}
    expected = ("proto", tuple((p.name, p.kind.name, p.default is not p.empty) for p in signature.parameters.values()))
    require(module.root == expected, lambda: f"{case['builtin']}{signature} is hinted as {show(module.root)}\n{text}")
    returned = inspect.signature(module.ns[module.root_name].__dict__["__call__"]).return_annotation
    require(returned in (Any, "Any"), lambda: f"nothing is known about what {case['builtin']} returns, but it is hinted as {returned}\n{text}")
    return {"key": case["builtin"] if len(signature.parameters) > 1 else None, "labels": ["inspected"]}


def probe_self() -> None:
    """Bound to an instance, as type checkers do, __call__ must still take all parameters."""
    text = api.render(objs.f_posonly, {}, "Example")
    module = Module(text, "Example")
    call = module.ns["Example"].__dict__["__call__"]
    bound = list(inspect.signature(call.__get__(object())).parameters)
    require(bound == ["a", "b", "c"], lambda: f"an instance of the protocol takes {bound} instead of ['a', 'b', 'c']\n{text}")


PARTS = [
    Part("functions", programs, judge, quick=15000),
    Part("lambdas", lambdas, judge_lambda, quick=3000),
    Part("builtins", lambda: st.fixed_dictionaries({"builtin": st.sampled_from(builtin_functions()), "config": gen.configs(), "name": gen.names}), judge_builtin, quick=1000),
]
PROBES = [Probe("protocol-without-self", probe_self, finding="protocol-without-self")]
