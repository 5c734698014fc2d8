"""Objects that the generated data are built from: user classes, modules, functions."""
from __future__ import annotations

import ast
import copy
import enum
import inspect
import io
import json
import linecache
import math
import textwrap
import types
import weakref
from collections import OrderedDict, namedtuple
from dataclasses import dataclass
from typing import Any, Callable, Dict, Iterator, List, Optional, Sequence, Tuple, Union

import numpy as np


WORDS = ("a", "b", "name", "key one", "id", "class", "it's", "A", "value", "k", "x1")


class Zeta:
    def __repr__(self) -> str:
        return "Zeta()"

    def method(self, a: int, b: str = "x") -> bool:
        return bool(a)

    @classmethod
    def build(cls, a: int) -> "Zeta":
        return cls()

    @staticmethod
    def helper(a: int, *args: str) -> None: ...

    def nothing(self, a):  # type: ignore
        self.a = a


class Omega:
    """Another class without anything special."""


@dataclass(frozen=True)
class Kappa:
    number: int = 1


class KAPPA:
    """A class whose name differs in letter case only."""


class kappa:  # noqa: N801
    """Another one."""


class Theta(Zeta):
    """Subclass of another user class."""


class Shade(enum.Enum):
    DARK = 1
    LIGHT = "light"


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 2


class MyInt(int):
    """User subclass of a built-in type."""


class MyStr(str):
    """User subclass of a built-in type."""


Word = enum.Enum("Word", {word: word for word in WORDS}, type=str)  # type: ignore[misc]


class OddStr(str):
    """A string that is shown as another one."""

    def __str__(self) -> str:
        return "shown"

    def __repr__(self) -> str:
        return "<OddStr>"

    def __format__(self, spec: str) -> str:
        return "formatted"


class _Returns(ast.NodeVisitor):
    """Looks for returned and yielded values of a function, leaving out what is defined within it."""

    found = False

    def visit_Return(self, node: Any) -> None:  # noqa: N802
        self.found = True

    visit_Yield = visit_YieldFrom = visit_Return

    def visit_FunctionDef(self, node: Any) -> None:  # noqa: N802
        pass

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef


def returns_nothing(function: Any) -> bool:
    """Whether the source is known, and has no return."""
    try:
        definition = ast.parse(textwrap.dedent(inspect.getsource(function))).body[0]
    except (OSError, TypeError, SyntaxError):
        return False
    if not isinstance(definition, ast.FunctionDef):
        return False
    visitor = _Returns()
    for statement in definition.body:
        visitor.visit(statement)
    return not visitor.found


def exact(label: Any) -> Any:
    """The literal that stands for the label of a column: members of enumerations by their value."""
    kind = bool if isinstance(label, bool) else str if isinstance(label, str) else int if isinstance(label, int) else type(label)
    return kind, kind.__str__(label) if kind is str else label if kind not in (int, bool) else kind(label)


def word(value: str, kind: str) -> str:
    """A string of a subclass of str; members of enumerations are shown as `Word.a`."""
    if kind == "member" and value in WORDS:
        return Word(value)
    return OddStr(value) if kind == "odd" else MyStr(value)


def plain_key(key: Any) -> Any:
    """The same text as an ordinary string."""
    return str.__str__(key) if isinstance(key, str) else key


class SomeError(Exception):
    """User exception."""


class MyList(list):
    """User subclass of a container."""


class MyTuple(tuple):
    """User subclass of a container."""


class MySet(set):
    """User subclass of a container."""


class MyFrozenset(frozenset):
    """User subclass of a container."""


class MyIterator:
    """An iterator written by hand."""

    def __init__(self, elements: List[Any]) -> None:
        self.left = list(elements)

    def __iter__(self) -> "MyIterator":
        return self

    def __next__(self) -> Any:
        if not self.left:
            raise StopIteration
        return self.left.pop(0)

    def __copy__(self) -> "MyIterator":
        return MyIterator(self.left)


_generated: Any = weakref.WeakKeyDictionary()


def make_generator(elements: List[Any]) -> Iterator[Any]:
    generator = (element for element in elements)
    _generated[generator] = elements
    return generator


def copy_iterator(iterator: Any) -> Any:
    """A copy of an iterator that was not used so far."""
    return iter(_generated[iterator]) if isinstance(iterator, types.GeneratorType) else copy.copy(iterator)


ITERATORS: Dict[str, Callable[[List[Any]], Any]] = {"generator": make_generator, "hand": MyIterator}

Point = namedtuple("Point", ["x", "y"])

# User classes that are named like supported ones of other packages
Series, DataFrame, ndarray, TextIOWrapper = (type(name, (), {"__module__": __name__}) for name in ("Series", "DataFrame", "ndarray", "TextIOWrapper"))

INSTANCES: Dict[str, Callable[[], Any]] = {
    "Series": Series,
    "DataFrame": DataFrame,
    "ndarray": ndarray,
    "TextIOWrapper": TextIOWrapper,
    "Zeta": Zeta,
    "Omega": Omega,
    "Kappa": Kappa,
    "KAPPA": KAPPA,
    "kappa": kappa,
    "Theta": Theta,
    "Shade": lambda: Shade.DARK,
    "Level": lambda: Level.HIGH,
    "MyInt": lambda: MyInt(3),
    "MyStr": lambda: MyStr("text"),
    "SomeError": SomeError,
    "float64": lambda: np.float64(1.5),
    "int64": lambda: np.int64(3),
    "Decimal": lambda: __import__("decimal").Decimal("1.5"),
    "date": lambda: __import__("datetime").date(2020, 1, 2),
    "Fraction": lambda: __import__("fractions").Fraction(1, 3),
    "deque": lambda: __import__("collections").deque([1]),
}
CLASSES: Dict[str, type] = {
    "Series": Series,
    "DataFrame": DataFrame,
    "Zeta": Zeta,
    "Omega": Omega,
    "KAPPA": KAPPA,
    "kappa": kappa,
    "Shade": Shade,
    "MyInt": MyInt,
    "int": int,
    "str": str,
    "bool": bool,
    "dict": dict,
    "list": list,
    "object": object,
    "Exception": Exception,
    "ValueError": ValueError,
    "SomeError": SomeError,
}
MODULES: Dict[str, types.ModuleType] = {"math": math, "json": json, "numpy": np}
DTYPES: Tuple[str, ...] = (
    "int8", "int16", "int32", "int64", "uint8", "uint32", "float32", "float64", "complex128", "bool", "<U3", "<U7", "S2",
    "object", "datetime64[ns]", "timedelta64[s]", "float16", ">i4",
)


def make_file(kind: str) -> Any:
    if kind == "text":
        return io.TextIOWrapper(io.BytesIO(b"abc"))
    if kind == "string":
        return io.StringIO("abc")
    return io.BytesIO(b"abc")


# ---------------------------------------------------------------------------------------------- functions
def f_annotated(a: int, b: str = "x", *args: float, c: bool, d: Optional[int] = None, **kwargs: str) -> List[int]:
    return [a]


def f_plain(a, b=1):  # type: ignore
    return a


def f_nothing(a, b=None):  # type: ignore
    a.b = b


def f_no_args():  # type: ignore
    pass


def f_posonly(a: int, b: int = 2, /, c: str = "'quoted' \"text\"") -> None:
    return None


def f_kwonly(*, key: Dict[str, List[int]], other: Tuple[int, ...] = (1, 2)) -> Union[int, str]:
    return 1


def f_user(a: Zeta, b: "Omega", c: Shade = Shade.DARK) -> Zeta:
    return a


def f_sequence(a: Sequence[int], b: Callable[[int], str]) -> "Dict[str, Any]":
    return {}


def f_generator(n: int):  # type: ignore
    yield n


async def f_async(n: int):  # type: ignore
    return n


def f_returns_nothing_but_has_inner(a):  # type: ignore
    if a:
        print(a)


def f_bare_return(a):  # type: ignore
    if a:
        return
    a.b = 1


def f_defaults(a=1.5, b=(1, "x"), c=[1, 2], d={"k": None}, e=True, f=b"y", g=-1):  # type: ignore # noqa: B006
    return a


def f_defaults_objects(a=math.pi, b=Omega(), c=print, d=int, e=float("inf")):  # type: ignore # noqa: B008
    return a


def f_annotation_none(a: None, b: "None" = None) -> None:
    pass


def f_any(a: Any, *rest: Any) -> Any:
    return a


def f_type_annotation(a: type, b: range, c: slice, d: bytes = b"") -> bool:
    return True


FUNCTIONS: Dict[str, Callable[..., Any]] = {
    name: value for name, value in list(globals().items()) if name.startswith("f_") and callable(value)
}
FUNCTIONS["builtin_len"] = len
FUNCTIONS["builtin_sorted"] = sorted
FUNCTIONS["builtin_print"] = print
FUNCTIONS["builtin_getattr"] = getattr
FUNCTIONS["builtin_max"] = max
FUNCTIONS["math_sqrt"] = math.sqrt
FUNCTIONS["json_dumps"] = json.dumps
_ZETA = Zeta()
FUNCTIONS["method"] = _ZETA.method
FUNCTIONS["method_nothing"] = _ZETA.nothing
FUNCTIONS["classmethod_bound"] = Zeta.build
FUNCTIONS["staticmethod"] = Zeta.helper
FUNCTIONS["unbound"] = Zeta.method
FUNCTIONS["static_object"] = Zeta.__dict__["helper"]

LAMBDAS: Dict[str, Callable[..., Any]] = {
    "0": lambda: 1,
    "1": lambda x: x,
    "2": lambda x, y=1: x,
    "3": lambda x, *args, **kwargs: x,
}
ALL_FUNCTIONS = {**FUNCTIONS, **{f"lambda{n}": f for n, f in LAMBDAS.items()}}


# Functions that differ in one aspect of their signature, or of what they return
_ALIKE_SOURCES = (
    "def f(a: int, b: str = 'x') -> str: return b", "def f(a: int, b: str = 'x') -> int: return a", "def f(a: int, b: str = 'x'): return b", "def f(a: int, b: str = 'x'): pass",
    "def f(a: int, b: str) -> str: return b", "def f(a: int, b: int = 1) -> str: return ''", "def f(a: int, b='x') -> str: return b", "def f(a: int, c: str = 'x') -> str: return c",
    "def f(a: int, /, b: str = 'x') -> str: return b", "def f(a: int, *, b: str = 'x') -> str: return b", "def f(a: int, *b: str) -> str: return ''", "def f(a: int, **b: str) -> str: return ''",
    "def f(b: str, a: int) -> str: return b", "def f(a: int) -> str: return ''", "def f(a: int, b: str = 'x', c: bool = True) -> str: return b", "async def f(a: int, b: str = 'x') -> str: return b",
    "def f(a: int, b: str = 'y') -> str: return b", "def f(a: float, b: str = 'x') -> str: return b", "def f(a: 'int', b: str = 'x') -> str: return b", "def f(a: List[int], b: str = 'x') -> str: return b",
    "def f(a: List[str], b: str = 'x') -> str: return b", "def f(a: Zeta, b: str = 'x') -> str: return b", "def f(a: Omega, b: str = 'x') -> str: return b", "def f(a: int, b: str = 'x') -> None: pass",
    "def g(a: int, b: str = 'x') -> str: return a",
)


def _function_of(source: str) -> Any:
    namespace = {**globals(), "__name__": __name__}
    filename = f"<verif alike {source}>"
    linecache.cache[filename] = (len(source), None, [source], filename)
    exec(compile(source, filename, "exec", dont_inherit=True), namespace)
    return namespace["g" if source.startswith("def g") else "f"]


ALIKE: Dict[str, Callable[..., Any]] = {f"alike_{i}": _function_of(source) for i, source in enumerate(_ALIKE_SOURCES)}
EVERY_FUNCTION = {**ALL_FUNCTIONS, **ALIKE}
