"""Executes a generated module and reads, by introspection of the resulting objects, the meaning of its types.

Meaning (IR) of a type, as nested tuples:
  ("any",) ("obj",) ("none",) ("inst", name) ("fwd", name) ("mod",) ("io",)
  ("list", T) ("seq", T) ("set", T) ("fset", T) ("iter", T) ("tup", (T, ...)) ("tupv", T)
  ("dict", K, V) ("map", K, V) ("mproxy", K, V)
  ("td", ((key, T, required, read_only), ...))      fields in order
  ("type", name, quoted) ("nd", dtype name) ("series", T) ("pddf",)
  ("df", ((literal, T), ...), access)               access: sorted reprs of literals, or ("str",)
  ("callable", number of parameters or None) ("proto", signature)
  ("union", frozenset of T)
"""
from __future__ import annotations

import ast
import builtins
import collections.abc
import inspect
import itertools
import types
import typing
from typing import Any, Dict, FrozenSet, List, Optional, Set, Tuple

import numpy as np
import pandas as pd
import typing_extensions as te

from vlib.core import Violation, require

_counter = itertools.count()


class SeriesAlias:
    """Stands for pd.Series[...], that cannot be subscripted at runtime."""

    def __init__(self, parameter: Any) -> None:
        self.parameter = parameter

    def __call__(self) -> None:  # typing requires its arguments to be callable
        raise TypeError

    def __hash__(self) -> int:
        return hash(("series", repr(self.parameter)))

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SeriesAlias) and repr(other.parameter) == repr(self.parameter)

    def __repr__(self) -> str:
        return f"pd.Series[{self.parameter!r}]"


class patched_series:
    """Within this context pd.Series[...] gives a SeriesAlias."""

    def __enter__(self) -> None:
        pd.Series.__class_getitem__ = classmethod(lambda cls, parameter: SeriesAlias(parameter))  # type: ignore

    def __exit__(self, *args: Any) -> None:
        with_attr = pd.Series.__dict__.get("__class_getitem__")
        if with_attr is not None:
            del pd.Series.__class_getitem__


class Module:
    """A generated module that was executed on its own."""

    def __init__(self, text: str, root: str) -> None:
        self.text = text
        try:
            self.tree = ast.parse(text)
        except (SyntaxError, ValueError) as error:
            raise Violation(f"the generated module does not parse: {error}\n{text}") from None
        import unicodedata

        self.root_name = unicodedata.normalize("NFKC", root)
        self.name = f"generated_{next(_counter)}"
        self.ns: Dict[str, Any] = {"__name__": self.name}
        with patched_series():
            try:
                exec(compile(text, f"<{self.name}>", "exec", dont_inherit=True), self.ns)  # noqa: S102
            except Exception as error:
                raise Violation(f"the generated module cannot be executed: {type(error).__name__}: {error}\n{text}") from None
            require(self.root_name in self.ns, lambda: f"`{root}` is not defined by the module\n{text}")
            self._cache: Dict[int, Any] = {}
            self._active: List[Any] = []
            try:
                self.frame_others: Dict[str, Any] = {}
                self.declared = self._declared()
                self.root = self.meaning(self.ns[self.root_name])
            except Violation:
                raise
            except Exception as error:
                raise Violation(f"the types of the module are not usable: {type(error).__name__}: {error}\n{text}") from None
            finally:
                typing._overload_registry.pop(self.name, None)  # type: ignore

    # -------------------------------------------------------------------------------------------- structure
    def _declared(self) -> List[str]:
        """Names declared by the module (imports excluded), in order and with repetitions."""
        out: List[str] = []
        for node in self.tree.body:
            if isinstance(node, ast.ClassDef):
                out.append(node.name)
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                out.append(node.target.id)
            elif isinstance(node, ast.Assign):
                out += [t.id for t in node.targets if isinstance(t, ast.Name)]
        return out

    def imported(self) -> List[str]:
        out: List[str] = []
        for node in self.tree.body:
            if isinstance(node, (ast.Import, ast.ImportFrom)):
                out += [(a.asname or a.name.split(".")[0]) for a in node.names]
        return out

    def docstrings(self) -> Dict[str, Optional[str]]:
        """Docstring of every class, and the strings that follow functional declarations."""
        out: Dict[str, Optional[str]] = {}
        previous: Optional[str] = None
        for node in self.tree.body:
            if isinstance(node, ast.ClassDef):
                out[node.name] = ast.get_docstring(node, clean=True)
                previous = None
            elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                target = node.targets[0] if isinstance(node, ast.Assign) else node.target
                previous = target.id if isinstance(target, ast.Name) else None
                if previous:
                    out[previous] = None
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
                if previous:
                    out[previous] = inspect.cleandoc(node.value.value)
                previous = None
        return out

    def field_docstrings(self) -> Dict[str, Dict[str, str]]:
        """For every class: field -> string that follows it."""
        out: Dict[str, Dict[str, str]] = {}
        for node in self.tree.body:
            if isinstance(node, ast.ClassDef):
                fields: Dict[str, str] = {}
                previous: Optional[str] = None
                for statement in node.body:
                    if isinstance(statement, ast.AnnAssign) and isinstance(statement.target, ast.Name):
                        previous = statement.target.id
                    elif (
                        isinstance(statement, ast.Expr)
                        and isinstance(statement.value, ast.Constant)
                        and isinstance(statement.value.value, str)
                        and previous is not None
                    ):
                        fields[previous] = statement.value.value
                        previous = None
                    else:
                        previous = None
                out[node.name] = fields
        return out

    def class_meaning(self, name: str) -> Any:
        """Meaning of a declared name."""
        with patched_series():
            return self.meaning(self.ns[name])

    # -------------------------------------------------------------------------------------------- meaning
    def evaluate(self, text: str) -> Any:
        """Value of a quoted type, or a forward reference to a class of the user."""
        try:
            node = ast.parse(text, mode="eval").body
        except (SyntaxError, ValueError):
            raise Violation(f"quoted type {text!r} is not an expression\n{self.text}") from None
        if isinstance(node, ast.Name) and node.id not in self.ns and not isinstance(getattr(builtins, node.id, None), type):
            return typing.ForwardRef(text)
        try:
            return eval(compile(text, "<quoted>", "eval"), self.ns)  # noqa: S307
        except Exception as error:
            raise Violation(f"quoted type {text!r} cannot be evaluated: {error!r}\n{self.text}") from None

    def meaning(self, tp: Any) -> Any:
        if tp is None or tp is type(None):
            return ("none",)
        if tp is Any:
            return ("any",)
        if isinstance(tp, (str, typing.ForwardRef)):
            text = tp if isinstance(tp, str) else tp.__forward_arg__
            value = self.evaluate(text)
            if isinstance(value, typing.ForwardRef):
                return ("fwd", text.strip())
            if isinstance(value, str):
                return self.meaning(value)
            return self.meaning(value)
        if isinstance(tp, SeriesAlias):
            return ("series", self.meaning(tp.parameter) if not isinstance(tp.parameter, tuple) else ("bad", repr(tp)))
        origin = typing.get_origin(tp)
        args = typing.get_args(tp)
        if origin is None:
            if tp is typing.Callable:
                return ("callable", None)
            if tp is typing.TextIO:
                return ("io",)
            if isinstance(tp, type):
                return self._class(tp)
            return ("unknown", repr(tp))
        if origin is typing.Union or origin is types.UnionType:
            parts: Set[Any] = set()
            for arg in args:
                part = self.meaning(arg)
                parts |= part[1] if part[0] == "union" else {part}
            return ("union", frozenset(parts)) if len(parts) > 1 else next(iter(parts))
        if origin is list:
            return ("list", self.meaning(args[0])) if args else ("bare", "list")
        if origin is set:
            return ("set", self.meaning(args[0])) if args else ("bare", "set")
        if origin is frozenset:
            return ("fset", self.meaning(args[0])) if args else ("bare", "frozenset")
        if origin is tuple:
            if len(args) == 2 and args[1] is Ellipsis:
                return ("tupv", self.meaning(args[0]))
            return ("tup", tuple(self.meaning(arg) for arg in args))
        if origin is dict:
            return ("dict", self.meaning(args[0]), self.meaning(args[1]))
        if origin is types.MappingProxyType:
            return ("mproxy", self.meaning(args[0]), self.meaning(args[1]))
        if origin is collections.abc.Mapping:
            return ("map", self.meaning(args[0]), self.meaning(args[1]))
        if origin is collections.abc.Sequence:
            return ("seq", self.meaning(args[0]))
        if origin is collections.abc.Iterator:
            return ("iter", self.meaning(args[0]))
        if origin is collections.abc.Callable:
            if not args or args[0] is Ellipsis:
                return ("callable", None)
            parameters, result = args[0], args[1]
            require(all(p is Any for p in parameters) and result is Any, f"unexpected Callable {tp!r}")
            return ("callable", len(parameters))
        if origin is type:
            arg = args[0]
            if isinstance(arg, (str, typing.ForwardRef)):
                return ("type", arg if isinstance(arg, str) else arg.__forward_arg__)
            return ("type", getattr(arg, "__name__", repr(arg)))
        if origin is np.ndarray:
            dtype = typing.get_args(args[1])[0]
            return ("nd", dtype.__name__)
        return ("unknown", repr(tp))

    def _class(self, tp: type) -> Any:
        if te.is_typeddict(tp):
            return self._typed_dict(tp)
        if issubclass(tp, pd.DataFrame):
            return ("pddf",) if tp is pd.DataFrame else self._frame(tp)
        if tp is object:
            return ("obj",)
        if tp is types.ModuleType:
            return ("mod",)
        if getattr(tp, "_is_protocol", False) and tp.__module__ == self.name:
            return ("proto", protocol_signature(tp))
        if getattr(builtins, tp.__name__, None) is tp:
            return ("inst", tp.__name__)
        return ("unknown", repr(tp))

    def _typed_dict(self, tp: Any) -> Any:
        if id(tp) in self._cache:
            return self._cache[id(tp)]
        if tp in self._active:
            raise Violation(f"{tp.__name__} is defined in terms of itself\n{self.text}")
        self._active.append(tp)
        fields: List[Any] = []
        for key, annotation in tp.__annotations__.items():
            required, read_only = bool(getattr(tp, "__total__", True)), False
            while True:
                if isinstance(annotation, typing.ForwardRef):
                    text = annotation.__forward_arg__
                    value = self.evaluate(text)
                    if isinstance(value, typing.ForwardRef):
                        break
                    annotation = value
                    continue
                origin = typing.get_origin(annotation)
                if origin in (te.NotRequired, typing.NotRequired):
                    required, annotation = False, typing.get_args(annotation)[0]
                elif origin in (te.Required, typing.Required):
                    required, annotation = True, typing.get_args(annotation)[0]
                elif origin is te.ReadOnly:
                    read_only, annotation = True, typing.get_args(annotation)[0]
                else:
                    break
            fields.append((key, self.meaning(annotation), required, read_only))
        self._active.pop()
        result = ("td", tuple(fields))
        self._cache[id(tp)] = result
        return result

    def _frame(self, tp: Any) -> Any:
        if id(tp) in self._cache:
            return self._cache[id(tp)]
        literals: List[Any] = []
        for function in typing.get_overloads(tp.__getitem__):
            hints = self._hints(function)
            parameters = [p for p in inspect.signature(function).parameters if p != "self"]
            require(len(parameters) == 1, "__getitem__ must have one parameter")
            key = hints[parameters[0]]
            if typing.get_origin(key) is typing.Literal:
                values = typing.get_args(key)
                for value in values:
                    literals.append(((type(value).__name__, value), self.meaning(hints["return"])))
        require(bool(literals), lambda: f"no literal overload found for {tp.__name__}\n{self.text}")
        access = self._access(self._hints(tp.__getitem__)["key"])
        self.frame_others[tp.__name__] = [self._access(self._hints(f)["key"]) for f in typing.get_overloads(tp.__getitem__) if self._is_general(f)]
        result = ("df", tuple(literals), access)
        self._cache[id(tp)] = result
        return result

    def _is_general(self, function: Any) -> bool:
        return typing.get_origin(self._hints(function)["key"]) is not typing.Literal

    def _hints(self, function: Any) -> Dict[str, Any]:
        return {
            name: self.evaluate(value) if isinstance(value, str) else value
            for name, value in function.__annotations__.items()
        }

    @staticmethod
    def _access(key: Any) -> Tuple[str, ...]:
        """Which plain labels are allowed: literals, or any str."""
        out: List[str] = []
        for arg in typing.get_args(key) if typing.get_origin(key) is typing.Union else (key,):
            if typing.get_origin(arg) is typing.Literal:
                out += [f"{type(v).__name__}:{v!r}" for v in typing.get_args(arg)]
            elif isinstance(arg, type) and arg in (str, int, bool, object):
                out.append(arg.__name__)
            elif arg is typing.Hashable:
                out.append("Hashable")
        return tuple(sorted(out))


def annotation_text(annotation: Any) -> Any:
    if annotation is inspect.Parameter.empty:
        return None
    if isinstance(annotation, str):
        return annotation
    return inspect.formatannotation(annotation)


def protocol_signature(tp: Any) -> Any:
    return signature_key(inspect.signature(tp.__dict__["__call__"]))


def signature_key(signature: inspect.Signature) -> Any:
    """Parameters: name, kind and whether it has a default value."""
    return tuple(
        (p.name, p.kind.name, p.default is not inspect.Parameter.empty) for p in signature.parameters.values()
    )


def canonical(tp: Any) -> Any:
    """Forget the order of the fields of TypedDicts and columns."""
    if not isinstance(tp, tuple):
        return tp
    if tp and tp[0] == "td":
        return ("td", frozenset((k, canonical(t), r, o) for k, t, r, o in tp[1]))
    if tp and tp[0] == "df":
        return ("df", frozenset((k, canonical(t)) for k, t in tp[1]), tp[2])
    if tp and tp[0] == "union":
        return union(canonical(t) for t in tp[1])
    if tp and tp[0] == "tup":
        return ("tup", tuple(canonical(t) for t in tp[1]))
    if tp and tp[0] in ("proto", "callable", "inst", "fwd", "type", "nd"):
        return tp
    return tuple(canonical(t) if isinstance(t, tuple) else t for t in tp)


def union(parts: Any) -> Any:
    flat: Set[Any] = set()
    for part in parts:
        flat |= part[1] if part[0] == "union" else {part}
    return next(iter(flat)) if len(flat) == 1 else ("union", frozenset(flat))


def show(tp: Any) -> str:
    """Readable and deterministic text of an IR."""
    if not isinstance(tp, (tuple, frozenset)):
        return repr(tp)
    if isinstance(tp, frozenset):
        return "{" + ", ".join(sorted(show(t) for t in tp)) + "}"
    kind = tp[0] if tp else ""
    if kind in ("inst", "fwd") and len(tp) == 2:
        return str(tp[1]) if kind == "inst" else repr(tp[1])
    if kind in ("any", "obj", "none", "mod", "io", "pddf") and len(tp) == 1:
        return str(kind)
    if kind == "union":
        return " | ".join(sorted(show(t) for t in tp[1]))
    return "(" + ", ".join(show(t) if isinstance(t, (tuple, frozenset)) else str(t) for t in tp) + ")"
