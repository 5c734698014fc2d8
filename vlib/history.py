"""Histories of LazyTypeHintLive: several instances, data, YAML files and resets, in a sandboxed copy of the package."""
from __future__ import annotations

import ast
import random
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional

import yaml
from hypothesis import strategies as st

from vlib import common, gen, live
from vlib.core import Violation, require, sut

NAMES = ("Data", "Data2", "DataX", "A", "my_class", "_x", "λData", "B", "x", "class_name", "AB", "Live", "build", "data", "Dat", "naïve", "LazyTypeHintLive2", "Any_", "T1")

# ------------------------------------------------------------------------------------------------ generation
SMALL = gen.replace(
    gen.SIMPLE, leaves=("i", "f", "s", "b", "n", "inst", "cls", "np", "fn"), depth=3, width=3,
    containers=("list", "tuple", "set", "dict", "frozenset", "dict", "mproxy", "series", "df"), keys=("friendly", "friendly", "nasty", "other"),
)
YAML_TEXTS = (
    "a: 1\nb: text\n", "a: 1  # comment\nb: text\n", "# above\na: 1\nb: other text  # side\n", "a: 1.5\n", "- a: 1  # first\n- a: 2\n", "- 1\n- x\n",
    "outer:\n  # above\n  inner: 1  # side\n  list:\n    - x\n", "outer:\n  inner: 2\n  list:\n    - y  # no key\n", "text\n", "{}\n", "a: {b: [1, 'x # y']}  # c\n",
    "a b: 1  # c\n", "# only a comment\n", "a: null # it's \"quoted\" \\ \n", "a: 1 # first\nb: second # '''\n",
)
DOC_TEXTS = ("First text", "Second text.", 'with """ quotes', "several\n\nparagraphs", "back\\slash", "= equal", "a" * 100)


@st.composite
def instances(draw: Any) -> Dict[str, Any]:
    config = draw(gen.configs(check_max_n_elements_within_container=500)) if draw(st.booleans()) else {}
    if draw(st.integers(0, 2)) == 0:
        config["key_used_as_doc"] = "doc"
    return {"config": config, "policy": draw(st.sampled_from(["overwrite", "validate", "validate", ""]))}


@st.composite
def pools(draw: Any) -> List[Any]:
    """Data that often have the same hints: a base with other values, other docstrings, and small changes."""
    out: List[Any] = []
    for _ in range(draw(st.integers(1, 3))):
        drawer = gen.Drawer(draw, SMALL)
        base = drawer.container(2)
        if draw(st.integers(0, 2)) == 0 and base[0] == "dict":
            base = ["dict", [*[item for item in base[1] if item[0] != ["s", "doc"]], [["s", "doc"], ["s", draw(st.sampled_from(DOC_TEXTS))]]]]
        out.append(base)
        for _ in range(draw(st.integers(1, 2))):
            which = draw(st.integers(0, 4))
            if which == 0:
                out.append(drawer.variation(base, 2))
            elif which == 1:
                out.append(respelled(base, draw(st.integers(0, 9)), random.Random(draw(st.integers(0, 2**32)))))
            else:
                out.append(other_values(base, draw(st.integers(1, 5)), draw(st.sampled_from(DOC_TEXTS))))
    return out


def other_values(spec: Any, shift: int, text: str) -> Any:
    """The same types with other values."""
    if spec[0] == "i":
        return ["i", spec[1] + shift]
    if spec[0] == "s":
        return ["s", text]
    if spec[0] in ("list", "tuple"):
        return [spec[0], [other_values(e, shift, text) for e in spec[1]]]
    if spec[0] == "dict":
        return ["dict", [[k, other_values(v, shift, text)] for k, v in spec[1]]]
    return spec


def respelled(spec: Any, how: int, rng: random.Random) -> Any:
    """The same with one key spelled slightly differently (added if there is none)."""
    if spec[0] in ("list", "tuple", "frozenset", "set") and spec[1] and rng.randrange(8):
        k = rng.randrange(len(spec[1]))
        return [spec[0], [respelled(e, how, rng) if i == k else e for i, e in enumerate(spec[1])], *spec[2:]]
    if spec[0] not in ("dict", "mproxy"):
        return spec
    strings = [i for i, (key, _) in enumerate(spec[1]) if key[0] == "s" and key[1] != "doc"]
    nested = [i for i, (_, value) in enumerate(spec[1]) if value[0] in ("dict", "list", "tuple")]
    items = [list(item) for item in spec[1]]
    if nested and rng.randrange(2):
        k = rng.choice(nested)
        items[k][1] = respelled(items[k][1], how, rng)
    elif strings:
        k = rng.choice(strings)
        items[k][0] = ["s", spelling(items[k][0][1], how)]
        if items[k][0] in [key for i, (key, _) in enumerate(items) if i != k]:
            return spec
    return [spec[0], items, *spec[2:]]


def spelling(key: str, how: int) -> str:
    ways = (
        key.swapcase(), key.replace(" ", "  ") if " " in key else key + " ", " " + key, key + "_", key.replace(" ", "_").replace("_", "-"), key + "\u0301", key + "\n",
        key.replace("'", '"').replace("é", "e") + "'", key + ".", "_" + key,
    )
    return ways[how]


@st.composite
def histories(draw: Any, most: int = 9) -> Dict[str, Any]:
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 7)) == 0:
        names.append(draw(gen.any_names.filter(stable)))
    made = draw(st.lists(instances(), min_size=1, max_size=3))
    pool = draw(pools())
    ops: List[Any] = []
    for _ in range(draw(st.integers(2, most))):
        which = draw(st.integers(0, 15))
        k = draw(st.integers(0, len(made) - 1))
        if which < 10:
            ops.append(["data", k, draw(st.sampled_from(names)), draw(st.sampled_from(pool))])
        elif which < 13:
            comments = draw(st.sampled_from(["side", "above", ["side", "above"], None, "below"]))
            ops.append(["yaml", k, draw(st.sampled_from(names)), draw(st.sampled_from(YAML_TEXTS)), comments])
        elif which < 14:
            ops.append(["new", k])
        elif which < 15:
            ops.append(["reset", k if draw(st.booleans()) else -1])
        else:
            ops.append(["bad", k, draw(st.sampled_from(["1a", "a b", "class", "", "None", "a-b", "A()"]))])
    return {"instances": made, "ops": ops}


@st.composite
def nearly_equal(draw: Any) -> Dict[str, Any]:
    """Data for one class whose hints are equal, or differ in small details."""
    made = [draw(instances()) for _ in range(draw(st.integers(1, 2)))]
    made.append({**made[0], "policy": "validate"})
    rng = random.Random(draw(st.integers(0, 2**63)))
    drawer = gen.Drawer(draw, SMALL)
    name = draw(st.sampled_from(NAMES))
    base = drawer.container_of("dict", 3) if rng.randrange(3) else drawer.container(3)
    if rng.randrange(3):
        base = [rng.choice(("list", "tuple")), [base, drawer.variation(base, 2)]]
    ops: List[Any] = [["data", 0, name, base]]
    for _ in range(draw(st.integers(1, 4))):
        which = rng.randrange(4)
        changed = respelled(base, rng.randrange(10), rng) if which < 2 else drawer.variation(base, 2) if which < 3 else other_values(base, 1, rng.choice(DOC_TEXTS))
        ops.append(["data", len(made) - 1, name, changed])
        if rng.randrange(4) == 0:
            ops.append(["data", rng.randrange(len(made)), name, base])
    return {"instances": made, "ops": ops}


STRAYS = ("from typing_extensions import TypeAlias\n\n\n{name}: TypeAlias = complex\n", "", "# not finished: (", "class {name}:\n    ...\n")


@st.composite
def with_strays(draw: Any) -> Dict[str, Any]:
    """Modules that do not belong to any class are in the build folder, as an interrupted call leaves them."""
    case = draw(histories())
    for _ in range(draw(st.integers(1, 3))):
        names = [op[2] for op in case["ops"] if op[0] in ("data", "yaml")] or ["Data"]
        stray = ["stray", 0, draw(st.sampled_from(names)), draw(st.sampled_from(STRAYS))]
        case["ops"].insert(draw(st.integers(0, len(case["ops"]))), stray)
    return case


@st.composite
def with_many(draw: Any) -> Dict[str, Any]:
    """Dozens of classes."""
    made = draw(st.lists(instances(), min_size=1, max_size=2))
    made[0]["policy"] = draw(st.sampled_from(["overwrite", ""]))
    pool = draw(pools())
    first = draw(st.sampled_from(("Row", "R", "Data", "Any")))
    numbers = list(range(draw(st.sampled_from((12, 30, 60, 100)))))
    if draw(st.booleans()):
        numbers = draw(st.permutations(numbers))
    ops: List[Any] = [["data", 0, f"{first}{i}", pool[i % len(pool)]] for i in numbers]
    for _ in range(draw(st.integers(1, 3))):
        which = draw(st.integers(0, 2))
        k = draw(st.integers(0, len(made) - 1))
        ops.append(["reset", -1] if which == 0 else ["new", k] if which == 1 else ["data", k, f"{first}{draw(st.integers(0, 110))}", draw(st.sampled_from(pool))])
    return {"instances": made, "ops": ops}


def stable(name: str) -> bool:
    import unicodedata

    return name == unicodedata.normalize("NFKC", name) and not name.startswith("__") and name not in INTERFACE and len(name) < 60


INTERFACE = frozenset(
    {
        "ast", "os", "re", "shutil", "Path", "Any", "Callable", "Dict", "Final", "Literal", "Mapping", "Optional", "Sequence", "TypeVar", "Union", "cast", "final",
        "overload", "TypeAlias", "override", "DataTypeTree", "PyFileModifier", "YAML_COMMENTS_POSITION", "LazyTypeHintABC", "ParsingStrategies", "TAB",
        "is_string_python_keyword_compatible", "THIS_DIR", "LazyTypeHintLiveError", "ObjectT", "PathT", "LazyTypeHintLive", "classes_created", "from_data",
        "from_yaml_file", "reset", "str",
    }
)


# ------------------------------------------------------------------------------------------------ execution


class State:
    """What is expected after the operations done so far."""

    def __init__(self) -> None:
        self.sandbox = live.sandbox()
        self.sandbox.clean()
        self.classes: Dict[str, str] = {}
        """Class -> module that a plain LazyTypeHint gives for the latest accepted data."""
        self.log: List[str] = []

    def history(self) -> str:
        return "\n".join(self.log)


class Event:
    """One operation that was done."""

    def __init__(self, kind: str, name: str = "", policy: str = "") -> None:
        self.kind, self.name, self.policy = kind, name, policy
        self.existing: Optional[str] = None
        """Module of the class before the operation."""
        self.reference = ""
        self.rejected = ""
        self.before: Dict[str, bytes] = {}


def run(case: Dict[str, Any], observe: Callable[[State, Event], None], snapshots: bool = False) -> State:
    state = State()
    sandbox = state.sandbox
    made: Dict[int, Any] = {}

    def construct(k: int) -> Any:
        spec = case["instances"][k]
        arguments: Dict[str, Any] = {"strategies": sandbox.strategies(spec["config"])} if spec["config"] else {}
        if spec["policy"]:
            arguments["if_type_hint_exists"] = spec["policy"]
        made[k] = sut(lambda: sandbox.Live(**arguments), what=f"LazyTypeHintLive()\n{state.history()}")
        return made[k]

    for op in case["ops"]:
        kind = op[0]
        state.log.append(repr(op))
        event = Event(kind)
        if kind == "new":
            construct(op[1])
        elif kind == "stray":
            if op[2] not in state.classes:
                sandbox.build.mkdir(exist_ok=True)
                (sandbox.build / f"{op[2]}.py").write_text(op[3].format(name=op[2]), encoding="utf-8")
        elif kind == "reset":
            target = sandbox.Live if op[1] < 0 else made.get(op[1], sandbox.Live)
            sut(target.reset, what=f"reset\n{state.history()}")
            state.classes.clear()
        elif kind == "bad":
            instance = made.get(op[1]) or construct(op[1])
            event.before = sandbox.snapshot()
            try:
                instance.from_data([1], class_name=op[2])
            except Exception as error:  # noqa: BLE001
                event.rejected = type(error).__name__
            else:
                raise Violation(f"the class name {op[2]!r} was accepted")
        else:
            instance = made.get(op[1]) or construct(op[1])
            name = op[2]
            event.name, event.policy = name, case["instances"][op[1]]["policy"] or "overwrite"
            event.existing = state.classes.get(name)
            reference = sandbox.package.LazyTypeHint(sandbox.strategies(case["instances"][op[1]]["config"]))
            if snapshots:
                event.before = sandbox.snapshot()
            if kind == "data":
                data = gen.build(op[3])
                event.reference = sut(lambda: reference.from_data(data, class_name=name).to_string(), what="LazyTypeHint.from_data")
                call: Callable[[], Any] = lambda: instance.from_data(data, class_name=name)  # noqa: E731
            else:
                path = sandbox.root / "data.yaml"
                path.write_text(op[3], encoding="utf-8")

                def loader(path: Any) -> Any:
                    return yaml.safe_load(Path(path).read_text(encoding="utf-8"))

                data = loader(path)
                event.reference = sut(
                    lambda: reference.from_yaml_file(loader, path, class_name=name, comments_are=op[4]).to_string(), what="LazyTypeHint.from_yaml_file"
                )
                call = lambda: instance.from_yaml_file(loader, path, class_name=name, comments_are=op[4])  # noqa: E731
            try:
                result = call()
            except sandbox.Error as error:
                event.rejected = str(error)
                require(
                    event.policy == "validate" and event.existing is not None,
                    lambda: f"{op} was rejected although there is nothing to validate: {event.rejected}\n{state.history()}",
                )
                state.log[-1] += "  -> rejected"
            except Exception as error:  # noqa: BLE001
                import traceback

                tail = "".join(traceback.format_exception(type(error), error, error.__traceback__)[-3:])
                raise Violation(f"{kind} raised {type(error).__name__}: {error}\n{tail}\n{state.history()}") from None
            else:
                state.classes[name] = event.reference
                if kind == "data":
                    require(result is data, "from_data did not return the object it was given")
                else:
                    require(result == data, lambda: f"from_yaml_file returned {result!r} instead of {data!r}")
        observe(state, event)
    return state


# ------------------------------------------------------------------------------------------------ reading files


def without_docstrings(text: str) -> str:
    """Syntax of a module without docstrings and formatting."""
    tree = ast.parse(text)
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef)):
            node.body = [
                s for s in node.body
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str))
            ] or [ast.Pass()]
    return ast.dump(tree)


class Interface:
    """The generated interface file, as a type checker would read it."""

    def __init__(self, text: str, history: str) -> None:
        self.text = text
        try:
            self.tree = ast.parse(text)
            compile(text, "<pyi>", "exec", dont_inherit=True)
        except (SyntaxError, ValueError) as error:
            raise Violation(f"the interface file is not valid: {error}\n{history}\n{text}") from None
        classes = [n for n in self.tree.body if isinstance(n, ast.ClassDef) and n.name == "LazyTypeHintLive"]
        require(len(classes) == 1, lambda: f"no class LazyTypeHintLive in the interface file\n{text}")
        self.cls = classes[0]

    def classes_created(self) -> List[str]:
        for node in self.cls.body:
            if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.target.id == "classes_created":
                return [
                    element.value
                    for sub in ast.walk(node.value)  # type: ignore
                    if isinstance(sub, ast.Subscript) and isinstance(sub.value, ast.Name) and sub.value.id == "Literal"
                    for element in (sub.slice.elts if isinstance(sub.slice, ast.Tuple) else [sub.slice])
                    if isinstance(element, ast.Constant)
                ]
        raise Violation(f"no classes_created in the interface file\n{self.text}")

    def methods(self, name: str) -> List[ast.FunctionDef]:
        return [n for n in self.cls.body if isinstance(n, ast.FunctionDef) and n.name == name]

    def imports(self) -> Dict[str, str]:
        """Names bound at module level, in order: name -> where from."""
        out: Dict[str, str] = {}
        for node in self.tree.body:
            if isinstance(node, ast.ImportFrom):
                for alias in node.names:
                    out[alias.asname or alias.name] = f"{node.module}.{alias.name}"
            elif isinstance(node, ast.Import):
                for alias in node.names:
                    out[alias.asname or alias.name] = alias.name
            elif isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                out[node.name] = "interface"
            elif isinstance(node, ast.Assign):
                out.update({t.id: "interface" for t in node.targets if isinstance(t, ast.Name)})
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
                out[node.target.id] = "interface"
        return out


def judge_with(observe: Callable[[State, Event], None], case: Dict[str, Any], snapshots: bool = False) -> Any:
    counted: Dict[str, int] = {}

    def both(state: State, event: Event) -> None:
        counted[event.kind] = counted.get(event.kind, 0) + 1
        if event.existing is not None:
            counted["again"] = counted.get("again", 0) + 1
        if event.rejected and event.kind in ("data", "yaml"):
            counted["rejections"] = counted.get("rejections", 0) + 1
        observe(state, event)

    run(case, both, snapshots)
    labels = [f"{name}: {min(n, 4)}" for name, n in sorted(counted.items())] + [f"{len(case['instances'])} instances"]
    return {"key": case if counted.get("again") or (counted.get("reset") and len(case["ops"]) > 2) else None, "labels": labels}
