"""C27: hints and files do not depend on the environment of the process."""
from __future__ import annotations

import base64
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings
from pathlib import Path
from typing import Any, Dict, List, Optional

import yaml
from hypothesis import strategies as st

from checks import c11
from vlib import gen, live, yamlgen
from vlib.core import REPO, Part, Violation, require, sut

ID = "C27"
RULE = (
    "data, documentation texts, YAML files and live sessions with text of all kinds, done in this process (UTF-8) and in another one with the same hash seed but an ASCII locale, other (changing) working directories, time zone and "
    "home, no UTF-8 mode, other sys.flags (-O) and with warnings as errors. What is written to files (to_file, the live interface and its modules) and returned must be identical, byte by byte. Non-trivial: text beyond ASCII is written; distinct by case"
)
ASSUMPTIONS = ["names of files and of live classes are ASCII, as the file system of the other process cannot name other ones", "users' loaders read files as bytes"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
START = "import sys; sys.dont_write_bytecode = True; sys.path[:1] = sys.argv[1:3]; sys.path.append(sys.argv[3]); from checks import c27; c27.serve()"
_other: Optional[subprocess.Popen] = None
_scratch: Path


def worker_setup() -> None:
    global _other, _scratch
    live.open_sandbox()
    _scratch = Path(tempfile.mkdtemp(prefix="verif-c27-"))
    environment = {
        **os.environ, "LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "PYTHONIOENCODING": "ascii", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "COLUMNS": "20", "TERM": "dumb",
    }
    _other = subprocess.Popen(
        [sys.executable, "-O", "-c", START, HERE, str(REPO), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=environment, cwd="/", text=True, encoding="ascii",
    )


def worker_teardown() -> None:
    live.close_sandbox()
    shutil.rmtree(_scratch, ignore_errors=True)
    if _other and _other.stdin:
        _other.stdin.close()
        _other.wait(20)


def in_other(case: Dict[str, Any]) -> Any:
    assert _other and _other.stdin and _other.stdout
    _other.stdin.write(json.dumps(case) + "\n")
    _other.stdin.flush()
    line = _other.stdout.readline()
    if not line:
        raise RuntimeError("the other process died")
    return json.loads(line)


def serve() -> None:
    global _scratch, _moves
    live.open_sandbox()
    _scratch = Path(tempfile.mkdtemp(prefix="verif-c27-"))
    _moves = itertools.count()
    out = sys.stdout
    sys.stdout = sys.stderr
    warnings.simplefilter("error")
    try:
        for line in sys.stdin:
            try:
                answer: Any = {"result": perform(json.loads(line))}
            except Violation as violation:
                answer = {"violation": str(violation)}
            out.write(json.dumps(answer) + "\n")
            out.flush()
    finally:
        shutil.rmtree(_scratch, ignore_errors=True)
        live.close_sandbox()


def encoded(content: bytes) -> str:
    return base64.b64encode(content).decode("ascii")


_moves: Optional[Any] = None


def build(spec: Any) -> Any:
    """Only what the package does is subject to the filter of warnings."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return gen.build(spec)


def move() -> None:
    """The other process keeps changing its working directory."""
    if _moves:
        folder = _scratch / f"place {next(_moves) % 3}"
        folder.mkdir(exist_ok=True)
        os.chdir(folder)


def perform(case: Dict[str, Any]) -> Any:
    before = os.getcwd()
    move()
    try:
        return performed(case)
    finally:
        os.chdir(before)


def performed(case: Dict[str, Any]) -> Any:
    """What the operation writes and returns."""
    sandbox = live.sandbox()
    folder = _scratch
    if case.get("relative") and case["kind"] != "live":
        os.chdir(_scratch)
        folder = Path()
    strategies = sut(sandbox.strategies, case["config"])

    def loader(path: Any) -> Any:
        return yaml.safe_load(Path(path).read_bytes())

    if case["kind"] == "live":
        sandbox.clean()
        for name, spec in case["classes"]:
            data = build(spec)
            instance = sut(lambda: sandbox.Live(strategies, if_type_hint_exists=case["policy"]), what="LazyTypeHintLive()")
            try:
                instance.from_data(data, class_name=name)
                move()
            except sandbox.Error as error:
                if case["policy"] != "validate":
                    raise Violation(f"from_data raised {error!r}") from None
            except Exception as error:  # noqa: BLE001
                raise Violation(f"from_data raised {error!r}") from None
        return {name: encoded(content) for name, content in sandbox.generated().items()}
    generator = sandbox.package.LazyTypeHint(strategies)
    if case["kind"] == "yaml":
        path: Any = folder / "data.yaml"
        path.write_bytes(case["text"].encode("utf-8"))
        path = str(path) if case.get("as_text") else path
        try:
            loader(path)
        except Exception:  # noqa: BLE001
            return "not YAML"
        tree = sut(lambda: generator.from_yaml_file(loader, path, class_name=case["name"], comments_are=case["comments_are"]), what="from_yaml_file")
    else:
        data = build(case["data"])
        tree = sut(lambda: generator.from_data(data, class_name=case["name"]), what="from_data")
    target = folder / "out" / "module.py"
    sut(tree.to_file, str(target) if case.get("as_text") else target, create_non_existing_dir=True, what="to_file")
    content = target.read_bytes()
    shutil.rmtree(_scratch / "out")
    require(content == sut(tree.to_string, what="to_string").encode("utf-8"), "the file has another content than to_string gives")
    return encoded(content)


def judge(case: Dict[str, Any]) -> Any:
    here = perform(case)
    answer = in_other(case)
    require("violation" not in answer, lambda: f"in the other process: {answer['violation']}")
    there = answer["result"]

    def text(value: Any) -> Any:
        return {k: base64.b64decode(v).decode("utf-8", "replace") for k, v in value.items()} if isinstance(value, dict) else base64.b64decode(value).decode("utf-8", "replace")

    require(here == there, lambda: f"here:\n{text(here)}\nin the other process:\n{text(there)}")
    if here == "not YAML":
        return {"key": None, "labels": ["not YAML"]}
    contents = [text(here)] if isinstance(here, str) else list(text(here).values())
    beyond = not all(c.isascii() for c in contents)
    return {"key": case if beyond else None, "labels": [case["kind"], "beyond ASCII" if beyond else "ASCII"]}


def small_sets(spec: Any) -> Any:
    """The order of larger sets can depend on addresses."""
    if not isinstance(spec, list):
        return spec
    if len(spec) >= 2 and spec[0] in ("set", "frozenset") and isinstance(spec[1], list):
        return [spec[0], [small_sets(e) for e in spec[1][:1]], *spec[2:]]
    return [small_sets(e) for e in spec]


WORDS = ("é", "日本", "naïve", "🙂", "Ω", "a", "b c", "\xa0", "x\u2028y", "ñ")


@st.composite
def unicode_data(draw: Any) -> Any:
    text = st.sampled_from(WORDS)
    leaf = st.one_of(st.just(["i", 1]), text.map(lambda t: ["s", t]), st.just(["n"]))
    tree = st.recursive(leaf, lambda child: st.one_of(st.lists(child, max_size=3).map(lambda c: ["list", c]), st.lists(st.tuples(text, child), max_size=3, unique_by=lambda p: p[0]).map(lambda items: ["dict", [[["s", k], v] for k, v in items]])), max_leaves=6)
    return ["dict", [[["s", draw(text)], draw(tree)]]]


@st.composite
def modules(draw: Any) -> Dict[str, Any]:
    which = draw(st.integers(0, 3))
    case = draw(gen.cases(gen.NAMING if which else gen.FULL))
    case["kind"] = "data"
    if which == 1:
        case["config"] = {**case["config"], "key_used_as_doc": "doc"}
        case["data"] = draw(c11.documented("doc", False))
    elif which == 2:
        case["data"] = draw(unicode_data())
        case["name"] = draw(gen.any_names)
    case["data"] = small_sets(case["data"])
    return {**case, "relative": draw(st.booleans()), "as_text": draw(st.booleans())}


def yaml_cases() -> Any:
    return st.fixed_dictionaries(
        {"kind": st.just("yaml"), "text": yamlgen.texts(), "config": gen.configs(), "name": gen.names, "comments_are": st.sampled_from(["side", "above", "below", ["side", "above"], None]), "relative": st.booleans(), "as_text": st.booleans()}
    )


def sessions() -> Any:
    data = st.one_of(unicode_data(), gen.data(gen.NAMING).map(small_sets))
    return st.fixed_dictionaries(
        {
            "kind": st.just("live"), "config": gen.configs(), "policy": st.sampled_from(["overwrite", "validate"]),
            "classes": st.lists(st.tuples(st.sampled_from(["Data", "Data2", "A", "Any"]), data).map(list), min_size=1, max_size=4),
        }
    )


def smaller(case: Dict[str, Any]) -> Any:
    for text in yamlgen.shorter(case["text"]):
        yield {**case, "text": text}


PARTS = [
    Part("modules", modules, judge, quick=5000),
    Part("YAML", yaml_cases, judge, quick=4000, shrink=False, reduce=smaller),
    Part("live", sessions, judge, quick=1200),
]
