"""C18: to_file writes exactly what to_string gives, or nothing at all."""
from __future__ import annotations

import os
import shutil
import tempfile
from pathlib import Path
from typing import Any, Dict, List

import yaml
from hypothesis import strategies as st

from checks import c11
from vlib import api, gen
from vlib.core import Part, Violation, require, sut

from lazy_type_hint import LazyTypeHint

ID = "C18"
RULE = (
    "sequences of up to 7 writes of 1-3 trees (any data, any strategies, documentation texts and keys with any characters, YAML files with comments) to a pool of absolute and relative, "
    "str and Path targets (with ~, $HOME, links, `..`, and letters in both cases) in existing, missing and nested missing directories, with and without create_non_existing_dir, interleaved with to_string calls. A model of the file system "
    "is compared byte by byte with the real one after every write. Non-trivial: at least 3 writes, or text beyond ASCII; distinct by case"
)
ASSUMPTIONS = ["the parent of a target is a directory or missing", "no write faults"]
TARGETS = (
    "out.py", "out.py", "hints.pyi", "a/out.py", "a/b/out.py", "a/b/c d/out.py", "a/b/other.py", "é/日本.py", "present/x.py", "present/old.py", "present/new/x.py",
    "no_suffix", "a.dir/x.py", "present/../x.py", ".hidden/x.py", "with space/it's.py", "./dot/x.py",
    "~/x.py", "$HOME/x.py", "${HOME}x.py", "%TEMP%.py", "link/x.py", "link/../x.py", "link/new/x.py", "out.py.bak", "OUT.PY", "present/OLD.py", "a*.py", "a\\b.py", "x:y.py",
    "present//y.py", "new/./x.py", "out.PYI", " x.py", "x.py ", "x" * 120 + ".py", "e\u0301.py", "\u00e9.py",
    "gone/../x.py", "gone/../late/x.py", "gone/../present/x.py", "a/gone/../../a/out.py", "gone2/./../gone3/x/../y/z.py",
)


@st.composite
def sequences(draw: Any) -> Dict[str, Any]:
    trees: List[Any] = []
    for _ in range(draw(st.integers(1, 3))):
        which = draw(st.integers(0, 5))
        case = draw(gen.cases(gen.FULL_NO_ITER))
        if which == 0:
            case["config"]["key_used_as_doc"] = "doc"
            case["data"] = draw(c11.documented("doc", False))
        elif which == 1:
            case = {"yaml": draw(st.sampled_from(YAML)), "config": case["config"], "name": case["name"]}
        elif which == 2:
            case["name"] = draw(gen.any_names)
        trees.append(case)
    ops: List[Any] = []
    for _ in range(draw(st.integers(1, 7))):
        ops.append([draw(st.integers(0, len(trees) - 1)), draw(st.sampled_from(TARGETS)), draw(st.sampled_from([True, False, None])), draw(st.sampled_from(["str", "Path", "absolute", "absolute Path"]))])
    return {"trees": trees, "ops": ops}


YAML = ("a: 1  # side é\n# above 日本\nb: text\n", "é: {x: 1}\n", "- a: 1  # \"\"\"\n- a: 2.5\n", "k: \\ # back\\slash\n")


def snapshot(root: Path) -> Dict[str, Any]:
    return {
        str(path.relative_to(root)): path.read_bytes() if path.is_file() else None
        for path in sorted(root.rglob("*"))
    }


def judge(case: Dict[str, Any]) -> Any:
    root = Path(tempfile.mkdtemp(prefix="verif-c18-")).resolve()
    previous = os.getcwd()
    home = os.environ.get("HOME")
    (root / "home").mkdir()
    (root / "elsewhere" / "deep").mkdir(parents=True)
    os.environ["HOME"] = str(root / "home")
    os.chdir(root)
    try:
        return _judge(case, root)
    finally:
        os.chdir(previous)
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home
        shutil.rmtree(root, ignore_errors=True)


def _judge(case: Dict[str, Any], root: Path) -> Any:
    trees: List[Any] = []
    for tree in case["trees"]:
        if "yaml" in tree:
            path = root / "data.yaml"
            path.write_text(tree["yaml"], encoding="utf-8")
            generator = LazyTypeHint(api.strategies(tree["config"]))
            trees.append(
                sut(lambda: generator.from_yaml_file(lambda p: yaml.safe_load(Path(p).read_text(encoding="utf-8")), path, class_name=tree["name"]), what="from_yaml_file")
            )
            path.unlink()
        else:
            trees.append(api.tree(gen.build(tree["data"]), tree["config"], tree["name"]))
    (root / "present").mkdir()
    (root / "present" / "old.py").write_bytes(b"previous content that is longer than most modules\n" * 200)
    (root / "link").symlink_to("elsewhere/deep")
    expected = snapshot(root)
    labels: List[str] = []
    beyond_ascii = False
    for k, target, create, how in case["ops"]:
        path: Any = str(root / target) if how.startswith("absolute") else target
        if how.endswith("Path"):
            path = Path(path)
        plain = os.path.relpath(os.path.realpath(target), root)
        exists = os.path.isdir(os.path.dirname(target) or ".")
        arguments = {} if create is None else {"create_non_existing_dir": create}
        try:
            trees[k].to_file(path, **arguments)
        except ValueError as error:
            require(not exists and not create, lambda: f"to_file({path!r}, {arguments}) raised ValueError: {error}; existing: {sorted(expected)}")
            labels.append("rejected")
        except Exception as error:  # noqa: BLE001
            raise Violation(f"to_file({path!r}, {arguments}) raised {type(error).__name__}: {error}; existing: {sorted(expected)}") from None
        else:
            require(exists or create, lambda: f"to_file({path!r}, {arguments}) was accepted; existing: {sorted(expected)}")
            labels.append("overwritten" if plain in expected else "new file" if exists else "new directory")
            text = sut(trees[k].to_string, what="to_string")
            parts = target.split("/")[:-1]
            for i in range(len(parts)):  # Also the directories that `..` leaves again
                made = os.path.relpath(os.path.realpath("/".join(parts[: i + 1])), root)
                if made != ".":
                    expected.setdefault(made, None)
            expected[plain] = text.encode("utf-8")
            beyond_ascii |= not text.isascii()
            try:
                compile(expected[plain], plain, "exec", dont_inherit=True)
            except (SyntaxError, ValueError) as error:
                raise Violation(f"the file is not valid source: {error}\n{text}") from None
        now = snapshot(root)
        require(
            now == expected,
            lambda: f"after to_file({path!r}, {arguments}), different from what is expected: "
            + ", ".join(f"{n}: {show(now, n)} instead of {show(expected, n)}" for n in sorted(set(now) | set(expected)) if now.get(n, 0) != expected.get(n, 0)),
        )
    if beyond_ascii:
        labels.append("beyond ASCII")
    return {"key": case if beyond_ascii or len(case["ops"]) >= 3 else None, "labels": labels}


def show(files: Dict[str, Any], name: str) -> str:
    if name not in files:
        return "nothing"
    return "a directory" if files[name] is None else repr(files[name])


PARTS = [Part("writes", sequences, judge, quick=3000)]
