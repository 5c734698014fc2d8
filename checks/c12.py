"""C12: comments of a YAML file change nothing but docstrings."""
from __future__ import annotations

import os
import shutil
import tempfile
from pathlib import Path
from typing import Any, Dict

import yaml
from hypothesis import strategies as st

from vlib import api, common, gen, yamlgen
from vlib.core import Part, Violation, require, sut
from vlib.ir import show

ID = "C12"
RULE = (
    "YAML text from a grammar (nested mappings and sequences, all scalar styles, anchors, comments in good and odd places) with "
    "random mutations, and lists of mappings with common keys, kept if yaml.safe_load accepts it; every comments_are setting, several encodings, loaders and strategies. The types "
    "must equal those of from_data(loader(path)). Non-trivial: the text has a # and some position is requested; distinct by case"
)
ASSUMPTIONS = [
    "files that are not .yaml or .yml, and `above` together with `below`, are refused by design",
    "keys with the reserved prefix `___docstring_hidden_key_` and self-referential anchors are out of the domain",
]
SETTINGS = (
    "side", "above", "below", ["side"], ["above"], ["below"], ["side", "above"], ["above", "side"], ["side", "below"], ["below", "side"], [], None,
)
folder: Path


def worker_setup() -> None:
    global folder
    folder = Path(tempfile.mkdtemp(prefix="verif-yaml-"))
    (folder / "tmp").mkdir()
    tempfile.tempdir = str(folder / "tmp")  # Where the library puts its temporary files


def worker_teardown() -> None:
    tempfile.tempdir = None
    shutil.rmtree(folder, ignore_errors=True)


def cases(texts: Any) -> Any:
    return st.fixed_dictionaries(
        {
            "text": texts, "comments_are": st.sampled_from(SETTINGS), "config": st.one_of(gen.configs(), gen.configs(dict_strategy="TypedDict")), "name": gen.names,
            "encoding": st.sampled_from(["utf-8"] * 8 + ["utf-8-sig", "utf-16"]), "path": st.sampled_from(["str", "Path"]),
            "file": st.sampled_from(["data.yaml", "data.yml", "my data.yaml", "a.b.yml", "é.yaml"]),
            "loader": st.sampled_from(["bytes", "text", "stream"]),
        }
    )


def loader_of(kind: str) -> Any:
    def load(path: Any) -> Any:
        if not isinstance(path, load.expected):  # type: ignore
            raise Violation(f"the loader was given a {type(path).__name__}, the path is a {load.expected.__name__}")  # type: ignore
        if kind == "bytes":
            return yaml.safe_load(Path(path).read_bytes())
        if kind == "text":
            with open(path, encoding="utf-8") as file:
                return yaml.safe_load(file.read())
        with open(path, mode="rb") as file:
            return yaml.safe_load(file)

    return load


def recursive(data: Any, active: tuple = ()) -> bool:
    if isinstance(data, (dict, list)):
        if id(data) in active:
            return True
        children = data.values() if isinstance(data, dict) else data
        return any(recursive(child, (*active, id(data))) for child in children)
    return False


def judge(case: Dict[str, Any]) -> Any:
    for old in folder.iterdir():
        if old.is_file():
            old.unlink()
    for old in (folder / "tmp").iterdir():
        old.unlink()
    file = folder / case["file"]
    content = case["text"].encode(case["encoding"])
    file.write_bytes(content)
    path = str(file) if case["path"] == "str" else file
    loader = loader_of(case["loader"])
    loader.expected = type(path)
    try:
        data = loader(path)
    except Exception:  # noqa: BLE001  (not a file that the loader accepts)
        return {"key": None, "labels": ["not accepted by the loader"]}
    if recursive(data) or "___docstring" in case["text"]:
        return {"key": None, "labels": ["out of the domain"]}
    config, name = case["config"], case["name"]
    expected = common.Module(api.render(data, config, name), name)
    generator = api.LazyTypeHint(api.strategies(config))
    settings = {} if case["comments_are"] == "side" else {"comments_are": case["comments_are"]}
    result = sut(lambda: generator.from_yaml_file(loader, path, class_name=name, **settings), what="from_yaml_file")
    text = sut(result.to_string, what="to_string")
    require(file.read_bytes() == content, "the YAML file was modified")
    left = [p.name for p in (folder / "tmp").iterdir()] + [p.name for p in folder.iterdir() if p != folder / "tmp" and p != file]
    require(not left, lambda: f"files were left behind: {left}")
    module = common.Module(text, name)
    require(
        module.root == expected.root,
        lambda: f"with comments:\n  {show(module.root)}\nwithout:\n  {show(expected.root)}\n{case['text']}\n{text}\n{expected.text}",
    )
    require(module.declared == expected.declared, lambda: f"other declarations:\n{text}\nand without comments:\n{expected.text}")
    documented = sum(map(len, module.field_docstrings().values()))
    if case["comments_are"] in (None, []):
        require(not documented, lambda: f"docstrings that were not requested\n{text}")
    labels = [f"{min(documented, 4)} comments as docstrings", f"comments {case['comments_are']}", case["encoding"]]
    interesting = "#" in case["text"] and case["comments_are"]
    return {"key": case if interesting else None, "labels": labels}


def smaller(case: Dict[str, Any]) -> Any:
    for text in yamlgen.shorter(case["text"]):
        yield {**case, "text": text}


PARTS = [
    Part("grammar", lambda: cases(yamlgen.texts()), judge, quick=20000, shrink=False, reduce=smaller),
    Part("similar mappings", lambda: cases(yamlgen.similar_texts()), judge, quick=5000, shrink=False, reduce=smaller),
]
