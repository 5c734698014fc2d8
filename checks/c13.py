"""C13: every YAML comment documents exactly its own key."""
from __future__ import annotations

import random
import re
import shutil
import tempfile
from collections import defaultdict
from pathlib import Path
from typing import Any, Dict, Iterator, List, Optional, Tuple

import yaml
from hypothesis import strategies as st

from vlib import api, common, gen
from vlib.core import Part, require, sut
from vlib.ir import show

ID = "C13"
RULE = (
    "YAML files made of nested mappings and lists (of mappings or lists of them) whose keys are identifiers (plain or in quotes), written out line by line with comments beside, "
    "above and below keys (aligned and not aligned). From these lines the documented rule (a block touches its key and is aligned with it) "
    "gives the text of every key, to be compared with the docstrings of the fields. Non-trivial: some key has a comment; distinct by case"
)
ASSUMPTIONS = [
    "scalars are on one line, files have no tabs, and keys are identifiers that do not start with two underscores, in quotes or not (others give TypedDicts without fields to document)",
    "texts are compared by words: case, periods and white space may change, triple quotes are removed",
    "mappings of one list can share their TypedDict: a key documented differently among them gets one of those texts",
]
SETTINGS: Tuple[Any, ...] = (
    "side", "above", "below", ["side"], ["above"], ["below"], ["side", "above"], ["above", "side"], ["side", "below"], ["below", "side"],
)
SCALARS = (
    "1", "1.5", "text", "some text here", "'single # quoted'", '"double # quoted"', "true", "null", "~", "", "http://a.b/c#d", "a#b",
    "[1, 2]", "'a: b'", '"it\'s"', "'it''s'", "it's", 'say "x"', "-1", "x:y", "{}", "[]", "é", "'#'", "12:30", "\"say \\\" # it\"", "['a # b', c]", "- " , "a - b", "-x",
)
TEXTS = (
    "comment", "A comment with words.", "note: value", "it's", 'say "x" loud', "'quoted'", '"quoted"', "ends \\", "\\n and \\x", "é 日本", "a: b", "Upper Case", "lower case",
    "- item", "{x}", "[mm]", "100 %", "&a *b", "x" * 70, "one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen",
    "TODO", "a.b.c", "1.5", "?", "| x", "> x", "key", "`code`", "end.", "@x", ": x",
    "issue #12", "a # b", "C#", "issue #", "# twice", "#!x", "## section ##", "---", "*bold*", "(optional)", "!", "end!", "really?", "'", '"', "1,", "%", "$HOME",
)
folder: Path


def worker_setup() -> None:
    global folder
    folder = Path(tempfile.mkdtemp(prefix="verif-yaml-"))
    tempfile.tempdir = str(folder)


def worker_teardown() -> None:
    tempfile.tempdir = None
    shutil.rmtree(folder, ignore_errors=True)


# Lines of a file: ["key", text before the key, key, rest, side comment or None], ["comment", indent, text], ["text", text], ["blank"]
# The case holds them in this form, so that it can be shrunk by removing lines.


class Writer:
    def __init__(self, rng: random.Random) -> None:
        self.rng = rng
        self.lines: List[Any] = []
        self.count = 0
        self.density = self.pick((2, 4, 6, 1))
        self.step = self.pick((2, 2, 2, 4, 1, 3))
        self.simple = self.pick((True, False))
        self.names = self.pick((("k",), ("k", "Key", "x_", "naïve", "kK", "list"), ("_k", "'k", '"k', "k", "_", "_K_")))

    def pick(self, options: Any) -> Any:
        return options[self.rng.randrange(len(options))]

    def text(self) -> str:
        texts = TEXTS[:3] if self.simple else TEXTS
        text = self.pick(texts)
        return text if self.rng.randrange(3) else f"{text} {self.pick(texts)} w{self.rng.randrange(1000)}"

    def side(self) -> Optional[str]:
        if self.rng.randrange(8) >= self.density:
            return None
        return self.pick((" ", "  ", "  ", "    ")) + "#" + self.pick((" ", " ", "", "  ")) + self.pick((self.text(), self.text(), self.text() + " # more"))

    def block(self, column: int) -> None:
        if self.rng.randrange(8) < self.density:
            shift = 0 if self.simple else self.pick((0, 0, 0, 0, 1, -1, 2, -2))
            for _ in range(self.pick((1, 1, 2, 3)) if self.rng.randrange(24) else self.pick((6, 15, 40))):
                empty = not self.simple and self.rng.randrange(10) == 0
                self.lines.append(["comment", max(0, column + shift), "#" if empty else "#" + self.pick((" ", " ", "", "  ")) + self.text()])
                if not self.simple and self.rng.randrange(8) == 0:
                    shift = 0
        if self.rng.randrange(12) == 0:
            self.lines.append(["blank"])

    def new_key(self) -> str:
        self.count += 1
        name = f"{self.pick(self.names)}{self.count}"
        return name + name[0] if name[0] in "'\"" else name

    def mapping(self, depth: int, column: int, keys: Optional[List[str]] = None, dash: str = "") -> None:
        keys = keys or [self.new_key() for _ in range(self.pick((1, 2, 2, 3)))]
        for i, key in enumerate(keys):
            if not (dash and i == 0):
                self.block(column)
            before = dash if dash and i == 0 else " " * column
            which = self.rng.randrange(8) if depth > 0 else 0
            if which < 4 or len(key) > 20:
                value = self.pick(SCALARS[:6] if self.simple else SCALARS)
                value = "" if value == "- " else value
                self.lines.append(["key", before, key, ":" + (" " + value if value else ""), self.side()])
            elif which == 4 and not self.simple and self.rng.randrange(3) == 0:
                self.lines.append(["key", before, key, ":", self.side()])
                self.scalars(column + self.pick((self.step, 0)))
            elif which == 4 and not self.simple and self.rng.randrange(3) == 0:
                style = self.pick(("|", ">", "|-", ">+", "|", f"&a{len(self.lines)} |", "!!str >"))
                self.lines.append(["key", before, key, ": " + style, self.side(), ""])
                self.block_scalar(column)
            elif which < 6:
                self.lines.append(["key", before, key, ":", self.side()])
                self.mapping(depth - 1, column + self.step)
            else:
                self.lines.append(["key", before, key, ":", self.side()])
                self.sequence(depth - 1, column + self.pick((self.step, 0)))
            if self.rng.randrange(4) == 0:
                self.block(column)

    def deep(self) -> None:
        """A mapping below many levels."""
        column = 0
        for _ in range(self.pick((5, 8, 12))):
            self.block(column)
            self.lines.append(["key", " " * column, self.new_key(), ":", self.side()])
            column += self.pick((self.step, self.step, 2, 8))
        self.mapping(2, column)

    def sequence(self, depth: int, column: int, dash: str = "") -> None:
        gap = 1 if self.simple else self.pick((1, 1, 1, 2, 3))
        inner = column + 1 + gap
        keys = [self.new_key() for _ in range(self.pick((1, 2, 3)))]
        for i in range(self.pick((1, 1, 2, 3))):
            before = dash if dash and i == 0 else " " * column
            if before.isspace() or not before:
                self.block(self.pick((inner, inner, column)))
            own = [key for key in keys if self.rng.randrange(6)] or keys[:1]
            inner_depth = depth - 1 if len(keys) == 1 else 0
            before += "-" + " " * gap
            if depth > 0 and self.rng.randrange(6) == 0:  # A list within the list
                self.sequence(depth - 1, inner, dash=before)
            elif not self.simple and self.rng.randrange(8) == 0:  # The dash has its own line
                self.lines.append(["text", before.rstrip() + self.pick(("", "", " ", "  # nothing: c"))])
                self.block(inner)
                self.mapping(inner_depth, inner, own)
            else:
                self.mapping(inner_depth, inner, own, dash=before)

    def block_scalar(self, column: int) -> None:
        """Goes with the last line, in which it starts."""
        column += self.pick((2, 1, 4, self.step))
        for i in range(self.pick((1, 2, 3, 4))):
            text = "first" if i == 0 else self.pick(("text", "# not a comment", f"x{self.new_key()}: value # x", "- a: b", "", "  deeper: # y"))
            self.lines[-1][-1] += "\n" + (" " * column + text if text else "")

    def scalars(self, column: int) -> None:
        """A list of scalars: its comments are of no key."""
        for _ in range(self.pick((1, 2, 3))):
            self.block(column)
            if self.rng.randrange(6) == 0:
                self.lines.append(["text", " " * column + "- " + self.pick(("|", ">-", "|+"))])
                self.block_scalar(column)
                continue
            value = self.pick(("1", "text", "'a: b'", "http://a.b/c", "a#b", "- 1", "x y"))
            comment = (self.side() or "").replace("#", "# no key: ")
            self.lines.append(["text", " " * column + "- " + value + comment])


def seeded(seed: int) -> List[Any]:
    writer = Writer(random.Random(seed))
    if writer.rng.randrange(10) == 0:
        writer.lines.append(["marker"])
    writer.block(0)
    if writer.rng.randrange(10) == 0:
        writer.deep()
    elif writer.rng.randrange(5):
        writer.mapping(3, 0)
    else:
        writer.sequence(2, 0)
    writer.block(0)
    return writer.lines


def long_files() -> Any:
    """A file in which many keys come before or after the other ones."""
    def of(lines: List[Any], number: int, every: int, last: bool) -> List[Any]:
        more = [["key", "", f"many{i}", ": 1", f"  # number {i}" if i % every == 0 else None] for i in range(number)]
        return [*more, ["blank"], *lines] if last else [*lines, ["blank"], *more]

    lines = st.builds(seeded, st.integers(0, 2**63)).filter(lambda lines: ["marker"] not in lines and yaml_kind(lines) is dict)
    long = st.builds(of, lines, st.sampled_from((150, 300, 700, 1300)), st.sampled_from((1, 7, 50)), st.booleans())
    return st.builds(lambda case, lines: {**case, "lines": lines}, cases(), long)


def yaml_kind(lines: List[Any]) -> Any:
    return type(yaml.safe_load("\n".join(map(line_text, lines))))


def line_text(line: Any) -> str:
    if line[0] == "key":
        return line[1] + line[2] + line[3] + (line[4] or "") + "".join(line[5:])
    if line[0] == "comment":
        return " " * line[1] + line[2]
    if line[0] == "text":
        return str(line[1])
    return "---" if line[0] == "marker" else ""


def cases() -> Any:
    return st.fixed_dictionaries(
        {
            "lines": st.builds(seeded, st.integers(0, 2**63)), "comments_are": st.sampled_from(SETTINGS),
            "config": gen.configs(dict_strategy="TypedDict", check_max_n_elements_within_container=5000), "end": st.sampled_from(["\n", "\n", "\n", "\r\n"]), "last": st.sampled_from(["\n", "\n", ""]),
        }
    )


def name_of(line: Any) -> str:
    return str(line[2].strip("'\""))


def words(text: str) -> List[str]:
    plain = text.replace("'''", " ").replace('"""', " ")
    return [w for w in (word.strip(".").casefold() for word in plain.split()) if w]


def expected_comments(lines: List[Any], positions: List[str]) -> List[Tuple[str, List[str]]]:
    """For every line with a key: the key, and the words of its comments in the requested order."""
    out: List[Tuple[str, List[str]]] = []
    for i, line in enumerate(lines):
        if line[0] != "key":
            continue
        column = len(line[1])
        found: List[str] = []
        for position in positions:
            if position == "side":
                if line[4]:
                    found += words(line[4].lstrip()[1:])
                continue
            if position == "below" and line[5:]:
                continue  # A string of several lines lies in between
            step = -1 if position == "above" else 1
            block: List[str] = []
            at = i + step
            while 0 <= at < len(lines) and lines[at][0] == "comment" and lines[at][1] == column:
                block.append(lines[at][2][1:])
                at += step
            if step == -1:
                block.reverse()
            found += words(" ".join(block))
        out.append((name_of(line), found))
    return out


def judge(case: Dict[str, Any]) -> Any:
    lines, setting = case["lines"], case["comments_are"]
    positions = [setting] if isinstance(setting, str) else setting
    text = ("\n".join(map(line_text, lines)) + case["last"]).replace("\n", case["end"])
    path = folder / "file.yaml"
    path.write_bytes(text.encode("utf-8"))

    def loader(path: Any) -> Any:
        return yaml.safe_load(Path(path).read_bytes())

    try:
        data = loader(path)
    except yaml.YAMLError:
        return {"key": None, "labels": ["not loadable"]}
    expected: Dict[str, List[List[str]]] = defaultdict(list)
    for key, found in expected_comments(lines, positions):
        expected[key].append(found)

    generator = api.LazyTypeHint(api.strategies(case["config"]))
    result = sut(lambda: generator.from_yaml_file(loader, path, class_name="Example", comments_are=setting), what="from_yaml_file")
    output = sut(result.to_string, what="to_string")
    module = common.Module(output, "Example")
    got: Dict[str, List[List[str]]] = defaultdict(list)
    classes = module.field_docstrings()
    for name in module.declared:
        meaning = module.class_meaning(name)
        if meaning[0] == "td":
            for key, _, _, _ in meaning[1]:
                got[key].append(words(classes.get(name, {}).get(key, "")))

    def explain(key: str, why: str) -> str:
        return f"key {key!r}: {why}; expected {expected[key]}, got {got[key]}\n--- comments_are={setting!r}\n{text}\n---\n{output}"

    for key, docs in expected.items():
        require(got[key], lambda: explain(key, "is missing"))
        for doc in got[key]:
            require(doc in docs, lambda: explain(key, "has another text"))
        if all(docs):
            require(all(got[key]), lambda: explain(key, "has no text"))
    require(set(got) == set(expected), lambda: f"other keys: {sorted(got)}\n{text}\n{output}")
    number = sum(bool(doc) for docs in expected.values() for doc in docs)
    labels = [f"{min(number, 6)} comments", f"comments {setting}", f"{min(len(expected), 8)} keys"]
    return {"key": case if number else None, "labels": labels}


def smaller(case: Dict[str, Any]) -> Iterator[Dict[str, Any]]:
    lines = case["lines"]

    def accepted(candidate: List[Any]) -> bool:
        try:
            return isinstance(yaml.safe_load("\n".join(map(line_text, candidate))), (dict, list))
        except yaml.YAMLError:
            return False

    for size in (8, 4, 2, 1):
        if len(lines) > size:
            for i in range(0, len(lines), size):
                candidate = lines[:i] + lines[i + size :]
                if accepted(candidate):
                    yield {**case, "lines": candidate}
    for i, line in enumerate(lines):
        if line[0] == "key":
            if line[4]:
                yield {**case, "lines": [*lines[:i], [*line[:4], None, *line[5:]], *lines[i + 1 :]]}
                if line[4] != "  # c":
                    yield {**case, "lines": [*lines[:i], [*line[:4], "  # c", *line[5:]], *lines[i + 1 :]]}
            if line[3] not in (":", ": 1") and not line[5:]:
                yield {**case, "lines": [*lines[:i], [*line[:3], ": 1", line[4]], *lines[i + 1 :]]}
        if line[5:]:
            yield {**case, "lines": [*lines[:i], [*line[:3], ": 1", line[4]], *lines[i + 1 :]]}
        if line[0] == "comment" and line[2] != "# c":
            yield {**case, "lines": [*lines[:i], [*line[:2], "# c"], *lines[i + 1 :]]}


PARTS = [
    Part("comments", cases, judge, quick=12000, shrink=False, reduce=smaller),
    Part("long", long_files, judge, quick=100, shrink=False, reduce=smaller),
]
