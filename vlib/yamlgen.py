"""Generator of YAML text with comments in all kinds of places."""
from __future__ import annotations

import random
from typing import Any, Iterator, List

from hypothesis import strategies as st

KEYS = (
    "a", "b", "name", "key one", "Key", "a-b", "x_1", "é", '"quoted"', "'single'", '"a: b"', '"a # b"', "'it''s'", "1", "2.5", "true", "null",
    "~", "a#b", "url", "class", "日本", "_x", '"\\n"', "a.b", "k-", "-x", "2024-01-01", "a'b", 'a"b', "a:b", '""', "B", "id", "List", "'#'", "*0", "on",
)
SCALARS = (
    "1", "1.5", "text", "some text here", "'single # quoted'", '"double # quoted"', '"it\'s"', "'it''s'", "it's", 'say "x"', "http://a.b/c#d", "a#b", "true",
    "null", "~", "", "", "2024-01-01", "2024-01-01 10:00:00", "0x1f", "1e3", "!!str 1", "!!float 1", "-1", "- 1" , "[]", "{}", "[1, 'a # b', c]", "{a: 1, b: x}",
    '{"a # b": 1, c: [1, {d: e}]}', "[a, b] ", "'a: b'", '"a: \\" # b"', "x:y", "é", "日本", "'#'", "a 'b' # c", "?x", "%x", "12:30:45", ".inf", ".nan",
    "!!set {a, b}", "!!binary aGk=", "!!int '3'", "\"a\\tb\"", "yes", "No", "1_000", "!!python/none x", "`x", "@x",
)
COMMENTS = (
    "comment", "A comment with words.", "key: value", "it's", 'say "x"', "'", '"', "# twice", "", "- item", "a: b # c", "{x", "[", "|", ">", "'''", '"""',
    "é日本", "ends with backslash \\", "\\n", "tab\there", "a:", "  spaced  ", ": x", "TODO", "...", "---", "Upper case", "lower case", "%", "!", "&a", "*a", ",", "?",
    "x" * 100, "`a`", "${x}", "1. one",
)


TAME_KEYS = ("a", "b", "name", "key one", "Key", "a-b", "x_1", "B", "other", "class", "a.b", "é")
TAME_SCALARS = ("1", "text", "1.5", "some text here", "'single # quoted'", '"double # quoted"', "true", "null", "", "http://a.b/c#d", "a#b", "[1, 'a # b', c]", "-1", "{a: 1}")


class Writer:
    def __init__(self, rng: random.Random) -> None:
        self.rng = rng
        self.anchors: List[str] = []
        self.lines: List[str] = []
        self.density = (2, 4, 1, 0)[self.below(4)]
        tame = self.below(4) < 3
        self.keys = TAME_KEYS if tame else KEYS
        self.scalars = TAME_SCALARS if tame else SCALARS
        self.comments = COMMENTS[:4] if tame and self.below(2) else COMMENTS
        self.straight = tame and self.below(2) == 0
        if self.straight:
            self.keys = tuple(key for key in TAME_KEYS if key.isidentifier() and key != "class")
            self.comments = tuple(c for c in self.comments if "\t" not in c)  # A tab anywhere turns comments off

    def below(self, n: int) -> int:
        return self.rng.randrange(n)

    def pick(self, options: Any) -> Any:
        return options[self.below(len(options))]

    def comment(self) -> str:
        return "#" + self.pick((" ", " ", " ", "", "  ", " " if self.straight else "\t")) + self.pick(self.comments)

    def side(self) -> str:
        if self.below(8) < self.density:
            return self.pick((" ", " ", "  ", "    ", " " if self.straight else "\t")) + self.comment()
        return ""

    def block(self, indent: int) -> None:
        """Comment lines, more or less aligned."""
        if self.below(8) < self.density:
            for _ in range(self.pick((1, 2, 1, 3))):
                shift = 0 if self.straight else self.pick((0, 0, 0, 0, 1, -1, 2, -2, 4))
                self.lines.append(" " * max(0, indent + shift) + self.comment())
                if self.below(10) == 9:
                    self.lines.append(self.pick(("", " " * indent, "   ")))
        elif self.below(16) == 15:
            self.lines.append("")

    def scalar(self, indent: int, prefix: str) -> None:
        """A value after `prefix`, that stands on its own line; deeper lines use at least `indent` + 1."""
        which = self.below(8 if self.straight else 12)
        inner = " " * (indent + self.pick((2, 1, 4)))
        if which < 8:
            value = self.pick(self.scalars)
            self.lines.append(f"{prefix} {value}".rstrip() + self.side() if value else prefix + self.side())
        elif which == 8:  # Block scalar
            self.lines.append(f"{prefix} {self.pick(('|', '>', '|-', '>-', '|+'))}" + self.side())
            for _ in range(self.pick((1, 2, 3))):
                self.lines.append(inner + self.pick(("text", "# not a comment", "key: value # x", "", "- item", "it's", "a: b", 'x "y', "  deeper # y")))
        elif which == 9:  # Plain or quoted text of several lines
            first, last = self.pick((("first", "second part"), ("'first # x", "key: y # z'"), ('"first', 'a: b # c"'), ("[1, # comment", "2]"), ("{a: 1, # comment", "b: 2}")))
            self.lines += [f"{prefix} {first}", inner + last + self.side()]
        elif which == 10 and self.anchors:
            self.lines.append(f"{prefix} *{self.pick(self.anchors)}" + self.side())
        else:
            anchor = f"n{len(self.anchors)}"
            self.lines.append(f"{prefix} &{anchor} {self.pick(('1', 'text', '[1, 2]', '{a: 1}'))}" + self.side())
            self.anchors.append(anchor)

    def mapping(self, depth: int, indent: int, first_prefix: str = "") -> None:
        used: List[str] = []
        for i in range(self.pick((2, 1, 3, 4))):
            key = self.pick(self.keys)
            if key in used and self.below(10):
                continue
            used.append(key)
            lead = first_prefix if i == 0 and first_prefix else " " * indent
            if not (i == 0 and first_prefix):
                self.block(indent)
            prefix = lead + key + self.pick((":", ":", ":", ":", ":", " :"))
            self.value(depth, indent, prefix)
            self.below_block(indent)

    def below_block(self, indent: int) -> None:
        if self.below(8) == 7:
            self.block(indent)

    def value(self, depth: int, indent: int, prefix: str) -> None:
        which = self.below(8) if depth > 0 else 0
        step = self.pick((2, 2, 4, 1, 3))
        if which < 4:
            self.scalar(indent, prefix)
        elif which < 6:
            self.lines.append(prefix + self.side())
            self.mapping(depth - 1, indent + step)
        else:
            self.lines.append(prefix + self.side())
            self.sequence(depth - 1, indent + self.pick((step, 0)))

    def sequence(self, depth: int, indent: int) -> None:
        for _ in range(self.pick((2, 1, 3))):
            self.block(indent)
            dash = " " * indent + "-"
            which = self.below(8)
            gap = self.pick((1, 1, 1, 3))
            if depth <= 0 or which < 3:
                self.scalar(indent, dash)
            elif which < 6:
                self.mapping(depth - 1, indent + 1 + gap, first_prefix=dash + " " * gap)
            elif which == 6:
                self.lines.append(dash + self.side())
                self.mapping(depth - 1, indent + 2)
            else:
                self.lines.append(dash + " - " + self.pick(("1", "text", "a: 1", "x")) + self.side())

    def text(self) -> str:
        if self.below(8) == 7:
            self.lines.append(self.pick(("---", "%YAML 1.1\n---", "# first\n---", "--- # comment")))
        self.block(0)
        which = self.below(8)
        if which < 6:
            self.mapping(3, 0)
        elif which == 6:
            self.sequence(3, 0)
        else:
            self.scalar(0, "")
        self.block(0)
        for _ in range(0 if self.straight else self.pick((0, 0, 0, 1, 1, 2))):
            self.mutate()
        end = self.pick(("\n", "\n", "\n", "\r\n"))
        return end.join(self.lines) + self.pick(("\n", "\n", "", "\n\n", "\n...\n"))

    def mutate(self) -> None:
        if not self.lines:
            return
        i = self.below(len(self.lines))
        line = self.lines[i]
        action = self.below(8)
        if action == 0:
            del self.lines[i]
        elif action == 1:
            self.lines.insert(i, self.lines[self.below(len(self.lines))])
        elif action == 2:
            self.lines.insert(i, " " * self.below(7) + self.comment())
        elif action == 3:
            position = self.below(len(line) + 1)
            self.lines[i] = line[:position] + self.pick(("#", " # ", ":", ": ", "-", "'", '"', " ", "\t", "x", "é", "\\", "{", "}", "\x85", "\u2028", "\x0c")) + line[position:]
        elif action == 4 and line:
            position = self.below(len(line))
            self.lines[i] = line[:position] + line[position + 1 :]
        elif action == 5:
            self.lines[i] = line + self.pick((" # added", "  #", " #:", "\t# tab", " "))
        elif action == 6:
            self.lines[i] = " " + line
        else:
            self.lines[i] = line.replace("    ", "\t") if "\t" not in line else line.replace("\t", " ")


class Similar(Writer):
    """Lists of mappings that have some keys in common, with comments that are recognised."""

    def __init__(self, rng: random.Random) -> None:
        super().__init__(rng)
        self.straight = True
        self.keys = tuple("abcdef")[: self.pick((3, 4, 6))]
        self.scalars = ("1", "text", "null", "1.5", "[]", "true")
        self.comments = COMMENTS[:4]
        self.density = self.pick((2, 4, 6))

    def similar(self, depth: int, indent: int) -> None:
        gap = self.pick((1, 1, 3))
        for _ in range(self.pick((2, 2, 3, 4))):
            self.block(indent + 1 + gap)
            lead = " " * indent + "-" + " " * gap
            keys = [key for key in self.keys if self.below(4)] or [self.keys[0]]
            if self.below(3) == 0:
                self.rng.shuffle(keys)
            for key in keys:
                if lead.isspace():
                    self.block(len(lead))
                if depth > 0 and self.below(4) == 0:
                    self.lines.append(f"{lead}{key}:" + self.side())
                    self.similar(depth - 1, len(lead) + 2)
                else:
                    self.scalar(len(lead), f"{lead}{key}:")
                lead = " " * len(lead)

    def text(self) -> str:
        if self.below(3):
            self.lines.append("k:" + self.side())
        self.similar(self.pick((0, 1, 2)), 0)
        return "\n".join(self.lines) + "\n"


def similar(seed: int) -> str:
    return Similar(random.Random(seed)).text()


def seeded(seed: int) -> str:
    return Writer(random.Random(seed)).text()


def texts() -> st.SearchStrategy[str]:
    """Long texts: drawn from a seed, as Hypothesis repeats itself too often with that many choices. See `shorter`."""
    return st.builds(seeded, st.integers(0, 2**63))


def similar_texts() -> st.SearchStrategy[str]:
    return st.builds(similar, st.integers(0, 2**63))


def shorter(text: str) -> Iterator[str]:
    """Variants with less lines or characters."""
    lines = text.splitlines(keepends=True)
    for size in (8, 4, 2, 1):
        if len(lines) > size:
            for i in range(0, len(lines), size):
                yield "".join(lines[:i] + lines[i + size :])
    if len(text) < 200:
        for i in range(len(text)):
            yield text[:i] + text[i + 1 :]
