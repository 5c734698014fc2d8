"""C11: the text under the documentation key becomes the docstring of the class."""
from __future__ import annotations

import itertools
from typing import Any, Dict, List

from hypothesis import strategies as st

from vlib import common, gen
from vlib.core import Part, require
from vlib.ir import canonical, show

ID = "C11"
RULE = (
    "nested dictionaries, each one identified by a key of its own, some with a documentation text (quotes, escapes, control "
    "characters, unicode, long lines, paragraphs) or something else under the documentation key. The docstring of every class "
    "must have the words of the text of its own dictionary, in the same paragraphs; types must be the same as without the option. Non-trivial: some text "
    "is present; distinct by case"
)
ASSUMPTIONS = ["an empty documentation key means that there is none, even if the data has an empty key", "a final period may be added and white space within paragraphs may change"]

WORDS = (
    "Words", "and", "more", "words.", '"""', "'''", "\\", '\\"', '"', "'", "\\n", "\\x", "\\u12", "\\N{DASH}", "{x}", "{", "}", "%s", "#", "é", "日本",
    "\x00", "\x07", "end.", ".", "...", "a" * 95, "http://example.org/a/b?c=d", '""', '""""', 'x"', '"x', "`code`", ":param x:", "class A:",
    "TypedDict", "\u200b", "🙂", "\x1b[0m", "\x7f", "\ufeff", "r'", "f\"{x}\"", "from", "import", "x = 1",
)
SPACES = (" ", " ", " ", "  ", "\n", "\n\n", "\t", "\n    ", " \n", "\r\n", "\r", "\x0c", "\u2028", "\x85", "\xa0", "\x1c")
DOC_KEYS = ("", "doc", "doc", "__doc__", "description", "a b", "class", 'say "x"', "é", "_", "k0")


@st.composite
def texts(draw: Any) -> str:
    if draw(st.integers(0, 7)) == 7:
        return draw(st.one_of(gen.safe_text, st.text(alphabet="\"\\'. \nn", max_size=12)))
    parts: List[str] = []
    spaces = (" ", " ", "\n", "\n\n", "\n\n\n") if draw(st.integers(0, 3)) == 3 else SPACES  # Several paragraphs
    for _ in range(draw(st.sampled_from([2, 1, 3, 5, 0, 14, 30]))):
        parts.append("w" * draw(st.integers(60, 260)) if draw(st.integers(0, 15)) == 15 else draw(st.sampled_from(WORDS)))
        parts.append(draw(st.sampled_from(spaces)))
    if parts and draw(st.integers(0, 3)) < 3:
        parts.pop()
    if draw(st.integers(0, 5)) == 5:
        parts.insert(0, draw(st.sampled_from(SPACES)))
    return "".join(parts)


@st.composite
def documented(draw: Any, doc_key: str, same_keys: bool) -> Any:
    counter = itertools.count()

    def dictionary(depth: int, identified: bool = True) -> Any:
        items: List[Any] = [[["s", f"id{next(counter)}" if identified else "id"], ["i", 1]]]
        for name in draw(st.lists(st.sampled_from(["a", "b c", "key", "class", "é", "a.b", "x", "Doc"]), max_size=3, unique=True)):
            which = draw(st.integers(0, 5))
            if which < 2 or depth == 0:
                value: Any = draw(st.sampled_from([["i", 1], ["s", "text"], ["n"], ["list", [["i", 1]]]]))
            elif which < 4:
                value = dictionary(depth - 1)
            elif which < 5:
                value = ["list", [dictionary(depth - 1) for _ in range(draw(st.integers(1, 2)))]]
            else:
                value = ["tuple", [dictionary(depth - 1), ["i", 1]]]
            if name != doc_key:
                items.append([["s", name], value])
        if draw(st.integers(0, 30)) == 30:
            items += [[["s", f"key {i}"], ["i", i]] for i in range(draw(st.integers(10, 70)))]
        kind = draw(st.integers(0, 5))
        if kind < 4:
            doc = ["s", draw(texts())]
        elif kind == 4:
            doc = draw(st.sampled_from([["i", 1], ["n"], ["y", "bytes"], ["list", [["s", "text"]]], ["b", True]]))
        else:
            doc = None
        if doc:
            items.insert(draw(st.integers(0, len(items))), [["s", doc_key], doc])
        return ["dict", items]

    if same_keys:
        items = [dictionary(0, identified=False) for _ in range(draw(st.integers(1, 4)))]
        return [draw(st.sampled_from(["list", "tuple"])), items]
    spec = dictionary(draw(st.integers(0, 2)))
    return ["list", [spec, dictionary(1)]] if draw(st.integers(0, 4)) == 4 else spec


def cases(same_keys: bool) -> Any:
    fixed = {"check_max_n_elements_within_container": 500, "dict_strategy": st.sampled_from(["TypedDict"] * 5 + ["dict", "Mapping"])}
    if not same_keys:
        fixed["merge_different_typed_dicts_if_similarity_above"] = 100

    def of(doc_key: str) -> Any:
        plain = {k: v for k, v in fixed.items() if not isinstance(v, st.SearchStrategy)}
        base = gen.with_config(documented(doc_key, same_keys), **plain)
        return st.builds(
            lambda case, d: {**case, "config": {**case["config"], "key_used_as_doc": doc_key, "dict_strategy": d}}, base, fixed["dict_strategy"]
        )

    return st.sampled_from(DOC_KEYS).flatmap(of)


def same_words(doc: Any, text: str) -> bool:
    if doc is None:
        return False
    got, expected = doc.split(), text.split()
    allowed = [expected, [*expected, "."]]
    if expected:
        allowed.append([*expected[:-1], expected[-1] + "."])
    return got in allowed and (not plain_lines(text) or same_paragraphs(doc, text))


def plain_lines(text: str) -> bool:
    """Whether the text has no other white space than spaces and newlines, and no line of spaces only."""
    return bool(text.strip()) and all(c in " \n" or not c.isspace() for c in text) and all(not line or line.strip() for line in text.split("\n"))


def same_paragraphs(doc: str, text: str) -> bool:
    """Whether the words are in the same paragraphs, with as many blank lines between them."""

    def shape(of: str) -> List[int]:
        lines = ["" if not line.strip() else line for line in of.strip().split("\n")]
        out, words = [], 0
        for line in lines:
            if line:
                words += len(line.split())
            else:
                out.append(words)
        return out

    got, expected = shape(doc), shape(text)
    return got == expected




def dictionaries(spec: Any, out: List[Any]) -> None:
    if isinstance(spec, list) and spec and isinstance(spec[0], str):
        if spec[0] == "dict":
            out.append({k[1]: v for k, v in spec[1]})
            for _, value in spec[1]:
                dictionaries(value, out)
        elif spec[0] in ("list", "tuple"):
            for value in spec[1]:
                dictionaries(value, out)


def types_unchanged(case: Dict[str, Any], module: Any, same_names: bool = True) -> None:
    without = common.module_of(case["data"], {k: v for k, v in case["config"].items() if k != "key_used_as_doc"}, case["name"])
    require(
        module.root == without.root and (not same_names or module.declared == without.declared),
        lambda: f"types without documentation:\n{without.text}\nand with it:\n{module.text}",
    )
    require(
        not any(without.docstrings().values()) and not any(without.field_docstrings().values()),
        lambda: f"docstrings although none are requested\n{without.text}",
    )
    require(not any(module.field_docstrings().values()), lambda: f"docstrings of fields\n{module.text}")


def typed_dict_names(module: Any) -> Dict[str, Any]:
    return {name: meaning for name in module.declared if (meaning := module.class_meaning(name))[0] == "td"}


def judge(case: Dict[str, Any]) -> Any:
    _, module = common.generate(case)
    types_unchanged(case, module)
    docstrings = module.docstrings()
    classes = typed_dict_names(module)
    doc_key = case["config"]["key_used_as_doc"]
    every: List[Any] = []
    dictionaries(case["data"], every)
    if case["config"]["dict_strategy"] != "TypedDict":
        require(not any(docstrings.values()), lambda: f"docstrings of something else than a TypedDict\n{module.text}")
        return {"key": None, "labels": ["no TypedDict"]}
    found = 0
    for dictionary in every:
        identity = next(k for k in dictionary if k.startswith("id"))
        owners = [name for name, td in classes.items() if any(key == identity for key, _, _, _ in td[1])]
        require(len(owners) == 1, lambda: f"{len(owners)} classes for the dictionary of {identity}\n{module.text}")
        doc = docstrings.get(owners[0])
        spec = dictionary.get(doc_key)
        if doc_key and spec is not None and spec[0] == "s":
            found += 1
            require(
                same_words(doc, spec[1]), lambda: f"docstring of {owners[0]} is {doc!r}, the text is {spec[1]!r}\n{module.text}"
            )
        else:
            require(doc is None, lambda: f"{owners[0]} has the docstring {doc!r} without a text\n{module.text}")
    for name, doc in docstrings.items():
        require(doc is None or name in classes, lambda: f"{name} has the docstring {doc!r} of something else\n{module.text}")
    return {"key": case if found else None, "labels": [f"{min(found, 4)} texts", f"{min(len(every), 6)} dictionaries"]}


def judge_merged(case: Dict[str, Any]) -> Any:
    """Dictionaries with the same keys share a class: its docstring is that of one of them."""
    _, module = common.generate(case)
    types_unchanged(case, module, same_names=False)  # The slots of a tuple can have classes with different docstrings
    docstrings = module.docstrings()
    classes = typed_dict_names(module)
    doc_key = case["config"]["key_used_as_doc"]
    every: List[Any] = []
    dictionaries(case["data"], every)
    texts_ = [d[doc_key][1] for d in every if doc_key and d.get(doc_key, ["n"])[0] == "s"]
    for name, doc in docstrings.items():
        if doc is None:
            continue
        require(name in classes, lambda: f"{name} has the docstring {doc!r} of something else\n{module.text}")
        require(any(same_words(doc, text) for text in texts_), lambda: f"docstring {doc!r} comes from nowhere\n{module.text}")
    if case["config"]["dict_strategy"] == "TypedDict" and texts_ and len(texts_) == len(every) and case["data"][0] == "list":
        for name in classes:
            require(docstrings.get(name) is not None, lambda: f"{name} has no docstring\n{module.text}")
    return {"key": case if texts_ else None, "labels": [f"{min(len(texts_), 4)} texts", f"{len(classes)} classes"]}


PARTS = [
    Part("documented", lambda: cases(False), judge, quick=9000),
    Part("same keys", lambda: cases(True), judge_merged, quick=5000),
]
