"""C10: TypedDicts have exactly the keys of their dictionaries, whatever the strings."""
from __future__ import annotations

from collections import defaultdict
from typing import Any, Dict, List, Set

from hypothesis import strategies as st

from vlib import common, gen
from vlib.core import Part, require
from vlib.ir import canonical, show
from vlib.model import Model

ID = "C10"
RULE = (
    "dictionaries (nested, and within lists) whose keys are nasty strings: keywords, non-identifiers, quotes, escapes, control "
    "characters, unicode, names clashing with aliases; also strings of subclasses of str, such as members of enumerations. The keys of the executed TypedDict must be the same strings in the same order, each "
    "with the type of its own value. Non-trivial: a key that cannot be a plain class attribute; distinct by case"
)
ASSUMPTIONS = ["keys starting with `___docstring_hidden_key_`, reserved by the library for YAML comments, are out of the domain"]
HIDDEN = "___docstring_hidden_key_"
VALUES = (
    ["i", 1], ["s", "x"], ["b", True], ["n"], ["y", "a"], ["c", 1], ["range", 1], ["inst", "Zeta"],
    ["list", [["i", 1]]], ["list", [["s", "a"], ["n"]]], ["tuple", [["b", True], ["s", ""]]], ["set", [["i", 1]]], ["dict", []],
    ["list", []], ["cls", "Zeta"], ["frozenset", [["s", "x"]]],
)
KINDS = ("", "", "", "", "", "member", "plain", "odd")
key_text = st.one_of(
    st.sampled_from(gen.objs.WORDS),
    st.sampled_from(gen.NASTY_KEYS), st.sampled_from(gen.CLASH_KEYS), st.sampled_from(gen.FRIENDLY_KEYS), gen.safe_text,
    st.text(alphabet="\"'\\{}%\n\tnux0#$@ aN_", max_size=10),
    st.text(alphabet="ab_1ªﬁℼ²µ·é\u0301", max_size=5),
    st.sampled_from(__import__("keyword").kwlist + __import__("keyword").softkwlist + dir(dict) + dir(object)),
    st.builds("{}{}{}".format, st.sampled_from(["a", "_", " ", "", "__"]), st.sampled_from([HIDDEN, HIDDEN[1:], HIDDEN[:-1], HIDDEN.upper(), HIDDEN.strip("_")]), st.sampled_from(["", "a", "_"])),
    st.builds(lambda n, c: c * n, st.integers(1, 200), st.sampled_from("aé\\ \"")),
).filter(lambda key: not key.startswith(HIDDEN))


@st.composite
def dictionaries(draw: Any, depth: int = 2) -> Any:
    keys: List[str] = draw(st.lists(key_text, min_size=1, max_size=6, unique=True))
    items = []
    for key in keys:
        which = draw(st.integers(0, 9))
        if which < 6 or depth == 0:
            value = draw(st.sampled_from(VALUES))
        elif which < 8:
            value = draw(dictionaries(depth - 1))
        else:
            value = ["list", draw(st.lists(dictionaries(depth - 1), min_size=1, max_size=2))]
        kind = draw(st.sampled_from(KINDS))
        items.append([["s", key, kind] if kind else ["s", key], value])
    return ["dict", items]


def typed_dicts(tp: Any, out: Dict[Any, Set[Any]]) -> None:
    if isinstance(tp, tuple) and tp and tp[0] == "td":
        out[canonical(tp)].add(tp)
        for _, part, _, _ in tp[1]:
            typed_dicts(part, out)
    elif isinstance(tp, (tuple, frozenset)):
        for part in tp:
            typed_dicts(part, out)


def plain(key: str) -> bool:
    import keyword

    return key.isidentifier() and key.isascii() and not keyword.iskeyword(key) and not key.startswith("__")


def judge(case: Dict[str, Any]) -> Any:
    data = gen.build(case["data"])
    model = Model(case["config"])
    expected = model(data)
    data, module = common.generate(case)
    common.expect_same(module.root, expected, module.text)
    keys = [key for key, _, _, _ in module.root[1]]
    require(keys == list(data), lambda: f"keys {[gen.objs.plain_key(key) for key in data]!r} became {keys!r}\n{module.text}")
    variants: Dict[Any, Set[Any]] = defaultdict(set)
    typed_dicts(expected, variants)
    ordered = not model.merges and all(len(group) == 1 for group in variants.values())
    if ordered:  # Otherwise equal dictionaries in another order share one TypedDict
        require(
            module.root == expected,
            lambda: f"another order of keys:\n  {module.root}\nbut should be\n  {expected}\n{module.text}",
        )
    every = all_keys(case["data"])
    nasty = [key for key in every if not plain(key)]
    labels = [f"{min(len(nasty), 5)} nasty keys", "ordered at every depth" if ordered else "ordered at the root"]
    return {"key": case if nasty else None, "labels": labels}


def all_keys(spec: Any) -> List[str]:
    out: List[str] = []
    if isinstance(spec, list) and spec:
        if spec[0] == "dict":
            for key, value in spec[1]:
                out.append(key[1])
                out += all_keys(value)
        elif spec[0] == "list":
            for value in spec[1]:
                out += all_keys(value)
    return out


def cases() -> Any:
    return gen.with_config(
        dictionaries(), dict_strategy="TypedDict", check_max_n_elements_within_container=None, pandas_strategies=...
    )


PARTS = [Part("keys", cases, judge, quick=20000)]
