"""C14: strategies and class names are validated exactly."""
from __future__ import annotations

import ast
import dataclasses
import unicodedata
import warnings
from typing import Any, Dict, Optional

from hypothesis import strategies as st

from vlib import api, gen, live
from vlib.core import Part, Violation, require, sut
from vlib.model import DEFAULTS

ID = "C14"
RULE = (
    "part `strategies`: keyword arguments with values in and out of the documented ranges (boundaries, misspelt literals); part `names`: strings, most of them "
    "almost identifiers, against what the Python compiler accepts in `class NAME: pass`; part `live names`: the same, with LazyTypeHintLive, and the files "
    "of the package compared before and after a rejection. Non-trivial: some value is out of range, or the name is not plain ASCII; distinct by case"
)
ASSUMPTIONS = ["values have the annotated type (bool is not tried where int is expected), or are floats for the percentage of similarity"]
worker_setup = live.open_sandbox
worker_teardown = live.close_sandbox

LITERALS: Dict[str, Any] = {
    "list_strategy": ("list", "Sequence"),
    "tuple_size_strategy": ("fixed", "any size"),
    "dict_strategy": ("TypedDict", "Mapping", "dict"),
    "pandas_strategies": ("Full type hint", "Type hint only for autocomplete", "Do not type hint columns"),
}
EVERY = tuple(value for values in LITERALS.values() for value in values)


@st.composite
def literal_values(draw: Any, field: str) -> str:
    which = draw(st.integers(0, 7))
    if which < 4:
        return draw(st.sampled_from(LITERALS[field]))
    base = draw(st.sampled_from(EVERY))
    if which == 4:
        return base
    if which == 5:
        return draw(st.sampled_from([base.lower(), base.upper(), base.title(), base + " ", " " + base, base[:-1], base[1:], base + base, ""]))
    return draw(st.one_of(gen.safe_text, st.sampled_from(["set", "tuple", "List", "any", "Any size", "None", "Sequence ", "fixed size", "typeddict", "Dict"])))


decimals = st.one_of(st.sampled_from([100.5, 100.001, 100.0, 99.9, 1.0, 1.5, 0.0, -0.0, -0.5, -1.0, 50.5, float("inf"), float("-inf")]), st.floats(1, 105), st.floats(-3, 0))
numbers = st.one_of(st.integers(-3, 105), st.sampled_from([-1, 0, 1, 2, 99, 100, 101, 500, 501, 10**6, -(10**6), 2**31, 2**64, -(2**64)]))


@st.composite
def strategies_cases(draw: Any) -> Dict[str, Any]:
    out: Dict[str, Any] = {}
    for field in LITERALS:
        if draw(st.integers(0, 3)) == 0:
            out[field] = draw(literal_values(field))
    good = draw(st.booleans())  # Mostly valid numbers, so that a single wrong value decides
    for field, valid in (
        ("min_height_to_define_type_alias", st.integers(0, 10)), ("merge_different_typed_dicts_if_similarity_above", st.integers(1, 100)),
        ("check_max_n_elements_within_container", st.one_of(st.none(), st.integers(1, 1000))),
    ):
        if draw(st.integers(0, 2)) == 0:
            value = draw(valid if good and draw(st.integers(0, 3)) else numbers)
            if field.startswith("merge") and draw(st.integers(0, 4)) == 4:
                value = draw(decimals)  # A percentage
            out[field] = value
    if draw(st.integers(0, 3)) == 0:
        out["key_used_as_doc"] = draw(gen.safe_text)
    if draw(st.integers(0, 3)) == 0:
        out["typed_dict_read_only_values"] = draw(st.booleans())
    return out


def wrong_field(arguments: Dict[str, Any]) -> Optional[str]:
    for field, value in arguments.items():
        if field in LITERALS and value not in LITERALS[field]:
            return field
        if field == "min_height_to_define_type_alias" and value < 0:
            return field
        if field == "merge_different_typed_dicts_if_similarity_above" and not 0 < value <= 100:
            return field
        if field == "check_max_n_elements_within_container" and value is not None and value < 1:
            return field
    return None


def judge_strategies(case: Dict[str, Any]) -> Any:
    wrong = wrong_field(case)
    try:
        made = api.ParsingStrategies(**case)
    except ValueError as error:
        require(wrong, lambda: f"valid strategies {case} were rejected: {error}")
        return {"key": case, "labels": [f"rejected {wrong}"]}
    except Exception as error:  # noqa: BLE001
        raise Violation(f"ParsingStrategies(**{case}) raised {type(error).__name__}: {error} instead of ValueError") from None
    require(not wrong, lambda: f"{case} was accepted in spite of {wrong}")
    expected = {**DEFAULTS, **case}
    for field, value in expected.items():
        got = getattr(made, field)
        require(got == value and type(got) is type(value), lambda: f"{field} is {got!r} instead of {value!r}")
    for field in expected:
        for change in (lambda: setattr(made, field, expected[field]), lambda: setattr(made, field, None), lambda: delattr(made, field)):
            try:
                change()
            except (AttributeError, TypeError):
                pass
            else:
                raise Violation(f"{field} could be changed after construction")
            require(getattr(made, field) == expected[field], lambda: f"{field} has changed")
    require({f.name for f in dataclasses.fields(made)} == set(DEFAULTS), "other fields than documented") if dataclasses.is_dataclass(made) else None
    boundary = any(value in (0, 1, 100) for value in case.values() if isinstance(value, (int, float)))
    return {"key": case if case else None, "labels": ["accepted at a boundary" if boundary else "accepted"]}


def declarable(name: str) -> bool:
    """Whether Python can declare a class with this name."""
    source = f"class {name}: pass"
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(source)
            compile(tree, "<name>", "exec")
    except (SyntaxError, ValueError, UnicodeEncodeError, MemoryError):
        return False
    if len(tree.body) != 1 or not isinstance(tree.body[0], ast.ClassDef):
        return False
    node = tree.body[0]
    alone = not node.bases and not node.keywords and not getattr(node, "type_params", []) and len(node.body) == 1
    return alone and isinstance(node.body[0], ast.Pass) and node.name == unicodedata.normalize("NFKC", name) and len(name.split()) == 1 and name == name.strip() and "\\" not in name and "#" not in name


KEYWORDS = tuple(__import__("keyword").kwlist) + tuple(__import__("keyword").softkwlist)
NAMES = (
    "", " ", "_", "__", "A", "a", "a b", "a-b", "1a", "a1", "A.B", "A()", "A(B)", "A:", "A[T]", "A\n", " A", "A ", "A\t", "A#", "A\\", "A\x00", "É", "λ", "ªº", "²", "a²", "a·b",
    "·a", "ﬁ", "℘", "℮", "ⅷ", "日本", "🙂", "a🙂", "\u0301a", "a\u0301", "ß", "\ufeffA", "A\ufeff", "__debug__", "__DEBUG__", "__class__", "print", "int", "List", "None_", "True1",
    "nonlocal_", "a=1", "A;", "A; pass", "class", "Class", "self", "𝔘x", "𝐜𝐥𝐚𝐬𝐬", "x" * 100, "A,B", "*A", "'A'", '"A"', "A'", "a\u200b", "a\u200c", "ﾀ", "㎏", "K", "1", "1.0", "-1", "A\r", "A\x0c", "\u037a", "_\u037a",
    "__debug_\uff3f", "ſ", "ℯxec", "../evil", "a/b", "../../evil", "./a", "build/x", "ｉｆ", "ᵢf",
)
name_strings = st.one_of(
    st.sampled_from(NAMES), st.sampled_from(KEYWORDS), gen.safe_text, gen.names, st.text(alphabet="aZ_19 -.é²λ·ª\u0301", min_size=1, max_size=6),
    st.builds(str.__add__, st.sampled_from(KEYWORDS), st.sampled_from(["_", "1", " ", "s", "", "\n"])),
    st.builds(lambda a, b: a + b, st.sampled_from("aZ_λ"), st.characters(exclude_categories=("Cs",))),
    st.builds(lambda a: a, st.characters(exclude_categories=("Cs",))),
)
SIMPLE_DATA = (["i", 1], ["list", [["i", 1]]], ["dict", [[["s", "a"], ["dict", []]]]], ["tuple", []], ["set", [["s", "x"]]], ["dict", []])


def name_cases() -> Any:
    return st.fixed_dictionaries({"name": name_strings, "data": st.sampled_from(SIMPLE_DATA)})


def name_result(name: str, declare: Any) -> bool:
    """Whether the name was accepted."""
    try:
        declare()
    except Exception as error:  # noqa: BLE001
        require(
            type(error).__module__.startswith("lazy_type_hint"),
            lambda: f"class name {name!r}: {type(error).__name__} ({error}) instead of an error of the library",
        )
        return False
    return True


def judge_names(case: Dict[str, Any]) -> Any:
    name = case["name"]
    expected = declarable(name)
    data = gen.build(case["data"])
    accepted = name_result(name, lambda: api.LazyTypeHint().from_data(data, class_name=name).to_string())
    require(accepted == expected, lambda: f"class name {name!r} was {'accepted' if accepted else 'rejected'}; Python {'can' if expected else 'cannot'} declare it")
    return {"key": case if not (name.isascii() and expected) else None, "labels": ["accepted" if accepted else "rejected", "ascii" if name.isascii() else "unicode"]}


def judge_live_names(case: Dict[str, Any]) -> Any:
    name = case["name"]
    sandbox = live.sandbox()
    sandbox.clean()
    generator = sut(sandbox.Live, what="LazyTypeHintLive()")
    if case["before"]:
        sut(lambda: generator.from_data([1], class_name="Before"), what="from_data")
    before = sandbox.snapshot()
    expected = declarable(name)
    data = gen.build(case["data"])
    accepted = name_result(name, lambda: generator.from_data(data, class_name=name))
    require(accepted == expected, lambda: f"class name {name!r} was {'accepted' if accepted else 'rejected'} by LazyTypeHintLive; Python {'can' if expected else 'cannot'} declare it")
    if not expected:
        after = sandbox.snapshot()
        changed = sorted(k for k in {*before, *after} if before.get(k) != after.get(k))
        require(not changed, lambda: f"the rejected name {name!r} changed files: {changed}")
    else:
        files = [file for file in sandbox.modules() if unicodedata.normalize("NFKC", file) == unicodedata.normalize("NFKC", f"{name}.py")]
        require(files, lambda: f"no file was written for the class {name!r}")
    return {"key": case if not (name.isascii() and expected) else None, "labels": ["accepted" if accepted else "rejected"]}


def live_cases() -> Any:
    # Names of special modules would hide the package that holds the classes
    return st.fixed_dictionaries(
        {"name": name_strings.filter(lambda n: not n.startswith(("/", "__")) and n.count("..") < 3), "data": st.sampled_from(SIMPLE_DATA), "before": st.booleans()}
    )


PARTS = [
    Part("strategies", strategies_cases, judge_strategies, quick=12000),
    Part("names", name_cases, judge_names, quick=15000),
    Part("live names", live_cases, judge_live_names, quick=1600),
]
