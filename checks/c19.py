"""C19: data frames and series are hinted by their own columns and elements."""
from __future__ import annotations

from typing import Any, Dict, List

import pandas as pd
from hypothesis import strategies as st

from vlib import common, gen
from vlib.core import Part, Violation, require
from vlib.ir import Module, canonical, show
from vlib.model import Model

ID = "C19"
RULE = (
    "frames with labels of str, int, bool, float, None or tuples of 1-4 levels, in object and native indices, columns of built-in elements of many dtypes (objects, nested lists "
    "and dictionaries, missing values, categories, dates included), alone and within containers, and series; all pandas strategies, limits and heights. Compared with a reference model; "
    "the overload of each label with the hint that data[label] gets on its own; and the class is run on its own data. Non-trivial: two or more columns or elements; distinct by case"
)
ASSUMPTIONS = ["subscripted pd.Series are read through a stand-in, as pandas does not support them at runtime", "labels that mix tuples with others are out of the domain"]

LABELS = (
    "a", "b", "key one", "A", "it's", 'say "x"', "back\\slash", "é", "a_b", "aB", "", " ", "{x}", "1", "True", "None", "a\nb", "class", "x" * 50, "'", '"', "%s", "日本", "DataFrame", "#", "a.b",
    "self", "key", "__x__", "Literal", "\\", "\t", "columns",
)
VALUES: Dict[str, Any] = {
    "int": [["i", 1], ["i", 0], ["i", 5]], "float": [["f", 1.5], ["f", 2.0]], "bool": [["b", True], ["b", False]], "str": [["s", "x"], ["s", ""]],
    "date": [["ts", 1], ["ts", 2], ["n"]],
    "mixed": [["i", 1], ["s", "x"], ["n"], ["b", True], ["f", 0.5], ["y", "ab"]],
    "nested": [["list", [["i", 1]]], ["dict", [[["s", "k"], ["i", 1]]]], ["dict", [[["s", "k"], ["i", 1]], [["s", "l"], ["s", ""]]]], ["tuple", [["i", 1], ["s", "x"]]], ["set", [["i", 1]]], ["inst", "Zeta"], ["list", []]],
}
TYPES_OF = {
    "int": ("int64", "int8", "uint8", "object", "Int64", "category", "float32", ""), "float": ("float64", "float32", "object", "Float64", "category", ""), "bool": ("bool", "object", "boolean", "category", ""),
    "date": ("datetime64[ns]", "object", ""), "str": ("object", "string", "category", ""), "mixed": ("object", ""), "nested": ("object", ""),
}


class Maker(gen.Drawer):
    def column(self, n: int) -> List[Any]:
        kind = self.pick(("int", "str", "float", "mixed", "bool", "nested", "date"))
        return [[self.pick(VALUES[kind]) for _ in range(n)], self.pick(TYPES_OF[kind])]

    def label(self, kind: str) -> Any:
        if kind == "str":
            return self.pick(LABELS)
        if kind == "int":
            return self.pick((0, 1, 2, -1, 10, 2**40))
        if kind == "bool":
            return bool(self.below(2))
        if kind == "word":
            return ["word", self.pick(gen.objs.WORDS), self.pick(("member", "plain", "odd"))]
        if kind == "level":
            return ["level", 1 + self.below(2)]
        if kind == "odd":
            return self.pick((1.5, None, -0.5))
        return self.label(self.pick(("str", "str", "int", "bool")))

    def labels(self, n: int) -> List[Any]:
        which = self.below(12)
        levels = (0, 0, 0, 2, 2, 3, 4, 1, 0, 0, 2, 0)[which]
        kind = self.pick(("str", "str", "any", "int", "bool", "str", "str", "any", "word", "level"))
        out: List[Any] = []
        seen: set = set()
        few = [self.label(kind) for _ in range(3)]
        for _ in range(n):
            name: Any
            if levels:
                name = ["t", [self.pick(few), *[self.label(self.pick(("str", "int"))) if self.below(3) else self.pick(("a", "b", "")) for _ in range(levels - 1)]]]
            else:
                name = self.label("odd" if which == 11 and self.below(3) == 0 else kind)
            built = gen.build_column_name(name)
            mark = built  # Equal labels such as 1 and True cannot be told apart by pandas
            if mark in seen:
                continue
            seen.add(mark)
            out.append(name)
        return out

    def frame(self) -> Any:
        rows = self.pick((2, 1, 3, 0))
        if self.below(60) == 59:  # Many columns
            kinds = [self.column(1) for _ in range(2)]
            numbered = self.below(2)
            if self.below(3) == 0:
                return self.frame_of_many_rows()
            return ["df", [[i if numbered else f"c{i}", *kinds[i % 7 == 6]] for i in range(self.pick((34, 65, 101, 130, 257)))], ""]
        return ["df", [[name, *self.column(rows)] for name in self.labels(self.pick((2, 3, 1, 4, 5, 0)))], self.pick(("", "native"))]

    def frame_of_many_rows(self) -> Any:
        """Many equal elements, and an odd one after most of them."""
        values = [self.pick(VALUES["int"])] * (300, 600, 1100, 1300)[self.below(4)]
        values.insert(len(values) - self.below(3), self.pick(VALUES["mixed"]))
        return ["df", [["a", values, "object"]], ""]

    def one(self) -> Any:
        if self.below(4) == 3:
            if self.below(60) == 59:
                return ["series", *self.frame_of_many_rows()[1][0][1:]]
            return ["series", *self.column(self.pick((2, 1, 3, 5, 0)))]
        return self.frame()

    def nested(self) -> Any:
        first = self.one()
        second = self.pick((first, self.changed(first), self.one()))
        which = self.below(6)
        if which == 0:
            return ["list", [first, second]]
        if which == 1:
            return ["tuple", [first, second, self.one()]]
        if which == 2:
            return ["dict", [[["s", "x"], first], [["s", "y"], second]]]
        if which == 3:
            return ["list", [["dict", [[["s", "x"], first]]], ["dict", [[["s", "x"], second], [["s", "z"], ["i", 1]]]]]]
        if which == 4:
            return ["mproxy", [[["i", 1], ["list", [first]]], [["i", 2], ["list", [second]]]]]
        return ["series", [first if first[0] != "df" else ["i", 1], ["s", "x"]], "object"]

    def changed(self, spec: Any) -> Any:
        """A frame or series that is nearly the same."""
        if spec[0] != "df" or not spec[1]:
            return self.one()
        columns = list(spec[1])
        which = self.below(4)
        if which == 0:
            columns = columns[::-1]
        elif which == 1:
            columns.pop(self.below(len(columns)))
        else:
            k = self.below(len(columns))
            columns[k] = [columns[k][0], *self.column(len(columns[k][1]))]
        return ["df", columns, *spec[2:]]


@st.composite
def specs(draw: Any, within: bool) -> Any:
    maker = Maker(draw, gen.SIMPLE)
    return maker.nested() if within else maker.one()


def key_of(case: Dict[str, Any]) -> Any:
    return case if len(case["data"][1]) > 1 else None


def labels_of(case: Dict[str, Any], data: Any) -> List[str]:
    if isinstance(data, pd.Series):
        return [f"series of {data.dtype}"]
    if isinstance(data, pd.DataFrame):
        return [f"{min(data.columns.nlevels, 4)} levels", f"strategy {case['config'].get('pandas_strategies')}"]
    return [f"within {type(data).__name__}"]


def judge_model(case: Dict[str, Any]) -> Any:
    data, module = common.generate(case)
    common.expect_same(module.root, Model(case["config"])(data), module.text)
    return {"key": key_of(case), "labels": labels_of(case, data)}


def hinted(data: pd.DataFrame, config: Dict[str, Any]) -> bool:
    heads = [label[0] if isinstance(label, tuple) else label for label in data.columns]
    one_level = bool(len(heads)) and all(isinstance(label, tuple) and len(label) == 1 for label in data.columns)
    return config["pandas_strategies"] != "Do not type hint columns" and bool(heads) and not one_level and all(isinstance(head, (str, int, bool)) for head in heads)


def exact(label: Any) -> Any:
    kind, value = gen.objs.exact(label)
    return kind.__name__, value


def judge_columns(case: Dict[str, Any]) -> Any:
    """Each label gets what its data get on their own, and the class can be used with its data."""
    data, module = common.generate(case)
    config, text = case["config"], module.text
    if isinstance(data, pd.Series):
        elements = list(data) if config["check_max_n_elements_within_container"] is None else list(data)[: config["check_max_n_elements_within_container"]]
        as_list = Module(common.api.render(elements, {**config, "list_strategy": "list"}, "Example"), "Example")
        if config["list_strategy"] == "list":  # The elements of a list and of a series are hinted alike
            require(
                canonical(("series", as_list.root[1])) == canonical(module.root),
                lambda: f"the series is hinted as\n  {show(module.root)}\nbut the list of its elements as\n  {show(as_list.root)}\n{text}",
            )
        return {"key": key_of(case), "labels": labels_of(case, data)}
    if not hinted(data, config):
        require(module.root == ("pddf",), lambda: f"the frame must be hinted as pd.DataFrame, not as\n  {show(module.root)}\n{text}")
        return {"key": None, "labels": ["plain"]}
    heads: Dict[Any, Any] = {}
    for label in data.columns:
        head = label[0] if isinstance(label, tuple) else label
        heads.setdefault(exact(head), head)
    require(module.root[0] == "df", lambda: f"no class with overloads: {show(module.root)}\n{text}")
    offered = [literal for literal, _ in module.root[1]]
    require(offered == list(heads), lambda: f"the labels are {list(heads)}, but these are offered: {offered}\n{text}")
    cls = module.ns[module.root_name]
    frame = cls(data)
    for literal, meaning in module.root[1]:
        head = heads[literal]
        column = data[head]
        alone = Module(common.api.render(column, config, "Example"), "Example")
        require(
            canonical(alone.root) == canonical(meaning),
            lambda: f"data[{head!r}] is hinted as\n  {show(meaning)}\nbut on its own it is\n  {show(alone.root)}\n{text}",
        )
        try:
            got = frame[head]
        except Exception as error:  # noqa: BLE001
            raise Violation(f"the generated class fails at [{head!r}]: {type(error).__name__}: {error}\n{text}") from None
        require(got.equals(column), lambda: f"the generated class gives something else for [{head!r}]\n{text}")
    full = config["pandas_strategies"] == "Full type hint"
    for name, others in module.frame_others.items():
        if full:
            require(not others, lambda: f"{name} has overloads for other labels: {others}\n{text}")
        else:
            require(len(others) == 1 and "str" in others[0], lambda: f"{name} must have one overload for any str: {others}\n{text}")
    return {"key": key_of(case), "labels": labels_of(case, data)}


@st.composite
def repeated(draw: Any) -> Any:
    maker = Maker(draw, gen.SIMPLE)
    spec = maker.frame()
    columns = list(spec[1])
    for _ in range(draw(st.integers(1, 2))):
        if columns and len(columns[0][1]) < 10:
            name = maker.pick(columns)[0]
            columns.insert(maker.below(len(columns) + 1), [name, *maker.column(len(columns[0][1]))])
    return ["df", columns, spec[2]]


def judge_repeated(case: Dict[str, Any]) -> Any:
    """Labels of several columns: generation works, and no other label is offered."""
    data, module = common.generate(case)
    if module.root[0] == "df":
        heads = {exact(h): h for h in (c[0] if isinstance(c, tuple) else c for c in data.columns)}
        require({literal for literal, _ in module.root[1]} == set(heads), lambda: f"the labels are {heads}\n{module.text}")
        for literal, meaning in module.root[1]:
            head = heads[literal]
            if isinstance(data[head], pd.DataFrame):
                require(meaning[0] in ("df", "pddf"), lambda: f"data[{head!r}] is a frame, but hinted as {show(meaning)}\n{module.text}")
            else:
                require(meaning[0] == "series", lambda: f"data[{head!r}] is a series, but hinted as {show(meaning)}\n{module.text}")
    return {"key": key_of(case), "labels": ["repeated labels"]}


def strategy(within: bool) -> Any:
    return gen.with_config(specs(within))


PARTS = [
    Part("model", lambda: strategy(False), judge_model, quick=9000),
    Part("columns", lambda: strategy(False), judge_columns, quick=8000),
    Part("within", lambda: strategy(True), judge_model, quick=5000),
    Part("repeated labels", lambda: gen.with_config(repeated()), judge_repeated, quick=1500),
]
