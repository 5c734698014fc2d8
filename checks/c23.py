"""C23: equal structures share one alias, different structures never do."""
from __future__ import annotations

import ast
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st

from vlib import common, gen, objs
from vlib.core import Part, require
from vlib.ir import canonical, show
from vlib.model import Model

ID = "C23"
RULE = (
    "containers and dictionaries with several equal or nearly equal children (other container kind, element type, key, missing key, array dtype, order), at every depth down to 15 levels. The declarations of the module are walked in "
    "parallel with a reference model of `equal from a type point of view`: equal children must be shown alike and different children never by the same name; with height 0 every structure must have a name. "
    "Non-trivial: two equal or two different structures among siblings; distinct by case"
)
ASSUMPTIONS = ["equality from a type point of view is the one of vlib/model.py: exact classes of leaves, container kinds, element types, keys and requiredness, regardless of order"]
STRUCTURES = {"td", "dict", "mproxy", "list", "tup", "tupv", "fset", "set", "iter", "series", "df", "pddf", "proto", "callable"}


class Declarations:
    """Right-hand sides of the declarations of a module."""

    def __init__(self, module: Any) -> None:
        self.names = set(module.declared)
        self.fields: Dict[str, Dict[str, ast.expr]] = {}
        self.values: Dict[str, ast.expr] = {}
        for node in module.tree.body:
            if isinstance(node, ast.ClassDef):
                if any(isinstance(base, ast.Name) and base.id == "TypedDict" for base in node.bases):
                    self.fields[node.name] = {s.target.id: s.annotation for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
            elif isinstance(node, (ast.AnnAssign, ast.Assign)):
                target = node.target if isinstance(node, ast.AnnAssign) else node.targets[0]
                value = node.value
                if not isinstance(target, ast.Name) or value is None:
                    continue
                if isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == "TypedDict":
                    mapping = value.args[1]
                    assert isinstance(mapping, ast.Dict)
                    self.fields[target.id] = {ast.literal_eval(k): v for k, v in zip(mapping.keys, mapping.values)}  # type: ignore
                else:
                    self.values[target.id] = value

    def bare(self, node: ast.expr) -> ast.expr:
        """Without NotRequired, ReadOnly, quotes and Optional."""
        while True:
            if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id in ("NotRequired", "ReadOnly", "Required"):
                node = node.slice
            elif isinstance(node, ast.Constant) and isinstance(node.value, str):
                node = ast.parse(node.value, mode="eval").body
            else:
                return node

    def name(self, node: ast.expr) -> Optional[str]:
        node = self.bare(node)
        return node.id if isinstance(node, ast.Name) and node.id in self.names else None


class Walk:
    def __init__(self, case: Dict[str, Any]) -> None:
        self.data, self.module = common.generate(case)
        if "iter" in gen.kinds_of(case["data"]):
            self.data = gen.build(case["data"])  # The iterators were consumed
        self.model = Model(case["config"])
        self.finer = Model(case["config"])
        self.finer.fine = True  # Annotations of functions count
        self.all_named = case["config"]["min_height_to_define_type_alias"] == 0
        self.declarations = Declarations(self.module)
        self.equal = self.different = 0

    def fail(self, message: str) -> str:
        return f"{message}\n{self.module.text}"

    def run(self) -> None:
        self.walk(self.model.shape(self.data), self.module.root_name)

    def meaning(self, shape: Any) -> Any:
        return canonical(self.model.to_ir(shape))

    def fine(self, shape: Any) -> Any:
        return canonical(self.finer.to_ir(shape))

    def walk(self, shape: Any, name: str) -> None:
        kind = shape[0]
        if kind == "td":
            fields = self.declarations.fields.get(name)
            if fields is None:
                return  # C10 is about the fields
            self.siblings([(value, fields[key]) for key, value, _ in shape[1] if key in fields])
        elif kind in ("list", "set", "fset", "iter", "series", "tupv", "dict", "mproxy", "tup"):
            node = self.declarations.values.get(name)
            if not isinstance(node, ast.Subscript):
                return
            inner = node.slice
            if kind == "tup":
                parts = inner.elts if isinstance(inner, ast.Tuple) else [inner]
                if len(parts) == len(shape[1]):
                    self.siblings(list(zip(shape[1], parts)))
                return
            shapes = {self.model.unordered(s): s for s in shape[1]} if kind not in ("dict", "mproxy") else {self.model.unordered(s): s for _, s in shape[1]}
            if kind in ("dict", "mproxy"):
                inner = inner.elts[1] if isinstance(inner, ast.Tuple) else inner
            self.elements(list(shapes.values()), inner)

    def siblings(self, pairs: List[Any]) -> None:
        """Children that are shown one by one."""
        by_shape: Dict[Any, str] = {}
        by_name: Dict[str, Any] = {}
        deeper: Dict[str, Any] = {}
        for shape, node in pairs:
            key = self.model.unordered(shape)
            name = self.declarations.name(node)
            text = ast.unparse(self.declarations.bare(node))
            if key in by_shape:
                self.equal += shape[0] in STRUCTURES
                require(by_shape[key] == text, lambda: self.fail(f"equal structures are shown as {by_shape[key]} and {text}"))
            by_shape[key] = text
            if name:
                if name in by_name:
                    require(by_name[name] == key or self.fine(shape) == self.fine(deeper[name]), lambda: self.fail(f"{name} stands for different structures:\n  {self.fine(shape)}\n  {self.fine(deeper[name])}\n  {by_name[name]}\n  {key}"))
                by_name[name] = key
                deeper[name] = shape
                self.agrees(name, shape)
            elif self.all_named:
                require(shape[0] not in STRUCTURES, lambda: self.fail(f"{text} has no name, although the height is 0"))
        self.different += len(by_name) > 1
        for name, shape in deeper.items():
            self.walk(shape, name)

    def elements(self, shapes: List[Any], node: ast.expr) -> None:
        """Children that are shown as a union."""
        if isinstance(node, ast.Tuple):  # Tuple[..., ...]
            node = node.elts[0]
        members = node.slice if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name) and node.value.id in ("Union", "Optional") else node
        names = [name for name in map(self.declarations.name, members.elts if isinstance(members, ast.Tuple) else [members]) if name]
        require(len(names) == len(set(names)), lambda: self.fail(f"{ast.unparse(node)} repeats names"))
        structures = [s for s in shapes if s[0] in STRUCTURES]
        self.different += len(structures) > 1
        self.equal += len(structures) == 1 and len(shapes) == 1
        meanings = [self.meaning(s) for s in structures]
        if self.all_named:
            require(  # List[int | float] and List[float] are different structures that mean the same
                len(set(meanings)) <= len(names) <= len(structures),
                lambda: self.fail(f"{ast.unparse(node)} has {len(names)} names for {len(structures)} different structures:\n" + "\n".join(f"  {show(self.meaning(s))}" for s in structures)),
            )
        for name in names:
            meaning = canonical(self.module.class_meaning(name))
            fitting = [s for s, m in zip(structures, meanings) if m == meaning]
            if len(fitting) == 1:
                self.walk(fitting[0], name)

    def agrees(self, name: str, shape: Any) -> None:
        got, expected = canonical(self.module.class_meaning(name)), self.meaning(shape)
        require(got == expected, lambda: self.fail(f"{name} means\n  {show(got)}\nfor a structure that is\n  {show(expected)}"))


def judge(case: Dict[str, Any]) -> Any:
    walk = Walk(case)
    walk.run()
    labels = [f"equal siblings: {min(walk.equal, 3)}", f"different siblings: {min(walk.different, 3)}"]
    return {"key": case if walk.equal or walk.different else None, "labels": labels}


class Siblings(gen.Drawer):
    def family(self, depth: int) -> Any:
        """A container whose children are equal or nearly equal."""
        kind = self.pick(("dict", "list", "tuple", "dict", "mproxy", "tuple"))
        base = self.container(depth)
        children = [base]
        for _ in range(self.below(4) + 1):
            action = self.below(6)
            source = self.pick(children)
            if action == 0:
                children.append(source)
            elif action == 1:
                children.append(self.below_change(source))
            elif action == 2 and depth > 0:
                children.append(self.family(depth - 1))
            elif action == 5:
                children.append(self.permuted(source))
            else:
                children.append(self.variation(source, depth))
        if self.below(2):
            children.append(self.pick((["i", 1], ["s", "x"], ["n"], ["f", 1.5])))
        if kind in ("dict", "mproxy"):
            keys = self.pick((("a", "b", "c", "d", "e", "f", "g", "h"), ("a", "A", "a b", "a_b", "list", "List", "dict", "aDict"), ("x", "y", "xList", "xDict", "z", "1", "2", "é")))
            return [kind, [[["s", key], child] for key, child in zip(keys, children)]]
        return [kind, children]

    def functions(self) -> Any:
        """Functions that often differ in one aspect of their signature only."""
        names = [f"alike_{i}" for i in range(len(objs.ALIKE))]
        children = [["fn", self.pick(names)] for _ in range(2 + self.below(6))]
        kind = self.pick(("dict", "list", "tuple", "mproxy"))
        return [kind, [[["s", f"k{i}"], child] for i, child in enumerate(children)] if kind in ("dict", "mproxy") else children]

    def permuted(self, spec: Any) -> Any:
        """A copy with the children in another order, at all levels."""
        if spec[0] not in ("list", "tuple", "dict", "mproxy", "odict"):
            return spec
        if spec[0] in ("list", "tuple"):
            children = [self.permuted(child) for child in spec[1]]
        else:
            children = [[key, self.permuted(child)] for key, child in spec[1]]
        return [spec[0], children[::-1] if self.below(2) else children[1:] + children[:1], *spec[2:]]

    def deep(self, spec: Any) -> Any:
        """The same, sometimes below several more levels."""
        if self.below(5):
            return spec
        for _ in range(self.pick((3, 5, 8, 12))):
            kind = self.pick(("list", "dict", "tuple", "mproxy"))
            spec = [kind, [[["s", self.pick(("a", "b c", "x"))], spec]]] if kind in ("dict", "mproxy") else [kind, [spec]]
        return spec

    def below_change(self, spec: Any) -> Any:
        """A change of one leaf that often gives another type: float for int, another dtype, another class."""
        if spec[0] in ("i", "f", "s", "b", "n", "np", "inst", "cls"):
            return self.pick((["i", 1], ["f", 1.5], ["s", "x"], ["b", True], ["n"], ["np", "int64", [2]], ["np", "float64", [2]], ["np", "<U3", [1]], ["np", "<U7", [1]], ["inst", "Zeta"], ["inst", "Omega"], ["cls", "Zeta"], ["cls", "int"], ["fn", "f_plain"], ["fn", "f_nothing"], ["fn", "lambda1"], ["fn", "lambda2"]))
        if spec[0] == "fn":
            return ["fn", self.pick(sorted(objs.ALL_FUNCTIONS))]
        if spec[0] in ("list", "tuple") and spec[1]:
            k = self.below(len(spec[1]))
            return [spec[0], [self.below_change(e) if i == k else e for i, e in enumerate(spec[1])]]
        if spec[0] in ("dict", "mproxy", "odict", "ddict") and spec[1]:
            k = self.below(len(spec[1]))
            return [spec[0], [[key, self.below_change(e) if i == k else e] for i, (key, e) in enumerate(spec[1])]]
        return self.variation(spec, 1)


@st.composite
def families(draw: Any, profile: Any) -> Any:
    siblings = Siblings(draw, profile)
    return siblings.deep(siblings.functions() if "fn" in profile.leaves and siblings.below(8) == 0 else siblings.family(draw(st.sampled_from([1, 0, 2]))))


WIDE = gen.replace(gen.FULL, leaves=("i", "f", "s", "b", "n", "np", "inst", "cls", "fn", "i"), depth=3)
PARTS = [
    Part("families, height 0", lambda: gen.with_config(families(WIDE), min_height_to_define_type_alias=0, check_max_n_elements_within_container=5000), judge, quick=6000),
    Part("families", lambda: gen.with_config(families(WIDE), check_max_n_elements_within_container=5000), judge, quick=3000),
    Part("names", lambda: gen.with_config(families(gen.NAMING), check_max_n_elements_within_container=5000), judge, quick=3000),
    Part("any data, height 0", lambda: gen.cases(gen.FULL_NO_ITER, min_height_to_define_type_alias=0), judge, quick=3000),
]
