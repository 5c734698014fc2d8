"""C26: interrupted, nested, simultaneous and failing calls do not affect one another."""
from __future__ import annotations

import linecache
import os
import shutil
import sys
import tempfile
import threading
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional

import yaml
from hypothesis import strategies as st

from checks import c08
from vlib import api, common, gen, yamlgen
from vlib.core import Part, Violation, require, sut
from vlib.ir import show

ID = "C26"
RULE = (
    "`interrupted`: an exception is raised at a line of the package while data are hinted, then the same generator, tree and data are used again; `nested`: at such a line other data are hinted, by the "
    "same generator or another one (as objects of the user could do); `threads`: several threads hint data at the same time, switching as often as possible; `tree`: several threads render the same tree; `loader`: loaders of YAML files that fail, or return something else, at some of "
    "their calls; `files`: two YAML files hinted at the same time, the second one by the loader of the first or by another thread. Results must be those of undisturbed calls, with nothing left behind. Non-trivial: at least 3 nodes, or a file with comments; distinct by case"
)
ASSUMPTIONS = [
    "a tree whose rendering was interrupted can name its declarations differently afterwards",
    "interruptions: exceptions that appear between two lines of the package (not while the context of a `with` is left); threads: whatever switches the interpreter happens to make",
    "iterators, which are consumed, are left out of the interrupted calls",
]
PACKAGE = os.path.dirname(api.lazy_type_hint.__file__)
folder: Path


def worker_setup() -> None:
    global folder
    folder = Path(tempfile.mkdtemp(prefix="verif-c26-"))
    (folder / "tmp").mkdir()
    tempfile.tempdir = str(folder / "tmp")


def worker_teardown() -> None:
    tempfile.tempdir = None
    shutil.rmtree(folder, ignore_errors=True)


class Interruption(BaseException):
    """Like KeyboardInterrupt."""


class Stop(Exception):
    """An ordinary exception."""


def leaves_context(frame: Any) -> bool:
    """Whether this is a line where nothing can be raised, as no code can protect itself there: a `with` (whose line comes again
    when its context is left), the `try` after a lock is taken, or the line that gives a lock back."""
    line = linecache.getline(frame.f_code.co_filename, frame.f_lineno).strip()
    return line.startswith(("with ", "async with ", "try:", "finally:")) or ".release(" in line


def run_all(threads: List[threading.Thread]) -> None:
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)
    finally:
        sys.setswitchinterval(interval)
    require(not any(thread.is_alive() for thread in threads), "a thread does not end")


def at_line(place: int, action: Callable[[], Any], call: Callable[[], None]) -> int:
    """Runs the action, and the call before its line number `place` within the package. Returns the number of lines."""
    number = 0
    called = False

    def local(frame: Any, event: str, arg: Any) -> Any:
        nonlocal number, called
        if event == "line":
            number += 1
            if number >= place > 0 and not called and not leaves_context(frame):
                called = True
                sys.settrace(None)
                call()
                sys.settrace(start)
        return local

    def start(frame: Any, event: str, arg: Any) -> Any:
        return local if frame.f_code.co_filename.startswith(PACKAGE) else None

    sys.settrace(start)
    try:
        action()
    finally:
        sys.settrace(None)
    return number


def nothing() -> None:
    pass


def judge_interrupted(case: Dict[str, Any]) -> Any:
    config, name = case["config"], case["name"]
    data = gen.build(case["data"])
    before = c08.snapshot(data)
    expected = api.render(data, config, name)

    def undisturbed() -> None:
        api.render(data, config, name)

    total = at_line(0, undisturbed, nothing)
    place = 1 + int(case["where"] * (total - 1))
    generator = api.LazyTypeHint(api.strategies(config))
    trees: List[Any] = []
    kind = Interruption if case["hard"] else Stop

    def hint() -> None:
        trees.append(generator.from_data(data, class_name=name))
        trees[0].to_string()

    def interrupt() -> None:
        raise kind

    caught = ""
    try:
        at_line(place, hint, interrupt)
    except (Interruption, Stop) as error:
        caught = type(error).__name__
    except Exception as error:  # noqa: BLE001  (turned into another one)
        caught = type(error).__name__
    require(c08.snapshot(data) == before, lambda: f"the data were left modified by a call interrupted at line {place} of {total}: {data!r:.1000}")

    def explain(what: str, text: str) -> Callable[[], str]:
        return lambda: f"{what}, after a call interrupted at line {place} of {total}:\n{text}\ninstead of\n{expected}"

    if trees:
        again = sut(trees[0].to_string, what="to_string of a tree whose rendering was interrupted")
        if again != expected:  # Names can differ
            module = common.Module(again, name)
            require(module.root == common.Module(expected, name).root, explain("the tree whose rendering was interrupted gives", again))
    again = sut(lambda: generator.from_data(data, class_name=name).to_string(), what="from_data after an interruption")
    require(again == expected, explain("the same generator gives", again))
    again = api.render(data, config, name)
    require(again == expected, explain("another generator gives", again))
    return {"key": common.nested_key(case), "labels": [f"{caught or 'no exception'}", "rendering" if trees else "building", *common.labels_of(case)]}


def judge_nested(case: Dict[str, Any]) -> Any:
    config, name, other = case["config"], case["name"], case["other"]
    data, noise = gen.build(case["data"]), gen.build(other["data"])
    expected = api.render(data, config, name)
    config_of_other = config if case["same generator"] else other["config"]
    expected_other = api.render(noise, config_of_other, other["name"])
    total = at_line(0, lambda: api.render(data, config, name), nothing)
    place = 1 + int(case["where"] * (total - 1))
    generator = api.LazyTypeHint(api.strategies(config))
    second = generator if case["same generator"] else api.LazyTypeHint(api.strategies(other["config"]))
    out: Dict[str, str] = {}

    def main() -> None:
        out["main"] = sut(lambda: generator.from_data(data, class_name=name).to_string(), what="from_data")

    def nested() -> None:
        out["other"] = sut(lambda: second.from_data(noise, class_name=other["name"]).to_string(), what="nested from_data")

    at_line(place, main, nested)
    require(out["main"] == expected, lambda: f"with another call at line {place} of {total}:\n{out['main']}\ninstead of\n{expected}")
    require(out.get("other", expected_other) == expected_other, lambda: f"within another call, at line {place} of {total}:\n{out['other']}\ninstead of\n{expected_other}")
    return {"key": common.nested_key(case), "labels": ["same generator" if case["same generator"] else "two generators", *common.labels_of(case)]}


def judge_threads(case: Dict[str, Any]) -> Any:
    jobs = case["jobs"]
    shared = case["shared"]
    config = jobs[0]["config"]
    built = [gen.build(job["data"]) for job in jobs]
    configs = [config if shared else job["config"] for job in jobs]
    expected = [api.render(data, c, job["name"]) for data, c, job in zip(built, configs, jobs)]
    one = api.LazyTypeHint(api.strategies(config))
    generators = [one if shared else api.LazyTypeHint(api.strategies(c)) for c in configs]
    got: List[Any] = [None] * len(jobs)
    barrier = threading.Barrier(len(jobs))

    def work(i: int) -> None:
        try:
            barrier.wait()
            texts = [generators[i].from_data(built[i], class_name=jobs[i]["name"]).to_string() for _ in range(2)]
            got[i] = texts[0] if texts[0] == texts[1] else texts
        except BaseException as error:  # noqa: BLE001
            got[i] = error

    run_all([threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))])
    for text, want in zip(got, expected):
        require(text == want, lambda: f"in a thread:\n{text!r}\nalone:\n{want}")
    return {"key": case if len(jobs) > 1 and any(common.nested_key(job) for job in jobs) else None, "labels": [f"{len(jobs)} threads", "shared" if shared else "own generators"]}


def judge_tree(case: Dict[str, Any]) -> Any:
    config, name = case["config"], case["name"]
    data = gen.build(case["data"])
    expected = api.render(data, config, name)
    generator = api.LazyTypeHint(api.strategies(config))
    number = case["threads"]
    texts: List[Any] = []
    trees = [generator.from_data(data, class_name=name) for _ in range(8)]
    for tree in trees:
        barrier = threading.Barrier(number)

        def work() -> None:
            barrier.wait()
            try:
                texts.append(tree.to_string())
            except BaseException as error:  # noqa: BLE001
                texts.append(error)

        run_all([threading.Thread(target=work, daemon=True) for _ in range(number)])
    require(len(texts) == number * len(trees), "a thread gave no result")
    for text in texts:
        require(text == expected, lambda: f"rendered by {number} threads at once:\n{text!r}\nalone:\n{expected}")
    return {"key": common.nested_key(case), "labels": [f"{number} threads", *common.labels_of(case)]}


FAILURES: Dict[str, Any] = {"ValueError": ValueError, "YAMLError": yaml.YAMLError, "Interruption": Interruption, "KeyError": KeyError, "SystemExit": SystemExit, "UnicodeDecodeError": lambda text: UnicodeDecodeError("utf-8", b"x", 0, 1, text)}


def judge_loader(case: Dict[str, Any]) -> Any:
    for old in (folder / "tmp").iterdir():
        old.unlink()
    file = folder / "data.yaml"
    content = case["text"].encode("utf-8")
    file.write_bytes(content)
    config, name = case["config"], case["name"]
    try:
        data = yaml.safe_load(content)
    except Exception:  # noqa: BLE001
        return {"key": None, "labels": ["not YAML"]}
    from checks import c12

    if c12.recursive(data) or "___docstring" in case["text"]:
        return {"key": None, "labels": ["out of the domain"]}
    calls: List[Any] = []
    raised: List[BaseException] = []

    def loader(path: Any) -> Any:
        number = len(calls)
        calls.append(path)
        what: Optional[List[Any]] = case["faults"][number] if number < len(case["faults"]) else None
        if what is not None and what[0] == "raise":
            error = FAILURES[what[1]]("from the loader")
            raised.append(error)
            raise error
        out = yaml.safe_load(Path(path).read_bytes())
        if what is not None and what[0] == "other" and number > 0:
            return what[1]
        return out

    plain = common.Module(api.render(data, config, name), name)
    generator = api.LazyTypeHint(api.strategies(config))
    outcome: Any = None
    try:
        outcome = generator.from_yaml_file(loader, file, class_name=name, comments_are=case["comments_are"]).to_string()
    except BaseException as error:  # noqa: BLE001
        outcome = error
    left = sorted(p.name for p in (folder / "tmp").iterdir())
    context = f"comments_are={case['comments_are']!r}, faults {case['faults']}\n{case['text']}"
    require(not left, lambda: f"files were left behind: {left}\n{context}")
    require(sorted(p.name for p in folder.iterdir()) == ["data.yaml", "tmp"], lambda: f"files next to the YAML file: {sorted(p.name for p in folder.iterdir())}\n{context}")
    require(file.read_bytes() == content, "the YAML file was modified")
    require(calls and calls[0] == file, lambda: f"the loader was called with {calls[:1]} first\n{context}")
    first_fails = bool(case["faults"]) and case["faults"][0] is not None and case["faults"][0][0] == "raise"
    if isinstance(outcome, BaseException):
        allowed = raised[:1] if first_fails else [e for e in raised if not isinstance(e, Exception)]
        require(any(outcome is e for e in allowed), lambda: f"from_yaml_file raised {outcome!r}, and the loader {raised}\n{context}")
    else:
        require(not first_fails, lambda: f"the loader cannot load the file, but from_yaml_file returned\n{outcome}\n{context}")
        require(not any(not isinstance(e, Exception) for e in raised), lambda: f"{raised} was ignored\n{context}")
        module = common.Module(outcome, name)
        require(module.root == plain.root, lambda: f"with the comments:\n  {show(module.root)}\nwithout:\n  {show(plain.root)}\n{context}\n{outcome}")
    after = sut(lambda: generator.from_yaml_file(lambda path: yaml.safe_load(Path(path).read_bytes()), file, class_name=name, comments_are=case["comments_are"]).to_string(), what="from_yaml_file")
    alone = sut(lambda: api.LazyTypeHint(api.strategies(config)).from_yaml_file(lambda path: yaml.safe_load(Path(path).read_bytes()), file, class_name=name, comments_are=case["comments_are"]).to_string(), what="from_yaml_file")
    require(after == alone, lambda: f"after a loader that failed:\n{after}\ninstead of\n{alone}\n{context}")
    labels = [f"{len(calls)} calls", type(outcome).__name__, *sorted({what[0] for what in case["faults"] if what})]
    return {"key": case if "#" in case["text"] and any(case["faults"]) else None, "labels": labels}


def judge_files(case: Dict[str, Any]) -> Any:
    """Two YAML files are hinted at the same time: the second one by the loader of the first, or by another thread."""
    jobs = case["jobs"]
    names = [job["name"] for job in jobs]
    for i, job in enumerate(jobs):
        (folder / f"data{i}.yaml").write_bytes(job["text"].encode("utf-8"))
    from checks import c12

    for job in jobs:
        try:
            data = yaml.safe_load(job["text"].encode("utf-8"))
        except Exception:  # noqa: BLE001
            return {"key": None, "labels": ["not YAML"]}
        if c12.recursive(data) or "___docstring" in job["text"]:
            return {"key": None, "labels": ["out of the domain"]}
    configs = [jobs[0]["config"] if case["same generator"] else job["config"] for job in jobs]

    def plain(path: Any) -> Any:
        return yaml.safe_load(Path(path).read_bytes())

    def hint(generator: Any, i: int, loader: Callable[[Any], Any] = plain) -> str:
        return sut(lambda: generator.from_yaml_file(loader, folder / f"data{i}.yaml", class_name=names[i], comments_are=jobs[i]["comments_are"]).to_string(), what="from_yaml_file")

    expected = [hint(api.LazyTypeHint(api.strategies(config)), i) for i, config in enumerate(configs)]
    generators = [api.LazyTypeHint(api.strategies(config)) for config in configs]
    if case["same generator"]:
        generators = [generators[0]] * len(jobs)
    got: List[Any] = [None] * len(jobs)
    if case["threads"]:
        barrier = threading.Barrier(len(jobs))

        def work(i: int) -> None:
            try:
                barrier.wait()
                texts = {hint(generators[i], i) for _ in range(3)}
                got[i] = texts.pop() if len(texts) == 1 else texts
            except BaseException as error:  # noqa: BLE001
                got[i] = error

        run_all([threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))])
    else:
        calls: List[Any] = []

        def nested() -> None:
            try:
                got[1] = hint(generators[1], 1)
            except BaseException as error:  # noqa: BLE001  (from_yaml_file can do without what a loader raises)
                got[1] = error

        def loader(path: Any) -> Any:
            calls.append(path)
            if len(calls) == case["call"] and not case["after"]:
                nested()
            out = plain(path)
            if len(calls) == case["call"] and case["after"]:
                nested()
            return out

        got[0] = hint(generators[0], 0, loader)
        if got[1] is None:
            got[1] = expected[1]
    for i, job in enumerate(jobs):
        require(got[i] == expected[i], lambda: f"comments_are={job['comments_are']!r}\n{job['text']}\nat the same time as another file:\n{got[i]}\nalone:\n{expected[i]}")
    left = sorted(p.name for p in (folder / "tmp").iterdir())
    require(not left, lambda: f"files were left behind: {left}")
    comments = [job for job in jobs if "#" in job["text"] and job["comments_are"]]
    return {"key": case if len(comments) > 1 else None, "labels": ["threads" if case["threads"] else "within the loader", "same generator" if case["same generator"] else "own generators"]}


# ------------------------------------------------------------------------------------------------ generation
def fractions() -> Any:
    return st.floats(0, 1, allow_nan=False)


def interrupted_cases() -> Any:
    return st.builds(lambda case, where, hard: {**case, "where": where, "hard": hard}, gen.cases(gen.FULL_NO_ITER), fractions(), st.booleans())


def nested_cases() -> Any:
    return st.builds(
        lambda case, other, where, same: {**case, "other": other, "where": where, "same generator": same}, gen.cases(gen.FULL_NO_ITER), gen.cases(gen.BUILTIN), fractions(), st.booleans()
    )


def thread_cases() -> Any:
    return st.fixed_dictionaries({"jobs": st.lists(gen.cases(gen.FULL_NO_ITER), min_size=2, max_size=4), "shared": st.booleans()})


def tree_cases() -> Any:
    return st.builds(lambda case, threads: {**case, "threads": threads}, gen.cases(gen.FULL_NO_ITER), st.integers(2, 4))


def loader_cases() -> Any:
    fault = st.one_of(
        st.none(), st.tuples(st.just("raise"), st.sampled_from(sorted(FAILURES))).map(list), st.tuples(st.just("other"), st.sampled_from([None, 1, [], {}, {"a": 1}, [{"a": 1}]])).map(list), st.none()
    )
    return st.fixed_dictionaries(
        {
            "text": st.one_of(yamlgen.texts(), yamlgen.similar_texts()), "config": gen.configs(), "name": gen.names, "faults": st.lists(fault, max_size=3),
            "comments_are": st.sampled_from(["side", "above", "below", ["side", "above"], ["below", "side"], [], None]),
        }
    )


def file_cases() -> Any:
    job = st.fixed_dictionaries(
        {
            "text": st.one_of(yamlgen.texts(), yamlgen.similar_texts()), "config": gen.configs(), "name": gen.names,
            "comments_are": st.sampled_from(["side", "above", "below", ["side", "above"], ["below", "side"], None]),
        }
    )
    return st.fixed_dictionaries(
        {"jobs": st.lists(job, min_size=2, max_size=2), "same generator": st.sampled_from([True, True, False]), "threads": st.booleans(), "call": st.sampled_from([1, 1, 2]), "after": st.booleans()}
    )


def smaller(case: Dict[str, Any]) -> Any:
    for text in yamlgen.shorter(case["text"]):
        yield {**case, "text": text}


def smaller_files(case: Dict[str, Any]) -> Any:
    for i, job in enumerate(case["jobs"]):
        for text in yamlgen.shorter(job["text"]):
            yield {**case, "jobs": [*case["jobs"][:i], {**job, "text": text}, *case["jobs"][i + 1 :]]}


PARTS = [
    Part("interrupted", interrupted_cases, judge_interrupted, quick=2500),
    Part("nested", nested_cases, judge_nested, quick=2500),
    Part("threads", thread_cases, judge_threads, quick=500),
    Part("tree", tree_cases, judge_tree, quick=600),
    Part("loader", loader_cases, judge_loader, quick=5000, shrink=False, reduce=smaller),
    Part("files", file_cases, judge_files, quick=1500, shrink=False, reduce=smaller_files),
]
