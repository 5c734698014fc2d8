"""C25: an interruption or a concurrent process never corrupts the generated files."""
from __future__ import annotations

import os
import pickle
import sys
import threading
import traceback
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional, Tuple

from hypothesis import strategies as st

from checks import c15, c17
from checks.c26 import run_all
from vlib import gen, history, live
from vlib.core import Part, Violation, require

ID = "C25"
RULE = (
    "histories of from_data and reset by new instances, in a sandboxed copy of the package. Part `crash`: the last operation is traced, and every distinct content of the "
    "files at the lines it executes (also with the file being written cut in half) is taken as the state after a crash; new instances read it and carry on. Part `concurrent`: at some of these lines another (forked) process runs a whole operation. "
    "Part `threads`: several threads run operations at once, with instances of their own or a shared one. "
    "Non-trivial: some class existed before and the files pass through at least two states; distinct by case"
)
ASSUMPTIONS = [
    "a crash is an end of the process between two lines of Python code or in the middle of the content of a file; no loss of data that the operating system was given",
    "a module without entry in the interface, and temporary files, can be left by a crash",
    "threads: whatever switches the interpreter happens to make; without reset among them no class may be missing",
    "two processes at once: what one adds to the interface can be lost until it is asked for again; only whole operations between two lines of another one",
]
worker_setup = live.open_sandbox
worker_teardown = live.close_sandbox
TRACED = ("/generators/", "/utils/", "shutil.py", "/os.py", "tempfile.py")
DATA: Tuple[Any, ...] = (
    ["i", 1], ["list", [["s", "a"]]], ["dict", [[["s", "k"], ["i", 1]]]], ["dict", [[["s", "k"], ["list", [["f", 1.5]]]], [["s", "other"], ["dict", [[["s", "x"], ["n"]]]]]]], ["tuple", [["i", 1], ["s", "é"]]],
)


def in_child(action: Callable[[], Any]) -> Any:
    """Result of the action, that is run in a process of its own."""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(reader)
            try:
                result: Any = (True, action())
            except Violation as violation:
                result = (False, str(violation))
            except BaseException:  # noqa: BLE001
                result = (None, traceback.format_exc())
            with os.fdopen(writer, "wb") as pipe:
                pickle.dump(result, pipe)
        except BaseException:  # noqa: BLE001
            code = 1
        finally:
            os._exit(code)
    os.close(writer)
    with os.fdopen(reader, "rb") as pipe:
        content = pipe.read()
    os.waitpid(pid, 0)
    if not content:
        raise RuntimeError("the child process ended without an answer")
    held, value = pickle.loads(content)  # noqa: S301
    if held is None:
        raise RuntimeError(value)
    if not held:
        raise Violation(value)
    return value


Files = Dict[str, bytes]


def fingerprint(sandbox: live.Sandbox) -> Any:
    out: List[Any] = []
    for folder in (sandbox.folder, sandbox.build):
        try:
            entries = sorted(os.scandir(folder), key=lambda e: e.name)
        except FileNotFoundError:
            out.append(None)
            continue
        for entry in entries:
            if entry.name.endswith("__pycache__") or (folder == sandbox.folder and entry.name == "build"):
                continue
            try:
                info = entry.stat()
            except FileNotFoundError:
                continue
            out.append((entry.name, info.st_size, info.st_mtime_ns, info.st_ino))
    return tuple(out)


def traced(sandbox: live.Sandbox, action: Callable[[], None], at: Callable[[int], None]) -> None:
    """Run the action, and `at(number)` before each line of the modules that deal with files."""
    number = 0

    def local(frame: Any, event: str, arg: Any) -> Any:
        nonlocal number
        if event in ("line", "return"):
            number += 1
            sys.settrace(None)
            try:
                at(number)
            finally:
                sys.settrace(start)
        return local

    def start(frame: Any, event: str, arg: Any) -> Any:
        file, name = frame.f_code.co_filename, frame.f_code.co_name
        return local if any(part in file for part in TRACED) or ("pathlib" in file and name.startswith("write")) else None

    def before_file_operation() -> None:
        del _listening[:]  # Not to the ones of `at`
        local(None, "line", None)
        _listening.append(before_file_operation)

    if not _hooked:
        _hooked.append(os.getpid())
        sys.addaudithook(hook)
    _listening.append(before_file_operation)
    sys.settrace(start)
    try:
        action()
    finally:
        sys.settrace(None)
        del _listening[:]


_hooked: List[int] = []
_listening: List[Callable[[], None]] = []


def hook(event: str, arguments: Any) -> None:
    if _listening and event.startswith(("open", "os.", "shutil.", "tempfile.")):
        _listening[0]()


def restore(sandbox: live.Sandbox, files: Files, has_build: bool) -> None:
    sandbox.clean()
    for path in list(sandbox.folder.iterdir()):
        if str(path.relative_to(sandbox.root)) not in sandbox.initial and path.is_file():
            path.unlink()
    if has_build:
        sandbox.build.mkdir()
    for name, content in files.items():
        (sandbox.root / name).write_bytes(content)


def perform(sandbox: live.Sandbox, op: Any) -> None:
    if op[0] == "reset":
        sandbox.Live.reset()
        return
    arguments = {"if_type_hint_exists": op[1]} if op[1] else {}
    try:
        sandbox.Live(**arguments).from_data(gen.build(op[3]), class_name=op[2])
    except sandbox.Error:
        if op[1] != "validate":
            raise


def call(sandbox: live.Sandbox, op: Any, when: str, log: str) -> None:
    try:
        perform(sandbox, op)
    except Violation:
        raise
    except Exception as error:  # noqa: BLE001
        tail = "".join(traceback.format_exception(type(error), error, error.__traceback__)[-2:])
        raise Violation(f"{when}, {op} raises {type(error).__name__}: {error}\n{tail}\n{log}") from None


def reference(sandbox: live.Sandbox, op: Any) -> str:
    return str(sandbox.package.LazyTypeHint().from_data(gen.build(op[3]), class_name=op[2]).to_string())


class Known(history.State):
    """What C15 and C17 need to judge the files."""

    def __init__(self, sandbox: live.Sandbox, classes: Dict[str, str], log: str) -> None:
        self.sandbox, self.classes, self.log = sandbox, classes, [log]


def listed(sandbox: live.Sandbox, log: str) -> List[str]:
    if not sandbox.pyi.exists():
        return []
    return history.Interface(sandbox.pyi.read_text(encoding="utf-8"), log).classes_created()


_judged: set = set()


def check_files(sandbox: live.Sandbox, least: Dict[str, List[str]], most: Dict[str, List[str]], log: str) -> None:
    """The classes of the interface are complete, and each module is one of the allowed ones."""
    names = listed(sandbox, log)
    require(set(least) <= set(names) <= set(most), lambda: f"the interface has the classes {sorted(names)} instead of {sorted(least)}" + (f" to {sorted(most)}" if set(least) != set(most) else "") + f"\n{log}")
    modules = sandbox.modules()
    for name in names:
        require(f"{name}.py" in modules, lambda: f"the module of {name} is missing\n{log}")
        text = modules[f"{name}.py"]
        allowed = [c15.module_of(t, name) for t in most[name]]
        stored = c15.module_of(text, name)
        require(any(stored.root == a.root and stored.declared == a.declared for a in allowed), lambda: f"module of {name}:\n{text}\nwhich is not what its data give\n{log}")
    text = sandbox.pyi.read_text(encoding="utf-8") if sandbox.pyi.exists() else ""
    if (text, tuple(names)) in _judged:
        return
    _judged.add((text, tuple(names)))
    c17.observe(Known(sandbox, {name: "" for name in names}, log), history.Event("data"))


def after(case: Dict[str, Any], sandbox: live.Sandbox) -> Tuple[Dict[str, List[str]], List[str]]:
    """Run the first operations."""
    classes: Dict[str, List[str]] = {}
    for op in case["before"]:
        perform(sandbox, op)
        if op[0] == "reset":
            classes.clear()
        else:
            classes[op[2]] = [reference(sandbox, op)]
    return classes, sorted(classes)


def states_of(case: Dict[str, Any]) -> Any:
    """Contents of the files while the last operation runs."""
    sandbox = live.sandbox()
    classes, _ = after(case, sandbox)
    seen: List[Any] = []
    states: List[Tuple[int, bool, Files]] = []

    def look(number: int) -> None:
        mark = fingerprint(sandbox)
        if not seen or seen[-1] != mark:
            seen.append(mark)
            states.append((number, sandbox.build.exists(), sandbox.generated()))

    traced(sandbox, lambda: perform(sandbox, case["last"]), look)
    look(10**9)
    return classes, states, reference(sandbox, case["last"]) if case["last"][0] == "data" else ""


def torn(states: List[Tuple[int, bool, Files]]) -> List[Tuple[str, bool, Files]]:
    out: List[Tuple[str, bool, Files]] = []
    for i, (number, build, files) in enumerate(states):
        out.append((f"line {number} of {states[-1][0]}" if number < 10**9 else "the end", build, files))
        if i:
            old = states[i - 1][2]
            for name, content in files.items():
                if name in old and old[name] != content and content.startswith(old[name]) and len(content) > 1:  # Being written
                    out.append((f"half of {name}", build, {**files, name: content[: (len(old[name]) + len(content)) // 2]}))
    return out


def judge_crash(case: Dict[str, Any]) -> Any:
    sandbox = live.sandbox()
    restore(sandbox, {}, False)
    last = case["last"]
    before, states, new = states_of(case)
    candidates = torn(states)
    for place, build, files in candidates:
        log = f"{case['before']} then {last}, that ended at {place}; then {case['then']}"

        def carry_on() -> None:
            if last[0] == "reset":
                least: Dict[str, List[str]] = {}
                most = before
            else:
                least = {**before}
                most = {**before, last[2]: [*before.get(last[2], []), new]}
            text = sandbox.pyi.read_text(encoding="utf-8", errors="replace") if sandbox.pyi.exists() else "(no interface)"
            context = f"{log}\n--- interface after the crash\n{text}"
            if last[0] != "reset":
                check_files(sandbox, least, most, context)
            elif sandbox.pyi.exists():
                history.Interface(text, context)
            for op in case["then"]:
                call(sandbox, op, "after the crash", context)
                here = listed(sandbox, context)
                if op[0] == "reset":
                    require(not sandbox.generated() and not sandbox.build.exists(), lambda: f"files left after reset\n{context}")
                    least, most = {}, {}
                    continue
                text_of = [reference(sandbox, op)]
                if op[1] == "validate":  # Could be rejected
                    text_of += most.get(op[2], [])
                most = {**most, op[2]: text_of}
                least = {**least, op[2]: text_of}
                require(op[2] in here, lambda: f"{op[2]} is not in the interface\n{context}")
                check_files(sandbox, least, most, context)

        restore(sandbox, files, build)
        carry_on()
    restore(sandbox, {}, False)
    labels = [f"{min(len(candidates), 8)} states", f"{last[0]} {last[1] if len(last) > 1 else ''}".strip(), f"{len(before)} classes before"]
    return {"key": case if before and len(candidates) > 1 else None, "labels": labels, "evaluations": len(candidates)}


def judge_concurrent(case: Dict[str, Any]) -> Any:
    sandbox = live.sandbox()
    restore(sandbox, {}, False)
    first, second = case["last"], case["other"]
    before, states, new = states_of(case)
    restore(sandbox, {}, False)
    numbers = sorted({max(1, n + d) for n, _, _ in states[:-1] for d in (-1, 0, 1)})
    chosen = sorted({numbers[i % len(numbers)] for i in case["places"]})
    for place in chosen:
        log = f"{case['before']}, then {first}, and at its line {place} {second} in another process"

        done: List[int] = []

        def run() -> None:
            after(case, sandbox)

            def look(number: int) -> None:
                if number == place:
                    done.append(number)
                    in_child(lambda: call(sandbox, second, "meanwhile", log))

            def whole() -> None:
                call(sandbox, first, "with another process", log)

            traced(sandbox, whole, look)

        restore(sandbox, {}, False)
        run()
        if not done:
            continue  # The lines executed can vary

        def judge() -> None:
            mine, theirs = [new], [reference(sandbox, second)]
            both = {**before, first[2]: mine, second[2]: theirs} if first[2] != second[2] else {**before, first[2]: mine + theirs}
            least = {**before, first[2]: both[first[2]]}
            check_files(sandbox, least, both, log)
            for op, refs in ((second, theirs), (first, mine)):
                call(sandbox, op, "afterwards", log)
                both[op[2]] = refs
            check_files(sandbox, both, both, log)

        judge()
    restore(sandbox, {}, False)
    return {"key": case if before else None, "labels": [f"{len(before)} classes before", "same class" if first[2] == second[2] else "other class"], "evaluations": len(chosen)}


def judge_threads(case: Dict[str, Any]) -> Any:
    sandbox = live.sandbox()
    restore(sandbox, {}, False)
    before, _ = after(case, sandbox)
    jobs = case["jobs"]
    log = f"{case['before']}, then in threads{' with one instance' if case['shared'] else ''}: {jobs}"
    resets = any(op[0] == "reset" for job in jobs for op in job)
    most = {name: list(texts) for name, texts in before.items()}
    for job in jobs:
        for op in job:
            if op[0] == "data":
                most.setdefault(op[2], []).append(reference(sandbox, op))
    shared = sandbox.Live()
    barrier = threading.Barrier(len(jobs))
    errors: List[str] = []

    def work(job: List[Any]) -> None:
        barrier.wait()
        for op in job:
            try:
                if case["shared"] and op[0] == "data":
                    shared.from_data(gen.build(op[3]), class_name=op[2])
                else:
                    perform(sandbox, op)
            except BaseException as error:  # noqa: BLE001
                errors.append(f"{op} raises {error!r}\n" + "".join(traceback.format_exception(type(error), error, error.__traceback__)[-2:]))

    run_all([threading.Thread(target=work, args=(job,), daemon=True) for job in jobs])
    require(not errors, lambda: f"{errors[0]}\n{log}")
    check_files(sandbox, {} if resets else most, most, log)
    if sandbox.build.exists():
        left = [name for name in os.listdir(sandbox.build) if name.endswith(".tmp")]
        require(not left, lambda: f"left behind: {left}\n{log}")
    restore(sandbox, {}, False)
    names = [op[2] for job in jobs for op in job if op[0] == "data"]
    labels = [f"{len(jobs)} threads", "with reset" if resets else "no reset", "shared" if case["shared"] else "own instances", "same class" if len(set(names)) < len(names) else "other classes"]
    return {"key": case if len(set(names)) > 1 else None, "labels": labels}


NAMES = ("Data", "Data2", "A", "my_class", "Any", "λData")


def ops(policies: Any = ("", "overwrite", "validate")) -> Any:
    return st.tuples(st.just("data"), st.sampled_from(policies), st.sampled_from(NAMES), st.sampled_from(DATA)).map(list)


def crash_cases() -> Any:
    plain = ops(("", "overwrite"))
    return st.fixed_dictionaries(
        {"before": st.lists(plain, max_size=3), "last": st.one_of(ops(), ops(), ops(), st.just(["reset"])), "then": st.lists(st.one_of(plain, plain, ops(), st.just(["reset"])), min_size=1, max_size=3)}
    ).map(lambda case: {**case, "then": [case["last"] if case["last"][0] == "data" and case["last"][1] != "validate" else case["then"][0], *case["then"]][: 1 + len(case["then"])]})


def concurrent_cases() -> Any:
    plain = ops(("", "overwrite"))
    return st.fixed_dictionaries({"before": st.lists(plain, max_size=2), "last": plain, "other": plain, "places": st.lists(st.integers(0, 200), min_size=1, max_size=6)})


def thread_cases() -> Any:
    plain = ops(("", "overwrite"))
    job = st.lists(st.one_of(plain, plain, plain, plain, plain, plain, plain, st.just(["reset"])), min_size=1, max_size=3)
    return st.fixed_dictionaries({"before": st.lists(plain, max_size=2), "jobs": st.lists(job, min_size=2, max_size=4), "shared": st.booleans()})


PARTS = [
    Part("crash", crash_cases, judge_crash, quick=300),
    Part("concurrent", concurrent_cases, judge_concurrent, quick=250),
    Part("threads", thread_cases, judge_threads, quick=1500),
]
