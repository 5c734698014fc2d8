"""Runner shared by all checks: seeding, workers, evidence, replay files and known findings.

A check module (checks/cXX.py) defines
  ID, RULE   identifier and the rule that makes a case count as non-trivial,
  PARTS      list of Part: a Hypothesis strategy of JSON-able cases, and a function that judges one case,
  PROBES     (optional) deterministic regression inputs and known findings.

Judging a case either returns a dict (`key`: canonical form used to count distinct cases, or None for a trivial case;
`labels`: classes the case belongs to) or raises Violation. Any other exception is an error of the harness.
"""
from __future__ import annotations

import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
KNOWN = VERIF / "known_findings.txt"


class Violation(Exception):
    """The property does not hold for the case under judgement."""


class Endless(Violation):
    """The code under test did not come to an end."""


CPU_S, REAL_S = 60, 240
"""Time that one case may take."""


class time_limit:
    """Within this context, Endless is raised when the case takes too long."""

    def __enter__(self) -> None:
        signal.signal(signal.SIGPROF, self.stop)
        signal.signal(signal.SIGALRM, self.stop)
        signal.setitimer(signal.ITIMER_PROF, CPU_S, 5)
        signal.setitimer(signal.ITIMER_REAL, REAL_S, 5)

    def __exit__(self, *args: Any) -> None:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)

    @staticmethod
    def stop(*args: Any) -> None:
        raise Endless(f"the case did not end within {CPU_S} s of CPU time")


def sut(function: Callable[..., Any], *args: Any, what: str = "", **kwargs: Any) -> Any:
    """Call into the code under test: on inputs of the domain it must not raise."""
    try:
        return function(*args, **kwargs)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as error:  # noqa: BLE001
        if type(error).__module__.startswith("hypothesis"):
            raise
        tail = "".join(traceback.format_exception(type(error), error, error.__traceback__)[-3:])
        raise Violation(f"{what or getattr(function, '__name__', 'call')} raised {type(error).__name__}: {error}\n{tail}") from None


def require(condition: Any, message: "str | Callable[[], str]") -> None:
    if not condition:
        raise Violation(message() if callable(message) else message)


MEMORY = 3 * 2**30
"""Bytes that one worker may allocate."""


def limited(judge: Callable[..., Any], *args: Any) -> Any:
    """Judgement of one case, within the limits of time and memory."""
    try:
        with time_limit():
            return judge(*args)
    except MemoryError:
        raise Endless(f"the case needed more than {MEMORY >> 30} GB of memory") from None


@dataclass
class Part:
    name: str
    strategy: Callable[[], Any]
    """Builds the Hypothesis strategy (lazily, within the worker)."""
    judge: Callable[[Any], Optional[Dict[str, Any]]]
    quick: int
    """Examples in total for the quick tier."""
    thorough: int = 0
    workers: int = 0
    """At most this number of workers (0: all)."""
    shrink: bool = True
    reduce: Optional[Callable[[Any], Any]] = None
    """Gives smaller variants of a failing case, for cases that Hypothesis cannot shrink itself."""


@dataclass
class Probe:
    """A fixed input. With `finding` set, it fails on the current tree as described in known_findings.txt."""

    name: str
    run: Callable[[], None]
    finding: str = ""


@dataclass
class Result:
    evaluations: int = 0
    keys: set = field(default_factory=set)
    labels: Counter = field(default_factory=Counter)
    samples: List[Any] = field(default_factory=list)
    failure: Optional[Dict[str, Any]] = None
    error: str = ""
    skipped_by_time: int = 0


def digest(value: Any) -> str:
    return hashlib.blake2b(repr(value).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def _run_part(part: Part, n: int, seed: int, deadline: float) -> Result:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    result = Result()
    state: Dict[str, Any] = {"last": None, "failing": None}
    phases = [Phase.generate, Phase.target] + ([Phase.shrink] if part.shrink else [])
    shrink_until: List[float] = []

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=phases,
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(part.strategy())
    def test(case: Any) -> None:
        now = time.monotonic()
        if state["failing"] is None and now > deadline:
            result.skipped_by_time += 1
            return
        if shrink_until and now > shrink_until[0]:
            return  # Enough shrinking: keep the smallest failure found so far
        try:
            info = limited(part.judge, case)
        except Violation as violation:
            size = len(json.dumps(case, default=repr))
            if state["failing"] is None:
                shrink_until.append(now + 60 if not isinstance(violation, Endless) else 0)
            if state["failing"] is None or size <= state["failing"][0]:
                state["failing"] = (size, case, str(violation))
            raise
        if state["failing"] is not None:
            return
        result.evaluations += info.get("evaluations", 1) if info else 1
        if info:
            for label in info.get("labels", ()):
                result.labels[label] += 1
            for nontrivial in info.get("keys", [info.get("key")]):
                if nontrivial is None:
                    continue
                key = digest(nontrivial)
                if key not in result.keys:
                    result.keys.add(key)
                    if len(result.samples) < 40:
                        result.samples.append(nontrivial if "keys" in info else case)

    try:
        test()
    except Violation:
        pass
    except hypothesis.errors.Flaky:
        if state["failing"] is None:
            raise
    except BaseException as error:  # noqa: BLE001
        if state["failing"] is None or not type(error).__module__.startswith("hypothesis"):
            raise
    if state["failing"] is not None:
        _, case, message = state["failing"]
        if part.reduce and shrink_until[0]:
            case, message = _reduce(part, case, message)
        result.failure = {"part": part.name, "case": case, "message": message}
    return result


def _reduce(part: Part, case: Any, message: str) -> Any:
    """Greedily replace the failing case by smaller ones that fail as well."""
    until = time.monotonic() + 40
    progress = True
    while progress and time.monotonic() < until:
        progress = False
        for candidate in part.reduce(case):  # type: ignore
            if time.monotonic() > until:
                break
            try:
                limited(part.judge, candidate)
            except Endless:
                return case, message
            except Violation as violation:
                case, message, progress = candidate, str(violation), True
                break
            except Exception:  # noqa: BLE001
                continue
    return case, message


def _worker(connection: Any, module_name: str, jobs: List[Any], deadline: float, number: int) -> None:
    os.environ["VERIF_WORKER"] = str(number)
    try:
        import importlib

        resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))
        module = importlib.import_module(module_name)
        parts = {part.name: part for part in module.PARTS}
        setup = getattr(module, "worker_setup", None)
        if setup:
            setup()
        out: List[Any] = []
        for name, n, seed in jobs:
            out.append((name, _run_part(parts[name], n, seed, deadline)))
            if out[-1][1].failure:
                break
        teardown = getattr(module, "worker_teardown", None)
        if teardown:
            teardown()
        connection.send(out)
    except BaseException:  # noqa: BLE001
        connection.send(traceback.format_exc())
    finally:
        connection.close()


def listed_findings(property_id: str) -> Dict[str, str]:
    """Findings of known_findings.txt for one property: name -> description."""
    out: Dict[str, str] = {}
    if KNOWN.exists():
        for line in KNOWN.read_text(encoding="utf-8").splitlines():
            words = line.split(maxsplit=3)
            if len(words) == 4 and words[0] == "finding:" and words[1] == f"property={property_id}":
                out[words[2].split("=", 1)[1]] = words[3]
    return out


def write_replay(property_id: str, failure: Dict[str, Any]) -> Path:
    folder = VERIF / "replays"
    folder.mkdir(exist_ok=True)
    text = json.dumps({"property": property_id, **failure}, indent=1, default=repr)
    path = folder / f"{property_id}-{hashlib.blake2b(text.encode(), digest_size=5).hexdigest()}.json"
    path.write_text(text, encoding="utf-8")
    return path


def report_violation(property_id: str, failure: Dict[str, Any]) -> None:
    path = write_replay(property_id, failure)
    print(f"--- {property_id} violated by part `{failure['part']}`, case:")
    print(json.dumps(failure.get("case"), default=repr)[:3000])
    print(failure["message"][:4000])
    print(f"VIOLATION property={property_id} replay={path}", flush=True)


def _run_probe(probe: Probe) -> Optional[str]:
    try:
        limited(probe.run)
    except Violation as violation:
        return str(violation)
    return None


def main(module_name: str, argv: List[str]) -> int:
    import importlib

    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.monotonic()
    module = importlib.import_module(module_name)
    property_id = module.ID
    setup = getattr(module, "worker_setup", None)

    if argv[:1] == ["--replay"]:
        if setup:
            setup()
        data = json.loads(Path(argv[1]).read_text(encoding="utf-8"))
        try:
            if data["part"].startswith("probe:"):
                {f"probe:{probe.name}": probe for probe in module.PROBES}[data["part"]].run()
            else:
                limited({part.name: part for part in module.PARTS}[data["part"]].judge, data["case"])
        except Violation as violation:
            print(str(violation))
            print(f"VIOLATION property={property_id} replay={argv[1]}")
            return 1
        print("The case holds.")
        return 0

    n_workers = max(1, min(8, int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))))
    limit = 420.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_S", "3000"))
    deadline = start + limit
    jobs: List[List[Any]] = [[] for _ in range(8)]  # Independent of the number of cores
    for part_number, part in enumerate(module.PARTS):
        total = part.quick if tier == "quick" else (part.thorough or part.quick * 15)
        total = max(8, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
        spread = min(part.workers or 8, 8)
        for k in range(spread):
            n = total // spread + (1 if k < total % spread else 0)
            if n:
                jobs[(k + part_number) % 8].append((part.name, n, seed * 1_000_003 + part_number * 101 + k))

    results: Dict[str, List[Result]] = {part.name: [] for part in module.PARTS}
    failures: List[Dict[str, Any]] = []
    errors: List[str] = []
    context = multiprocessing.get_context("fork")
    pending = [(k, job) for k, job in enumerate(jobs) if job]
    running: List[Any] = []
    while pending or running:
        while pending and len(running) < n_workers:
            number, job = pending.pop(0)
            here, there = context.Pipe(duplex=False)
            process = context.Process(target=_worker, args=(there, module_name, job, deadline, number))
            process.start()
            there.close()
            running.append((process, here))
        still: List[Any] = []
        for process, here in running:
            if here.poll(0.05):
                try:
                    out = here.recv()
                except EOFError:
                    out = f"worker died with exit code {process.exitcode}"
                process.join()
                if isinstance(out, str):
                    errors.append(out)
                else:
                    for name, result in out:
                        results[name].append(result)
                        if result.failure:
                            failures.append(result.failure)
            elif not process.is_alive() and not here.poll(0):
                errors.append(f"worker died with exit code {process.exitcode}")
            else:
                still.append((process, here))
        running = still

    # Fixed inputs: regressions and known findings
    listed = listed_findings(property_id)
    n_probes = 0
    probe_lines: List[str] = []
    if getattr(module, "PROBES", None):
        if setup:
            setup()
        for probe in module.PROBES:
            n_probes += 1
            message = _run_probe(probe)
            if message is None:
                continue
            if probe.finding and probe.finding in listed:
                probe_lines.append(f"KNOWN-FINDING: property={property_id} {listed[probe.finding]}")
            else:
                failures.append({"part": f"probe:{probe.name}", "case": None, "message": message})
        teardown = getattr(module, "worker_teardown", None)
        if teardown:
            teardown()

    evaluations = sum(r.evaluations for rs in results.values() for r in rs) + n_probes
    per_part: Dict[str, Any] = {}
    distinct = 0
    samples: List[Any] = []
    for part in module.PARTS:
        keys: set = set()
        labels: Counter = Counter()
        for r in results[part.name]:
            keys |= r.keys
            labels.update(r.labels)
        distinct += len(keys)
        part_samples = [s for r in results[part.name] for s in r.samples]
        part_samples = sorted(part_samples, key=lambda s: len(json.dumps(s, default=repr)))
        middle = len(part_samples) // 2
        samples += [{"part": part.name, "case": s} for s in part_samples[middle : middle + 2]]
        per_part[part.name] = {
            "evaluations": sum(r.evaluations for r in results[part.name]),
            "distinct_nontrivial": len(keys),
            "not_run_for_lack_of_time": sum(r.skipped_by_time for r in results[part.name]),
            "labels": dict(sorted(labels.items())),
        }
    evidence = {
        "property": property_id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": module.RULE,
            "samples": json.loads(json.dumps(samples, default=repr)) or ["none"],
            "fixed_inputs": n_probes,
            "parts": per_part,
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(failures),
    }
    folder = VERIF / "evidence"
    folder.mkdir(exist_ok=True)
    (folder / f"{property_id}.json").write_text(json.dumps(evidence, indent=1), encoding="utf-8")

    for line in probe_lines:
        print(line)
    for name, info in per_part.items():
        print(f"{property_id} {name}: {info['evaluations']} cases, {info['distinct_nontrivial']} distinct non-trivial")
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f["case"], default=repr)))
        report_violation(property_id, failures[0])
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    print(f"{property_id} held: {evaluations} cases in {evidence['wall_s']} s")
    return 0
