"""
Common driver of all checks: enumerates tasks, runs them on worker processes, collects what was explored and what was
violated, writes the evidence file and replay files.

A check is a module `props.cXX` with

* `LEVEL`, `BOUNDS` (text), optionally `ASSUMPTIONS`;
* `tasks(tier)`: the complete list of tasks (JSON-serializable descriptors) of the bounded space;
* `run(task, ctx)`: explores one task completely, and reports to `ctx`.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from multiprocessing import get_context
from multiprocessing.connection import wait
from typing import Any, Iterator

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EVIDENCE = os.environ.get("MC_EVIDENCE") or os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")

CASE_SECONDS = 60  # a single case takes milliseconds; a case that takes this long does not terminate
TASK_SECONDS = 780


class CaseTimeout(BaseException):
    "A single case did not terminate (raised by an alarm; not an Exception, so that code under test won't swallow it)."


def _on_alarm(signum: int, frame: Any) -> None:
    raise CaseTimeout()


class Ctx:
    "What a worker has found while exploring one task."

    def __init__(self, tier: str) -> None:
        self.tier = tier
        self.states: set[bytes] = set()
        self.counted = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes: Counter[str] = Counter()
        self.samples: list[Any] = []
        self.violations: list[dict[str, Any]] = []
        self.extra: Counter[str] = Counter()
        self.max_violations = 20

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def state(self, *key: Any) -> None:
        "Registers a distinct state (configuration) that has been visited."
        self.states.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def count_states(self, n: int) -> None:
        "Registers states that are distinct by construction, without storing them."
        self.counted += n

    def step(self, n: int = 1) -> None:
        "Registers operations of the library executed."
        self.transitions += n

    def trace(self, n: int = 1) -> None:
        "Registers a model trace (expected result) compared with what the library does."
        self.traces += n

    def outcome(self, label: str) -> None:
        self.outcomes[label] += 1

    def sample(self, item: Any) -> None:
        if len(self.samples) < 3:
            self.samples.append(_show(item))

    def violation(self, what: str, *, key: str = "", **case: Any) -> None:
        if key and any(v["key"] == key for v in self.violations):
            return  # the same finding once again
        if len(self.violations) < self.max_violations:
            self.violations.append(dict(what=what, key=key, case={k: _show(v) for k, v in case.items()}))

    def result(self) -> dict[str, Any]:
        return dict(
            states=len(self.states) + self.counted,
            transitions=self.transitions,
            traces=self.traces,
            outcomes=self.outcomes,
            samples=self.samples,
            violations=self.violations,
            extra=self.extra,
        )


def _show(value: Any) -> Any:
    if value is None or type(value) in (bool, int, float, str):
        return value
    if type(value) is dict and all(type(k) is str for k in value):
        return {k: _show(v) for k, v in value.items()}
    if type(value) in (list, tuple):
        return [_show(v) for v in value]
    try:
        return repr(value)
    except Exception:
        return f"<{type(value).__name__}>"


class case_limit:
    "Bounds the time of a case, so that code that does not terminate is reported instead of blocking the check."

    def __init__(self, seconds: int = CASE_SECONDS) -> None:
        self.seconds = seconds

    def __enter__(self) -> None:
        signal.alarm(self.seconds)

    def __exit__(self, *args: Any) -> None:
        signal.alarm(0)


def _task_seconds(module: Any, tier: str) -> int:
    "Time after which a task counts as one that does not terminate (in the quick tier, tasks take seconds)."
    return 300 if tier == "quick" else getattr(module, "TASK_SECONDS", 3600)


def _run_task(args: tuple[str, str, Any]) -> dict[str, Any]:
    prop, tier, task = args
    module = importlib.import_module(f"props.{prop.lower()}")
    ctx = Ctx(tier)
    signal.signal(signal.SIGALRM, _on_alarm)
    seconds = _task_seconds(module, tier)
    signal.alarm(seconds)
    error = None
    try:
        module.run(task, ctx)
    except CaseTimeout:
        ctx.violation(f"exploration of task does not terminate within {seconds} s", key="timeout", task=task)
    except Exception as ex:
        # an exception that no operation of the library should raise here is a violation if it comes from the library,
        # and an error of the check otherwise
        frames = traceback.extract_tb(ex.__traceback__)
        if frames and frames[-1].filename.startswith(os.path.join(REPO, "strong_typing")) or isinstance(
            ex, (RecursionError, MemoryError)
        ):
            ctx.violation(
                f"library raises {type(ex).__name__} where it must not: {ex}",
                key="",
                task=task,
                trace=[f"{f.filename}:{f.lineno} {f.name}" for f in frames[-6:]],
            )
        else:
            error = traceback.format_exc()
    finally:
        signal.alarm(0)
    result = ctx.result()
    result["task"] = task
    result["error"] = error
    return result


def _worker(connection: Any, fresh: bool) -> None:
    "Main function of a worker process: explores tasks as they come in."
    _init_worker()
    while True:
        try:
            args = connection.recv()
        except EOFError:
            break
        if args is None:
            break
        connection.send_bytes(pickle.dumps(_run_task(args)))
        if fresh:
            break
    connection.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def _explore(args: list[tuple[str, str, Any]], jobs: int, fresh: bool, seconds: float, until: float) -> Iterator[Any]:
    """
    Explores tasks on worker processes.

    A worker that dies (e.g. a crash of the interpreter by unbounded recursion) or no longer reacts while it explores a
    task makes a violation of the task it has explored. Workers ended by the system for lack of memory are retried.

    :param fresh: Whether each task is explored by a process of its own.
    :param until: Time at which to give up; yields None.
    """

    mp = get_context("fork")
    pending = list(reversed(args))
    retried: set[int] = set()
    workers: dict[Any, Any] = {}  # connection -> (process, task, since)

    def start() -> None:
        ours, theirs = mp.Pipe()
        process = mp.Process(target=_worker, args=(theirs, fresh), daemon=True)
        sys.stdout.flush()
        sys.stderr.flush()
        process.start()
        theirs.close()
        assign(ours, process)

    def assign(connection: Any, process: Any) -> None:
        item = pending.pop()
        connection.send(item)
        workers[connection] = (process, item, time.monotonic())

    def lost(item: Any, what: str) -> dict[str, Any]:
        ctx = Ctx(item[1])
        ctx.violation(what, key="", task=item[2])
        return dict(ctx.result(), task=item[2], error=None)

    try:
        while pending or workers:
            while pending and len(workers) < jobs:
                start()
            ready = wait(list(workers), timeout=5)
            now = time.monotonic()
            for connection in ready:
                process, item, _ = workers.pop(connection)  # type: ignore
                try:
                    result = pickle.loads(connection.recv_bytes())  # type: ignore
                except (EOFError, OSError):
                    process.join()
                    if process.exitcode == -signal.SIGKILL and id(item) not in retried:
                        retried.add(id(item))
                        pending.append(item)
                    elif process.exitcode == -signal.SIGKILL:
                        yield dict(Ctx(item[1]).result(), task=item[2], error="worker has been killed")
                    else:
                        yield lost(item, f"exploration of task ends the interpreter (exit code {process.exitcode})")
                    continue
                yield result
                if fresh or not pending:
                    if not fresh:
                        connection.send(None)  # type: ignore
                    connection.close()  # type: ignore
                    process.join()
                else:
                    assign(connection, process)
            for connection, (process, item, since) in list(workers.items()):
                if now - since > seconds:
                    process.kill()
                    process.join()
                    del workers[connection]
                    yield lost(item, f"exploration of task does not terminate within {seconds} s")
            if now > until:
                yield None
                return
    finally:
        for process, _, _ in workers.values():
            process.kill()
            process.join()


def _init_worker() -> None:
    limit = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(1500)


def load_findings(prop: str) -> dict[str, str]:
    "Known findings of a property: key of the violation -> description."
    found: dict[str, str] = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding="utf-8") as f:
            for line in f:
                if line.startswith("finding: "):
                    head, key, what = line[len("finding: ") :].rstrip("\n").split(" ", 2)
                    if head == f"property={prop}":
                        found[key.removeprefix("key=")] = what
    return found


def run_check(prop: str, tier: str, *, replay: str | None = None, jobs: int | None = None) -> int:
    started = time.monotonic()
    module = importlib.import_module(f"props.{prop.lower()}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    findings = load_findings(prop)

    if replay is not None:
        with open(replay, encoding="utf-8") as f:
            tasks = [json.load(f)["task"]]
    else:
        tasks = module.tasks(tier)

    states = 0  # tasks partition the space: states of different tasks are different
    transitions = traces = 0
    outcomes: Counter[str] = Counter()
    extra: Counter[str] = Counter()
    samples: list[Any] = []
    violations: list[tuple[Any, dict[str, Any]]] = []
    known: dict[str, dict[str, Any]] = {}
    errors: list[tuple[Any, str]] = []

    def collect(result: dict[str, Any]) -> None:
        nonlocal states, transitions, traces
        states += result["states"]
        transitions += result["transitions"]
        traces += result["traces"]
        outcomes.update(result["outcomes"])
        extra.update(result["extra"])
        for sample in result["samples"]:
            if len(samples) < 6:
                samples.append(_show(sample))
        for violation in result["violations"]:
            if violation["key"] and violation["key"] in findings:
                known.setdefault(violation["key"], violation)
            else:
                violations.append((result["task"], violation))
        if result["error"]:
            errors.append((result["task"], result["error"]))

    if jobs is None:
        jobs = int(os.environ.get("MC_JOBS", str(os.cpu_count() or 1)))
    args = [(prop, tier, task) for task in tasks]
    limit = float(os.environ.get("MC_LIMIT", TASK_SECONDS if tier == "quick" else 7 * 3600))
    fresh = getattr(module, "FRESH_PROCESS", False)
    if fresh or jobs > 1:
        seconds = _task_seconds(module, tier) + 60
        done = 0
        for result in _explore(args, jobs, fresh, seconds, started + limit):
            if result is None:
                errors.append((None, "no result within the time limit"))
                break
            collect(result)
            done += 1
            if len(violations) >= int(os.environ.get("MC_STOP", "200")):
                break
            if violations and time.monotonic() - started > limit / 2:
                break  # what has been found suffices
        complete = done == len(args)
    else:
        for a in args:
            collect(_run_task(a))
        complete = True

    # report the simplest violations first, and independently of the order in which workers finish
    violations.sort(key=lambda v: (len(json.dumps(v[1], default=repr)), json.dumps(v[1], default=repr, sort_keys=True)))

    wall = time.monotonic() - started
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    coverage: dict[str, Any] = dict(
        states=states,
        transitions=transitions,
        traces_validated_against_impl=traces,
        samples=samples,
        exhaustive=not errors and complete and replay is None,
        tasks=len(tasks),
        bounds=module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
        outcomes=dict(sorted(outcomes.items())),
    )
    coverage.update({k: v for k, v in sorted(extra.items())})
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(module, "LEVEL", "model_checking"),
        coverage=coverage,
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(wall, 3),
        violations=len(violations),
    )
    if replay is None:
        with open(os.path.join(EVIDENCE, f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=True, default=repr)
            f.write("\n")

    print(
        f"{prop} [{tier}]: tasks={len(tasks)} states={states} transitions={transitions} traces={traces} "
        f"outcomes={dict(sorted(outcomes.items()))} wall={wall:.1f}s"
    )
    for key, violation in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {findings[key]}")

    if violations:
        for i, (task, violation) in enumerate(violations[:5]):
            path = os.path.join(EVIDENCE, "replays", f"{prop}-{i}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump(
                    dict(
                        property=prop,
                        tier=tier,
                        replay_with=f"/verif/mc/check {prop} {tier} --replay {path}",
                        task=task,
                        **violation,
                    ),
                    f,
                    indent=1,
                    default=repr,
                )
            print(f"  {violation['what']}: {json.dumps(violation['case'], default=repr)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1

    if errors:
        for task, error in errors[:3]:
            print(f"ERROR in task {task!r}:\n{error}", file=sys.stderr)
        return 2

    if not states or not transitions:
        print("ERROR: nothing explored", file=sys.stderr)
        return 2
    return 0
