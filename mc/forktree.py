"""
Exploration of all histories of operations up to a depth.

The state of the library is the state of a process: each operation is executed in a process forked from the one that has
executed the operations before it, such that each history starts from exactly the state that its prefix leaves behind.
What is expected is computed in a process of its own for each operation, from the initial state.
"""

from __future__ import annotations

import os
import pickle
import signal
import sys
import traceback
from typing import Any, Callable


def forked(fn: Callable[[], Any], seconds: int = 600) -> Any:
    "Runs a function in a forked process and returns its result."
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            status = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(status)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGALRM, signal.SIGSEGV, signal.SIGABRT):
            return Died(os.WTERMSIG(status))
        raise RuntimeError(f"forked process failed with status {status}")
    return pickle.loads(data)


class Died:
    "An operation that did not terminate, or that crashed the interpreter."

    def __init__(self, number: int) -> None:
        self.number = number

    def __repr__(self) -> str:
        return f"<ended by {signal.Signals(self.number).name}>"


def explore(
    ops: list[str],
    depth: int,
    perform: Callable[[str], Any],
    judge: Callable[[list[str], Any], Any],
    enabled: Callable[[list[str], str], bool] = lambda history, op: True,
    history: list[str] = [],
) -> dict[str, Any]:
    """
    Explores all histories that extend a history by up to a number of operations.

    :param perform: Executes an operation in the current process, and returns a comparable outcome.
    :param judge: Takes a history and the outcome of its last operation; returns what is wrong, or None.
    """

    total: dict[str, Any] = {"states": 0, "violations": [], "outcomes": {}}
    if depth == 0:
        return total
    for op in ops:
        if not enabled(history, op):
            continue
        trail = history + [op]

        def child(trail: list[str] = trail, op: str = op) -> dict[str, Any]:
            outcome = perform(op)
            problem = judge(trail, outcome)
            label = outcome[0] if isinstance(outcome, tuple) else "done"
            own: dict[str, Any] = {
                "states": 1,
                "violations": [(trail, problem, outcome)] if problem else [],
                "outcomes": {label: 1},
            }
            if not problem:
                merge(own, explore(ops, depth - 1, perform, judge, enabled, trail))
            return own

        result = forked(child)
        if isinstance(result, Died):
            result = {"states": 1, "violations": [(trail, f"history {result!r}", None)], "outcomes": {}}
        merge(total, result)
    return total


def merge(total: dict[str, Any], part: dict[str, Any]) -> None:
    total["states"] += part["states"]
    total["violations"] = (total["violations"] + part["violations"])[:20]
    for k, v in part["outcomes"].items():
        total["outcomes"][k] = total["outcomes"].get(k, 0) + v
