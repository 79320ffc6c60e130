"""
Controlled scheduler: runs threads one at a time, and switches between them at chosen points only.

A point is reached before each line (or each instruction) of the library that a thread executes, and whenever a thread has
to wait for a lock. The locks of the `threading` module are replaced with locks that the scheduler knows of, such that
waiting never blocks the scheduler, and deadlocks are detected.
"""

from __future__ import annotations

import _thread
import contextlib
import os
import sys
import threading
from typing import Any, Callable, Iterator, Optional

REPO = os.environ.get("MC_REPO", "/repo")
LIBRARY = os.path.join(REPO, "strong_typing") + os.sep

FAIRNESS = 50000  # number of points after which a thread that waits actively has to let others run


class Deadlock(BaseException):
    pass


class Scheduler:
    def __init__(self, count: int, switches: dict[int, int], first: int, opcodes: bool) -> None:
        self.count = count
        self.switches = switches
        self.first = first
        self.opcodes = opcodes
        self.gates = [_thread.allocate_lock() for _ in range(count)]
        for g in self.gates:
            g.acquire()
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.ids: dict[int, int] = {}
        self.done = [False] * count
        self.waiting: list[Any] = [None] * count
        self.current = first
        self.step = 0
        self.streak = 0
        self.enabled_at: list[tuple[int, list[int]]] = []  # running thread and threads to which one could have switched
        self.deadlock: Optional[str] = None
        self.results: list[Any] = [None] * count
        self.where: list[str] = []

    def me(self) -> Optional[int]:
        return self.ids.get(_thread.get_ident())

    def runnable(self, t: int) -> bool:
        if self.done[t]:
            return False
        w = self.waiting[t]
        return w is None or w.available(t)

    def others(self, t: int) -> list[int]:
        return [u for u in range(self.count) if u != t and self.runnable(u)]

    def switch(self, me: int, target: int) -> None:
        self.current = target
        self.streak = 0
        self.gates[target].release()
        self.gates[me].acquire()

    def point(self, me: int) -> None:
        if self.deadlock is not None:
            raise Deadlock()
        self.step += 1
        self.streak += 1
        others = self.others(me)
        self.enabled_at.append((me, others))
        target = self.switches.get(self.step)
        if target is not None and target in others:
            self.switch(me, target)
        elif self.streak > FAIRNESS and others:
            self.switch(me, others[0])

    def wait(self, me: int, lock: Any, timed: bool) -> bool:
        "Waits until a lock is available; returns false if waiting has timed out."
        self.waiting[me] = lock
        while not lock.available(me):
            others = self.others(me)
            if not others:
                if timed:
                    self.waiting[me] = None
                    return False
                self.deadlock = "deadlock: " + ", ".join(
                    f"thread {t} waits for lock" for t in range(self.count) if self.waiting[t] is not None
                )
                self.finished.release()
                raise Deadlock()
            self.switch(me, others[0])
            if self.deadlock is not None:
                raise Deadlock()
        self.waiting[me] = None
        return True

    def finish(self, me: int) -> None:
        self.done[me] = True
        others = self.others(me)
        if others:
            # the choice of the next thread is free: it is part of the schedule
            self.enabled_at.append((-1, others))
            self.step += 1
            target = self.switches.get(self.step)
            self.current = target if target in others else others[0]
            self.streak = 0
            self.gates[self.current].release()
        elif all(self.done):
            self.finished.release()
        else:
            self.deadlock = "deadlock: all remaining threads wait for locks"
            self.finished.release()

    def event(self, code: Any, position: int) -> Any:
        if not code.co_filename.startswith(LIBRARY):
            return sys.monitoring.DISABLE
        me = self.me()
        if me is not None and not self.done[me]:
            self.point(me)
        return None

    def thread(self, me: int, body: Callable[[], Any]) -> None:
        self.ids[_thread.get_ident()] = me
        self.gates[me].acquire()
        try:
            self.results[me] = body()
        except Deadlock:
            return
        except BaseException as ex:
            self.results[me] = ("raised", type(ex).__name__, str(ex)[:200])
        self.finish(me)

    def run(self, bodies: list[Callable[[], Any]]) -> None:
        global ACTIVE
        ACTIVE = self
        monitoring = sys.monitoring
        tool = monitoring.DEBUGGER_ID
        event = monitoring.events.INSTRUCTION if self.opcodes else monitoring.events.LINE
        monitoring.use_tool_id(tool, "scheduler")
        monitoring.register_callback(tool, event, self.event)
        monitoring.set_events(tool, event)
        for i, b in enumerate(bodies):
            _thread.start_new_thread(self.thread, (i, b))
        self.gates[self.first].release()
        self.finished.acquire()
        if self.deadlock is None:
            monitoring.set_events(tool, 0)
            monitoring.free_tool_id(tool)
        ACTIVE = None


ACTIVE: Optional[Scheduler] = None


class CoopLock:
    "Replaces locks of the `threading` module."

    reentrant = False

    def __init__(self) -> None:
        self.owner: Any = None
        self.level = 0

    def _who(self) -> Any:
        s = ACTIVE
        me = s.me() if s is not None else None
        return me if me is not None else ("thread", _thread.get_ident())

    def available(self, who: Any) -> bool:
        return self.owner is None or (self.reentrant and self.owner == who)

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        who = self._who()
        if not self.available(who):
            if not blocking:
                return False
            s = ACTIVE
            if s is None or not isinstance(who, int):
                raise RuntimeError("lock is held by a thread that has ended")
            if not s.wait(who, self, timeout >= 0):
                return False
        self.owner = who
        self.level += 1
        return True

    __enter__ = acquire

    def release(self) -> None:
        if self.owner is None or (self.reentrant and self.owner != self._who()):
            raise RuntimeError("release of a lock that is not held")
        self.level -= 1
        if self.level <= 0 or not self.reentrant:
            self.level = 0
            self.owner = None

    def __exit__(self, *args: Any) -> None:
        self.release()

    def locked(self) -> bool:
        return self.owner is not None

    # used by conditions

    def _is_owned(self) -> bool:
        return self.owner is not None and self.owner == self._who()

    def _release_save(self) -> Any:
        state = (self.level, self.owner)
        self.level, self.owner = 0, None
        return state

    def _acquire_restore(self, state: Any) -> None:
        self.acquire()
        self.level = state[0]

    def _at_fork_reinit(self) -> None:
        self.__init__()  # type: ignore[misc]


class CoopRLock(CoopLock):
    reentrant = True


@contextlib.contextmanager
def patched() -> Iterator[None]:
    "Replaces locks that are created while the context is active."
    names = {"Lock": CoopLock, "RLock": CoopRLock, "_allocate_lock": CoopLock, "_RLock": CoopRLock, "_CRLock": CoopRLock}
    saved = {n: getattr(threading, n) for n in names if hasattr(threading, n)}
    for n in saved:
        setattr(threading, n, names[n])
    try:
        yield
    finally:
        for n, v in saved.items():
            setattr(threading, n, v)
