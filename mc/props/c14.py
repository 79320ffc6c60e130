"""
C14: concurrent use.

Two or three threads read, write, and generate schemas for the same classes that the library has not seen before (or has seen
before: then threads share what earlier calls have created). All
schedules with a bounded number of preemptions are executed (stateless model checking), each from the same process state,
under a scheduler that decides before each line (or instruction) of the library which thread runs. Each call must return
what it returns alone; and again after the threads have ended. No schedule may deadlock.
"""

from __future__ import annotations

import dataclasses
import enum
import sys
from typing import Any


from scheduler import Scheduler, patched

for _name in [m for m in sys.modules if m == "strong_typing" or m.startswith("strong_typing.")]:
    del sys.modules[_name]

with patched():
    import strong_typing.schema  # noqa: F401
    from strong_typing.classdef import flatten_schema, schema_to_type
    from strong_typing.deserializer import DeserializerOptions, create_deserializer
    from strong_typing.docstring import parse_text
    from strong_typing.inspection import is_generic_instance
    from strong_typing.name import python_type_to_str
    from strong_typing.schema import classdef_to_schema
    from strong_typing.serialization import json_to_generic, object_to_json
    from strong_typing.serializer import create_serializer
    from strong_typing.topological import type_topological_sort

from forktree import Died, forked
from world import new_module

LEVEL = "model_checking"
BOUNDS = {
    "quick": "2 threads: all schedules with 1 preemption at the granularity of lines for 16 pairs of operations, at the "
    "granularity of instructions for 4 pairs; with 2 preemptions (lines) for 2 pairs; 3 threads with 1 preemption for 2 triples. "
    "Calls that use what earlier calls have created (every kind of value, errors, schemas, docstrings, names of types, order of types, "
    "classes made from schemas, flattened schemas): 1 preemption at the granularity of instructions for 13 pairs, of lines for 4 pairs, 2 (lines) for 3 pairs",
    "thorough": "2 threads: 1 preemption at the granularity of instructions for all pairs, 2 preemptions (lines) for all "
    "pairs, 3 preemptions (lines of one pair); 3 threads with 1 and 2 preemptions; calls that use what earlier calls have created: 2 preemptions "
    "(lines) for 13 pairs, 1 preemption (instructions) for 17 pairs, 2 preemptions (instructions) for 3 pairs",
}
ASSUMPTIONS = [
    "a thread can be preempted before each instruction of the library; calls into other modules are executed as a whole",
    "the locks of the threading module behave as documented (they are replaced with locks known to the scheduler)",
]
TASK_SECONDS = 6000

SOURCE = '''
from strong_typing.schema import json_schema_type
@dataclass
class S:
    v: int

@dataclass
class Node:
    v: int
    next: Optional["Node"] = None

@dataclass
class X:
    y: Optional["Y"]
    n: int

@dataclass
class Y:
    x: Optional[X]

@dataclass(frozen=True)
class F:
    node: Node
    x: "list[X]"

@dataclass
class T1:
    type: Literal["one"]
    s: S

@dataclass
class T2:
    type: Literal["two"]
    s: S

@dataclass
class U:
    u: Union[T1, T2]

@json_schema_type
@dataclass
class R:
    "Registered."
    v: int
    r: Optional["R"]

@dataclass
class Q:
    "Has registered members."
    r: R
    rs: list[R]

class Bad:
    node: Node
    bad: list

class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"

class Point(NamedTuple):
    x: int
    y: int = 0

class Own:
    def __init__(self, text): self.text = text
    def to_json(self): return [self.text]
    @classmethod
    def from_json(cls, data): return cls(data[0])

class Plain:
    p: int
    o: Optional[str]

def plain(p, o):
    obj = Plain()
    obj.p, obj.o = p, o
    return obj

@dataclass(frozen=True)
class Ice:
    p: int
    o: Optional[str] = None

@dataclass
class L:
    "Leaves.\\n\\nLong text.\\n\\n:param b: A member.\\n"
    b: bool
    i: int8
    f: float
    s: str
    raw: bytes
    d: datetime.date
    t: datetime.time
    dt: datetime.datetime
    td: datetime.timedelta
    u: uuid.UUID
    ip: ipaddress.IPv4Address
    e: Color
    lit: Literal["p", "q"]
    al: Annotated[int, Alias("alias")]
    opt: Optional[str] = None
    dflt: int = 5

@dataclass
class C:
    "Containers."
    l: list[int]
    st: set[str]
    m: dict[str, int]
    em: dict[Color, int]
    tup: tuple[int, str]
    nt: Point
    un: Union[int, str]
    tag: Union[T1, T2]
    own: Own
    plain: Plain
    ice: Ice
    any: Any = None
    fac: list[int] = field(default_factory=list)
'''

L1 = {
    "b": True, "i": 1, "f": 0.5, "s": "s1", "raw": "UQ==", "d": "2024-02-29", "t": "01:02:03Z", "dt": "2024-01-02T03:04:05Z", "td": "P1DT2S",
    "u": "12345678-1234-5678-1234-567812345678", "ip": "127.0.0.1", "e": "red", "lit": "p", "alias": 11, "opt": "o1", "dflt": 6,
}
L2 = {
    "b": False, "i": 2, "f": 2.25, "s": "s2", "raw": "UlI=", "d": "1999-12-31", "t": "23:59:59Z", "dt": "1970-01-01T00:00:00Z", "td": "-PT5M",
    "u": "87654321-4321-8765-4321-876543218765", "ip": "10.1.2.3", "e": "blue", "lit": "q", "alias": 22, "dflt": 5,
}
C1 = {
    "l": [1, 2], "st": ["a"], "m": {"k": 1}, "em": {"red": 1}, "tup": [1, "x"], "nt": {"x": 1, "y": 2}, "un": 5, "tag": {"type": "one", "s": {"v": 1}},
    "own": ["t1"], "plain": {"p": 1, "o": "o"}, "ice": {"p": 1, "o": "o"}, "any": [1], "fac": [7],
}
C2 = {
    "l": [3], "st": ["b"], "m": {"n": 2}, "em": {"blue": 3}, "tup": [2, "y"], "nt": {"x": 9, "y": 0}, "un": "u", "tag": {"type": "two", "s": {"v": 2}},
    "own": ["t2"], "plain": {"p": 2}, "ice": {"p": 2}, "any": {"z": 0}, "fac": [],
}
UTC = "tzinfo=datetime.timezone.utc"
LOBJ1 = (
    f"L(True, 1, 0.5, 's1', b'Q', datetime.date(2024, 2, 29), datetime.time(1, 2, 3, {UTC}), datetime.datetime(2024, 1, 2, 3, 4, 5, {UTC}), "
    "datetime.timedelta(1, 2), uuid.UUID(int=1), ipaddress.IPv4Address('127.0.0.1'), Color.RED, 'p', 11, 'o1', 6)"
)
LOBJ2 = (
    f"L(False, 2, 2.25, 's2', b'RR', datetime.date(1999, 12, 31), datetime.time(23, 59, 59, {UTC}), datetime.datetime(1970, 1, 1, {UTC}), "
    "datetime.timedelta(minutes=-5), uuid.UUID(int=2), ipaddress.IPv4Address('10.1.2.3'), Color.BLUE, 'q', 22)"
)
COBJ1 = (
    "C([1, 2], {'a'}, {'k': 1}, {Color.RED: 1}, (1, 'x'), Point(1, 2), 5, T1('one', S(1)), Own('t1'), plain(1, 'o'), Ice(1, 'o'), [1], [7])"
)
COBJ2 = "C([3], {'b'}, {'n': 2}, {Color.BLUE: 3}, (2, 'y'), Point(9), 'u', T2('two', S(2)), Own('t2'), plain(2, None), Ice(2), {'z': 0})"
TOP = {"$schema": "https://json-schema.org/draft/2020-12/schema"}
DOC = "Short {0}.\n\nLong {0}.\n\n:param a: About {0}.\n:returns: Result {0}.\n:raises ValueError: If {0}."

NODE = {"v": 1, "next": {"v": 2}}
XDOC = {"y": {"x": {"n": 1}}, "n": 2}
YDOC = {"x": {"y": {}, "n": 3}}
FDOC = {"node": NODE, "x": [XDOC, {"n": 5}]}
UDOC = {"u": {"type": "two", "s": {"v": 3}}}

# operation -> class, document
OPS: dict[str, tuple[str, str, Any]] = {
    "r:S": ("read", "S", {"v": 1}),
    "r:Node": ("read", "Node", NODE),
    "r:X": ("read", "X", XDOC),
    "r:Y": ("read", "Y", YDOC),
    "r:F": ("read", "F", FDOC),
    "r:U": ("read", "U", UDOC),
    "r:list": ("read", "list[Node]", [NODE, {"v": 7}]),
    "s:Node": ("skip", "Node", {"v": 1, "next": {"v": 2, "extra": 0}}),
    "e:Node": ("read", "Node", {"v": 1, "next": {"v": 2, "extra": 0}}),
    "b:Bad": ("read", "Bad", {"node": NODE, "bad": []}),
    "w:S": ("write", "S(1)", {"v": 1}),
    "w:Node": ("write", "Node(1, Node(2))", NODE),
    "w:X": ("write", "X(Y(X(None, 1)), 2)", XDOC),
    "w:Y": ("write", "Y(X(Y(None), 3))", YDOC),
    "w:F": ("write", "F(Node(1, Node(2)), [X(None, 5)])", {"node": NODE, "x": [{"n": 5}]}),
    "w:U": ("write", "U(T2('two', S(3)))", UDOC),
    "g:S": ("schema", "S", None),
    "g:R": ("schema", "R", None),
    "g:Q": ("schema", "Q", None),
    "g:Node": ("schema", "Node", None),
    "r:L1": ("read", "L", L1),
    "r:L2": ("read", "L", L2),
    "r:Lbad": ("read", "L", {**L2, "td": "P", "e": "green"}),
    "w:L1": ("write", LOBJ1, None),
    "w:L2": ("write", LOBJ2, None),
    "r:C1": ("read", "C", C1),
    "r:C2": ("read", "C", C2),
    "r:Cbad": ("read", "C", {**C2, "tup": [2]}),
    "w:C1": ("write", COBJ1, None),
    "w:C2": ("write", COBJ2, None),
    "g:L": ("schema", "L", None),
    "g:C": ("schema", "C", None),
    "d:1": ("doc", DOC.format("one"), None),
    "d:2": ("doc", DOC.format("two").replace(":returns: Result two.\n", ""), None),
    "n:1": ("name", "Annotated[dict[str, Optional[Union[L, int]]], 5]", None),
    "n:2": ("name", "list[tuple[Literal['p', 'q'], Point]]", None),
    "o:1": ("sort", "[Q, S]", None),
    "o:2": ("sort", "[X]", None),
    "c:1": ("class", "Made1", {**TOP, "type": "object", "properties": {"a": {"type": "integer"}, "e": {"type": "string", "enum": ["x", "y"]}}, "additionalProperties": False, "required": ["a", "e"]}),
    "c:2": ("class", "Made2", {**TOP, "type": "object", "properties": {"b": {"type": "string"}, "o": {"type": "object", "properties": {"z": {"type": "number"}}, "additionalProperties": False}}, "additionalProperties": False, "required": ["b"]}),
    "f:1": ("flat", "", {**TOP, "type": "object", "properties": {"o": {"type": "object", "properties": {"z": {"type": "number"}}, "additionalProperties": False}}, "additionalProperties": False, "required": ["o"]}),
    "f:2": ("flat", "", {**TOP, "type": "object", "properties": {"p": {"type": "object", "properties": {"y": {"type": "string"}}, "additionalProperties": False, "required": ["y"]}}, "additionalProperties": False}),
    "i:1": ("instance", "list[dict[str, Union[int, None]]]", [{"a": 1}, {"b": None}]),
    "i:2": ("instance", "list[dict[str, Union[int, None]]]", [{"a": 1}, {"b": "x"}]),
}

PAIRS = [
    ("r:Node", "r:Node"),
    ("r:X", "r:Y"),
    ("r:X", "r:X"),
    ("r:F", "r:X"),
    ("r:S", "r:U"),
    ("r:Node", "r:list"),
    ("r:Node", "s:Node"),
    ("e:Node", "s:Node"),
    ("b:Bad", "r:Node"),
    ("w:Node", "w:Node"),
    ("w:X", "w:Y"),
    ("w:F", "w:X"),
    ("w:U", "w:S"),
    ("w:Node", "r:Node"),
    ("g:Q", "g:R"),
    ("g:Q", "r:Node"),
]
# calls that use what earlier calls have created
USED = [
    ("r:L1", "r:L2"),
    ("r:L1", "r:Lbad"),
    ("w:L1", "w:L2"),
    ("r:C1", "r:C2"),
    ("r:C1", "r:Cbad"),
    ("w:C1", "w:C2"),
    ("w:L1", "r:L2"),
    ("r:Node", "s:Node"),
    ("e:Node", "s:Node"),
    ("w:Node", "r:Node"),
    ("d:1", "d:2"),
    ("n:1", "n:2"),
    ("i:1", "i:2"),
]
USED_LONG = [
    ("g:Q", "g:Node"),
    ("o:1", "o:2"),
    ("c:1", "c:2"),
    ("f:1", "f:2"),
]
SHORT = [("r:S", "r:U"), ("w:S", "w:U"), ("d:1", "d:2")]
LONG = [("g:L", "g:S"), ("r:L1", "r:C1"), ("w:L1", "w:C2")]
BY_INSTRUCTION = [("r:Node", "r:Node"), ("w:Node", "w:Node"), ("r:Node", "s:Node"), ("r:S", "r:S")]
TWICE = [("r:S", "r:S"), ("w:S", "w:S")]
TRIPLES = [("r:S", "r:S", "r:S"), ("w:Node", "w:Node", "w:Node")]
MORE_TRIPLES = [("r:X", "r:Y", "r:X"), ("b:Bad", "r:Node", "s:Node"), ("w:X", "w:Y", "w:F"), ("g:Q", "g:R", "r:S")]


def show(obj: Any) -> Any:
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [show(o) for o in obj])
    if isinstance(obj, set):
        return ("set", sorted(map(show, obj), key=repr))
    if isinstance(obj, dict):
        return ("dict", [(show(k), show(v)) for k, v in obj.items()])
    if isinstance(obj, enum.Enum):
        return repr(obj)
    if hasattr(obj, "__dict__") and type(obj).__module__.startswith("mcworld"):
        return (type(obj).__name__, id(type(obj)), {k: show(v) for k, v in vars(obj).items()})
    return (type(obj).__name__, obj)


def perform(module: Any, op: str) -> Any:
    kind, expression, doc = OPS[op]
    try:
        if kind == "doc":
            return ("ok", str(parse_text(expression)))
        if kind == "class":
            made = schema_to_type(doc, module=module, class_name=expression)
            return ("ok", [(f.name, str(f.type)) for f in dataclasses.fields(made)])
        if kind == "flat":
            return ("ok", flatten_schema(doc))
        target = eval(expression, vars(module))
        if kind == "read":
            return ("ok", show(json_to_generic(target, doc, context=module)))
        if kind == "skip":
            return ("ok", show(json_to_generic(target, doc, context=module, options=DeserializerOptions(skip_unassigned=True))))
        if kind == "write":
            return ("ok", object_to_json(target))
        if kind == "name":
            return ("ok", python_type_to_str(target))
        if kind == "sort":
            return ("ok", [c.__name__ for c in type_topological_sort(target)])
        if kind == "instance":
            return ("ok", is_generic_instance(doc, target))
        return ("ok", classdef_to_schema(target))
    except Exception as ex:
        return ("err", type(ex).__name__)


def execute(module: Any, ops: list[str], switches: dict[int, int], first: int, opcodes: bool) -> Any:
    "Executes a schedule in the current process (which ends afterwards)."
    with patched():
        s = Scheduler(len(ops), switches, first, opcodes)
        s.run([lambda op=op: perform(module, op) for op in ops])
        after = [perform(module, op) for op in ops] if s.deadlock is None else None
    return s.deadlock, s.results, after, s.enabled_at


class Explorer:
    def __init__(self, ops: list[str], first: int, opcodes: bool, used: bool, ctx: Any) -> None:
        self.ops = ops
        self.used = used
        self.first = first
        self.opcodes = opcodes
        self.ctx = ctx
        self.module = new_module(SOURCE)
        if used:
            for op in dict.fromkeys(ops):
                perform(self.module, op)
        self.expected = [forked(lambda op=op: perform(self.module, op)) for op in ops]
        self.failed = False

    def schedule(self, switches: dict[int, int]) -> list[tuple[int, list[int]]]:
        ctx = self.ctx
        result = forked(lambda: execute(self.module, self.ops, switches, self.first, self.opcodes), 60)
        ctx.step()
        ctx.state(self.ops, self.first, self.opcodes, self.used, sorted(switches.items()))
        info = dict(threads=self.ops, first=self.first, switches={str(k): v for k, v in switches.items()}, by="instruction" if self.opcodes else "line", used=self.used)
        if isinstance(result, Died):
            ctx.violation(f"schedule does not end: {result!r}", **info)
            self.failed = True
            return []
        deadlock, results, after, enabled = result
        if deadlock:
            ctx.violation(deadlock, **info)
            self.failed = True
        elif results != self.expected:
            ctx.violation("result differs from that of the call alone", results=results, expected=self.expected, **info)
            self.failed = True
        elif after != self.expected:
            ctx.violation("later call does not give the result of the call alone", results=after, expected=self.expected, **info)
            self.failed = True
        else:
            ctx.trace()
            ctx.outcome(f"{len(switches)} switches")
        ctx.extra["points"] += len(enabled)
        return enabled

    def explore(self, bound: int, part: int, parts: int) -> None:
        "Explores all schedules with up to a number of preemptions; divided into parts by the first preemption."
        enabled = self.schedule({})
        if not self.failed and not any(running != -1 for running, _ in enabled):
            raise RuntimeError(f"no points at which {self.ops} can be preempted")
        self.extend({}, enabled, bound, part, parts)

    def extend(self, switches: dict[int, int], enabled: list[tuple[int, list[int]]], bound: int, part: int = 0, parts: int = 1) -> None:
        start = max(switches, default=0)
        for step in range(start + 1, len(enabled) + 1):
            if parts > 1 and step % parts != part:
                continue
            running, others = enabled[step - 1]
            # when a thread ends, the choice of the next thread is not a preemption
            cost = 0 if running == -1 else 1
            if running == -1:
                others = others[1:]
            if cost > bound:
                continue
            for other in others:
                if self.failed:
                    return
                more = {**switches, step: other}
                self.extend(more, self.schedule(more), bound - cost)


def tasks(tier: str) -> list[Any]:
    out: list[Any] = []

    def add(ops: Any, opcodes: bool, bound: int, parts: int, used: bool = False) -> None:
        firsts = {tuple(ops[f:] + ops[:f]): f for f in range(len(ops))}.values()
        for first in sorted(firsts):
            out.extend([list(ops), first, opcodes, bound, p, parts, used] for p in range(parts))

    if tier == "quick":
        for p in TWICE:
            add(p, False, 2, 8)
        for p in BY_INSTRUCTION:
            add(p, True, 1, 8)
        for t in TRIPLES:
            add(t, False, 1, 4)
        for p in PAIRS:
            add(p, False, 1, 3)
        for p in USED:
            add(p, True, 1, 3, True)
        for p in USED_LONG:
            add(p, False, 1, 6, True)
        for p in SHORT:
            add(p, False, 2, 4, True)
        for p in LONG:
            add(p, False, 1, 16)
    else:
        add(("r:S", "r:S"), False, 3, 200)
        for p in PAIRS + TWICE:
            add(p, False, 2, 60)
        for p in PAIRS + TWICE:
            add(p, True, 1, 16)
        for t in TRIPLES:
            add(t, False, 2, 60)
        for p in USED:
            add(p, False, 2, 30, True)
            add(p, True, 1, 3, True)
        for p in USED_LONG:
            add(p, True, 1, 100, True)
        for p in SHORT:
            add(p, True, 2, 30, True)
        for p in LONG:
            add(p, True, 1, 8)
        for t in MORE_TRIPLES:
            add(t, False, 1, 8)
    return out


def run(task: Any, ctx: Any) -> None:
    ops, first, opcodes, bound, part, parts, used = task
    e = Explorer(ops, first, opcodes, used, ctx)
    e.explore(bound, part, parts)
    ctx.sample({"threads": ops, "first": first, "granularity": "instruction" if opcodes else "line", "preemptions": bound, "used": used})
