"""
C13: serialization and deserialization have no memory.

All sequences of operations (read or write objects of classes with colliding names in several modules, of a module that
is executed again, with options that are changed between calls, with engines that are kept and re-used, with types and
data that fail) up to a depth, from a process in which the library has done nothing. The outcome of each operation is
compared with the outcome of the same operation in a new process in which only the definitions of the history are done,
and with the outcome written down for it.
"""

from __future__ import annotations

import enum
from typing import Any

from forktree import Died, explore, forked
from world import new_module

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of 3 operations of an alphabet of 53, all sequences of 2 further operations after each of 20 "
    "prefixes of 2 operations",
    "thorough": "all sequences of 4 operations",
}
TASK_SECONDS = 3000

COMMON = '''
class Color(enum.Enum):
    RED = "r"

@dataclass
class Node:
    value: int
    next: Optional["Node"] = None

@dataclass
class Good:
    g: int

@dataclass
class Holder:
    good: Good
    bad: list

@dataclass
class Ring:
    good: Good
    other: Optional["Ring2"] = None

@dataclass
class Ring2:
    ring: Ring
    bad: dict

@dataclass
class Fwd:
    good: Good
    later: "Later"

@dataclass(frozen=True)
class Inner:
    a: "A"
    n: "Optional[Node]" = None

class Pair(NamedTuple):
    a: "A"
    b: int = 0

def local(kind):
    if kind:
        @dataclass
        class Local:
            "A class."
            x: Annotated[int, Alias("n")]
            y: Optional[A] = None
        tag = "first"
    else:
        @dataclass
        class Local:
            "Another class of the same name."
            x: Annotated[str, Alias("s")]
            y: Optional[int] = None
        tag = "second"
    Local.tag = tag
    return Local

First = local(True)
Second = local(False)
'''

SOURCES = {
    "mA": "@dataclass\nclass A:\n    x: int\n    items: list['A'] = field(default_factory=list)\n" + COMMON,
    "mB": "@dataclass\nclass A:\n    x: str\n    z: Optional[int] = None\n" + COMMON,
    "hot1": "@dataclass\nclass A:\n    p: int\n" + COMMON,
    "hot2": "@dataclass\nclass A:\n    q: Literal['new']\n    p: Optional[bool] = None\n" + COMMON,
}


class State:
    def __init__(self) -> None:
        self.mA = new_module(SOURCES["mA"], name="mcA")
        self.mB = new_module(SOURCES["mB"], name="mcB")
        self.hot = new_module(SOURCES["hot1"], name="mchot")
        self.old = self.hot
        self.options = DeserializerOptions(skip_unassigned=True)
        self.readers: dict[str, Any] = {}
        self.writers: dict[str, Any] = {}


STATE: Any = None


def show(obj: Any) -> Any:
    if isinstance(obj, (list, set)):
        return [type(obj).__name__] + [show(o) for o in obj]
    if isinstance(obj, tuple):
        return (type(obj).__module__, type(obj).__name__, [show(o) for o in obj])
    if isinstance(obj, dict):
        return {k: show(v) for k, v in obj.items()}
    if isinstance(obj, enum.Enum):
        return (repr(obj), type(obj) is getattr(STATE_MODULES()[type(obj).__module__], type(obj).__name__), type(obj).__module__)
    if type(obj).__module__.startswith("mc"):
        fields = {k: show(v) for k, v in vars(obj).items()}
        defined = getattr(STATE_MODULES()[type(obj).__module__], type(obj).__name__, None)
        return (type(obj).__module__, type(obj).__name__, type(obj) is defined, getattr(obj, "tag", None), fields)
    return (type(obj).__name__, obj)


def STATE_MODULES() -> dict[str, Any]:
    return {"mcA": STATE.mA, "mcB": STATE.mB, "mchot": STATE.hot}


# name -> module, type, document
READS: dict[str, tuple[str, str, Any]] = {
    "A": ("mA", "A", {"x": 1, "items": [{"x": 2}]}),
    "B": ("mB", "A", {"x": "s", "z": 5}),
    "B-wrong": ("mB", "A", {"x": 1}),
    "hot": ("hot", "A", {"p": 1}),
    "hot-new": ("hot", "A", {"q": "new", "p": True}),
    "hot-inner": ("hot", "Inner", {"a": {"p": 1}}),
    "innerA": ("mA", "Inner", {"a": {"x": 1}, "n": {"value": 1}}),
    "innerB": ("mB", "Inner", {"a": {"x": "s"}}),
    "pairA": ("mA", "Pair", {"a": {"x": 1}}),
    "pairB": ("mB", "Pair", {"a": {"x": ""}, "b": 1}),
    "node": ("mA", "Node", {"value": 1, "next": {"value": 2, "next": None}}),
    "node-extra": ("mA", "Node", {"value": 1, "next": {"value": 2, "extra": 0}}),
    "node-bad": ("mA", "Node", {"value": 1, "next": {"value": "x"}}),
    "good": ("mA", "Good", {"g": 1}),
    "good-extra": ("mA", "Good", {"g": 1, "h": 2}),
    "holder": ("mA", "Holder", {"good": {"g": 1}, "bad": []}),
    "ring": ("mA", "Ring", {"good": {"g": 1}}),
    "ring2": ("mA", "Ring2", {"ring": {"good": {"g": 1}}, "bad": {}}),
    "fwd": ("mA", "Fwd", {"good": {"g": 1}, "later": {"z": 1}}),
    "listA": ("mA", "list[A]", [{"x": 1}]),
    "colorA": ("mA", "Color", "r"),
    "colorB": ("mB", "Color", "r"),
    "first": ("mA", "First", {"n": 1, "y": {"x": 2}}),
    "second": ("mA", "Second", {"s": "a", "y": 2}),
}

# how the name of a class is resolved: by the module that is given
NAMES: dict[str, tuple[str, str, Any]] = {
    "nameA": ("mA", "A", {"x": 1}),
    "nameB": ("mB", "A", {"x": "s"}),
    "listA": ("mA", "list['A']", [{"x": 1}]),
    "listB": ("mB", "list['A']", [{"x": "s"}]),
}

WRITES: dict[str, tuple[str, str, Any]] = {
    "A": ("mA", "A(1, [A(2)])", {"x": 1, "items": [{"x": 2, "items": []}]}),
    "B": ("mB", "A('s', 5)", {"x": "s", "z": 5}),
    "innerA": ("mA", "Inner(A(1), Node(1))", {"a": {"x": 1, "items": []}, "n": {"value": 1}}),
    "innerB": ("mB", "Inner(A('s'))", {"a": {"x": "s"}}),
    "pairB": ("mB", "Pair(A('s'), 1)", {"a": {"x": "s"}, "b": 1}),
    "node": ("mA", "Node(1, Node(2))", {"value": 1, "next": {"value": 2}}),
    "fwd": ("mA", "Fwd(Good(1), Later(2)) if 'Later' in globals() else Fwd(Good(1), None)", None),
    "ring": ("mA", "Ring(Good(1))", {"good": {"g": 1}}),
    "good": ("mA", "Good(1)", {"g": 1}),
    "hot": ("hot", "Inner(A('new') if 'q' in A.__annotations__ else A(1))", None),
    "first": ("mA", "First(1, A(2))", {"n": 1, "y": {"x": 2, "items": []}}),
    "second": ("mA", "Second('a', 2)", {"s": "a", "y": 2}),
    "function": ("mA", "[lambda: 0]", None),
}

DOCUMENTED_ERRORS = {"JsonKeyError", "JsonTypeError", "JsonValueError", "TypeError", "NameError", "ValueError"}


def perform(op: str) -> Any:
    s = STATE
    name, _, arg = op.partition(":")
    try:
        if name == "define":
            exec("@dataclass\nclass Later:\n    z: int\n", vars(s.mA))
            return ("done",)
        if name == "reload":
            s.hot = new_module(SOURCES["hot2"], name="mchot")
            return ("done",)
        if name == "strict":
            s.options.skip_unassigned = False
            return ("done",)
        if name == "read" or name == "skip" or name == "reuse":
            mod, expression, doc = READS[arg]
            module = getattr(s, mod)
            typ = eval(expression, vars(module))
            if name == "read":
                return ("ok", show(json_to_generic(typ, doc, context=module)))
            if name == "skip":
                return ("ok", show(json_to_generic(typ, doc, context=module, options=s.options)))
            if arg not in s.readers:
                s.readers[arg] = create_deserializer(typ, module)
            return ("ok", show(s.readers[arg].parse(doc)))
        if name == "name":
            mod, expression, doc = NAMES[arg]
            typ = eval(expression) if expression.startswith("list") else expression
            return ("ok", show(json_to_object(typ, doc, context=getattr(s, mod))))
        mod, expression, doc = WRITES[arg]
        obj = eval(expression, vars(getattr(s, mod)))
        if name == "write":
            return ("ok", object_to_json(obj))
        if name == "rewrite":
            if arg not in s.writers:
                s.writers[arg] = create_serializer(type(obj))
            return ("ok", s.writers[arg].generate(obj))
        raise AssertionError(op)
    except Exception as ex:
        return ("err", type(ex).__name__)


OPS = (
    [f"read:{r}" for r in READS]
    + ["skip:node-extra", "skip:good-extra", "skip:good", "skip:node", "skip:holder", "reuse:node", "reuse:innerB"]
    + [f"name:{n}" for n in NAMES]
    + [f"write:{w}" for w in WRITES]
    + ["rewrite:node", "rewrite:innerA"]
    + ["define", "reload", "strict"]
)
EFFECTS = ("define", "reload", "strict")

PREFIXES = [
    ["read:fwd", "define"],
    ["write:fwd", "define"],
    ["read:hot", "reload"],
    ["read:hot-inner", "reload"],
    ["write:hot", "reload"],
    ["skip:node-extra", "strict"],
    ["skip:good-extra", "strict"],
    ["read:node-extra", "skip:node-extra"],
    ["skip:node", "read:node-extra"],
    ["read:holder", "read:ring2"],
    ["read:ring2", "read:ring"],
    ["read:ring", "read:good"],
    ["read:A", "read:B"],
    ["name:nameA", "name:nameB"],
    ["name:listA", "name:listB"],
    ["write:A", "write:B"],
    ["write:innerA", "write:innerB"],
    ["read:pairA", "read:pairB"],
    ["reuse:node", "reuse:innerB"],
    ["rewrite:node", "write:function"],
]

# outcomes that follow from the documentation
KNOWN: dict[str, Any] = {f"write:{w}": ("ok", doc) for w, (_, _, doc) in WRITES.items() if doc is not None}
KNOWN.update({f"rewrite:{w}": KNOWN[f"write:{w}"] for w in ("node", "innerA")})
KNOWN.update({"read:B-wrong": ("err", "JsonTypeError"), "read:node-extra": ("err", "JsonKeyError")})
KNOWN.update({"read:good-extra": ("err", "JsonKeyError"), "read:node-bad": ("err", "JsonTypeError")})
KNOWN.update({"read:holder": ("err", "TypeError"), "read:ring2": ("err", "TypeError"), "read:ring": ("err", "TypeError")})

EXPECTED: dict[Any, Any] = {}


def expected(history: list[str]) -> Any:
    effects = tuple(e for e in EFFECTS if e in history[:-1])
    return EXPECTED[effects, history[-1]]


def prepare() -> None:
    global STATE

    def alone(effects: tuple[str, ...], op: str) -> Any:
        global STATE
        STATE = State()
        for e in effects:
            perform(e)
        return perform(op)

    for bits in range(8):
        effects = tuple(e for i, e in enumerate(EFFECTS) if bits >> i & 1)
        for op in OPS:
            EXPECTED[effects, op] = forked(lambda: alone(effects, op))
    STATE = State()


def judge(history: list[str], outcome: Any) -> Any:
    want = expected(history)
    if outcome != want:
        return f"expected {want!r}"
    if history[-1] in KNOWN and outcome != KNOWN[history[-1]]:
        return f"expected {KNOWN[history[-1]]!r}"
    if outcome[0] == "err" and outcome[1] not in DOCUMENTED_ERRORS:
        return "undocumented error"
    return None


def tasks(tier: str) -> list[Any]:
    if tier == "thorough":
        return [["from", [a, b], 2] for a in OPS for b in OPS]
    return [["from", [a], 2] for a in OPS] + [["from", p, 2] for p in PREFIXES]


def run(task: Any, ctx: Any) -> None:
    if not EXPECTED:
        prepare()
    _, prefix, depth = task

    def body() -> dict[str, Any]:
        found: dict[str, Any] = {"states": 0, "violations": [], "outcomes": {}}
        for i, op in enumerate(prefix):
            outcome = perform(op)
            problem = judge(prefix[: i + 1], outcome)
            found["states"] += 1
            if problem:
                found["violations"].append((prefix[: i + 1], problem, outcome))
                return found
        sub = explore(OPS, depth, perform, judge, history=prefix)
        sub["states"] += found["states"]
        return sub

    result = forked(body, 2900)
    if isinstance(result, Died):
        ctx.violation(f"history {result!r}", history=prefix)
        return
    for i in range(result["states"]):
        ctx.state(prefix, i)
    ctx.step(result["states"])
    ctx.trace(result["states"])
    ctx.outcomes.update(result["outcomes"])
    for history, problem, outcome in result["violations"]:
        ctx.violation("outcome depends on the history", history=history, outcome=outcome, problem=problem)
    ctx.sample({"history": prefix + [OPS[0]], "expected": repr(expected(prefix + [OPS[0]]))})
