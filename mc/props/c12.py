"""
C12: schema generation has no memory.

All sequences of operations (generate the schema of a type by a new or a shared generator, change what was returned, fail
in several ways, register types, define a missing name) up to a depth. The outcome of each operation is compared with the
outcome of the same operation in a new process in which only the registrations and definitions of the history are done.
"""

from __future__ import annotations

import copy
import json
from typing import Any

from forktree import Died, explore, forked
from world import new_module

from strong_typing.schema import (
    JsonSchemaGenerator,
    SchemaOptions,
    Validator,
    classdef_to_schema,
    get_schema_identifier,
    register_schema,
    validate_object,
)

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all sequences of 3 operations of an alphabet of 38, all sequences of 2 further operations after each of 13 "
    "prefixes of 2 operations",
    "thorough": "all sequences of 4 operations",
}
TASK_SECONDS = 3000

SOURCE = '''
from strong_typing.schema import json_schema_type, register_schema
class Color(enum.Enum):
    "A color."
    RED = "r"
    BLUE = "b"

class Mixed(enum.Enum):
    A = 1
    B = "b"

@json_schema_type(schema={"type": "object", "properties": {"x": {"type": "array", "items": {"enum": [1, 2]}}}}, examples=[{"x": [1]}])
@dataclass
class Custom:
    "A custom type."
    x: list[int]

@json_schema_type
@dataclass
class Reg:
    """
    A registered type.

    :param c: Custom member.
    :param r: Recursive member.
    """
    c: Custom
    r: Optional["Reg"]

@json_schema_type(examples=[{"v": "r"}, {"v": "b"}])
@dataclass
class Other:
    v: Color = Color.RED

@dataclass
class Plain:
    "A class that is not registered."
    regs: list[Reg]
    other: Other
    color: Color
    code: Annotated[str, MaxLength(3)]
    keys: dict[Color, int]
    lit: Literal["a", "b"]
    n: int32 = 23

@dataclass
class Loop:
    "A recursive class."
    next: Optional["Loop"]
    o: Optional[Other]

@dataclass
class Bad:
    "Fails after types have been used."
    r: Reg
    next: Optional["Bad"]
    m: Mixed

@dataclass
class BadKey:
    o: Other
    d: dict[bytes, int]

@dataclass
class Fwd:
    o: Other
    later: "Later"

@dataclass
class Late:
    "Registered late."
    o: Other

@dataclass
class UsesLate:
    late: list[Late]
'''

TYPES = {
    "Custom": "Custom",
    "Reg": "Reg",
    "Plain": "Plain",
    "Loop": "Loop",
    "UsesLate": "UsesLate",
    "int32": "int32",
    "Any": "Any",
    "list": "list[Other]",
    "JsonType": "JsonType",
    "Color": "Color",
}
FAILING = {"Bad": "Bad", "BadKey": "BadKey", "Fwd": "Fwd", "Mixed": "Mixed", "listBad": "list[Bad]"}


class State:
    def __init__(self) -> None:
        self.module = new_module(SOURCE)
        self.shared = JsonSchemaGenerator()
        self.bare = JsonSchemaGenerator(SchemaOptions("#/x/", use_descriptions=False, use_examples=False))
        self.returned: list[Any] = []
        self.late_schema = {"type": "object", "properties": {"o": {"type": "string"}}}


STATE: Any = None


def spoil(item: Any) -> None:
    "Changes every container in place."
    if isinstance(item, dict):
        for v in list(item.values()):
            spoil(v)
        for k in list(item)[::2]:
            del item[k]
        item["spoilt"] = True
    elif isinstance(item, list):
        for v in item:
            spoil(v)
        item.append("spoilt")


def perform(op: str) -> Any:
    s = STATE
    name, _, arg = op.partition(":")
    typ = eval((TYPES | FAILING)[arg], vars(s.module)) if arg in TYPES or arg in FAILING else None
    try:
        if name == "spoil":
            spoil(s.returned)
            s.returned.clear()
            return ("ok",)
        if name == "define":
            exec("@dataclass\nclass Later:\n    z: int\n", vars(s.module))
            return ("ok",)
        if name == "register":
            if arg == "again":
                register_schema(s.module.Reg, schema={"type": "null"})
            elif arg == "late":
                register_schema(s.module.Late, schema=copy.deepcopy(s.late_schema), examples=[{"o": "x"}])
            return ("ok",)
        if name == "identify":
            return ("ok", [get_schema_identifier(getattr(s.module, n)) for n in ("Reg", "Late", "Plain")])
        if name == "validate":
            doc = {"c": {"x": [1]}, "r": {"c": {"x": []}}} if arg == "good" else {"c": {"x": [3]}}
            validate_object(s.module.Reg, doc)
            return ("ok",)
        if name == "gen":
            result: Any = classdef_to_schema(typ)
        elif name == "old":
            result = classdef_to_schema(typ, SchemaOptions("#/old/"), Validator.Draft7)
        elif name == "shared":
            result = s.shared.classdef_to_schema(typ)
        elif name == "expand":
            result = s.shared.classdef_to_schema(typ, force_expand=True)
        elif name == "part":
            result = s.shared.type_to_schema(typ)
        elif name in ("upper", "named"):
            describe = (lambda t, n, d: d.upper()) if name == "upper" else (lambda t, n, d: f"{t.__name__}.{n}")
            result = classdef_to_schema(typ, SchemaOptions(property_description_fun=describe))
        elif name == "bare":
            result = s.bare.classdef_to_schema(typ)
        else:
            raise AssertionError(op)
        s.returned.append(result)
        return ("ok", json.dumps(result))
    except Exception as ex:
        return ("err", type(ex).__name__)


OPS = (
    [f"gen:{t}" for t in ("Custom", "Reg", "Plain", "Loop", "UsesLate", "int32", "Any", "JsonType")]
    + [f"gen:{t}" for t in FAILING]
    + [f"shared:{t}" for t in ("Custom", "Plain", "Loop", "UsesLate", "list", "Color")]
    + [f"shared:{t}" for t in ("Bad", "Fwd", "listBad")]
    + ["expand:Reg", "expand:Loop", "part:Plain", "part:Loop", "part:Bad", "part:Reg", "part:int32", "bare:Plain", "bare:Reg", "old:Loop"]
    + ["upper:Reg", "named:Reg"]
    + ["spoil", "define", "register:late", "register:again", "identify", "validate:good", "validate:bad"]
)
EFFECTS = ("define", "register:late")


def expected(history: list[str]) -> Any:
    "The outcome of the last operation in a new process."
    effects = tuple(e for e in EFFECTS if e in history[:-1])
    return EXPECTED[effects, history[-1]]


EXPECTED: dict[Any, Any] = {}


def prepare() -> None:
    global STATE

    def alone(effects: tuple[str, ...], op: str) -> Any:
        global STATE
        STATE = State()
        for e in effects:
            perform(e)
        return perform(op)

    for effects in ((), ("define",), ("register:late",), ("define", "register:late")):
        for op in OPS:
            EXPECTED[effects, op] = forked(lambda: alone(effects, op))
    STATE = State()


def judge(history: list[str], outcome: Any) -> Any:
    want = expected(history)
    return None if outcome == want else f"expected {want!r}"


PREFIXES = [
    ["shared:Plain", "spoil"],
    ["gen:Plain", "spoil"],
    ["gen:Reg", "spoil"],
    ["gen:JsonType", "spoil"],
    ["shared:Bad", "part:Loop"],
    ["part:Bad", "part:Plain"],
    ["gen:Fwd", "define"],
    ["shared:Fwd", "define"],
    ["gen:UsesLate", "register:late"],
    ["shared:UsesLate", "register:late"],
    ["register:late", "register:again"],
    ["expand:Reg", "expand:Loop"],
    ["upper:Reg", "bare:Reg"],
]


def tasks(tier: str) -> list[Any]:
    depth = 3 if tier == "quick" else 4
    out: list[Any] = []
    if tier == "thorough":
        out += [["from", [a, b], depth - 2] for a in OPS for b in OPS]
    else:
        out += [["from", [a], depth - 1] for a in OPS]
        out += [["from", p, 2] for p in PREFIXES]
    return out


def run(task: Any, ctx: Any) -> None:
    if not EXPECTED:
        prepare()
    _, prefix, depth = task

    def body() -> dict[str, Any]:
        found: dict[str, Any] = {"states": 0, "violations": [], "outcomes": {}}
        for i, op in enumerate(prefix):
            outcome = perform(op)
            problem = judge(prefix[: i + 1], outcome)
            found["states"] += 1
            if problem:
                found["violations"].append((prefix[: i + 1], problem, outcome))
                return found
        sub = explore(OPS, depth, perform, judge, history=prefix)
        sub["states"] += found["states"]
        return sub

    result = forked(body, 2900)
    if isinstance(result, Died):
        ctx.violation(f"history {result!r}", history=prefix)
        return
    for i in range(result["states"]):
        ctx.state(prefix, i)
    ctx.step(result["states"])
    ctx.trace(result["states"])
    ctx.outcomes.update(result["outcomes"])
    for history, problem, outcome in result["violations"]:
        ctx.violation("outcome depends on the history", history=history, outcome=outcome, problem=problem)
    ctx.sample({"history": prefix + [OPS[0]], "expected": expected(prefix + [OPS[0]])})
