"""
C02: the serialized form.

For every type of the universe and every value of the type, what the serializer emits (by run-time type and by declared
type) must be exactly the document of the reference model, and consist of JSON values only. Objects that hold a
timestamp without time zone anywhere must be refused.
"""

from __future__ import annotations

import datetime as dt
import decimal
import itertools
from typing import Any

import classforms
from common import DOCUMENTED, create_serializer, object_to_json
from ladders import GRIDS, LADDERS, grid, ladder
from shapes import ClassS, Field, Leaf, ListS, World, is_pure_json, json_same, worlds
from universe import CONTAINERS, chunks, universe
from world import drop_module, evaluate, new_module

LEVEL = "model_checking"
LEVELS = {"quick": 2, "thorough": 3}
BOUNDS = {
    "quick": "all types of the universe: up to 2 nested containers over all leaves, 3 over two leaves; up to 38 values "
    "per type; size ladders; grids of values of each simple type; zone-less timestamps in up to 2 (thorough: 3) nested containers; "
    "10 kinds of classes x 17 base classes x 10 features x 7 positions",
    "thorough": "as quick, 3 nested containers over all representative leaves",
}

NAIVE = Leaf(
    "naive",
    "datetime.datetime",
    [dt.datetime(2020, 1, 1), dt.datetime(2020, 1, 1, 1, 2, 3, 4), dt.datetime.min, dt.datetime.max],
    dt.datetime,
    "datetime",
)


def naive_types(tier: str) -> list[Any]:
    out: list[Any] = [NAIVE]
    for depth in (1, 2, 3) if tier == "thorough" else (1, 2):
        for cs in itertools.product(CONTAINERS.values(), repeat=depth):
            x: Any = NAIVE
            for c in cs:
                x = c(x) if x is not None else None
            if x is not None:
                out.append(x)
    return out


def tasks(tier: str) -> list[Any]:
    return (
        [["types", *c] for c in chunks(len(universe(LEVELS[tier])), 100)]
        + [["ladder", i] for i in range(len(LADDERS))]
        + [["grid", i, j] for i in range(len(GRIDS)) for j in range(3)]
        + [["naive", *c] for c in chunks(len(naive_types(tier)), 60)]
        + [["decimal"]]
        + [["related", i] for i in range(len(RELATED))]
        + [["class forms", kind] for kind in classforms.KINDS]
    )


def has_naive(payload: Any) -> bool:
    if isinstance(payload, dt.datetime):
        return payload.tzinfo is None
    if isinstance(payload, dict):
        return any(has_naive(v) for v in payload.values())
    if isinstance(payload, (list, tuple)):
        return any(has_naive(v) for v in payload)
    return False


def check_value(shape: Any, world: World, payload: Any, ctx: Any) -> None:
    obj = world.py(payload)
    expected = shape.enc(payload)
    if not shape.same(obj, payload, world):
        ctx.outcome("not representable")
        return
    for how in ("runtime", "declared", "again"):
        try:
            doc = create_serializer(world.type, world.module).generate(obj) if how == "declared" else object_to_json(obj)
        except Exception as ex:
            ctx.violation(
                f"serialization fails with {type(ex).__name__}: {ex}",
                type=shape.name[:300],
                how=how,
                object=obj,
                source=world.source[:2000],
            )
            return
        ctx.step()
        if not json_same(doc, expected):
            ctx.violation(
                "not the documented form" if is_pure_json(doc) else "not pure JSON",
                type=shape.name[:300],
                how=how,
                object=obj,
                result=doc,
                expected=expected,
            )
            return
    ctx.trace()
    ctx.state(shape.name, payload)
    ctx.outcome(type(doc).__name__)


def decimals(ctx: Any) -> None:
    "Decimal numbers, which the documentation lists as a simple type written as a number."

    module = new_module("@dataclass\nclass C:\n    d: decimal.Decimal\n")
    for text in ("0", "1", "-1", "1.5", "-0.25", "100"):
        number = decimal.Decimal(text)
        for obj, expected in ((number, float(text)), ([number], [float(text)]), (module.C(number), {"d": float(text)})):
            ctx.step()
            ctx.state("decimal", repr(obj))
            try:
                doc = object_to_json(obj)
            except Exception as ex:
                ctx.violation(f"decimal number cannot be serialized: {type(ex).__name__}", key="decimal", object=obj)
                continue
            if doc != expected:
                ctx.violation("decimal number is not written as a number", object=obj, result=doc)
    drop_module(module)


RELATED_SOURCE = """
@dataclass
class A:
    a: int = 1

@dataclass
class B(A):
    b: str = "x"

@dataclass
class C(B):
    a: Any = None

class O:
    a: int
    b: str
    def __init__(self, a: int = 1, b: str = "x") -> None:
        self.a, self.b = a, b

class OO(O):
    c: Optional[int]
    def __init__(self, c: Optional[int] = None) -> None:
        super().__init__()
        self.c = c

class N(NamedTuple):
    a: int = 1
    b: str = "x"

class J:
    def to_json(self) -> Any:
        return "J"

class JJ(J):
    def to_json(self) -> Any:
        return ["JJ"]

class IE(enum.IntEnum):
    ONE = 1
    TWO = 2

class SE(str, enum.Enum):
    X = "x"

class E(enum.Enum):
    ONE = 1
    X = "x"


@dataclass
class Two:
    first: Any
    second: Any

class TwoN(NamedTuple):
    first: Any
    second: Any
"""

# values of types of which one is derived from another, or that are equal, and their documents
RELATED: list[tuple[str, Any]] = [
    ("A()", {"a": 1}),
    ("B()", {"a": 1, "b": "x"}),
    ("C(a=[1])", {"a": [1], "b": "x"}),
    ("O()", {"a": 1, "b": "x"}),
    ("OO()", {"a": 1, "b": "x"}),
    ("OO(2)", {"a": 1, "b": "x", "c": 2}),
    ("N()", {"a": 1, "b": "x"}),
    ("(1, 'x')", [1, "x"]),
    ("J()", "J"),
    ("JJ()", ["JJ"]),
    ("True", True),
    ("1", 1),
    ("1.0", 1.0),
    ("IE.ONE", 1),
    ("IE.TWO", 2),
    ("E.ONE", 1),
    ("E.X", "x"),
    ("'x'", "x"),
    ("SE.X", "x"),
    ("datetime.date(2020, 1, 1)", "2020-01-01"),
    ("datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)", "2020-01-01T00:00:00Z"),
    ("[1]", [1]),
    ("{'a': 1, 'b': 'x'}", {"a": 1, "b": "x"}),
    ("{1}", [1]),
    ("b'x'", "eA=="),
    ("None", None),
]


def related(first: int, ctx: Any) -> None:
    """
    Items of different types side by side: each is written according to its own type, wherever it stands and whatever
    precedes it.
    """

    module = new_module(RELATED_SOURCE)
    texts = [t for t, _ in RELATED]
    docs = [d for _, d in RELATED]
    triples = [(first, j, k) for j in range(len(RELATED)) for k in range(len(RELATED))]
    for combo in [(first, j) for j in range(len(RELATED))] + triples:
        items = [texts[i] for i in combo]
        expected = [docs[i] for i in combo]
        a, b = items[0], items[1]
        members = {k: v for k, v in zip(("first", "second"), expected) if v is not None}
        keyed = {f"k{i}": d for i, d in enumerate(expected)}
        cases: list[tuple[str, str, Any]] = [
            (f"[{', '.join(items)}]", "list[Any]", expected),
            (f"({', '.join(items)})", f"tuple[{', '.join(['Any'] * len(items))}]", expected),
            ("{" + ", ".join(f"'k{i}': {t}" for i, t in enumerate(items)) + "}", "dict[str, Any]", keyed),
        ]
        if len(combo) == 2:
            cases += [
                (f"Two({a}, {b})", "Two", members),
                (f"TwoN({a}, {b})", "TwoN", members),
                (f"[[{a}], [{b}]]", "list[list[Any]]", [[d] for d in expected]),
                (f"[{{'k': {a}}}, {{'k': {b}}}]", "list[dict[str, Any]]", [{"k": d} for d in expected]),
                (f"[Two({a}, 0), Two({b}, 0)]", "list[Two]", [{k: v for k, v in {"first": d, "second": 0}.items() if v is not None} for d in expected]),
            ]
        for text, declared, document in cases:
            for how in ("run time", "declared"):
                ctx.step()
                obj = eval(text, vars(module))
                try:
                    if how == "declared":
                        doc = create_serializer(eval(declared, vars(module)), module).generate(obj)
                    else:
                        doc = object_to_json(obj)
                except Exception as ex:
                    ctx.violation(f"serialization fails with {type(ex).__name__}: {ex}", object=text, how=how)
                    continue
                if not json_same(doc, document):
                    ctx.violation(
                        "items of different types side by side: not the documented form",
                        object=text,
                        how=how,
                        result=doc,
                        expected=document,
                    )
            ctx.trace()
            ctx.state("related", text)
        ctx.outcome("side by side")
    drop_module(module)


def class_forms(kind: str, ctx: Any) -> None:
    "Classes with all kinds of base classes and features."
    for name, source in classforms.forms(kind):
        module = new_module(source)
        for value, how in itertools.product(classforms.VALUES, classforms.WRAPS):
            obj = classforms.wrap(how, classforms.make(module, value), module)
            expected = classforms.wrap(how, classforms.document(value))
            for declared in (False, True):
                ctx.step()
                ctx.trace()
                ctx.state(name, value, how)
                try:
                    doc = create_serializer(evaluate(module, how), module).generate(obj) if declared else object_to_json(obj)
                except Exception as ex:
                    ctx.violation(f"serialization fails with {type(ex).__name__}: {ex}", type=how, form=name, value=value)
                    continue
                if not json_same(doc, expected):
                    ctx.violation("class of another form: not the documented form", type=how, form=name, result=doc, expected=expected)
                ctx.outcome("class of another form")
        drop_module(module)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "class forms":
        class_forms(task[1], ctx)
    elif task[0] == "decimal":
        decimals(ctx)
    elif task[0] == "related":
        related(task[1], ctx)
    elif task[0] == "types":
        for shape in universe(LEVELS[ctx.tier])[task[1] : task[2]]:
            for world in worlds(shape):
                for payload in shape.values():
                    check_value(shape, world, payload, ctx)
                world.close()
        ctx.sample({"type": shape.name, "object": payload, "document": shape.enc(payload)})
    elif task[0] == "ladder":
        for shape, payload in ladder(task[1]):
            world = World(shape)
            check_value(shape, world, payload, ctx)
            world.close()
    elif task[0] == "grid":
        leaf, values = grid(task[1])
        for shape in (leaf, ListS(leaf), ClassS("W", [Field("w", leaf)]))[task[2] : task[2] + 1]:
            world = World(shape)
            for value in values:
                payload = value if shape is leaf else [value] if isinstance(shape, ListS) else {"w": value}
                check_value(shape, world, payload, ctx)
            world.close()
    else:
        for shape in naive_types(ctx.tier)[task[1] : task[2]]:
            world = World(shape)
            for payload in shape.values():
                if not has_naive(payload):
                    continue
                obj = world.py(payload)
                for how in ("runtime", "declared"):
                    try:
                        doc = (
                            create_serializer(world.type, world.module).generate(obj)
                            if how == "declared"
                            else object_to_json(obj)
                        )
                    except DOCUMENTED:
                        ctx.outcome("zone-less timestamp refused")
                    except Exception as ex:
                        ctx.violation(f"undocumented error {type(ex).__name__}: {ex}", type=shape.name, object=obj)
                    else:
                        ctx.violation("zone-less timestamp written", type=shape.name, object=obj, result=doc)
                    ctx.step()
                ctx.state("naive", shape.name, payload)
            world.close()
