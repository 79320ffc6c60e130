"""
C06: unions.

Untagged unions: for all ordered pairs and triples of member types from a pool, all documents of the lexicon and
single-point mutations of documents of the members are deserialized with the union and, separately, with each member
type: the union must yield what the first member type that accepts the document yields, or a key error if none does.
Tagged unions: for all ordered selections of classes with a discriminating property (every class kind, alias names,
keyword names, several values, enumeration values, several discriminating properties, inherited ones), all tag values x
mutations: the class is selected by the tag. Each in several positions (top level, list, dictionary, tuple, field), both
notations.
"""

from __future__ import annotations

import itertools
import json
from typing import Any, Callable, Iterator

from common import agrees, is_ok, plain, read
from shapes import (
    ANY_ERROR,
    BOOL,
    BYTES,
    DATE,
    DATETIME,
    DEF,
    DIRECT,
    DOCS,
    FLOAT,
    INT,
    IPV4,
    IPV6,
    KEY,
    STR,
    STYLES,
    TIME,
    TIMEDELTA,
    UNSPEC,
    UUID,
    ClassS,
    DictS,
    EnumS,
    Field,
    HookS,
    ListS,
    LiteralS,
    OptS,
    SetS,
    Shape,
    TupleS,
    UnionS,
    World,
    mutations,
)
from universe import D, E, K, N, NI, P, T, U1, U2, U3, chunks
from world import evaluate

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all ordered pairs of 32 member types and all ordered triples of 13 member types x (80 documents + mutations); "
    "all ordered pairs and triples (and selected quadruples) of 9 members that only partly have discriminating properties "
    "in common; tagged unions of up to 3 classes in 16 tag designs, all orders, 6 positions, 2 notations",
    "thorough": "as quick, all ordered triples of 20 member types, ordered quadruples of 8",
}

V = ClassS("V", [Field("p", INT), Field("z", STR, DEF, "z")])
PN = ClassS("PN", [Field("d", DATETIME)])
PL = ClassS("PL", [Field("d", DATE)])
HO = HookS("HO", "obj")
HS = HookS("HS", "str")
X1 = ClassS("X1", [Field("kind", LiteralS(["x"])), Field("v", INT)])

POOL: list[Shape] = [
    INT,
    STR,
    BOOL,
    DATETIME,
    DATE,
    UUID,
    E,
    N,
    LiteralS(["a", "L"]),
    ListS(INT),
    DictS(INT),
    U1,
    U2,
    # further members
    FLOAT,
    U3,
    V,
    TupleS([INT, STR]),
    BYTES,
    ListS(STR),
    TIMEDELTA,
    TIME,
    IPV4,
    IPV6,
    NI,
    LiteralS([1]),
    DictS(STR),
    SetS(STR),
    PN,
    PL,
    T,
    K,
    HO,
    HS,
    X1,
    D,
    ListS(U1),
    DictS(INT, E),
]


# classes that only some others have a discriminating property in common with
_V = Field("v", INT)
PARTIAL: list[tuple[set[str], Shape]] = [
    ({"type"}, ClassS("Q0", [Field("type", LiteralS(["a"]))])),
    ({"type"}, ClassS("Q1", [Field("type", LiteralS(["b"])), _V])),
    ({"type"}, ClassS("Q2", [Field("type", LiteralS(["c"])), _V], "namedtuple")),
    ({"kind"}, ClassS("Q3", [Field("kind", LiteralS(["x"]))])),
    ({"type", "kind"}, ClassS("Q4", [Field("type", LiteralS(["d"])), Field("kind", LiteralS(["y"]))], "frozen")),
    (set(), ClassS("Q5", [Field("type", STR), _V])),
    (set(), ClassS("Q6", [Field("type", OptS(LiteralS(["a"])), DEF, None), Field("v", INT, DEF, 0)])),
    (set(), ClassS("Q7", [_V])),
    (set(), DictS(STR)),
]


def partial() -> list[tuple[int, ...]]:
    "Ordered selections of members that have no discriminating property in common."
    return [
        members
        for count in (2, 3, 4)
        for members in itertools.permutations(range(len(PARTIAL)), count)
        if not set.intersection(*(PARTIAL[i][0] for i in members))
        and (count < 4 or members[0] < 3 and members[-1] < 5 and sum(1 for i in members if "type" in PARTIAL[i][0]) >= 3)
    ]


def untagged(tier: str) -> list[tuple[int, ...]]:
    out: list[tuple[int, ...]] = list(itertools.permutations(range(len(POOL)), 2))
    if tier == "quick":
        out.extend(itertools.permutations(range(13), 3))
    else:
        out.extend(itertools.permutations(range(20), 3))
        out.extend(itertools.permutations(range(0, 16, 2), 4))
    return out


# ---- tagged unions

EA = EnumS("EA", {"X": "ex", "Y": "why", "ZED": "zed"})
EN = EnumS("EN", {"X": 1, "Y": 2, "ZED": 3})


def tag_designs() -> dict[str, list[ClassS]]:
    def cls(i: int, *fields: Field, kind: str = "dataclass") -> ClassS:
        return ClassS(f"G{i}", list(fields), kind)

    v = lambda: Field("v", INT)
    designs: dict[str, list[ClassS]] = {}
    for kind in ("dataclass", "frozen", "slots", "namedtuple", "plain"):
        designs[f"str:{kind}"] = [cls(i, Field("type", LiteralS([t])), v(), kind=kind) for i, t in enumerate("abc")]
        designs[f"last:{kind}"] = [cls(i, v(), Field("type", LiteralS([t])), kind=kind) for i, t in enumerate("abc")]
        designs[f"kw:{kind}"] = [cls(i, Field("class_", LiteralS([t])), v(), kind=kind) for i, t in enumerate("abc")]
        designs[f"alias:{kind}"] = [
            cls(i, Field(f"t{i}", LiteralS([t]), alias="@type"), v(), kind=kind) for i, t in enumerate("abc")
        ]
        designs[f"int:{kind}"] = [cls(i, Field("type", LiteralS([t])), v(), kind=kind) for i, t in enumerate((0, 1, 2))]
        designs[f"enum:{kind}"] = [
            cls(i, Field("type", LiteralS([t], EA)), v(), kind=kind) for i, t in enumerate(("X", "Y", "ZED"))
        ]
        designs[f"intenum:{kind}"] = [
            cls(i, Field("type", LiteralS([t], EN)), v(), kind=kind) for i, t in enumerate(("X", "Y", "ZED"))
        ]
        designs[f"multi:{kind}"] = [
            cls(i, Field("type", LiteralS(ts)), v(), kind=kind)
            for i, ts in enumerate((["a", "b"], ["c"], ["d", "e", "f"]))
        ]
        if kind != "plain":
            designs[f"default:{kind}"] = [
                cls(i, Field("type", LiteralS([t]), DEF, t), Field("v", INT, DEF, 0), kind=kind)
                for i, t in enumerate("abc")
            ]
    designs["bool"] = [cls(i, Field("type", LiteralS([t])), v()) for i, t in enumerate((False, True))]
    designs["falsy"] = [cls(i, Field("type", LiteralS([t])), v()) for i, t in enumerate(("", "a", "0"))]
    designs["mixed"] = [
        cls(0, Field("type", LiteralS(["a"])), v()),
        cls(1, Field("type", LiteralS(["b"])), v(), kind="frozen"),
        cls(2, Field("type", LiteralS(["c"])), v(), kind="namedtuple"),
    ]
    designs["differ"] = [
        cls(0, Field("type", LiteralS(["a"])), Field("x", STR)),
        cls(1, Field("type", LiteralS(["b"])), Field("y", OptS(INT), DEF, None)),
        cls(2, Field("type", LiteralS(["c"])), Field("z", ListS(INT))),
    ]
    base = ClassS("GB", [Field("v", INT)])
    designs["inherited"] = [ClassS(f"G{i}", [Field("type", LiteralS([t]))], base=base) for i, t in enumerate("abc")]
    bases = [ClassS(f"GB{i}", [Field("type", LiteralS([t]))]) for i, t in enumerate("abc")]
    designs["tagbase"] = [ClassS(f"G{i}", [Field("v", INT)], base=b) for i, b in enumerate(bases)]
    designs["superset"] = [
        cls(0, Field("type", LiteralS(["a"])), v()),
        cls(1, Field("type", LiteralS(["b"])), v(), Field("w", OptS(INT), DEF, None)),
        cls(2, Field("type", LiteralS(["c"])), v(), Field("other", LiteralS(["c"])), Field("w", OptS(INT), DEF, None)),
    ]
    return designs


TAG_NAMES = {"kw": "class", "alias": "@type"}


def double_designs() -> list[list[ClassS]]:
    "Two discriminating properties."
    return [
        [
            ClassS(f"G{i}", [Field("type", LiteralS([t])), Field("kind", LiteralS([k])), Field("v", INT)])
            for i, (t, k) in enumerate(zip("abc", ks))
        ]
        for ks in ("xyz", "cab", "abc")
    ]


POSITIONS: dict[str, tuple[Callable[[Shape], Shape], Callable[[Any], Any]]] = {
    "top": (lambda u: u, lambda d: d),
    "list": (ListS, lambda d: [d]),
    "dict": (DictS, lambda d: {"k": d}),
    "tuple": (lambda u: TupleS([INT, u]), lambda d: [0, d]),
    "field": (lambda u: ClassS("W", [Field("w", u)]), lambda d: {"w": d}),
    "optfield": (lambda u: ClassS("W", [Field("w", OptS(u), DEF, None)]), lambda d: {"w": d}),
}

TAG_VALUES: list[Any] = ["a", "b", "c", "d", "f", "", "0", "X", "ex", "why", "zed", 0, 1, 2, 3, True, False, None, 0.5, [], ["a"], {}, {"a": 1}]


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["tagged", name] for name in tag_designs()] + [["double", i] for i in range(len(double_designs()))]
    out += [["partial", *c] for c in chunks(len(partial()), 40)]
    return out + [["untagged", *c] for c in chunks(len(untagged(tier)), 60)]


_member_results: dict[tuple[int, str], Any] = {}


def run_untagged(members: tuple[int, ...], ctx: Any, shapes: list[Shape], skip: bool = False) -> None:
    if len({s.src(DIRECT) for s in shapes}) < len(shapes):
        return
    union = UnionS(shapes)
    docs: dict[str, Any] = {}
    for d in DOCS:
        docs[json.dumps(d)] = d
    for s in shapes:
        v = s.values()
        for doc in (plain(s.enc(v[0])), plain(s.enc(v[-1]))):
            docs[json.dumps(doc)] = doc
            for d in mutations(doc, [None, True, 1, "a", "2020-01-01", {}, []]):
                docs[json.dumps(d)] = d
    position = list(POSITIONS)[sum(members) % len(POSITIONS)]
    wrap, embed = POSITIONS[position]
    world = World(wrap(union), STYLES["pipe"] if members[0] % 2 else DIRECT)
    member_types = [evaluate(world.module, s.src(DIRECT)) for s in shapes]
    union_type = evaluate(world.module, union.src(DIRECT))
    for text, doc in docs.items():
        # what each member makes of the document
        expected: Any = ("err", frozenset([KEY]))
        for i, (s, t) in enumerate(zip(shapes, member_types)):
            r = read(world, doc, skip, typ=t)
            if r[0] == "ok":
                expected = (i, r[1])
                break
        actual = read(world, doc, skip, typ=union_type)
        ctx.step()
        ctx.state(skip, members, text)
        if expected[0] == "err":
            if actual != ("err", KEY):
                ctx.violation("no member accepts the document but the union does not raise a key error", type=union.name, document=doc, result=actual)
                return
            ctx.outcome("refused")
        else:
            if actual[0] != "ok" or not same_result(actual[1], expected[1]):
                ctx.violation(
                    "union does not yield the result of the first member that accepts the document",
                    type=union.name,
                    document=doc,
                    result=actual,
                    expected=expected,
                )
                return
            ctx.outcome(f"member {expected[0]}")
        # the reference model, and the union in another position
        model = wrap(union).dec(embed(doc), skip)
        outer = read(world, embed(doc), skip)
        ctx.step()
        problem = agrees(wrap(union), world, outer, model)
        if problem:
            ctx.violation(f"{problem} (in position `{position}`)", type=union.name, document=embed(doc), result=outer, expected=model)
            return
        ctx.trace()
    world.close()


def same_result(a: Any, b: Any) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_result(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_result(a[k], b[k]) for k in a)
    if hasattr(a, "__dict__") and type(a).__module__.startswith("mcworld"):
        return same_result(dict(a.__dict__), dict(b.__dict__)) if not hasattr(a, "_value_") else a is b
    return bool(a == b)


def run_tagged(classes: list[ClassS], tag: str, ctx: Any, second: str = "") -> None:
    for count in (2, 3):
        for members in itertools.permutations(classes, count):
            union = UnionS(list(members), tag=tag)
            docs: dict[str, Any] = {}
            for s in classes:
                doc = plain(s.enc(s.values()[0]))
                docs[json.dumps(doc)] = doc
                for value in TAG_VALUES:
                    for d in ({**doc, tag: value}, {tag: value}, {**doc, tag: value, "extra": 1}):
                        docs[json.dumps(d)] = d
                    rest = {k: v for k, v in doc.items() if k != tag}
                    docs[json.dumps({tag: value, **rest})] = {tag: value, **rest}
                    if second:
                        d = {**doc, second: value}
                        docs[json.dumps(d)] = d
                        d = {**{k: v for k, v in doc.items() if k != tag}, second: value}
                        docs[json.dumps(d)] = d
                for d in mutations(doc, [None, True, 1, "a"]):
                    docs[json.dumps(d)] = d
            for d in DOCS:
                docs[json.dumps(d)] = d
            for pos, (wrap, embed) in POSITIONS.items():
                for style in (DIRECT, STYLES["pipe"]):
                    for skip in (False, True):
                        shape = wrap(union)
                        world = World(shape, style)
                        for text, doc in docs.items():
                            expected = shape.dec(embed(doc), skip)
                            if second:
                                # either property may select the class
                                alt = wrap(UnionS(list(members), tag=second)).dec(embed(doc), skip)
                                if is_ok(alt) != is_ok(expected):
                                    expected = UNSPEC
                                elif not is_ok(alt) and alt is not UNSPEC:
                                    expected = ("err", ANY_ERROR)
                            actual = read(world, embed(doc), skip)
                            ctx.step()
                            ctx.state(union.name, pos, style.name, skip, text)
                            problem = agrees(shape, world, actual, expected)
                            if problem:
                                ctx.violation(
                                    problem,
                                    type=shape.name,
                                    skip=skip,
                                    document=embed(doc),
                                    result=actual,
                                    expected=expected,
                                    source=world.source,
                                )
                                return
                            ctx.trace()
                            ctx.outcome("tag " + ("selects" if is_ok(expected) else "refused"))
                        world.close()


def run(task: Any, ctx: Any) -> None:
    if task[0] == "untagged":
        for members in untagged(ctx.tier)[task[1] : task[2]]:
            run_untagged(members, ctx, [POOL[i] for i in members])
        ctx.sample({"union": [POOL[i].name for i in members]})
    elif task[0] == "partial":
        for members in partial()[task[1] : task[2]]:
            for skip in (False, True):
                run_untagged(members, ctx, [PARTIAL[i][1] for i in members], skip)
    elif task[0] == "tagged":
        run_tagged(tag_designs()[task[1]], TAG_NAMES.get(task[1].split(":")[0], "type"), ctx)
        ctx.sample({"tagged union": [c.name for c in tag_designs()[task[1]]]})
    else:
        run_tagged(double_designs()[task[1]], "type", ctx, "kind")
