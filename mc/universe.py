"""
Bounded universe of types, shared by the checks of (de-)serialization and schema generation.

* level 1: every container form applied to every leaf type;
* level 2: every container form applied to every container form applied to representative leaf types (all leaf types in
  the thorough tier);
* level 3 (thorough tier): three container forms, applied to two leaf types;
* classes: every class kind x every field mode x every leaf type, fields with containers, several fields, inheritance,
  recursive classes.
"""

from __future__ import annotations

import datetime as dt
import itertools
import re
from functools import lru_cache
from typing import Any, Callable, Iterator, Optional

from shapes import (
    ANY,
    BOOL,
    BYTES,
    DATE,
    DATETIME,
    DEF,
    FAC,
    FLOAT,
    INT,
    IPV4,
    IPV6,
    REQ,
    SIMPLE,
    STR,
    TIME,
    TIMEDELTA,
    UUID,
    AliasTypeS,
    AnnS,
    ClassS,
    DictS,
    EnumS,
    Field,
    ListS,
    LiteralS,
    OptS,
    RefS,
    SetS,
    Shape,
    TupleS,
    UnionS,
    walk,
)

E = EnumS("E", {"A": "L", "B": "b", "D": "x-y"})
N = EnumS("N", {"ZERO": 0, "ONE": 1, "TWO": 2})
NI = EnumS("NI", {"ZERO": 0, "ONE": 1, "NEG": -5}, "enum.IntEnum")
ES = EnumS("ES", {"A": "L", "F": "2020-01-01"}, "str, enum.Enum")
# members with unusual names, a second name for a member, attributes that are not members
EO = EnumS(
    "EO",
    {"_a": "_B", "B_": "B_", "lower": "", "If": "None", "ALSO": "_B", "mro_": "\u00e9\u2028"},
    more="    def method(self): return 'method'\n    @property\n    def prop(self): return 'prop'\n    @classmethod\n    def make(cls): return cls.If\n",
)
NO = EnumS("NO", {"_neg": -(2**31), "BIG": 2**63, "z": 0, "nil": 0, "Value": 7}, "enum.IntEnum")
EU = EnumS("EU", {"FIRST": "first", "_second": "A", "A": "_second"}, "enum.StrEnum")
ENUMS = [E, N, NI, ES, EO, NO, EU]

LITERALS = [
    LiteralS(["a"]),
    LiteralS(["a", "b"]),
    LiteralS([1]),
    LiteralS([0, 1, 23]),
    LiteralS([True]),
    LiteralS(["A"], E),
    LiteralS(["A", "D"], E),
]

INT_ALIASES = [
    AliasTypeS(INT, f"{sign}int{bits}", [lo, 0, hi])
    for bits in (8, 16, 32, 64)
    for sign, lo, hi in (("", -(2 ** (bits - 1)), 2 ** (bits - 1) - 1), ("u", 0, 2**bits - 1))
]
FLOAT_ALIASES = [AliasTypeS(FLOAT, "float32", [0.0, -0.5, 1.5]), AliasTypeS(FLOAT, "float64", [0.0, 0.1, 1e300])]


def _int_range(lo: int, hi: int) -> Callable[[Any], bool]:
    return lambda d: lo <= d <= hi


def _length(lo: int, hi: int) -> Callable[[Any], bool]:
    return lambda d: lo <= len(d) <= hi


def _magnitude(limit: float, step: Optional[float]) -> Callable[[Any], Any]:
    return lambda d: abs(d) < limit


def ann_leaves() -> list[Shape]:
    return [
        AnnS(INT, "IntegerRange(0, 23)", [0, 1, 23], _int_range(0, 23)),
        AnnS(STR, "MinLength(1)", ["a", "null", "abc"], _length(1, 10**9)),
        AnnS(STR, "MaxLength(3)", ["", "a", "\u2603\U0001f600x"], _length(0, 3)),
        AnnS(AnnS(STR, "MinLength(1)", None, _length(1, 10**9)), "MaxLength(2)", ["a", "bb"], _length(1, 2)),
        AnnS(STR, "'just a note'"),
        AnnS(INT, "['annotation that is not hashable']"),
    ]


P = ClassS("P", [Field("a", INT), Field("s", STR)])
Q = ClassS("Q", [Field("b", STR)], "frozen")
T = ClassS("T", [Field("x", INT), Field("y", STR)], "namedtuple")
K = ClassS("K", [Field("k", STR), Field("o", OptS(INT))], "plain")
D = ClassS("D", [Field("n", INT, DEF, 7), Field("f", ListS(INT), FAC, [1]), Field("o", OptS(STR), DEF, None)])
Z = ClassS("Z", [], "dataclass")

CLASSES = [P, Q, T, K, D]

U1 = ClassS("U1", [Field("p", INT)])
U2 = ClassS("U2", [Field("q", STR)])
U3 = ClassS("U3", [Field("p", STR), Field("r", INT, DEF, 0)])
T1 = ClassS("T1", [Field("type", LiteralS(["one"])), Field("v", INT)])
T2 = ClassS("T2", [Field("type", LiteralS(["two"])), Field("v", INT)])
T3 = ClassS("T3", [Field("type", LiteralS(["three"])), Field("w", OptS(STR), DEF, None)], "frozen")


def unions() -> list[Shape]:
    return [
        UnionS([INT, STR]),
        UnionS([STR, INT]),
        UnionS([BOOL, INT]),
        UnionS([INT, FLOAT]),
        UnionS([INT, STR, BOOL]),
        UnionS([DATETIME, INT]),
        UnionS([DATE, STR]),
        UnionS([UUID, DATETIME, STR]),
        UnionS([BYTES, INT]),
        UnionS([TIMEDELTA, BOOL]),
        UnionS([IPV4, IPV6]),
        UnionS([E, INT]),
        UnionS([INT, E]),
        UnionS([N, STR]),
        UnionS([LiteralS(["a"]), INT]),
        UnionS([ListS(INT), INT]),
        UnionS([ListS(INT), ListS(STR)]),
        UnionS([DictS(INT), INT]),
        UnionS([TupleS([INT, STR]), ListS(INT)]),
        UnionS([DictS(STR), DictS(INT)]),
        UnionS([U1, U2]),
        UnionS([U2, U1]),
        UnionS([U1, U3]),
        UnionS([U1, INT]),
        UnionS([STR, U1]),
        UnionS([U1, ListS(INT), STR]),
        UnionS([ListS(U1), ListS(U2)]),
        UnionS([T1, T2], tag="type"),
        UnionS([T2, T1], tag="type"),
        UnionS([T1, T2, T3], tag="type"),
    ]


@lru_cache(maxsize=None)
def leaves() -> tuple[Shape, ...]:
    return tuple(SIMPLE + ENUMS + LITERALS + INT_ALIASES + FLOAT_ALIASES + ann_leaves() + CLASSES)


REPS: list[Shape] = [INT, STR, DATETIME, BYTES, E, LiteralS(["a", "b"]), P, Q]


def wrap_class(
    x: Shape,
    mode: str = REQ,
    kind: str = "dataclass",
    name: str = "W",
    alias: Optional[str] = None,
    init: bool = True,
) -> ClassS:
    if mode == "opt":
        return ClassS(name, [Field("w", OptS(x), alias=alias, init=init)], kind)
    if mode == "optdef":
        return ClassS(name, [Field("w", OptS(x), DEF, None, alias=alias, init=init)], kind)
    if mode == "optval":
        return ClassS(name, [Field("w", OptS(x), DEF, x.values()[0], alias=alias, init=init)], kind)
    if mode == "optfac":
        return ClassS(name, [Field("w", OptS(x), FAC, x.values()[0], alias=alias, init=init)], kind)
    if mode == "optfacnone":
        return ClassS(name, [Field("w", OptS(x), FAC, None, alias=alias, init=init)], kind)
    if mode == REQ:
        return ClassS(name, [Field("w", x, alias=alias, init=init)], kind)
    return ClassS(name, [Field("w", x, mode, x.values()[0], alias=alias, init=init)], kind)


def names(x: Shape) -> set[str]:
    return {s.cls for s in walk(x) if isinstance(s, (ClassS, EnumS))}


def fresh(x: Shape, prefix: str) -> str:
    used = names(x)
    return next(f"{prefix}{i}" for i in itertools.count(1) if f"{prefix}{i}" not in used)


CONTAINERS: dict[str, Callable[[Shape], Optional[Shape]]] = {
    "list": ListS,
    "set": lambda x: SetS(x) if x.hashable else None,
    "dict": DictS,
    "enumdict": lambda x: DictS(x, E),
    "tuple1": lambda x: TupleS([x]),
    "tuple2": lambda x: TupleS([STR, x]),
    "tuple3": lambda x: TupleS([x, INT, x]),
    "opt": lambda x: None if isinstance(x, OptS) else OptS(x),
    "union": lambda x: (
        None if isinstance(x, (OptS, UnionS)) or x.name in ("bool",) else UnionS([x, BOOL])
    ),
    "unionlist": lambda x: None if isinstance(x, (OptS, UnionS)) else UnionS([DictS(ListS(BOOL)), x]),
    "ann": lambda x: AnnS(x, "'note'"),
    "class": lambda x: wrap_class(x, REQ, "dataclass", fresh(x, "W")),
    "frozen": lambda x: wrap_class(x, REQ, "frozen", fresh(x, "F")),
    "ntuple": lambda x: wrap_class(x, REQ, "namedtuple", fresh(x, "M")),
    "plain": lambda x: wrap_class(x, REQ, "plain", fresh(x, "V")),
    "classopt": lambda x: None if isinstance(x, OptS) else wrap_class(x, "optdef", "dataclass", fresh(x, "O")),
    "classfac": lambda x: wrap_class(x, FAC, "dataclass", fresh(x, "C")),
}

KIND_NAMES = ["dataclass", "frozen", "slots", "frozen_slots", "kw_only", "eq_order", "namedtuple", "plain"]
IMMUTABLE_DEFAULT = (AliasTypeS, AnnS, EnumS, LiteralS, TupleS, UnionS)


def mutable_default(x: Shape) -> bool:
    "Data classes refuse defaults that are not hashable."
    return not x.hashable


def modes_of(kind: str, x: Shape) -> list[str]:
    if kind == "plain":
        return [REQ, "opt"]
    if kind == "namedtuple":
        return [REQ, DEF, "opt", "optdef", "optval"]
    modes = [REQ, FAC, "opt", "optdef", "optfac", "optfacnone"]
    if not mutable_default(x):
        modes[1:1] = [DEF, "optval"]
    return modes


def class_kinds() -> Iterator[Shape]:
    "Every class kind, field mode and field type."
    inner: list[Shape] = list(leaves()) + [
        ListS(INT),
        ListS(P),
        SetS(STR),
        DictS(INT),
        DictS(P),
        DictS(INT, E),
        TupleS([INT, STR]),
        TupleS([]),
        UnionS([INT, STR]),
        ANY,
    ]
    for kind in KIND_NAMES:
        for x in inner:
            for mode in modes_of(kind, x):
                if isinstance(x, UnionS) and mode in (DEF, FAC, "optval", "optfac"):
                    continue
                if x is ANY and mode.startswith("opt"):
                    continue
                yield wrap_class(x, mode, kind)


FIELD_NAMES: list[tuple[str, Optional[str]]] = [
    ("a", None),
    ("in_", None),
    ("class_", None),
    ("True_", None),
    ("match_", None),
    ("type_", None),
    ("id_", None),
    ("_private", None),
    ("trailing_", None),
    ("in__", None),
    ("in_x", None),
    ("camelCase", None),
    ("snake", "snake-Case"),
    ("ident", "$ref"),
    ("from_", "from"),
    ("to_", "in_"),
    ("alias", ""),
    ("uni", "\u00e1 b"),
    ("lambda_", "x_"),
    ("items", None),
    ("keys", None),
    ("_count", "count"),
]


def named_fields() -> Iterator[Shape]:
    "Every class kind with irregular field names and aliases."
    for kind in KIND_NAMES:
        for py, alias in FIELD_NAMES:
            if kind == "namedtuple" and py.startswith("_"):
                continue
            for mode in [REQ, "opt"] + ([DEF, "optdef"] if kind != "plain" else []) + (
                [FAC] if kind not in ("plain", "namedtuple") else []
            ):
                w = wrap_class(INT, mode, kind, alias=alias)
                w.fields[0].py = py
                w.name = f"{w.name}:{py}"
                yield w
            # together with a field that has the plain name
            other = Field("zz", STR)
            yield ClassS("W", [Field(py, INT, alias=alias), other], kind)
            yield ClassS("W", [other, Field(py, INT, alias=alias)], kind)
    # names that differ only in an underscore
    for kind in KIND_NAMES:
        yield ClassS("W", [Field("a", INT), Field("a_", STR), Field("in_", INT), Field("in__", STR)], kind)
        yield ClassS("W", [Field("b", INT, alias="a"), Field("a", STR, alias="b")], kind)


def multi_field() -> Iterator[Shape]:
    "Classes with several fields, of all modes."
    for kind in KIND_NAMES:
        modes = {
            "plain": [REQ, "opt"],
            "namedtuple": [REQ, DEF, "opt", "optdef"],
        }.get(kind, [REQ, DEF, FAC, "opt", "optdef", "optfac"])
        for m1, m2, m3 in itertools.product(modes, repeat=3):
            defaults = [m in (DEF, FAC, "optdef", "optfac") for m in (m1, m2, m3)]
            if kind != "kw_only" and kind != "plain" and defaults != sorted(defaults):
                continue
            fields = []
            for i, (m, x) in enumerate(zip((m1, m2, m3), (INT, STR, INT))):
                w = wrap_class(x, m, kind)
                assert isinstance(w, ClassS)
                f = w.fields[0]
                f.py = "abc"[i]
                fields.append(f)
            c = ClassS("W", fields, kind)
            c.name = f"{kind}:W({m1},{m2},{m3})"
            yield c


def no_init() -> Iterator[Shape]:
    "Data classes with fields that are not parameters of the initializer."
    for kind in ["dataclass", "frozen", "slots", "frozen_slots", "kw_only", "eq_order"]:
        for x in (INT, STR, E, ListS(INT), P, Q, T):
            for mode in modes_of(kind, x):
                w = wrap_class(x, mode, kind, init=False)
                yield w
                yield ClassS("W", [Field("a", STR), w.fields[0], Field("z", INT, DEF, 5)], kind)


def inherited() -> Iterator[Shape]:
    "Classes that inherit fields."
    for kind in ["dataclass", "frozen", "slots", "kw_only", "plain"]:
        for x in (INT, ListS(P), E):
            base = ClassS("B1", [Field("a", x)], kind)
            yield ClassS("W", [Field("b", STR)], kind, base=base)
            mid = ClassS("B2", [Field("b", STR)], kind, base=base)
            yield ClassS("W", [Field("c", OptS(INT))] if kind == "plain" else [Field("c", INT, DEF, 3)], kind, base=mid)
            yield ClassS("W", [], kind, base=mid)
        # a field declared again with another type
        base = ClassS("B1", [Field("a", INT), Field("b", STR)], kind)
        yield ClassS("W", [Field("a", STR)], kind, base=base)
        yield ClassS("W", [Field("a", ListS(STR)), Field("c", INT)], kind, base=base)
        # a field declared again with another default
        if kind != "plain":
            for m1, d1, m2, d2 in itertools.product((REQ, DEF, FAC), (3,), (DEF, FAC), (5, 0)):
                base = ClassS("B1", [Field("a", INT, m1, d1 if m1 != REQ else None), Field("b", STR, DEF, "x")], kind)
                yield ClassS("W", [Field("a", INT, m2, d2)], kind, base=base)
                yield ClassS("W", [Field("a", OptS(INT), m2, d2), Field("c", INT, DEF, 1)], kind, base=base)
                yield ClassS("W", [Field("a", OptS(INT), m2, None)], kind, base=base)
        # two base classes
        if kind != "slots":
            b1 = ClassS("B1", [Field("a", x), Field("b", STR)], kind)
            b2 = ClassS("B2", [Field("c", OptS(INT))], kind)
            yield ClassS("W", [Field("d", x)], kind, base=b1, base2=b2)
            yield ClassS("W", [Field("c", INT)], kind, base=b1, base2=b2)
            b3 = ClassS("B3", [Field("b", INT), Field("c", STR)], kind)
            yield ClassS("W", [], kind, base=b1, base2=b3)
            yield ClassS("W", [Field("a", OptS(STR))], kind, base=b3, base2=b1)


def _link(cls: ClassS, refs: list[RefS], rows: list[Any]) -> ClassS:
    for r in refs:
        r.target = cls
    cls.set_values(rows)
    return cls


def recursive() -> Iterator[Shape]:
    for kind in ["dataclass", "frozen", "slots", "namedtuple", "plain"]:
        # linked list
        r = RefS("L")
        c = ClassS("L", [Field("v", INT), Field("next", OptS(r))], kind)
        v0 = {"v": 0, "next": None}
        v1 = {"v": 1, "next": v0}
        v2 = {"v": -1, "next": v1}
        r.vals = [v0]
        _link(c, [r], [v0, v1, v2])
        c.name = f"{kind}:linked"
        yield c
        # tree
        r = RefS("R")
        c = ClassS("R", [Field("v", STR), Field("items", ListS(r))], kind)
        t0: Any = {"v": "", "items": []}
        t1: Any = {"v": "a", "items": [t0, t0]}
        t2: Any = {"v": "b", "items": [t0, t1, t0]}
        r.vals = [t0]
        _link(c, [r], [t0, t1, t2])
        c.name = f"{kind}:tree"
        yield c
        # dictionary and tuple
        r1, r2 = RefS("G"), RefS("G")
        c = ClassS("G", [Field("d", DictS(r1)), Field("t", OptS(TupleS([INT, r2])))], kind)
        g0: Any = {"d": {}, "t": None}
        g1: Any = {"d": {"x": g0, "": g0}, "t": (1, g0)}
        g2: Any = {"d": {"y": g1}, "t": (0, g1)}
        r1.vals = r2.vals = [g0]
        _link(c, [r1, r2], [g0, g1, g2])
        c.name = f"{kind}:graph"
        yield c
        # mutual recursion of two classes
        back = RefS("X")
        y = ClassS("Y", [Field("x", OptS(back)), Field("n", INT)], kind)
        x = ClassS("X", [Field("y", OptS(y)), Field("ys", ListS(y))], kind)
        x0: Any = {"y": None, "ys": []}
        y0: Any = {"x": x0, "n": 0}
        x1: Any = {"y": y0, "ys": [y0, {"x": None, "n": 5}]}
        y1: Any = {"x": x1, "n": 1}
        x2: Any = {"y": y1, "ys": [y1]}
        back.vals = [x0]
        back.target = x
        y.set_values([y0, y1])
        x.set_values([x0, x1, x2])
        x.name = f"{kind}:mutual"
        yield x
        y.name = f"{kind}:mutual2"
        # union with itself
        r = RefS("H")
        c = ClassS("H", [Field("u", UnionS([INT, r]))], kind)
        h0: Any = {"u": (0, 3)}
        h1: Any = {"u": (1, h0)}
        r.vals = [h0]
        _link(c, [r], [h0, h1])
        c.name = f"{kind}:recunion"
        yield c


def ordered(shapes: Iterator[Optional[Shape]]) -> list[Shape]:
    "Removes types that have the same description."
    seen: set[str] = set()
    out = []
    for s in shapes:
        if s is not None and s.name not in seen:
            seen.add(s.name)
            out.append(s)
    return out


@lru_cache(maxsize=None)
def universe(level: int) -> list[Shape]:
    """
    All types of the universe.

    :param level: 1 = two nested containers over representative leaves; 2 = two over all leaves, three over two leaves;
        3 = three over representative leaves.
    """

    def gen() -> Iterator[Optional[Shape]]:
        yield from leaves()
        yield from unions()
        yield from [TupleS([]), TupleS([INT, STR, BOOL, FLOAT])]
        for c in CONTAINERS.values():
            for x in leaves():
                yield c(x)
        for c in CONTAINERS.values():
            for u in unions():
                yield c(u)
        yield from class_kinds()
        yield from named_fields()
        yield from multi_field()
        yield from no_init()
        yield from inherited()
        yield from recursive()
        for name in ("list", "dict", "tuple2", "class", "classopt", "set"):
            for x in recursive():
                yield CONTAINERS[name](x)
        for c1, c2 in itertools.product(CONTAINERS.values(), repeat=2):
            for x in leaves() if level >= 2 else REPS:
                inner = c2(x)
                yield c1(inner) if inner is not None else None
        if level >= 2:
            for c1, c2, c3 in itertools.product(CONTAINERS.values(), repeat=3):
                for x in (INT, Q) if level == 2 else REPS:
                    i3 = c3(x)
                    i2 = c2(i3) if i3 is not None else None
                    yield c1(i2) if i2 is not None else None

    return ordered(gen())


def chunks(count: int, size: int) -> list[list[int]]:
    return [[i, min(i + size, count)] for i in range(0, count, size)]
