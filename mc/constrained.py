"Types with annotated constraints (integer range, precision, length), in every position."

from __future__ import annotations

import datetime as dt
import decimal
import itertools
from functools import lru_cache
from typing import Any, Callable, Optional

from shapes import (
    BYTES,
    DATE,
    DATETIME,
    DEF,
    FLOAT,
    INT,
    REQ,
    STR,
    UNSPEC,
    UUID,
    AliasTypeS,
    AnnS,
    ClassS,
    DictS,
    EnumS,
    Field,
    LiteralS,
    OptS,
    Shape,
    TupleS,
    UnionS,
)
from universe import CONTAINERS, INT_ALIASES, KIND_NAMES, ordered

RANGES = [(0, 23), (-5, 5), (7, 7), (0, 0), (-(2**40), 2**70), (1, 10**20), (-128, 127)]
LENGTHS = [0, 1, 2, 3, 64]
PRECISIONS = [(9, 6), (6, 3), (3, 0), (4, 4), (2, 1)]


def in_range(lo: int, hi: int) -> Callable[[Any], bool]:
    return lambda d: lo <= d <= hi


def min_length(n: int) -> Callable[[Any], bool]:
    return lambda d: len(d) >= n


def max_length(n: int) -> Callable[[Any], bool]:
    return lambda d: len(d) <= n


def precise(significant: int, decimals: int) -> Callable[[Any], Any]:
    def check(doc: Any) -> Any:
        value = decimal.Decimal(repr(doc))
        if abs(value) >= 10 ** (significant - decimals):
            return False
        exact = value % (decimal.Decimal(10) ** -decimals) == 0
        step = 10 ** (-decimals)
        quotient = doc / step if isinstance(doc, float) or isinstance(step, float) else doc // step
        if exact != (int(quotient) == quotient):
            return UNSPEC  # not decided exactly by the floating-point arithmetic of a validator
        return exact

    return check


def constraints() -> list[AnnS]:
    out: list[AnnS] = []
    for lo, hi in RANGES:
        vals = sorted({lo, hi, (lo + hi) // 2})
        out.append(AnnS(INT, f"IntegerRange({lo}, {hi})", vals, in_range(lo, hi)))
    for n in LENGTHS:
        out.append(AnnS(STR, f"MinLength({n})", ["x" * n, "\u2603" * (n + 1), "\U0001f600" * n], min_length(n)))
        out.append(AnnS(STR, f"MaxLength({n})", ["x" * n, "\U0001f600" * n, ""], max_length(n)))
    for lo, hi in itertools.combinations_with_replacement(LENGTHS, 2):
        vals = ["x" * lo, "\u2603" * hi]
        a = AnnS(AnnS(STR, f"MinLength({lo})", None, min_length(lo)), f"MaxLength({hi})", vals, max_length(hi))
        b = AnnS(AnnS(STR, f"MaxLength({hi})", None, max_length(hi)), f"MinLength({lo})", vals, min_length(lo))
        out += [a, b]
        out.append(AnnS(STR, f"MinLength({lo}), MaxLength({hi})", vals, lambda d, lo=lo, hi=hi: lo <= len(d) <= hi))
    for s, d in PRECISIONS:
        top = 10 ** (s - d)
        vals = [v for v in (0.0, 0.5, -0.5, float(top) / 2, float(top) - 0.5, 1.0, -2.0) if precise(s, d)(v) is True]
        out.append(AnnS(FLOAT, f"Precision({s}, {d})", vals, precise(s, d)))
    # together with other annotations, before and after
    out.append(AnnS(INT, "'note', IntegerRange(0, 23)", [0, 23], in_range(0, 23)))
    out.append(AnnS(INT, "IntegerRange(0, 23), 'note'", [0, 23], in_range(0, 23)))
    out.append(AnnS(AnnS(INT, "'note'"), "IntegerRange(0, 23)", [0, 23], in_range(0, 23)))
    out.append(AnnS(INT, "Signed(True), IntegerRange(-1, 1)", [-1, 1], in_range(-1, 1)))
    out.append(AnnS(INT, "Storage(4), IntegerRange(-1, 1)", [-1, 1], in_range(-1, 1)))
    out.append(AnnS(INT, "IntegerRange(-1, 1), Storage(4)", [-1, 1], in_range(-1, 1)))
    out.append(AnnS(STR, "'a', MinLength(1), 'b', MaxLength(2), 'c'", ["a", "bb"], lambda d: 1 <= len(d) <= 2))
    # fixed-width types that are restricted further
    for alias in INT_ALIASES:
        out.append(AnnS(alias, "IntegerRange(1, 100)", [1, 100], in_range(1, 100)))
        out.append(AnnS(alias, "'note'", alias.vals))
    out.append(AnnS(AliasTypeS(FLOAT, "float32", [0.5]), "Precision(6, 3)", [0.5, -1.5], precise(6, 3)))
    return out


FEW = [0, 5, 11, 14, 40]

# enumerations used as dictionary keys: few keys are listed, many keys are matched by a pattern
KEYS = [
    EnumS("K1", {"A": "a"}),
    EnumS("K4", {"A": "a", "B": "b", "C": "a.b", "D": "x-y"}),
    EnumS("K5", {"A": "a", "B": "b", "C": "a.b", "D": "x-y", "E": "e"}),
    EnumS("K6", {"A": "", "B": "b|c", "C": "(d", "D": "[e]", "E": "f\\", "F": "^g$"}),
    EnumS("K7", {"A": "a b", "B": "#", "C": "$ref", "D": "\u00e9", "E": "x*", "F": "y+", "G": "{1}"}),
]


@lru_cache(maxsize=None)
def constrained(tier: str) -> list[Shape]:
    def gen() -> Any:
        anns = constraints()
        yield from anns
        for a in anns:
            for c in CONTAINERS.values():
                yield c(a)
        for i in FEW if tier == "quick" else range(len(anns)):
            for c1, c2 in itertools.product(CONTAINERS.values(), repeat=2):
                inner = c2(anns[i])
                yield c1(inner) if inner is not None else None
        for kind in KIND_NAMES:
            for a in anns:
                yield ClassS("W", [Field("in_", a, alias="x y"), Field("o", OptS(a))], kind)
                if kind not in ("plain",):
                    yield ClassS("W", [Field("a", a, DEF, a.vals[0]), Field("b", OptS(a), DEF, None)], kind)
        for key in KEYS:
            for v in (INT, STR, anns[0], ClassS("P", [Field("a", INT)]), OptS(INT)):
                d = DictS(v, key)
                yield d
                for c in CONTAINERS.values():
                    yield c(d)
            for c in CONTAINERS.values():
                inner = c(STR)
                yield DictS(inner, key) if inner is not None else None
            yield ClassS("W", [Field("d", DictS(INT, key), alias="d d"), Field("o", OptS(DictS(anns[0], key)))])
        # literals of every type
        for vals in (["a"], ["a", "b"], [""], ["a", "A"], [1], [0, 1], [-1], [True], [False], [True, False], ["1", "true"]):
            lit = LiteralS(vals)
            yield lit
            for c in CONTAINERS.values():
                yield c(lit)
        for e in (
            EnumS("E1", {"A": "a"}),
            EnumS("E2", {"A": "a", "B": ""}),
            EnumS("E3", {"A": 1, "B": -1}),
            EnumS("E4", {"A": True, "B": False}),
            EnumS("E5", {"A": 0.5, "B": 1.5}),
            EnumS("E6", {f"M{i}": f"v{i}" for i in range(9)}),
        ):
            yield e
            for c in CONTAINERS.values():
                yield c(e)

    return ordered(gen())


# documents at the boundaries of the constraints
EDGES: list[Any] = sorted({x for lo, hi in RANGES for x in (lo - 1, lo, hi, hi + 1)})
EDGES += [x * n for n in (1, 2, 3, 4, 63, 64, 65) for x in ("x", "\u2603", "\U0001f600")]
EDGES += [0.1, 0.001, 0.0001, 0.25, 999.999, 999.9995, 1000.0, 1000, -1000, 999, -999, 100, 99, 10, 9, 9.5, 1.0, 0.9999, 1e-6, 1e-7]
EDGES += [2**n + k for n in (7, 8, 15, 16, 31, 32, 63, 64) for k in (-1, 0)]
EDGES += [-(2**n) + k for n in (7, 15, 31, 63) for k in (-1, 0)]
KEY_DOCS: list[Any] = [
    {k: 1}
    for k in ("a", "b", "a.b", "axb", "x-y", "e", "", "b|c", "c", "(d", "d", "[e]", "f\\", "f", "^g$", "g", "a b", "#", "$ref", "\u00e9", "x*", "x", "xx", "y", "{1}", "aa", "ab", "A")
]
