"Size ladders: values and types that are larger than those of the universe in a single dimension."

from __future__ import annotations

import datetime as dt
import ipaddress
import math
import uuid
from typing import Any, Iterator

import shapes
from shapes import DEF, INT, STR, ClassS, DictS, EnumS, Field, ListS, LiteralS, OptS, RefS, SetS, Shape, TupleS, UnionS
from universe import DATETIME, P

SIZES = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000]


def _list() -> Iterator[tuple[Shape, Any]]:
    for n in SIZES:
        yield ListS(INT), list(range(n))
        yield ListS(STR), [str(i) for i in range(n)]
        yield ListS(P), [{"a": i, "s": str(i)} for i in range(n)]
        yield ListS(ListS(INT)), [[i] * (i % 3) for i in range(n)]


def _set() -> Iterator[tuple[Shape, Any]]:
    for n in SIZES:
        yield SetS(INT), list(range(n))
        yield SetS(STR), [str(i) for i in range(n)]


def _dict() -> Iterator[tuple[Shape, Any]]:
    for n in SIZES:
        yield DictS(INT), {str(i): i for i in range(n)}
        yield DictS(P), {str(i): {"a": i, "s": ""} for i in range(n)}
        # keys in descending order
        yield DictS(INT), {str(i): i for i in reversed(range(n))}


def _tuple() -> Iterator[tuple[Shape, Any]]:
    for n in range(0, 40):
        yield TupleS([INT, STR] * n), tuple(i if i % 2 == 0 else str(i) for i in range(2 * n))


def _fields() -> Iterator[tuple[Shape, Any]]:
    for n in list(range(4, 40)) + [64, 65, 100, 128, 200, 255, 256]:
        for kind in ("dataclass", "frozen", "namedtuple", "plain"):
            c = ClassS("W", [Field(f"f{i}", (INT, STR)[i % 2]) for i in range(n)], kind)
            c.name = f"{kind}:W[{n}]"
            yield c, {f"f{i}": i if i % 2 == 0 else str(i) for i in range(n)}
        c = ClassS("W", [Field("a", INT)] + [Field(f"f{i}", OptS((INT, STR)[i % 2]), DEF, None) for i in range(n)])
        c.name = f"W[{n} optional]"
        for present in (0, n - 1, n // 2):
            yield c, {"a": 0, **{f"f{i}": None for i in range(n)}, f"f{present}": present if present % 2 == 0 else "x"}


def _depth() -> Iterator[tuple[Shape, Any]]:
    for n in (4, 8, 16, 30, 60):
        shape: Shape = INT
        payload: Any = 7
        for _ in range(n):
            shape, payload = ListS(shape), [payload, payload] if _ < 3 else [payload]
        yield shape, payload
        shape, payload = INT, 7
        for _ in range(n):
            shape, payload = DictS(shape), {"k": payload}
        yield shape, payload
        # value nested in a recursive class
        r = RefS("L")
        c = ClassS("L", [Field("v", INT), Field("next", OptS(r))])
        r.target = c
        payload = {"v": 0, "next": None}
        for i in range(n):
            payload = {"v": i, "next": payload}
        c.set_values([payload])
        c.name = f"linked[{n}]"
        yield c, payload
        # classes nested in each other
        inner = ClassS("C0", [Field("v", INT)])
        payload = {"v": 3}
        for i in range(1, n):
            inner = ClassS(f"C{i}", [Field("c", inner), Field("o", OptS(STR), DEF, None)])
            inner.name = f"nested[{i}]"
            payload = {"c": payload, "o": None if i % 2 else "x"}
        yield inner, payload


def _classes() -> Iterator[tuple[Shape, Any]]:
    # more classes than any cache or table of the library may hold
    for n in (20, 130, 300):
        parts = [ClassS(f"C{i}", [Field("v", INT), Field("s", OptS(STR), DEF, None)]) for i in range(n)]
        c = ClassS("W", [Field(f"f{i}", p) for i, p in enumerate(parts)])
        c.name = f"W[{n} classes]"
        yield c, {f"f{i}": {"v": i, "s": None if i % 2 else "x"} for i in range(n)}
        # and once again, now that the classes are known
        yield c, {f"f{i}": {"v": -i, "s": "y" if i % 2 else None} for i in range(n)}


def _choices() -> Iterator[tuple[Shape, Any]]:
    for n in (4, 8, 16, 17, 40, 130):
        e = EnumS("BigE", {f"M{i}": f"v{i}" for i in range(n)})
        for i in (0, n // 2, n - 1):
            yield e, f"M{i}"
            yield DictS(INT, e), {f"M{j}": j for j in range(i + 1)}
        lit = LiteralS([f"v{i}" for i in range(n)])
        yield lit, f"v{n - 1}"
        members: list[Shape] = [
            ClassS(f"C{i}", [Field("type", LiteralS([f"t{i}"])), Field("v", INT)]) for i in range(n)
        ]
        tagged = UnionS(members, tag="type")
        tagged.name = f"tagged[{n}]"
        plain_members: list[Shape] = [ClassS(f"D{i}", [Field(f"m{i}", INT)]) for i in range(n)]
        untagged = UnionS(plain_members)
        untagged.name = f"untagged[{n}]"
        for i in (0, 1, n // 2, n - 1):
            yield tagged, (i, {"type": f"t{i}", "v": i})
            yield untagged, (i, {f"m{i}": i})


def _text() -> Iterator[tuple[Shape, Any]]:
    from shapes import BYTES

    for n in SIZES + [4096, 65537]:
        yield STR, "a" * n
        yield STR, "\U0001f600\u00e1\n" * n
        yield BYTES, bytes(i % 256 for i in range(n))
    for i in range(0x3000):
        if i % 16 == 0:
            yield STR, "".join(chr(j) for j in range(i, i + 16))
    for n in range(0, 200):
        yield BYTES, bytes((7 * i + n) % 256 for i in range(n))
    for n in range(0, 130):
        yield INT, 2**n
        yield INT, -(2**n)
        yield INT, 2**n - 1


LADDERS = [_list, _set, _dict, _tuple, _fields, _depth, _classes, _choices, _text]


def ladder(index: int) -> Iterator[tuple[Shape, Any]]:
    return LADDERS[index]()


def _durations() -> list[Any]:
    out = []
    for days in (0, 1, 2, 30, 31, 365, 366, 10000, 999999998):
        for h in (0, 1, 9, 10, 23):
            for m in (0, 1, 9, 10, 59):
                for s in (0, 1, 9, 10, 59):
                    for us in (0, 1, 9, 10, 99, 100, 120, 999, 1000, 1001, 1500, 10000, 99999, 100000, 123456, 999000, 999999):
                        value = dt.timedelta(days=days, hours=h, minutes=m, seconds=s, microseconds=us)
                        out.append(value)
                        if (days + h + m + s) % 3 == 0 or not us:
                            out.append(-value)
    return out


_MICROS = [0, 1, 10, 99, 100, 120, 999, 1000, 1001, 1500, 10000, 99999, 100000, 123456, 500000, 999000, 999999]
_OFFSETS = [dt.timezone.utc] + [
    dt.timezone(dt.timedelta(seconds=s))
    for m in (1, 15, 30, 59, 60, 90, 330, 345, 599, 600, 719, 720, 840, 1439)
    for s in (60 * m, -60 * m)
]


def _timestamps() -> list[Any]:
    out = [
        dt.datetime(y, 3, 1, 12, 30, 15, us, tzinfo=z)
        for y in (1970, 2024)
        for us in _MICROS
        for z in _OFFSETS
    ]
    for y in (2, 99, 100, 999, 1000, 1582, 1899, 1900, 1969, 1999, 2000, 2038, 2100, 9998):
        for mo in range(1, 13):
            for d in (1, 9, 10, 28, 29, 30, 31):
                for h, mi, s in ((0, 0, 0), (9, 10, 59), (23, 59, 59)):
                    try:
                        out.append(dt.datetime(y, mo, d, h, mi, s, tzinfo=_OFFSETS[(y + mo + d) % 5]))
                    except ValueError:
                        pass
    return out


def _dates() -> list[Any]:
    start = [dt.date(1, 1, 1), dt.date(99, 12, 1), dt.date(999, 12, 1), dt.date(1900, 1, 1), dt.date(1999, 1, 1)]
    start += [dt.date(2000, 1, 1), dt.date(2024, 1, 1), dt.date(9998, 11, 1)]
    return [d + dt.timedelta(days=i) for d in start for i in range(400)]


def _times() -> list[Any]:
    return [dt.time(h, m, s, us, tzinfo=z) for h in (0, 1, 12, 23) for m in (0, 7, 59) for s in (0, 30, 59) for us in _MICROS for z in _OFFSETS[:9]]


def _integers() -> list[Any]:
    out = list(range(-300, 301))
    for k in range(1, 40):
        out += [10**k, -(10**k), 10**k - 1, 10**k + 1]
    for k in range(8, 130):
        out += [2**k, -(2**k), 2**k - 1, 2**k + 1, -(2**k) - 1]
    return out


def _floats() -> list[Any]:
    out = []
    for k in range(-323, 309):
        out += [float(f"1e{k}"), float(f"-1e{k}"), float(f"1.2345678901234567e{k}")]
    for k in range(-1074, 1024):
        out.append(math.ldexp(1.0, k))
    for n in range(-100, 101):
        out += [n / 10, n / 3, float(n)]
    for k in range(1, 70):
        out += [2.0**k + 0.5, 2.0**k - 0.5, 2.0**k - 1]
    return sorted({v for v in out if math.isfinite(v)}, key=lambda v: (abs(v), v)) + [-0.0]


def _bytes() -> list[Any]:
    out = [bytes([a]) for a in range(256)] + [bytes([a, b]) for a in range(0, 256, 5) for b in range(0, 256, 3)]
    out += [bytes([a, b, c]) for a in range(0, 256, 31) for b in range(0, 256, 31) for c in range(0, 256, 31)]
    out += [b"\xfb\xff\xbf" * n + b"\x00" * k for n in range(60) for k in range(4)]
    return out


def _strings() -> list[Any]:
    parts = ["", "a", "\u00e1", "a\u0301", "\ufb01", "\x00", "\x1f", "\x7f", "\x85", "\u2028", "\u2029", "\ufeff", "\ud7ff"]
    parts += ["\ue000", "\uffff", "\U00010000", "\U0010ffff", "\n", "\r\n", "\t", " ", '"', "\\", "\\u0041", "/", "</", "'"]
    parts += ["null", "true", "0", "-0", "1e5", "{}", "[]", "$ref", "#/", "NaN", "%", "\u0130", "\u00df", "\u1e9e"]
    return [a + b for a in parts for b in parts] + [a * 3 for a in parts]


def _uuids() -> list[Any]:
    out = [uuid.UUID(int=1 << k) for k in range(128)] + [uuid.UUID(int=(1 << k) - 1) for k in range(129)]
    return out + [uuid.UUID(int=int(d * 32, 16)) for d in "0123456789abcdef"]


def _ipv4() -> list[Any]:
    parts = (0, 1, 9, 10, 99, 100, 127, 255)
    return [ipaddress.IPv4Address(f"{a}.{b}.{c}.{d}") for a in parts for b in parts[::2] for c in parts[1::2] for d in parts]


def _ipv6() -> list[Any]:
    words = (0, 1, 0xA, 0xFF, 0x123, 0xFFFF)
    out = [ipaddress.IPv6Address(v << (16 * p)) for v in words for p in range(8)]
    # all ways in which groups are zero
    out += [ipaddress.IPv6Address(sum(1 << (16 * p) for p in range(8) if mask >> p & 1)) for mask in range(256)]
    out += [ipaddress.IPv6Address((0xFFFF << 32) | v) for v in (0, 1, 0x7F000001, 0xFFFFFFFF)]
    return out


GRIDS: list[tuple[Any, Any]] = [
    (shapes.TIMEDELTA, _durations),
    (shapes.DATETIME, _timestamps),
    (shapes.DATE, _dates),
    (shapes.TIME, _times),
    (shapes.INT, _integers),
    (shapes.FLOAT, _floats),
    (shapes.BYTES, _bytes),
    (shapes.STR, _strings),
    (shapes.UUID, _uuids),
    (shapes.IPV4, _ipv4),
    (shapes.IPV6, _ipv6),
]


def grid(index: int) -> tuple[Shape, list[Any]]:
    "A simple type and a grid of its values."
    leaf, values = GRIDS[index]
    return leaf, values()
