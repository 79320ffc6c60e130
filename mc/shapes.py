"""
Reference model of the types that strong_typing supports.

A *shape* describes a Python type independently of the library:

* how it is spelled in Python source (`src`), and the declarations it needs (`decls`);
* a bounded set of abstract values (`values`), and how to build the Python object for one (`to_py`);
* the JSON document that represents a value (`enc`), the value that a JSON document denotes (`dec`), and whether a JSON
  document has the shape that the type describes (`acc`).

Abstract values ("payloads") are plain Python data: constants for simple types, member names for enumerations, lists,
tuples and dictionaries of payloads for containers, `(index, payload)` for unions, dictionaries of payloads by field name
for classes.

The model follows the documentation (README conversion table, doc-strings), and leaves open (`UNSPEC`) what the
documentation leaves open.
"""

from __future__ import annotations

import datetime as dt
import ipaddress
import itertools
import keyword
import re
import types
import uuid
from typing import Any, Iterable, Iterator, Optional

from world import evaluate, new_module

KEY, TYPE, VALUE = "KEY", "TYPE", "VALUE"
ANY_ERROR = frozenset([KEY, TYPE, VALUE])


class _Unspec:
    def __repr__(self) -> str:
        return "UNSPEC"


UNSPEC = _Unspec()


class Bag:
    "JSON array whose items may occur in any order (representation of a set)."

    def __init__(self, items: list[Any]) -> None:
        self.items = items

    def __repr__(self) -> str:
        return f"Bag({self.items!r})"


def plain(doc: Any) -> Any:
    "Converts the expected document of the model into an actual JSON document."
    if isinstance(doc, Bag):
        return [plain(d) for d in doc.items]
    if isinstance(doc, list):
        return [plain(d) for d in doc]
    if isinstance(doc, dict):
        return {k: plain(d) for k, d in doc.items()}
    return doc


def json_same(actual: Any, expected: Any) -> bool:
    "Strict equality of JSON documents: exact types, no bool/int/float confusion."
    if isinstance(expected, Bag):
        if type(actual) is not list or len(actual) != len(expected.items):
            return False
        rest = list(expected.items)
        for a in actual:
            for i, e in enumerate(rest):
                if json_same(a, e):
                    del rest[i]
                    break
            else:
                return False
        return True
    if type(actual) is not type(expected):
        return False
    if isinstance(expected, list):
        return len(actual) == len(expected) and all(json_same(a, e) for a, e in zip(actual, expected))
    if isinstance(expected, dict):
        return (
            all(type(k) is str for k in actual)
            and actual.keys() == expected.keys()
            and all(json_same(actual[k], expected[k]) for k in expected)
        )
    if isinstance(expected, float):
        return repr(actual) == repr(expected)
    return actual == expected


def is_pure_json(doc: Any) -> bool:
    if doc is None or type(doc) in (bool, int, float, str):
        return True
    if type(doc) is list:
        return all(is_pure_json(d) for d in doc)
    if type(doc) is dict:
        return all(type(k) is str and is_pure_json(v) for k, v in doc.items())
    return False


class acceptance:
    """
    How schema documents are understood by `acc`.

    In the strict reading, all formats and encodings that a schema can name are constraints. Otherwise, only those that
    the validator of the library checks are.
    """

    strict = False


class Shape:
    hashable = False
    name = "?"

    def src(self, style: "Style") -> str:
        raise NotImplementedError

    def children(self) -> Iterable["Shape"]:
        return ()

    def values(self) -> list[Any]:
        raise NotImplementedError

    def to_py(self, payload: Any, world: "World") -> Any:
        raise NotImplementedError

    def py_src(self, payload: Any) -> str:
        raise NotImplementedError

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        raise NotImplementedError

    def enc(self, payload: Any) -> Any:
        raise NotImplementedError

    def dec(self, doc: Any, skip: bool = False) -> Any:
        "Returns ('ok', payload), ('err', kinds) or UNSPEC."
        raise NotImplementedError

    def acc(self, doc: Any) -> Any:
        "Returns True, False or UNSPEC."
        raise NotImplementedError

    def eq(self, p: Any, q: Any) -> bool:
        "Equality of payloads."
        return type(p) is type(q) and p == q

    def __repr__(self) -> str:
        return self.name


class Style:
    "How member types are spelled."

    def __init__(
        self,
        name: str,
        *,
        future: bool = False,
        whole: bool = False,
        inner: bool = False,
        pipe: bool = False,
        annotated: bool = False,
        reverse: bool = False,
    ) -> None:
        self.name = name
        self.future = future
        self.whole = whole
        self.inner = inner
        self.pipe = pipe
        self.annotated = annotated
        self.reverse = reverse

    def class_name(self, name: str) -> str:
        return f'"{name}"' if self.inner else name

    def __repr__(self) -> str:
        return self.name


DIRECT = Style("direct")
STYLES = {
    s.name: s
    for s in [
        DIRECT,
        Style("quoted", whole=True, reverse=True),
        Style("inner", inner=True, reverse=True),
        Style("future", future=True, reverse=True),
        Style("pipe", pipe=True),
        Style("future_pipe", future=True, pipe=True, reverse=True),
        Style("annotated", annotated=True),
        Style("annotated_inner", annotated=True, inner=True, reverse=True),
    ]
}


def ok(payload: Any) -> tuple[str, Any]:
    return ("ok", payload)


def err(*kinds: str) -> tuple[str, frozenset[str]]:
    return ("err", frozenset(kinds))


def is_ok(result: Any) -> bool:
    return result is not UNSPEC and result[0] == "ok"


# ---------------------------------------------------------------------------------------------------------------------
# reference parsers of text formats


def ref_base64(text: str) -> Any:
    alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    if len(text) % 4 != 0:
        return None
    body = text.rstrip("=")
    pad = len(text) - len(body)
    if pad > 2 or any(c not in alphabet for c in body):
        return None
    bits = 0
    for c in body:
        bits = (bits << 6) | alphabet.index(c)
    total = len(body) * 6
    extra = total % 8
    if bits & ((1 << extra) - 1):
        return UNSPEC  # non-canonical encoding
    return (bits >> extra).to_bytes(total // 8, "big")


def ref_base64_encode(data: bytes) -> str:
    alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    out = []
    for i in range(0, len(data), 3):
        block = data[i : i + 3]
        bits = int.from_bytes(block + bytes(3 - len(block)), "big")
        chars = [alphabet[(bits >> s) & 63] for s in (18, 12, 6, 0)]
        out.append("".join(chars[: len(block) + 1]) + "=" * (3 - len(block)))
    return "".join(out)


_DATE = r"(\d{4})-(\d{2})-(\d{2})"
_TIME = r"(\d{2}):(\d{2}):(\d{2})(?:\.(\d{3}|\d{6}))?"
_ZONE = r"(Z|[+-]\d{2}:\d{2}(?::\d{2})?)"


def _date(y: str, m: str, d: str) -> Optional[dt.date]:
    try:
        return dt.date(int(y), int(m), int(d))
    except ValueError:
        return None


def _zone(text: Optional[str]) -> Any:
    if text is None:
        return None
    if text == "Z":
        return dt.timezone.utc
    sign = -1 if text[0] == "-" else 1
    parts = [int(p) for p in text[1:].split(":")] + [0]
    if parts[0] > 23 or parts[1] > 59 or parts[2] > 59:
        return UNSPEC
    delta = dt.timedelta(hours=parts[0], minutes=parts[1], seconds=parts[2])
    return dt.timezone(sign * delta)


def ref_date(text: str) -> Any:
    m = re.fullmatch(_DATE, text, re.ASCII)
    return _date(*m.groups()) if m else None


def ref_time(text: str) -> Any:
    m = re.fullmatch(_TIME + _ZONE + "?", text, re.ASCII)
    if not m:
        return None
    h, mi, s = (int(g) for g in m.groups()[:3])
    if h > 23 or mi > 59 or s > 59:
        return None
    zone = _zone(m.group(5))
    if zone is UNSPEC:
        return None
    return dt.time(h, mi, s, int((m.group(4) or "0").ljust(6, "0")), zone)


def ref_datetime(text: str) -> Any:
    m = re.fullmatch("(" + _DATE + ")T(.*)", text, re.ASCII)
    if not m:
        return None
    date, time = ref_date(m.group(1)), ref_time(m.group(5))
    if date is None or time is None or time.tzinfo is None:
        return None
    return dt.datetime.combine(date, time)


_DURATION = re.compile(
    r"(-)?P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d{1,9}))?S)?)?", re.ASCII
)


def ref_duration(text: str) -> Any:
    m = _DURATION.fullmatch(text)
    if not m:
        return None
    if not any(m.groups()[1:]):
        return UNSPEC  # `P` and `PT` have no component
    if text.endswith("T"):
        return UNSPEC
    w, d, h, mi, s = (int(g) if g else 0 for g in m.groups()[1:6])
    nano = int((m.group(7) or "0").ljust(9, "0"))
    if nano % 1000 != 0:
        return None
    micros = (((w * 7 + d) * 24 + h) * 60 + mi) * 60 * 10**6 + s * 10**6 + nano // 1000
    if m.group(1):
        micros = -micros
    if not -999999999 * 86400 * 10**6 <= micros <= (10**9) * 86400 * 10**6 - 1:
        return None
    days, rest = divmod(micros, 86400 * 10**6)
    return dt.timedelta(days=days, seconds=rest // 10**6, microseconds=rest % 10**6)


def ref_duration_str(value: dt.timedelta) -> str:
    micros = (value.days * 86400 + value.seconds) * 10**6 + value.microseconds
    sign = "-" if micros < 0 else ""
    micros = abs(micros)
    days, micros = divmod(micros, 86400 * 10**6)
    hours, micros = divmod(micros, 3600 * 10**6)
    minutes, micros = divmod(micros, 60 * 10**6)
    seconds, micros = divmod(micros, 10**6)
    out = f"{days}D" if days else ""
    if hours or minutes or seconds or micros:
        out += "T"
        if hours:
            out += f"{hours}H"
        if hours or minutes:
            out += f"{minutes}M"
        out += str(seconds)
        if micros % 1000:
            out += f".{micros:06d}"
        elif micros:
            out += f".{micros // 1000:03d}"
        out += "S"
    return f"{sign}P{out}" if out else "PT0S"


def ref_uuid(text: str) -> Any:
    if re.fullmatch(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", text):
        return uuid.UUID(int=int(text.replace("-", ""), 16))
    if len(re.sub(r"[^0-9a-fA-F]", "", text)) == 32:
        return UNSPEC  # other notations
    return None


def ref_ipv4(text: str) -> Any:
    parts = text.split(".")
    if len(parts) != 4 or not all(re.fullmatch(r"0|[1-9]\d{0,2}", p, re.ASCII) and int(p) < 256 for p in parts):
        return None
    value = 0
    for p in parts:
        value = value * 256 + int(p)
    return ipaddress.IPv4Address(value)


def ref_ipv6(text: str) -> Any:
    if not re.fullmatch(r"[0-9a-f:]+", text) or text.count("::") > 1:
        return UNSPEC if re.fullmatch(r"[0-9a-fA-F:.%]+", text) and ":" in text and "%" in text else None
    if "::" in text:
        left, right = text.split("::")
        lhs = left.split(":") if left else []
        rhs = right.split(":") if right else []
        if len(lhs) + len(rhs) > 7:
            return None
        groups = lhs + ["0"] * (8 - len(lhs) - len(rhs)) + rhs
    else:
        groups = text.split(":")
    if len(groups) != 8 or not all(re.fullmatch(r"[0-9a-f]{1,4}", g) for g in groups):
        return None
    value = 0
    for g in groups:
        value = (value << 16) | int(g, 16)
    return ipaddress.IPv6Address(value)


def ref_datetime_str(value: dt.datetime) -> str:
    out = f"{value.year:04d}-{value.month:02d}-{value.day:02d}T"
    out += ref_time_str(value.time(), value.utcoffset())
    return out[:-6] + "Z" if out.endswith("+00:00") else out


def ref_time_str(value: dt.time, offset: Optional[dt.timedelta] = None) -> str:
    out = f"{value.hour:02d}:{value.minute:02d}:{value.second:02d}"
    if value.microsecond:
        out += f".{value.microsecond:06d}"
    if offset is None:
        offset = value.utcoffset()
    if offset is not None:
        total = int(offset.total_seconds())
        sign = "-" if total < 0 else "+"
        total = abs(total)
        out += f"{sign}{total // 3600:02d}:{total // 60 % 60:02d}"
        if total % 60:
            out += f":{total % 60:02d}"
    return out


def ref_ipv6_str(value: ipaddress.IPv6Address) -> str:
    groups = [(int(value) >> s) & 0xFFFF for s in range(112, -1, -16)]
    best, start = 0, -1
    i = 0
    while i < 8:
        j = i
        while j < 8 and groups[j] == 0:
            j += 1
        if j - i > best:
            best, start = j - i, i
        i = max(j, i + 1)
    if best >= 2:
        return ":".join(f"{g:x}" for g in groups[:start]) + "::" + ":".join(f"{g:x}" for g in groups[start + best :])
    return ":".join(f"{g:x}" for g in groups)


# ---------------------------------------------------------------------------------------------------------------------
# simple types


class Leaf(Shape):
    hashable = True

    def __init__(self, name: str, src: str, vals: list[Any], py_type: type, kind: str) -> None:
        self.name = name
        self._src = src
        self._values = vals
        self.py_type = py_type
        self.kind = kind

    def src(self, style: Style) -> str:
        return self._src

    def values(self) -> list[Any]:
        return self._values

    def to_py(self, payload: Any, world: Any) -> Any:
        return payload

    def py_src(self, payload: Any) -> str:
        if isinstance(payload, uuid.UUID):
            return f"uuid.{payload!r}"
        if isinstance(payload, (ipaddress.IPv4Address, ipaddress.IPv6Address)):
            return f"ipaddress.{payload!r}"
        return repr(payload)

    def same(self, obj: Any, payload: Any, world: Any) -> bool:
        if type(obj) is not self.py_type or type(payload) is not self.py_type:
            return False
        if self.py_type is float:
            return repr(obj) == repr(payload)
        if self.py_type in (dt.datetime, dt.time):
            return (
                obj.replace(tzinfo=None) == payload.replace(tzinfo=None)
                and obj.utcoffset() == payload.utcoffset()
                and (obj.tzinfo is None) == (payload.tzinfo is None)
            )
        return obj == payload

    def eq(self, p: Any, q: Any) -> bool:
        return self.same(p, q, None)

    def enc(self, payload: Any) -> Any:
        k = self.kind
        if k == "bytes":
            return ref_base64_encode(payload)
        if k == "datetime":
            return ref_datetime_str(payload)
        if k == "date":
            return f"{payload.year:04d}-{payload.month:02d}-{payload.day:02d}"
        if k == "time":
            return ref_time_str(payload)
        if k == "timedelta":
            return ref_duration_str(payload)
        if k == "uuid":
            h = f"{payload.int:032x}"
            return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"
        if k == "ipv4":
            return ".".join(str((int(payload) >> s) & 255) for s in (24, 16, 8, 0))
        if k == "ipv6":
            return ref_ipv6_str(payload)
        return payload

    def dec(self, doc: Any, skip: bool = False) -> Any:
        k = self.kind
        if k == "bool":
            return ok(doc) if type(doc) is bool else err(TYPE)
        if k == "int":
            if type(doc) is float and doc.is_integer():
                return UNSPEC
            return ok(doc) if type(doc) is int else err(TYPE)
        if k == "float":
            if type(doc) is int:
                try:
                    return ok(float(doc))
                except OverflowError:
                    return err(VALUE)
            return ok(doc) if type(doc) is float else err(TYPE)
        if type(doc) is not str:
            return err(TYPE)
        if k == "str":
            return ok(doc)
        value = REF_PARSERS[k](doc)
        if value is UNSPEC:
            return UNSPEC
        return ok(value) if value is not None else err(VALUE)

    def acc(self, doc: Any) -> Any:
        k = self.kind
        if k == "bool":
            return type(doc) is bool
        if k == "int":
            if type(doc) is float and doc.is_integer():
                return UNSPEC
            return type(doc) is int
        if k == "float":
            return type(doc) in (int, float)
        if type(doc) is not str:
            return False
        if k in ("str",):
            return True
        value = REF_PARSERS[k](doc)
        if value is UNSPEC:
            return UNSPEC
        if value is not None:
            return True
        return False if acceptance.strict or k in ("date", "uuid", "ipv4", "ipv6") else UNSPEC


REF_PARSERS = {
    "bytes": ref_base64,
    "datetime": ref_datetime,
    "date": ref_date,
    "time": ref_time,
    "timedelta": ref_duration,
    "uuid": ref_uuid,
    "ipv4": ref_ipv4,
    "ipv6": ref_ipv6,
}

UTC = dt.timezone.utc
_TZ = dt.timezone(dt.timedelta(hours=1, minutes=30))
_TZN = dt.timezone(-dt.timedelta(hours=5, minutes=30))

BOOL = Leaf("bool", "bool", [False, True], bool, "bool")
INT = Leaf("int", "int", [0, 1, -1, 23, 2**31, -(2**63), 2**64, 10**20], int, "int")
FLOAT = Leaf("float", "float", [0.0, -0.0, 1.0, -0.5, 0.1, 1e-7, 1.7976931348623157e308, 5e-324], float, "float")
STR = Leaf("str", "str", ["", "a", "0", "null", "A\nb\t\"\\", "\u00e1\u2603\U0001f600", "2020-01-01", " x "], str, "str")
BYTES = Leaf("bytes", "bytes", [b"", b"\x00", b"ab", b"\xff\xfe\xfd", bytes(range(256))], bytes, "bytes")
DATETIME = Leaf(
    "datetime",
    "datetime.datetime",
    [
        dt.datetime(1970, 1, 1, tzinfo=UTC),
        dt.datetime(2020, 2, 29, 23, 59, 59, 999999, tzinfo=UTC),
        dt.datetime(2024, 12, 31, 1, 2, 3, 120000, tzinfo=_TZ),
        dt.datetime(1, 1, 1, 0, 0, 0, 1, tzinfo=_TZN),
        dt.datetime(9999, 12, 31, 23, 59, 59, tzinfo=dt.timezone(dt.timedelta(hours=23, minutes=59))),
    ],
    dt.datetime,
    "datetime",
)
DATE = Leaf("date", "datetime.date", [dt.date(1970, 1, 1), dt.date(2020, 2, 29), dt.date(1, 1, 1), dt.date(9999, 12, 31)], dt.date, "date")
TIME = Leaf(
    "time",
    "datetime.time",
    [
        dt.time(0, 0, 0, tzinfo=UTC),
        dt.time(0, 0, 0),
        dt.time(23, 59, 59, 999999, tzinfo=UTC),
        dt.time(12, 30, 45, 1000, tzinfo=_TZ),
        dt.time(12, 30, 0, 1, tzinfo=_TZN),
    ],
    dt.time,
    "time",
)
TIMEDELTA = Leaf(
    "timedelta",
    "datetime.timedelta",
    [
        dt.timedelta(0),
        dt.timedelta(days=1),
        dt.timedelta(hours=1, microseconds=1),
        dt.timedelta(days=3, minutes=59, seconds=59, milliseconds=1),
        dt.timedelta(seconds=-1),
        dt.timedelta(days=-1, microseconds=1),
        dt.timedelta.max,
        dt.timedelta.min,
    ],
    dt.timedelta,
    "timedelta",
)
UUID = Leaf(
    "uuid",
    "uuid.UUID",
    [uuid.UUID(int=0), uuid.UUID("f81d4fae-7dec-11d0-a765-00a0c91e6bf6"), uuid.UUID(int=2**128 - 1)],
    uuid.UUID,
    "uuid",
)
IPV4 = Leaf(
    "ipv4",
    "ipaddress.IPv4Address",
    [ipaddress.IPv4Address("192.0.2.1"), ipaddress.IPv4Address(0), ipaddress.IPv4Address("255.255.255.255")],
    ipaddress.IPv4Address,
    "ipv4",
)
IPV6 = Leaf(
    "ipv6",
    "ipaddress.IPv6Address",
    [
        ipaddress.IPv6Address("2001:db8::1"),
        ipaddress.IPv6Address(0),
        ipaddress.IPv6Address("1:0:2:0:0:3:0:4"),
        ipaddress.IPv6Address(2**128 - 1),
    ],
    ipaddress.IPv6Address,
    "ipv6",
)

SIMPLE = [BOOL, INT, FLOAT, STR, BYTES, DATETIME, DATE, TIME, TIMEDELTA, UUID, IPV4, IPV6]


class EnumS(Shape):
    "An enumeration; payloads are member names."

    hashable = True

    def __init__(self, cls: str, members: dict[str, Any], base: str = "enum.Enum", more: str = "") -> None:
        self.cls = cls
        self.members = members
        self.base = base
        self.more = more
        self.name = f"enum:{cls}"

    def src(self, style: Style) -> str:
        return style.class_name(self.cls)

    def declare(self, style: Style) -> str:
        body = "".join(f"    {n} = {v!r}\n" for n, v in self.members.items())
        return f"class {self.cls}({self.base}):\n{body}{self.more}"

    def values(self) -> list[Any]:
        "Members; a second name of a member is no member."
        return [n for i, (n, v) in enumerate(self.members.items()) if v not in list(self.members.values())[:i]]

    def to_py(self, payload: Any, world: "World") -> Any:
        return getattr(world.module, self.cls)[payload]

    def py_src(self, payload: Any) -> str:
        return f"{self.cls}.{payload}"

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return obj is getattr(world.module, self.cls)[payload]

    def enc(self, payload: Any) -> Any:
        return self.members[payload]

    def dec(self, doc: Any, skip: bool = False) -> Any:
        for n, v in self.members.items():
            if type(v) is type(doc) and v == doc:
                return ok(n)
        if type(doc) in (int, float) and any(type(v) in (int, float) and v == doc for v in self.members.values()):
            return UNSPEC
        return err(VALUE, TYPE)

    def acc(self, doc: Any) -> Any:
        for v in self.members.values():
            if type(v) is type(doc) and v == doc:
                return True
        if type(doc) in (int, float) and any(type(v) in (int, float) and v == doc for v in self.members.values()):
            return UNSPEC
        return False


class LiteralS(Shape):
    hashable = True

    def __init__(self, vals: list[Any], enum_shape: Optional[EnumS] = None) -> None:
        self.vals = vals
        self.enum_shape = enum_shape
        self.name = f"literal:{vals}" if enum_shape is None else f"literal:{enum_shape.cls}.{vals}"

    def children(self) -> Iterable[Shape]:
        return (self.enum_shape,) if self.enum_shape else ()

    def src(self, style: Style) -> str:
        if self.enum_shape:
            return "Literal[" + ", ".join(f"{self.enum_shape.cls}.{v}" for v in self.vals) + "]"
        return "Literal[" + ", ".join(repr(v) for v in self.vals) + "]"

    def values(self) -> list[Any]:
        return self.vals

    def to_py(self, payload: Any, world: "World") -> Any:
        return self.enum_shape.to_py(payload, world) if self.enum_shape else payload

    def py_src(self, payload: Any) -> str:
        return self.enum_shape.py_src(payload) if self.enum_shape else repr(payload)

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        if self.enum_shape:
            return self.enum_shape.same(obj, payload, world)
        return type(obj) is type(payload) and obj == payload

    def enc(self, payload: Any) -> Any:
        return self.enum_shape.enc(payload) if self.enum_shape else payload

    def dec(self, doc: Any, skip: bool = False) -> Any:
        for v in self.vals:
            e = self.enc(v)
            if type(e) is type(doc) and e == doc:
                return ok(v)
        if type(doc) in (int, float) and any(type(v) in (int, float) and v == doc for v in self.vals):
            return UNSPEC
        return err(VALUE, TYPE)

    def acc(self, doc: Any) -> Any:
        r = self.dec(doc)
        return r if r is UNSPEC else r[0] == "ok"


class AnyS(Shape):
    name = "Any"

    def src(self, style: Style) -> str:
        return "Any"

    def values(self) -> list[Any]:
        return [0, "", False, [1, None, "a"], {"k": [True, {}]}, {}, [], 0.5]

    def to_py(self, payload: Any, world: "World") -> Any:
        import copy

        return copy.deepcopy(payload)

    def py_src(self, payload: Any) -> str:
        return repr(payload)

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return json_same(obj, payload)

    def eq(self, p: Any, q: Any) -> bool:
        return json_same(p, q)

    def enc(self, payload: Any) -> Any:
        return payload

    def dec(self, doc: Any, skip: bool = False) -> Any:
        return ok(doc)

    def acc(self, doc: Any) -> Any:
        return True


ANY = AnyS()


# ---------------------------------------------------------------------------------------------------------------------
# containers


def combos(item: Shape, limit: int = 3) -> list[list[Any]]:
    "Item lists of length 0, 1, 2 and 3 over the first values of an item type."
    vals = item.values()
    out: list[list[Any]] = [[]]
    out.extend([v] for v in vals)
    few = vals[:limit]
    out.extend([a, b] for a, b in itertools.product(few, few))
    if few:
        out.append([few[0], few[-1], few[0]])
        out.append([few[-1]] * 4)
    return out


class ListS(Shape):
    def __init__(self, item: Shape) -> None:
        self.item = item
        self.name = f"list[{item.name}]"

    def children(self) -> Iterable[Shape]:
        return (self.item,)

    def src(self, style: Style) -> str:
        return f"list[{self.item.src(style)}]"

    def values(self) -> list[Any]:
        return combos(self.item)

    def to_py(self, payload: Any, world: "World") -> Any:
        return [self.item.to_py(p, world) for p in payload]

    def py_src(self, payload: Any) -> str:
        return "[" + ", ".join(self.item.py_src(p) for p in payload) + "]"

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return (
            type(obj) is list
            and len(obj) == len(payload)
            and all(self.item.same(o, p, world) for o, p in zip(obj, payload))
        )

    def eq(self, p: Any, q: Any) -> bool:
        return len(p) == len(q) and all(self.item.eq(a, b) for a, b in zip(p, q))

    def enc(self, payload: Any) -> Any:
        return [self.item.enc(p) for p in payload]

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if type(doc) is not list:
            return err(TYPE)
        return dec_all([(self.item, d) for d in doc], skip, list)

    def acc(self, doc: Any) -> Any:
        if type(doc) is not list:
            return False
        return acc_all((self.item, d) for d in doc)


def dec_all(pairs: list[tuple[Shape, Any]], skip: bool, make: Any) -> Any:
    kinds: set[str] = set()
    out = []
    unspec = False
    for shape, doc in pairs:
        r = shape.dec(doc, skip)
        if r is UNSPEC:
            unspec = True
        elif r[0] == "ok":
            out.append(r[1])
        else:
            kinds |= r[1]
    if kinds:
        # the error of an earlier item whose outcome is not specified is possible, too
        return UNSPEC_ERR(kinds) if unspec else ("err", frozenset(kinds))
    return UNSPEC if unspec else ok(make(out))


def UNSPEC_ERR(kinds: Iterable[str]) -> Any:
    return ("err", ANY_ERROR)


def acc_all(pairs: Iterable[tuple[Shape, Any]]) -> Any:
    result: Any = True
    for shape, doc in pairs:
        r = shape.acc(doc)
        if r is False:
            return False
        if r is UNSPEC:
            result = UNSPEC
    return result


def bare(shape: Shape, payload: Any) -> Any:
    "A value that is equal for payloads whose Python objects are equal, e.g. for `False` and `0` in a union."
    if isinstance(shape, UnionS):
        return bare(shape.members[payload[0]], payload[1])
    if isinstance(shape, TupleS):
        return tuple(bare(i, p) for i, p in zip(shape.items, payload))
    if isinstance(shape, OptS):
        return None if payload is None else bare(shape.item, payload)
    if isinstance(shape, AnnS):
        return bare(shape.inner, payload)
    if isinstance(shape, ClassS):
        return tuple(bare(f.shape, payload[f.py]) for f in shape.all_fields())
    if isinstance(shape, LiteralS) and shape.enum_shape:
        return (shape.enum_shape.cls, payload)
    if isinstance(shape, EnumS):
        value = shape.members[payload]
        return value if shape.base != "enum.Enum" else (shape.cls, payload)
    return payload


class SetS(Shape):
    def __init__(self, item: Shape) -> None:
        assert item.hashable
        self.item = item
        self.name = f"set[{item.name}]"

    def children(self) -> Iterable[Shape]:
        return (self.item,)

    def src(self, style: Style) -> str:
        return f"set[{self.item.src(style)}]"

    def values(self) -> list[Any]:
        vals: list[Any] = []
        for v in self.item.values():  # 0.0 and -0.0 are equal
            if not any(bare(self.item, v) == bare(self.item, w) for w in vals):
                vals.append(v)
        out: list[Any] = [[]]
        out.extend([v] for v in vals)
        out.extend([a, b] for a, b in itertools.combinations(vals[:3], 2))
        out.append(vals[:5])
        return out

    def to_py(self, payload: Any, world: "World") -> Any:
        return set(self.item.to_py(p, world) for p in payload)

    def py_src(self, payload: Any) -> str:
        return "set([" + ", ".join(self.item.py_src(p) for p in payload) + "])"

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        if type(obj) is not set or len(obj) != len(payload):
            return False
        rest = list(payload)
        for o in obj:
            for i, p in enumerate(rest):
                if self.item.same(o, p, world):
                    del rest[i]
                    break
            else:
                return False
        return True

    def eq(self, p: Any, q: Any) -> bool:
        rest = list(q)
        for a in p:
            for i, b in enumerate(rest):
                if self.item.eq(a, b):
                    del rest[i]
                    break
            else:
                return False
        return not rest

    def enc(self, payload: Any) -> Any:
        return Bag([self.item.enc(p) for p in payload])

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if type(doc) is not list:
            return err(TYPE)
        r = dec_all([(self.item, d) for d in doc], skip, list)
        if is_ok(r):
            items = r[1]
            for i, a in enumerate(items):
                for b in items[:i]:
                    if self.item.eq(a, b) or bare(self.item, a) == bare(self.item, b):
                        return UNSPEC  # duplicate items
        return r

    def acc(self, doc: Any) -> Any:
        if type(doc) is not list:
            return False
        for i, a in enumerate(doc):
            for b in doc[:i]:
                if json_same(a, b):
                    return False
                if a == b:
                    return UNSPEC
        return acc_all((self.item, d) for d in doc)


class DictS(Shape):
    def __init__(self, value: Shape, key: Optional[EnumS] = None) -> None:
        self.value = value
        self.key = key
        self.name = f"dict[{key.name if key else 'str'},{value.name}]"

    def children(self) -> Iterable[Shape]:
        return (self.key, self.value) if self.key else (self.value,)

    def src(self, style: Style) -> str:
        # the key type of a dictionary has to be a type, not a reference
        key = self.key.cls if self.key else "str"
        return f"dict[{key}, {self.value.src(style)}]"

    def values(self) -> list[Any]:
        vals = self.value.values()
        keys = list(self.key.members) if self.key else ["", "k", "a b.c", "$ref", "\u00e9"]
        out: list[Any] = [{}]
        out.extend({keys[0]: v} for v in vals)
        if len(keys) > 1:
            out.extend({keys[0]: a, keys[1]: b} for a, b in itertools.product(vals[:2], vals[:2]))
        out.append({k: vals[i % len(vals)] for i, k in enumerate(keys)})
        return out

    def to_py(self, payload: Any, world: "World") -> Any:
        return {
            (self.key.to_py(k, world) if self.key else k): self.value.to_py(v, world) for k, v in payload.items()
        }

    def py_src(self, payload: Any) -> str:
        return (
            "{"
            + ", ".join(
                f"{self.key.py_src(k) if self.key else repr(k)}: {self.value.py_src(v)}" for k, v in payload.items()
            )
            + "}"
        )

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        if type(obj) is not dict or len(obj) != len(payload):
            return False
        for (ok_, ov), (pk, pv) in zip(obj.items(), payload.items()):
            if self.key:
                if not self.key.same(ok_, pk, world):
                    return False
            elif type(ok_) is not str or ok_ != pk:
                return False
            if not self.value.same(ov, pv, world):
                return False
        return True

    def eq(self, p: Any, q: Any) -> bool:
        return list(p) == list(q) and all(self.value.eq(p[k], q[k]) for k in p)

    def enc(self, payload: Any) -> Any:
        return {(self.key.enc(k) if self.key else k): self.value.enc(v) for k, v in payload.items()}

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if type(doc) is not dict:
            return err(TYPE)
        kinds: set[str] = set()
        keys = []
        for k in doc:
            if self.key:
                r = self.key.dec(k)
                if is_ok(r):
                    keys.append(r[1])
                else:
                    kinds |= {VALUE, TYPE, KEY}
            else:
                keys.append(k)
        r = dec_all([(self.value, d) for d in doc.values()], skip, list)
        if kinds:
            return ("err", ANY_ERROR)
        return ok(dict(zip(keys, r[1]))) if is_ok(r) else r

    def acc(self, doc: Any) -> Any:
        if type(doc) is not dict:
            return False
        if self.key and not all(self.key.acc(k) for k in doc):
            return False
        return acc_all((self.value, d) for d in doc.values())


class TupleS(Shape):
    def __init__(self, items: list[Shape]) -> None:
        self.items = items
        self.name = f"tuple[{','.join(i.name for i in items)}]"
        self.hashable = all(i.hashable for i in items)

    def children(self) -> Iterable[Shape]:
        return self.items

    def src(self, style: Style) -> str:
        return f"tuple[{', '.join(i.src(style) for i in self.items)}]" if self.items else "tuple[()]"

    def values(self) -> list[Any]:
        columns = [i.values() for i in self.items]
        out = []
        for k in range(max((len(c) for c in columns), default=1)):
            out.append(tuple(c[k % len(c)] for c in columns))
        # vary one item at a time
        base = out[0]
        for i, c in enumerate(columns):
            for v in c[1:3]:
                out.append(base[:i] + (v,) + base[i + 1 :])
        return out

    def to_py(self, payload: Any, world: "World") -> Any:
        return tuple(i.to_py(p, world) for i, p in zip(self.items, payload))

    def py_src(self, payload: Any) -> str:
        return "(" + "".join(f"{i.py_src(p)}, " for i, p in zip(self.items, payload)) + ")"

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return (
            type(obj) is tuple
            and len(obj) == len(payload)
            and all(i.same(o, p, world) for i, o, p in zip(self.items, obj, payload))
        )

    def eq(self, p: Any, q: Any) -> bool:
        return len(p) == len(q) and all(i.eq(a, b) for i, a, b in zip(self.items, p, q))

    def enc(self, payload: Any) -> Any:
        return [i.enc(p) for i, p in zip(self.items, payload)]

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if type(doc) is not list:
            return err(TYPE)
        if len(doc) != len(self.items):
            return err(VALUE, TYPE)
        return dec_all(list(zip(self.items, doc)), skip, tuple)

    def acc(self, doc: Any) -> Any:
        if type(doc) is not list or len(doc) != len(self.items):
            return False
        return acc_all(zip(self.items, doc))


class OptS(Shape):
    "Optional; `None` or the payload of the item."

    def __init__(self, item: Shape) -> None:
        self.item = item
        self.name = f"opt[{item.name}]"
        self.hashable = item.hashable

    def children(self) -> Iterable[Shape]:
        return (self.item,)

    def src(self, style: Style) -> str:
        item = self.item.src(style)
        if style.pipe and not (style.inner or '"' in item):
            return f"{item} | None"
        return f"Optional[{item}]"

    def values(self) -> list[Any]:
        return [None] + list(self.item.values())

    def to_py(self, payload: Any, world: "World") -> Any:
        return None if payload is None else self.item.to_py(payload, world)

    def py_src(self, payload: Any) -> str:
        return "None" if payload is None else self.item.py_src(payload)

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        if payload is None:
            return obj is None
        return obj is not None and self.item.same(obj, payload, world)

    def eq(self, p: Any, q: Any) -> bool:
        if p is None or q is None:
            return p is None and q is None
        return self.item.eq(p, q)

    def enc(self, payload: Any) -> Any:
        return None if payload is None else self.item.enc(payload)

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if doc is None:
            return ok(None)
        r = self.item.dec(doc, skip)
        if is_ok(r) or r is UNSPEC:
            return r
        return err(KEY)

    def acc(self, doc: Any) -> Any:
        if doc is None:
            return True if self.item.acc(None) is False else UNSPEC
        return self.item.acc(doc)


class UnionS(Shape):
    "Untagged or tagged union; payloads are `(index, payload)`."

    def __init__(self, members: list[Shape], tag: Optional[str] = None) -> None:
        self.members = members
        self.tag = tag
        self.name = f"union[{','.join(m.name for m in members)}]" + (f"@{tag}" if tag else "")
        self.hashable = all(m.hashable for m in members)

    def children(self) -> Iterable[Shape]:
        return self.members

    def src(self, style: Style) -> str:
        items = [m.src(style) for m in self.members]
        if style.pipe and not any('"' in i for i in items):
            return " | ".join(items)
        return f"Union[{', '.join(items)}]"

    def values(self) -> list[Any]:
        out = []
        for i, m in enumerate(self.members):
            out.extend((i, v) for v in m.values()[:4])
        return out

    def to_py(self, payload: Any, world: "World") -> Any:
        return self.members[payload[0]].to_py(payload[1], world)

    def py_src(self, payload: Any) -> str:
        return self.members[payload[0]].py_src(payload[1])

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return self.members[payload[0]].same(obj, payload[1], world)

    def eq(self, p: Any, q: Any) -> bool:
        return p[0] == q[0] and self.members[p[0]].eq(p[1], q[1])

    def enc(self, payload: Any) -> Any:
        return self.members[payload[0]].enc(payload[1])

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if self.tag is not None:
            if type(doc) is not dict:
                return err(TYPE)
            value = doc.get(self.tag)
            if value is None:
                return err(TYPE, KEY)
            for i, m in enumerate(self.members):
                assert isinstance(m, ClassS)
                literal = next(f.shape for f in m.all_fields() if f.json_name == self.tag)
                t = literal.dec(value)
                if t is UNSPEC:
                    return UNSPEC
                if is_ok(t):
                    r = m.dec(doc, skip)
                    return ok((i, r[1])) if is_ok(r) else r
            return err(TYPE, VALUE)
        for i, m in enumerate(self.members):
            r = m.dec(doc, skip)
            if r is UNSPEC:
                return UNSPEC
            if r[0] == "ok":
                return ok((i, r[1]))
        return err(KEY)

    def acc(self, doc: Any) -> Any:
        results = [m.acc(doc) for m in self.members]
        if any(r is UNSPEC for r in results):
            return UNSPEC
        count = sum(1 for r in results if r)
        return UNSPEC if count > 1 else count == 1


class AnnS(Shape):
    "An annotated type, with a constraint on the values."

    def __init__(self, inner: Shape, meta: str, vals: Optional[list[Any]] = None, constraint: Any = None) -> None:
        self.inner = inner
        self.meta = meta
        self.vals = vals
        self.constraint = constraint
        self.name = f"ann[{inner.name},{meta}]"
        self.hashable = inner.hashable

    def children(self) -> Iterable[Shape]:
        return (self.inner,)

    def src(self, style: Style) -> str:
        return f"Annotated[{self.inner.src(style)}, {self.meta}]"

    def values(self) -> list[Any]:
        return self.vals if self.vals is not None else self.inner.values()

    def to_py(self, payload: Any, world: "World") -> Any:
        return self.inner.to_py(payload, world)

    def py_src(self, payload: Any) -> str:
        return self.inner.py_src(payload)

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return self.inner.same(obj, payload, world)

    def eq(self, p: Any, q: Any) -> bool:
        return self.inner.eq(p, q)

    def enc(self, payload: Any) -> Any:
        return self.inner.enc(payload)

    def dec(self, doc: Any, skip: bool = False) -> Any:
        return self.inner.dec(doc, skip)

    def acc(self, doc: Any) -> Any:
        r = self.inner.acc(doc)
        if r is True and self.constraint is not None:
            return self.constraint(doc)
        return r


class AliasTypeS(Shape):
    "A named type such as `int32`, spelled by its name."

    def __init__(self, inner: Shape, spelled: str, vals: list[Any]) -> None:
        self.inner = inner
        self.spelled = spelled
        self.vals = vals
        self.name = spelled
        self.hashable = inner.hashable

    def src(self, style: Style) -> str:
        return self.spelled

    def values(self) -> list[Any]:
        return self.vals

    def __getattr__(self, item: str) -> Any:
        return getattr(self.inner, item)

    def to_py(self, payload: Any, world: "World") -> Any:
        return payload

    def py_src(self, payload: Any) -> str:
        return repr(payload)

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return self.inner.same(obj, payload, world)

    def eq(self, p: Any, q: Any) -> bool:
        return self.inner.eq(p, q)

    def enc(self, payload: Any) -> Any:
        return self.inner.enc(payload)

    def dec(self, doc: Any, skip: bool = False) -> Any:
        return self.inner.dec(doc, skip)

    def acc(self, doc: Any) -> Any:
        r = self.inner.acc(doc)
        if r is True and isinstance(self.inner, Leaf) and self.inner.kind == "int":
            if not self.vals[0] <= doc <= self.vals[-1]:
                return False if acceptance.strict else UNSPEC
        return r


# ---------------------------------------------------------------------------------------------------------------------
# classes

REQ, DEF, FAC = "req", "def", "fac"


class Field:
    """
    A field of a class.

    :param py: Python identifier.
    :param mode: `req` (no default), `def` (default value), `fac` (default factory).
    :param alias: Alias name, if any.
    :param init: Whether the field is a parameter of the initializer.
    """

    def __init__(
        self,
        py: str,
        shape: Shape,
        mode: str = REQ,
        default: Any = None,
        alias: Optional[str] = None,
        init: bool = True,
    ) -> None:
        self.py = py
        self.shape = shape
        self.mode = mode
        self.default = default
        self.alias = alias
        self.init = init

    @property
    def json_name(self) -> str:
        if self.alias is not None:
            return self.alias
        if self.py.endswith("_") and keyword.iskeyword(self.py[:-1]):
            return self.py[:-1]
        return self.py

    @property
    def optional(self) -> bool:
        return is_optional_shape(self.shape)

    def annotation(self, style: Style) -> str:
        text = self.shape.src(style)
        if style.annotated:
            text = f"Annotated[{text}, 'note', 42]"
        if self.alias is not None:
            text = f"Annotated[{text}, Alias({self.alias!r})]"
        if style.whole:
            text = repr(text)
        return text


def is_optional_shape(shape: Shape) -> bool:
    while isinstance(shape, AnnS):
        shape = shape.inner
    return isinstance(shape, OptS)


def strip_optional(shape: Shape) -> Shape:
    if isinstance(shape, AnnS):
        return AnnS(strip_optional(shape.inner), shape.meta, None, shape.constraint)
    assert isinstance(shape, OptS)
    return shape.item


KINDS = {
    "dataclass": "@dataclass\n",
    "frozen": "@dataclass(frozen=True)\n",
    "slots": "@dataclass(slots=True)\n",
    "frozen_slots": "@dataclass(frozen=True, slots=True)\n",
    "kw_only": "@dataclass(kw_only=True)\n",
    "eq_order": "@dataclass(order=True)\n",
    "namedtuple": "",
    "plain": "",
}


class ClassS(Shape):
    "A class with fields; payloads are dictionaries of payloads by field name."

    def __init__(
        self,
        cls: str,
        fields: list[Field],
        kind: str = "dataclass",
        base: Optional["ClassS"] = None,
        doc: str = "",
        decorators: str = "",
        base2: Optional["ClassS"] = None,
    ) -> None:
        self.cls = cls
        self.fields = fields
        self.kind = kind
        self.base = base
        self.base2 = base2  # second base class
        self.doc = doc
        self.decorators = decorators
        self.name = f"{kind}:{cls}({','.join(self._field_name(f) for f in fields)})" + (
            (f"<{base.name}" if base else "") + (f"<{base2.name}" if base2 else "")
        )
        self.hashable = kind in ("frozen", "frozen_slots", "namedtuple") and all(
            f.shape.hashable for f in self.all_fields()
        )
        self._values: Optional[list[Any]] = None

    @staticmethod
    def _field_name(f: Field) -> str:
        return (
            f"{f.py}:{f.shape.name}"
            + ("" if f.mode == REQ else f"={f.mode}")
            + (f"@{f.alias}" if f.alias is not None else "")
            + ("" if f.init else "!")
        )

    def all_fields(self) -> list[Field]:
        own = {f.py: f for f in self.fields}
        if self.base is None:
            return self.fields
        # a field declared again in a derived class keeps its position
        inherited = {f.py: f for b in (self.base2, self.base) if b is not None for f in b.all_fields()}
        names = dict.fromkeys(f.py for b in (self.base2, self.base) if b is not None for f in b.all_fields())
        out = [own.pop(name, inherited[name]) for name in names]
        return out + list(own.values())

    def children(self) -> Iterable[Shape]:
        if self.base:
            yield self.base
        if self.base2:
            yield self.base2
        for f in self.fields:
            yield f.shape

    def src(self, style: Style) -> str:
        return style.class_name(self.cls)

    def declare(self, style: Style) -> str:
        if self.kind == "namedtuple":
            head = f"class {self.cls}(NamedTuple):\n"
        elif self.base:
            head = f"{KINDS[self.kind]}class {self.cls}({self.base.cls}{f', {self.base2.cls}' if self.base2 else ''}):\n"
        else:
            head = f"{KINDS[self.kind]}class {self.cls}:\n"
        lines = []
        if self.doc:
            lines.append(f"    {self.doc!r}\n")
        for f in self.fields:
            line = f"    {f.py}: {f.annotation(style)}"
            if not f.init:
                line += " = field(init=False"
                if f.mode == DEF:
                    line += f", default={f.shape.py_src(f.default)}"
                elif f.mode == FAC:
                    line += f", default_factory=lambda: {f.shape.py_src(f.default)}"
                line += ")"
            elif f.mode == DEF:
                line += f" = {f.shape.py_src(f.default)}"
            elif f.mode == FAC:
                line += f" = field(default_factory=lambda: {f.shape.py_src(f.default)})"
            lines.append(line + "\n")
        if self.kind == "plain":
            lines.append("    def __init__(self, /, **kwargs):\n        self.__dict__.update(kwargs)\n")
        if not lines:
            lines.append("    pass\n")
        return self.decorators + head + "".join(lines)

    def set_values(self, values: list[Any]) -> "ClassS":
        self._values = values
        return self

    def field_values(self, f: Field) -> list[Any]:
        vals = list(f.shape.values())
        if f.mode != REQ:
            if f.optional and f.default is not None:
                # documented limitation: `None` cannot be told from a missing member (see known findings)
                vals = [v for v in vals if v is not None]
            vals = [f.default] + [v for v in vals if not f.shape.eq(v, f.default)]
        return vals

    def values(self) -> list[Any]:
        if self._values is None:
            columns = [self.field_values(f) for f in self.all_fields()]
            names = [f.py for f in self.all_fields()]
            rows: list[tuple[Any, ...]] = []
            for k in range(max((len(c) for c in columns), default=1)):
                rows.append(tuple(c[k % len(c)] for c in columns))
            base = rows[0]
            for i, c in enumerate(columns):
                for v in c[1:3]:
                    rows.append(base[:i] + (v,) + base[i + 1 :])
            self._values = [dict(zip(names, row)) for row in rows]
        return self._values

    def to_py(self, payload: Any, world: "World") -> Any:
        cls = getattr(world.module, self.cls)
        obj = cls(**{f.py: f.shape.to_py(payload[f.py], world) for f in self.all_fields() if f.init})
        for f in self.all_fields():
            if not f.init:
                object.__setattr__(obj, f.py, f.shape.to_py(payload[f.py], world))
        return obj

    def py_src(self, payload: Any) -> str:
        return f"{self.cls}(" + ", ".join(f"{f.py}={f.shape.py_src(payload[f.py])}" for f in self.all_fields()) + ")"

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        if type(obj) is not getattr(world.module, self.cls):
            return False
        for f in self.all_fields():
            if not hasattr(obj, f.py) or not f.shape.same(getattr(obj, f.py), payload[f.py], world):
                return False
        if hasattr(obj, "__dict__") and set(obj.__dict__) - {f.py for f in self.all_fields()}:
            return False  # extra members
        return True

    def eq(self, p: Any, q: Any) -> bool:
        return p.keys() == q.keys() and all(f.shape.eq(p[f.py], q[f.py]) for f in self.all_fields())

    def enc(self, payload: Any) -> Any:
        out = {}
        for f in self.all_fields():
            e = f.shape.enc(payload[f.py])
            if e is not None:
                out[f.json_name] = e
        return out

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if type(doc) is not dict:
            return err(TYPE)
        kinds: set[str] = set()
        unspec = False
        payload: dict[str, Any] = {}
        for f in self.all_fields():
            name = f.json_name
            shape = strip_optional(f.shape) if f.optional else f.shape
            if name not in doc:
                if f.mode != REQ:
                    payload[f.py] = f.default
                elif f.optional:
                    payload[f.py] = None
                else:
                    kinds.add(KEY)
            elif doc[name] is None and not isinstance(shape, AnyS):
                if f.mode != REQ and (f.default is not None or not f.optional):
                    unspec = True
                elif f.optional:
                    payload[f.py] = None
                else:
                    kinds.add(VALUE)
            elif doc[name] is None:
                unspec = True
            else:
                r = shape.dec(doc[name], skip)
                if r is UNSPEC:
                    unspec = True
                elif r[0] == "ok":
                    payload[f.py] = r[1]
                else:
                    kinds |= r[1]
        if not skip and any(k not in {f.json_name for f in self.all_fields()} for k in doc):
            kinds.add(KEY)
        if kinds:
            return ("err", ANY_ERROR if unspec else frozenset(kinds))
        return UNSPEC if unspec else ok(payload)

    def acc(self, doc: Any) -> Any:
        if type(doc) is not dict:
            return False
        if not self.all_fields():
            return UNSPEC
        names = {f.json_name for f in self.all_fields()}
        if any(k not in names for k in doc):
            return False
        result: Any = True
        for f in self.all_fields():
            if f.json_name not in doc:
                if not f.optional:
                    return False
                continue
            d = doc[f.json_name]
            if f.optional:
                if d is None:
                    result = UNSPEC
                    continue
                r = strip_optional(f.shape).acc(d)
            else:
                r = f.shape.acc(d)
            if r is False:
                return False
            if r is UNSPEC:
                result = UNSPEC
        return result


class RefS(Shape):
    "Reference to an enclosing class (recursive types)."

    def __init__(self, cls: str, depth: int = 2) -> None:
        self.cls = cls
        self.target: Optional[ClassS] = None
        self.name = f"ref:{cls}"
        self.depth = depth
        self.vals: list[Any] = []

    def src(self, style: Style) -> str:
        return self.cls if style.future or style.whole else f'"{self.cls}"'

    def values(self) -> list[Any]:
        return self.vals

    def __getattr__(self, item: str) -> Any:
        target = self.__dict__.get("target")
        if target is None:
            raise AttributeError(item)
        return getattr(target, item)

    def to_py(self, payload: Any, world: "World") -> Any:
        return self.target.to_py(payload, world)

    def py_src(self, payload: Any) -> str:
        return self.target.py_src(payload)

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return self.target.same(obj, payload, world)

    def eq(self, p: Any, q: Any) -> bool:
        return self.target.eq(p, q)

    def enc(self, payload: Any) -> Any:
        return self.target.enc(payload)

    def dec(self, doc: Any, skip: bool = False) -> Any:
        return self.target.dec(doc, skip)

    def acc(self, doc: Any) -> Any:
        return self.target.acc(doc)


class HookS(Shape):
    """
    A class with custom conversion; payloads are integers.

    :param form: JSON form, `obj` for `{"hook": n}`, `str` for `"#n"`, `arr` for `[n]`.
    """

    hashable = True

    def __init__(self, cls: str, form: str = "obj", kind: str = "plain", sub: bool = False) -> None:
        self.cls = cls
        self.form = form
        self.kind = kind
        self.sub = sub
        self.name = f"hook:{cls}:{form}:{kind}" + (":sub" if sub else "")

    def src(self, style: Style) -> str:
        return style.class_name(self.cls)

    def declare(self, style: Style) -> str:
        to = {"obj": '{"hook": self.n}', "str": '"#" + str(self.n)', "arr": "[self.n]", "num": "self.n"}[self.form]
        check = {
            "obj": 'isinstance(data, dict) and list(data) == ["hook"]',
            "str": 'isinstance(data, str) and data[:1] == "#" and data[1:].lstrip("-").isdigit()',
            "arr": "isinstance(data, list) and len(data) == 1",
            "num": "type(data) is int",
        }[self.form]
        get = {"obj": 'data["hook"]', "str": "int(data[1:])", "arr": "data[0]", "num": "data"}[self.form]
        base = f"{self.cls}Base" if self.sub else self.cls
        head = "@dataclass(frozen=True)\n" if self.kind == "dataclass" else ""
        init = "" if self.kind == "dataclass" else "    def __init__(self, n):\n        self.n = n\n"
        # the annotated members have nothing to do with the JSON form
        body = (
            f"{head}class {base}:\n    n: int\n    calls = []\n{init}"
            f"    def to_json(self):\n        type(self).calls.append(('to', self.n))\n        return {to}\n"
            f"    @classmethod\n    def from_json(cls, data):\n        if not ({check}):\n"
            f"            raise ValueError('hook')\n        cls.calls.append(('from', {get}))\n        return cls({get})\n"
            f"    def __eq__(self, other):\n        return type(self) is type(other) and self.n == other.n\n"
            f"    def __hash__(self):\n        return hash(self.n)\n"
        )
        if self.sub:
            body += f"{head}class {self.cls}({base}):\n    pass\n"
        return body

    def values(self) -> list[Any]:
        return [0, 7, -1]

    def to_py(self, payload: Any, world: "World") -> Any:
        return getattr(world.module, self.cls)(payload)

    def py_src(self, payload: Any) -> str:
        return f"{self.cls}({payload})"

    def same(self, obj: Any, payload: Any, world: "World") -> bool:
        return type(obj) is getattr(world.module, self.cls) and type(obj.n) is type(payload) and obj.n == payload

    def enc(self, payload: Any) -> Any:
        return {"obj": {"hook": payload}, "str": f"#{payload}", "arr": [payload], "num": payload}[self.form]

    def dec(self, doc: Any, skip: bool = False) -> Any:
        if self.form == "obj" and type(doc) is dict and list(doc) == ["hook"]:
            return ok(doc["hook"])
        if self.form == "str" and type(doc) is str and re.fullmatch(r"#-*\d+", doc):
            return ok(int(doc[1:]))
        if self.form == "arr" and type(doc) is list and len(doc) == 1:
            return ok(doc[0])
        if self.form == "num" and type(doc) is int:
            return ok(doc)
        return err(VALUE)

    def acc(self, doc: Any) -> Any:
        return UNSPEC


# ---------------------------------------------------------------------------------------------------------------------


def walk(shape: Shape, seen: Optional[set[int]] = None) -> Iterator[Shape]:
    "All shapes that a shape consists of, constituents first."
    if seen is None:
        seen = set()
    if id(shape) in seen:
        return
    seen.add(id(shape))
    for child in shape.children():
        yield from walk(child, seen)
    yield shape


class World:
    "A module that declares everything a shape needs."

    def __init__(self, shape: Shape, style: Style = DIRECT, *, prefix: str = "", extra: str = "", name: str = "") -> None:
        self.shape = shape
        self.style = style
        enums: list[str] = []
        classes: list[tuple[Shape, str]] = []
        done: set[str] = set()
        for s in walk(shape):
            if isinstance(s, (EnumS, ClassS, HookS)):
                if s.cls in done:
                    continue
                done.add(s.cls)
                if isinstance(s, ClassS):
                    classes.append((s, s.declare(style)))
                else:
                    enums.append(s.declare(style))
        reverse = style.reverse and not any(
            isinstance(s, ClassS) and (s.base or any(f.mode != REQ for f in s.fields)) for s, _ in classes
        )
        if reverse:
            classes.reverse()
        self.source = prefix + "".join(enums) + "".join(text for _, text in classes) + extra
        self.module: types.ModuleType = new_module(self.source, future=style.future, name=name)
        self._type: Any = None

    @property
    def type(self) -> Any:
        "The Python type of the shape in this world."
        if self._type is None:
            top = STYLES["pipe"] if self.style.pipe else DIRECT
            self._type = evaluate(self.module, self.shape.src(top))
        return self._type

    def py(self, payload: Any) -> Any:
        return self.shape.to_py(payload, self)

    def close(self) -> None:
        import sys

        sys.modules.pop(self.module.__name__, None)


def worlds(shape: Shape) -> Iterator[World]:
    "A type as it is usually written, and with the `|` notation and postponed annotations if that makes a difference."
    yield World(shape)
    if any(isinstance(s, (OptS, UnionS)) for s in walk(shape)):
        yield World(shape, STYLES["future_pipe"])


# ---------------------------------------------------------------------------------------------------------------------
# lexicon of documents

TEXTS = [
    "",
    "a",
    "b",
    "0",
    "1",
    "true",
    "null",
    "L",
    "x-y",
    "2020-01-01",
    "2020-02-30",
    "2020-13-01",
    "2020-01-01\n",
    "2020-01-01T00:00:00Z",
    "2020-01-01T00:00:00+00:00",
    "2020-01-01T23:59:59.999999+01:30",
    "2020-01-01T10:00:00.500-05:30",
    "2020-01-01T00:00:00",
    "2020-01-01T25:00:00Z",
    "12:30:45",
    "12:30:45Z",
    "12:30:45.000001+01:00",
    "24:30:00Z",
    "PT0S",
    "P1DT2H3M4.005S",
    "-PT1S",
    "P1W",
    "P1Y",
    "PT1.0000001S",
    "P9999999999D",
    "f81d4fae-7dec-11d0-a765-00a0c91e6bf6",
    "f81d4fae-7dec-11d0-a765-00a0c91e6bfg",
    "192.0.2.1",
    "256.0.0.1",
    "192.0.2",
    "::1",
    "2001:db8::1",
    "2001:db8:::1",
    "AA==",
    "AAE=",
    "AAAA",
    "A",
    "A===",
    "A@==",
    "#7",
]
NUMBERS = [0, 1, -1, 2, 23, 2**64, 0.5, -1.5, 1e300]
ATOMS: list[Any] = [None, True, False] + NUMBERS + TEXTS
COMPOUND: list[Any] = [
    [],
    [None],
    [0],
    ["a"],
    [0, 1],
    ["a", "b"],
    [0, "a"],
    ["a", 0],
    [0, 1, 2],
    [True],
    [[0]],
    [["a"]],
    [{}],
    {},
    {"a": 0},
    {"a": "a"},
    {"a": None},
    {"a": 0, "b": 1},
    {"L": 0},
    {"b": 0},
    {"a": {}},
    {"a": []},
    {"hook": 7},
]
DOCS: list[Any] = ATOMS + COMPOUND


def mutations(doc: Any, atoms: list[Any], depth: int = 0) -> Iterator[Any]:
    "All documents that differ from a document in a single place: replaced, removed or added."
    for a in atoms:
        yield a
    if isinstance(doc, list):
        for i, d in enumerate(doc):
            for m in mutations(d, atoms, depth + 1):
                yield doc[:i] + [m] + doc[i + 1 :]
            yield doc[:i] + doc[i + 1 :]
        for a in (None, 0, "a"):
            yield doc + [a]
        if doc:
            yield doc + [doc[0]]
    elif isinstance(doc, dict):
        for k, d in doc.items():
            for m in mutations(d, atoms, depth + 1):
                yield {**doc, k: m}
            yield {q: v for q, v in doc.items() if q != k}
            # the same member under another name
            yield {(k + "_" if q == k else q): v for q, v in doc.items()}
        for a in (None, 0, "a"):
            yield {**doc, "extra": a}


MUTANT_ATOMS: list[Any] = [None, True, 0, 1, 0.5, "", "a", "2020-01-01", "2020-01-01T00:00:00Z", [], [0], {}, {"a": 0}]
