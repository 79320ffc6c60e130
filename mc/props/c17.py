"""
C17: timestamps keep instant and zone; zone-less timestamps are refused.

Values: every UTC offset of a whole minute at boundary instants, every microsecond of a second, every second of a day,
every day from year 1 to year 9999, time zones of several implementations including ambiguous and skipped local times.
Text: every year of a range x month x day, hour x minute, second and zone field that two digits can express, and every
text that differs from a well-formed text by one character. A text that is well-formed must be read exactly; a text that
no form of ISO 8601 admits must be refused with a value error; other forms of ISO 8601 (e.g. without separators) are open.
"""

from __future__ import annotations

import datetime as dt
import itertools
import re
import zoneinfo
from typing import Any, Iterator, Optional

from common import create_serializer, error_kind, through_text
from shapes import TYPE, VALUE, ref_date, ref_datetime, ref_datetime_str, ref_time, ref_time_str
from world import drop_module, new_module

from strong_typing.deserializer import create_deserializer
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json

LEVEL = "model_checking"
BOUNDS = {
    "quick": "values: 2879 UTC offsets of whole minutes x 6 instants x 3 fractions, offsets with seconds, 8 names of zones x 6 offsets, every microsecond of a "
    "second, every second of a day x 4 zones, every day of years 1 to 9999, every hour of 2 years in 5 zones with daylight saving; "
    "texts: 4 years x all two-digit months and days, all two-digit hours, minutes and seconds, zone offsets, fractions of up to "
    "7 digits over {0, 9}, and all texts that differ from 27 well-formed texts by one character (of 40)",
    "thorough": "as quick, UTC offsets of all seconds, every second of a day x 12 zones, pairs of changed characters",
}

ASSUMPTIONS = [
    "Forms of ISO 8601 other than extended date and time with seconds are read as Python's own parser does (not judged)."
]

UTC = dt.timezone.utc
PARSERS = {dt.datetime: ref_datetime, dt.date: ref_date, dt.time: ref_time}


class Fixed(dt.tzinfo):
    "A time zone that is not of the standard library."

    def __init__(self, minutes: int, name: Optional[str] = "Z") -> None:
        self.minutes = minutes
        self.name = name

    def utcoffset(self, when: Any) -> dt.timedelta:
        return dt.timedelta(minutes=self.minutes)

    def dst(self, when: Any) -> None:
        return None

    def tzname(self, when: Any) -> Optional[str]:
        return self.name


class Unknown(dt.tzinfo):
    "A time zone that does not know its offset: the value is naive, as per the Python documentation."

    def utcoffset(self, when: Any) -> None:
        return None

    def dst(self, when: Any) -> None:
        return None


# ---------------------------------------------------------------------------------------------------------------------
# anything that some form of ISO 8601 might admit

_LIBERAL_DATE = r"(?P<year>\d{4})(?:-?(?P<month>\d{2})-?(?P<day>\d{2})|-?W(?P<week>\d{2})(?:-?(?P<weekday>\d))?)"
_LIBERAL_TIME = (
    r"T?(?P<h>\d{2})(?::?(?P<m>\d{2})(?::?(?P<s>\d{2}))?)?(?:[.,]\d*)?"
    r" ?(?P<zone>Z|[+-](?P<zh>\d{2})(?::?(?P<zm>\d{2})(?::?(?P<zs>\d{2})(?:[.,]\d*)?)?)?)?"
)
LIBERAL = {
    dt.date: re.compile(_LIBERAL_DATE, re.ASCII),
    dt.time: re.compile(_LIBERAL_TIME, re.ASCII),
    dt.datetime: re.compile(f"(?:{_LIBERAL_DATE})(?:.(?:{_LIBERAL_TIME}))?", re.ASCII | re.DOTALL),
}


def days_in_month(y: int, m: int) -> int:
    if m == 2:
        return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def possible(typ: Any, text: str) -> bool:
    "Whether some form of ISO 8601 may admit the text."
    match = LIBERAL[typ].fullmatch(text)
    if match is None:
        return False
    g = {k: int(v) if v.isdigit() else v for k, v in match.groupdict().items() if v is not None}
    if "year" in g and g["year"] < 1:
        return False
    if "month" in g and not (1 <= g["month"] <= 12 and 1 <= g["day"] <= days_in_month(g["year"], g["month"])):
        return False
    if "week" in g and not (1 <= g["week"] <= 53 and 1 <= g.get("weekday", 1) <= 7):
        return False
    if g.get("h", 0) > 24 or g.get("m", 0) > 59 or g.get("s", 0) > 60:
        return False
    if typ is dt.datetime and "zone" not in g:
        return False
    return True


def identical(a: Any, b: Any) -> bool:
    if type(a) is not type(b):
        return False
    if isinstance(a, dt.datetime):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset() and a.tzinfo is not None
    if isinstance(a, dt.time):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    return a == b


def same_as_python(typ: Any, text: str, result: Any) -> bool:
    "Whether the parser of the Python standard library itself accepts the text (see known findings)."
    if typ is dt.datetime and text.endswith("Z"):
        text = text[:-1] + "+00:00"
    try:
        return identical(typ.fromisoformat(text), result)
    except ValueError:
        return False


class Checker:
    def __init__(self, ctx: Any) -> None:
        self.ctx = ctx
        self.readers = {t: create_deserializer(t) for t in PARSERS}
        self.writers = {t: create_serializer(t) for t in PARSERS}
        self.done = 0
        self.counts: dict[str, int] = {}

    def count(self, label: str) -> None:
        self.counts[label] = self.counts.get(label, 0) + 1

    def bad(self, what: str, **more: Any) -> None:
        self.ctx.violation(what, **more)

    def value(self, value: Any, public: bool = False) -> None:
        self.done += 1
        typ = type(value)
        if typ is dt.datetime:
            expected = ref_datetime_str(value)
        elif typ is dt.date:
            expected = f"{value.year:04d}-{value.month:02d}-{value.day:02d}"
        else:
            expected = ref_time_str(value)
        text = self.writers[typ].generate(value)
        self.ctx.step(2)
        if type(text) is not str or text != expected:
            self.bad("not written in the documented form", value=value, text=text, expected=expected)
            return
        back = self.readers[typ].parse(text)
        if not identical(back, value):
            self.bad("not read back", value=value, text=text, result=back)
            return
        if typ is dt.datetime and near(value) and back != value and not ambiguous(value):
            self.bad("instant changed", value=value, text=text, result=back)
        if public:
            self.ctx.step(4)
            if object_to_json(value) != text or object_to_json([value]) != [text] or object_to_json({"k": value}) != {"k": text}:
                self.bad("written differently as an item", value=value)
            if not identical(json_to_object(typ, through_text(text)), value):
                self.bad("not read back from JSON text", value=value)
            if not identical(json_to_generic(list[typ], [text])[0], value):
                self.bad("read differently as an item", value=value)
        self.count("written and read")

    def text(self, typ: Any, text: str, public: bool = False) -> None:
        self.done += 1
        expected = PARSERS[typ](text)
        try:
            result: Any = self.readers[typ].parse(text)
        except Exception as ex:
            result = None
            if error_kind(ex) != VALUE:
                self.bad(f"refused with {type(ex).__name__}", type=typ.__name__, text=text)
                return
        self.ctx.step()
        if expected is not None:
            self.count("valid")
            if result is None:
                self.bad("valid text refused", type=typ.__name__, text=text)
                return
            if not identical(result, expected):
                self.bad("text read as another value", type=typ.__name__, text=text, result=result, expected=expected)
                return
            if typ is dt.datetime and text.endswith("Z"):
                for zone in ("+00:00", "-00:00"):
                    same = self.readers[typ].parse(text[:-1] + zone)
                    if not identical(same, result):
                        self.bad("numeric zone denotes another instant", text=text, result=same)
        elif result is None:
            self.count("refused")
        else:
            if not possible(typ, text):
                key = "python-iso-parser" if same_as_python(typ, text, result) else ""
                self.bad("invalid text accepted", key=key, type=typ.__name__, text=text, result=result)
            elif type(result) is not typ or (typ is dt.datetime and result.utcoffset() is None):
                self.bad("text read as a value of another type or without a zone", text=text, result=result)
            self.count("other forms")
        if public:
            for f in (
                lambda: json_to_object(typ, text),
                lambda: json_to_generic(list[typ], [text])[0],
            ):
                try:
                    again: Any = f()
                except Exception as ex:
                    again = None
                    if error_kind(ex) != VALUE:
                        self.bad(f"refused with {type(ex).__name__}", type=typ.__name__, text=text)
                self.ctx.step()
                if (again is None) != (result is None) or (again is not None and not identical(again, result)):
                    self.bad("read differently elsewhere", type=typ.__name__, text=text, one=result, other=again)


def ambiguous(value: dt.datetime) -> bool:
    "Comparison is not defined for local times that occur twice or not at all."
    return value.replace(fold=0).utcoffset() != value.replace(fold=1).utcoffset()


def near(value: dt.datetime) -> bool:
    return 1 < value.year < 9999


def zone(minutes: int, seconds: int = 0) -> dt.timezone:
    return dt.timezone(dt.timedelta(minutes=minutes, seconds=seconds))


INSTANTS = [
    dt.datetime(1970, 1, 1, 0, 0, 0),
    dt.datetime(2000, 2, 29, 23, 59, 59),
    dt.datetime(2024, 12, 31, 12, 0, 1),
    dt.datetime(1, 1, 1, 0, 0, 0),
    dt.datetime(9999, 12, 31, 23, 59, 59),
    dt.datetime(1999, 10, 10, 10, 10, 10),
]
ZONES = [0, 90, -330, 1439, -1439, 1, -1, 60, -60, 845, -720, 840]
REGIONS = ["Europe/Budapest", "America/New_York", "Australia/Lord_Howe", "UTC", "Asia/Kathmandu"]

WELL_FORMED: list[tuple[Any, str]] = [
    (dt.datetime, t)
    for t in (
        "2020-02-29T23:59:59Z", "2020-02-29T23:59:59+00:00", "1999-12-31T00:00:00.500-05:30", "1999-12-31T00:00:00.123456+14:00",
        "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999Z", "2020-10-10T10:10:10+01:30:15", "2020-10-10T10:10:10.001Z",
        "2021-03-04T05:06:07-00:00", "2020-10-10T10:10:10", "2020-10-10T10:10:10.5", "2020-10-10", "10:10:10Z",
    )
] + [
    (dt.date, t) for t in ("2020-02-29", "0001-01-01", "9999-12-31", "2020-10-10T00:00:00Z", "2020-W10-1", "2021-366")
] + [
    (dt.time, t)
    for t in ("00:00:00", "23:59:59Z", "23:59:59.999999+00:00", "10:10:10.500-05:30", "12:34:56+23:59", "10:10", "101010", "2020-10-10T10:10:10Z")
]
CHARS = "0123456789-+:.,TtZzW PS/_\n\t\r\x00\u0660\u0967\uff11\u2212\u00b2aeE"


def fields() -> Iterator[tuple[Any, str]]:
    for y in ("0000", "1900", "2000", "2023"):
        for m, d in itertools.product(range(100), repeat=2):
            yield dt.date, f"{y}-{m:02d}-{d:02d}"
            yield dt.datetime, f"{y}-{m:02d}-{d:02d}T00:00:00Z"
    for a, b in itertools.product(range(100), repeat=2):
        for z in ("", "Z"):
            yield dt.time, f"{a:02d}:{b:02d}:00{z}"
            yield dt.time, f"00:{a:02d}:{b:02d}{z}"
        yield dt.datetime, f"2020-01-01T{a:02d}:{b:02d}:00Z"
        yield dt.datetime, f"2020-01-01T23:{a:02d}:{b:02d}Z"
        for sign in "+-":
            yield dt.datetime, f"2020-01-01T00:00:00{sign}{a:02d}:{b:02d}"
            yield dt.time, f"00:00:00{sign}{a:02d}:{b:02d}"
    for n in range(8):
        for digits in itertools.product("09", repeat=n):
            f = "." + "".join(digits)
            yield dt.time, f"12:00:00{f}"
            yield dt.time, f"12:00:00{f}Z"
            yield dt.datetime, f"2020-01-01T12:00:00{f}Z"
            yield dt.datetime, f"2020-01-01T12:00:00{f}-01:00"
            yield dt.datetime, f"2020-01-01T12:00:00{f}"
    for sep in CHARS:
        yield dt.datetime, f"2020-01-01{sep}12:00:00Z"
    for parts in itertools.product(("", "2020-01-01"), ("", "T"), ("", "10:10:10"), ("", ".5", ".500"), ("", "Z", "+00:00", "ZZ", "Z+00:00", "+00:00Z", "+", "-Z")):
        for typ in PARSERS:
            yield typ, "".join(parts)


def changed(text: str) -> Iterator[str]:
    for i in range(len(text) + 1):
        for c in CHARS:
            yield text[:i] + c + text[i:]
            if i < len(text):
                yield text[:i] + c + text[i + 1 :]
        yield text[:i] + text[i + 1 :]
        yield text[:i]
        yield text[i:]


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["offsets", lo] for lo in range(-1439, 1440, 240)]
    out += [["micros", lo] for lo in range(0, 10**6, 125000)]
    out += [["days", lo] for lo in range(1, 3652060, 200000)]
    zones = ZONES if tier == "thorough" else ZONES[:4]
    out += [["seconds", z] for z in zones]
    out += [["region", r] for r in REGIONS]
    out += [["kinds"], ["naive"], ["types"]]
    out += [["fields", i, 8] for i in range(8)]
    out += [["changed", i] for i in range(len(WELL_FORMED))]
    if tier == "thorough":
        out += [["offset seconds", lo] for lo in range(-1439, 1440, 60)]
        out += [["twice", i, j] for i in range(len(WELL_FORMED)) for j in range(8)]
    return out


def run(task: Any, ctx: Any) -> None:
    c = Checker(ctx)
    kind = task[0]
    if kind == "offsets":
        for minutes in range(task[1], min(task[1] + 240, 1440)):
            for base in INSTANTS:
                for micro in (0, 1000, 999999):
                    when = base.replace(microsecond=micro, tzinfo=zone(minutes))
                    c.value(when, public=micro == 0)
                    c.value(when.timetz())
            for z in (zone(minutes, 1), zone(minutes, 59)):
                if abs(z.utcoffset(None)) < dt.timedelta(days=1):
                    c.value(INSTANTS[0].replace(tzinfo=z))
                    c.value(INSTANTS[1].replace(tzinfo=z).timetz())
            c.value(INSTANTS[2].replace(tzinfo=Fixed(minutes)))
            c.value(INSTANTS[2].replace(tzinfo=Fixed(minutes)).timetz())
    elif kind == "offset seconds":
        for minutes in range(task[1], min(task[1] + 60, 1440)):
            for s in range(60):
                z = zone(minutes, s)
                for base in INSTANTS:
                    c.value(base.replace(tzinfo=z))
                    c.value(base.replace(tzinfo=z, microsecond=1).timetz())
    elif kind == "micros":
        for micro in range(task[1], task[1] + 125000):
            when = dt.datetime(2024, 2, 29, 23, 59, 59, micro, UTC)
            c.value(when, public=micro % 1009 == 0)
            c.value(when.time())
            c.value(when.replace(tzinfo=zone(-90)))
    elif kind == "days":
        for n in range(task[1], min(task[1] + 200000, 3652060)):
            day = dt.date.fromordinal(n)
            c.value(day, public=n % 1009 == 0)
    elif kind == "seconds":
        start = dt.datetime(2024, 2, 29, 0, 0, 0, 0, zone(task[1]))
        for s in range(86400):
            when = start + dt.timedelta(seconds=s)
            c.value(when, public=s % 101 == 0)
            c.value(when.timetz())
            c.value(when.replace(microsecond=120))
    elif kind == "region":
        tz = zoneinfo.ZoneInfo(task[1])
        for h in range(0, 2 * 366 * 24):
            when = dt.datetime(2023, 1, 1, 0, 30) + dt.timedelta(hours=h)
            for fold in (0, 1):
                c.value(when.replace(tzinfo=tz, fold=fold))
            c.value((when.replace(tzinfo=UTC)).astimezone(tz), public=h % 97 == 0)
    elif kind == "kinds":
        names = ["UTC", "GMT", "Z", "", "CET", "+00:00", "UTC+01:00", "zone"]
        named = [dt.timezone(dt.timedelta(minutes=m), name) for m in (0, 60, -60, 330, -1, 1439) for name in names]
        named += [Fixed(m, name) for m in (0, 60, -90) for name in (*names, None)]
        for tz in [*named, Fixed(0), Fixed(-1), Fixed(1439), UTC, dt.timezone(dt.timedelta(0), "zero"), dt.timezone(dt.timedelta(hours=1), "+00:00"), zoneinfo.ZoneInfo("UTC")]:
            for base in INSTANTS:
                for micro in (0, 1, 999000):
                    c.value(base.replace(microsecond=micro, tzinfo=tz), public=True)
                    c.value(base.replace(microsecond=micro).time(), public=True)
                    c.value(base.date(), public=True)
    elif kind == "naive":
        naive(c)
    elif kind == "types":
        for typ in PARSERS:
            for item in (b"2020-01-01", 0, 1.5, True, None, ["2020-01-01"], {"2020-01-01": 0}, 1577836800):
                c.done += 1
                ctx.step()
                try:
                    c.readers[typ].parse(item)
                    c.bad("value that is not text is accepted", type=typ.__name__, value=item)
                except Exception as ex:
                    if error_kind(ex) != TYPE:
                        c.bad(f"value that is not text is refused with {error_kind(ex)}", type=typ.__name__, value=item)
                c.count("not text")
    elif kind == "fields":
        for i, (typ, text) in enumerate(dict.fromkeys(fields())):
            if i % task[2] == task[1]:
                c.text(typ, text, public=True)
        ctx.sample({"text": text})
    elif kind == "changed":
        typ, text = WELL_FORMED[task[1]]
        for t in dict.fromkeys(changed(text)):
            for other in PARSERS:
                c.text(other, t, public=True)
        ctx.sample({"text": text, "changed": t})
    elif kind == "twice":
        typ, text = WELL_FORMED[task[1]]
        for i, t in enumerate(dict.fromkeys(changed(text))):
            if i % 8 == task[2]:
                for u in dict.fromkeys(changed(t)):
                    c.text(typ, u)
    ctx.count_states(c.done)
    ctx.trace(c.done)
    for label, n in c.counts.items():
        ctx.outcomes[label] += n


def naive(c: Checker) -> None:
    "Timestamps without a zone are refused wherever they occur."
    module = new_module(
        "@dataclass\nclass A:\n    t: datetime.datetime\n"
        "@dataclass\nclass B:\n    t: Optional[datetime.datetime] = None\n"
        "class N(NamedTuple):\n    t: datetime.datetime\n"
        "class V:\n    t: datetime.datetime\n"
    )
    v = module.V()
    for tz in (None, Unknown()):
        for base in INSTANTS:
            for micro in (0, 1):
                t = base.replace(microsecond=micro, tzinfo=tz)
                v.t = t
                for obj in (t, [t], {"k": t}, (t,), {t}, [[t]], module.A(t), [module.A(t)], module.B(t), module.N(t), v):
                    c.done += 1
                    c.ctx.step()
                    try:
                        text = object_to_json(obj)
                    except Exception as ex:
                        if error_kind(ex) != VALUE:
                            c.bad(f"zone-less timestamp is refused with {type(ex).__name__}", value=obj)
                        c.count("naive refused")
                    else:
                        c.bad("zone-less timestamp is written", value=obj, text=text)
    for base in INSTANTS:
        for micro in (0, 1000, 999999):
            text = base.replace(microsecond=micro).isoformat()
            for typ, doc in (
                (dt.datetime, text),
                (list[dt.datetime], [text]),
                (dict[str, dt.datetime], {"k": text}),
                (tuple[dt.datetime, int], [text, 1]),
                (set[dt.datetime], [text]),
                (module.A, {"t": text}),
                (module.B, {"t": text}),
                (module.N, {"t": text}),
                (module.V, {"t": text}),
            ):
                c.done += 1
                c.ctx.step()
                try:
                    result = json_to_generic(typ, doc)
                except Exception as ex:
                    if error_kind(ex) != VALUE:
                        c.bad(f"zone-less text is refused with {type(ex).__name__}", type=repr(typ), text=text)
                    c.count("naive refused")
                else:
                    c.bad("zone-less text is accepted", type=repr(typ), text=text, result=result)
    drop_module(module)
