"""
C16: durations have exact values and exactly the documented text format.

The grammar of durations is an explicit automaton that is independent of the regular expression of the library. All texts
over the alphabet of the grammar are enumerated up to a length, as well as all combinations of components with boundary
values, in every order of two components, and all texts that differ in a single character from a well-formed text. For
the other direction, every second of a day and every microsecond of a second is written, and compared with the expected
text.
"""

from __future__ import annotations

import datetime as dt
import itertools
from typing import Any, Iterator, Optional

from common import create_serializer, error_kind, through_text
from shapes import TYPE, VALUE, ref_duration_str

from strong_typing.deserializer import create_deserializer
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json

LEVEL = "model_checking"
ALPHABET = "PTWDHMS01.-"
LENGTH = {"quick": 6, "thorough": 7}
BOUNDS = {
    "quick": "all texts of up to 6 characters over P T W D H M S 0 1 . -; all subsets of components x 15 boundary values for "
    "every pair of components; all fractions of up to 9 digits over {0, 1, 9}; all exchanges of components; all texts that differ "
    "from 24 well-formed texts by one character (48 characters); writing: every second of a day x 12 numbers of microseconds "
    "x 7 numbers of days, and every microsecond of a second",
    "thorough": "as quick, all texts of up to 7 characters, 13 numbers of days, every microsecond of 6 different seconds",
}

DAY = 86400 * 10**6
LOW = -999999999 * DAY
HIGH = 10**9 * DAY - 1

# automaton of the grammar: which components may follow
ORDER = {"W": 1, "D": 2, "T": 3, "H": 4, "M": 5, "S": 6}
UNIT = {"W": 7 * DAY, "D": DAY, "H": 3600 * 10**6, "M": 60 * 10**6, "S": 10**6}

REFUSED, OPEN = "refused", "open"


def denotes(text: str) -> Any:
    "Number of microseconds that a text denotes, `REFUSED`, or `OPEN` if the documentation does not tell."
    i = 0
    sign = 1
    if i < len(text) and text[i] == "-":
        sign = -1
        i += 1
    if i >= len(text) or text[i] != "P":
        return REFUSED
    i += 1
    last = 0
    total = 0
    components = 0
    after_t = 0
    while i < len(text):
        if text[i] == "T":
            if last >= ORDER["T"]:
                return REFUSED
            last = ORDER["T"]
            i += 1
            continue
        start = i
        while i < len(text) and text[i] in "0123456789":
            i += 1
        if start == i or i == len(text):
            return REFUSED
        number = 0
        for c in text[start:i]:
            number = number * 10 + ord(c) - 48
        fraction = ""
        if text[i] == ".":
            i += 1
            start = i
            while i < len(text) and text[i] in "0123456789":
                i += 1
            fraction = text[start:i]
            if not 1 <= len(fraction) <= 9 or i == len(text) or text[i] != "S":
                return REFUSED
        unit = text[i]
        i += 1
        if unit not in UNIT or ORDER[unit] <= last:
            return REFUSED
        if (ORDER[unit] > ORDER["T"]) != (last >= ORDER["T"]):
            return REFUSED
        last = ORDER[unit]
        total += number * UNIT[unit]
        components += 1
        if unit in "HMS":
            after_t += 1
        if fraction:
            nano = 0
            for c in fraction.ljust(9, "0"):
                nano = nano * 10 + ord(c) - 48
            if nano % 1000:
                return REFUSED
            total += nano // 1000
    if not components or (last >= ORDER["T"] and not after_t):
        return OPEN
    total *= sign
    if not LOW <= total <= HIGH:
        return REFUSED
    return total


def micros(value: dt.timedelta) -> int:
    return (value.days * 86400 + value.seconds) * 10**6 + value.microseconds


def interval(total: int) -> dt.timedelta:
    days, rest = divmod(total, DAY)
    return dt.timedelta(days=days, seconds=rest // 10**6, microseconds=rest % 10**6)


NUMBERS = ["0", "1", "2", "7", "9", "10", "23", "24", "59", "60", "61", "007", "3600", "86401", "999999999"]
LARGE = ["142857142", "142857143", "999999999", "1000000000", "23999999999", "86399999999999", "9" * 30, "1" + "0" * 400]
FRACTIONS = ["1", "5", "12", "123", "999", "1234", "00001", "123456", "999999", "000001", "1230000", "123456000", "1234567", "0000001", "000000001", "0" * 9]
CHARS = "PTWDHMSYpts0123456789.,-+: \n\t\r\x00\u0660\u0967\uff11\u00b2\u2212eE_xZ/"

WELL_FORMED = [
    "PT0S", "P1D", "P2W", "PT1H", "PT2M", "PT3S", "PT3.5S", "P1DT2H3M4.567S", "-P1D", "-PT0.000001S", "P1W2DT3H4M5.000006S",
    "PT59M", "P0D", "PT0.5S", "PT1H1S", "P1DT1S", "P10DT10H10M10.101010101S", "PT23H59M59.999999S", "P999999999D", "-P999999999D",
    "P0W", "PT00S", "PT1.123456000S", "-P1W",
]


def combinations() -> Iterator[str]:
    units = "WDHMS"
    for mask in range(1, 32):
        chosen = [u for i, u in enumerate(units) if mask >> i & 1]
        for sign in ("", "-"):
            for values in itertools.product(["0", "1", "59"], repeat=len(chosen)):
                yield compose(sign, dict(zip(chosen, values)))
            for fraction in FRACTIONS:
                if "S" in chosen:
                    yield compose(sign, {u: "1" for u in chosen}, fraction)
    for a, b in itertools.combinations(units, 2):
        for x, y in itertools.product(NUMBERS, repeat=2):
            for sign in ("", "-"):
                yield compose(sign, {a: x, b: y})
    for a in units:
        for x in NUMBERS + LARGE:
            for sign in ("", "-"):
                yield compose(sign, {a: x})
                yield compose(sign, {a: x, "S": "1"} if a != "S" else {a: x}, "5")
                for t in ("T", ""):
                    yield f"{sign}P{t}{x}{a}"
                    yield f"{sign}P{t}{x}.5{a}"
    # limits of the type
    for days in (999999998, 999999999, 1000000000):
        for rest in ("", "T23H59M59.999999S", "T24H", "T23H59M60S", "T0.000001S", "T86399.999999S", "T86400S"):
            for sign in ("", "-"):
                yield f"{sign}P{days}D{rest}"
    # exchanged components
    parts = ["1W", "2D", "T", "3H", "4M", "5S"]
    for n in range(1, 7):
        for chosen in itertools.permutations(parts, n):
            yield "P" + "".join(chosen)
    # repeated components
    for n in range(len(parts) + 1):
        for p in parts:
            yield "P" + "".join(parts[:n]) + p + "".join(parts[n:])


def fractions() -> Iterator[str]:
    for n in range(1, 11):
        for digits in itertools.product("019", repeat=n):
            yield f"PT1.{''.join(digits)}S"


def compose(sign: str, parts: dict[str, str], fraction: str = "") -> str:
    out = sign + "P"
    for u in "WD":
        if u in parts:
            out += parts[u] + u
    if any(u in parts for u in "HMS"):
        out += "T"
        for u in "HM":
            if u in parts:
                out += parts[u] + u
        if "S" in parts:
            out += parts["S"] + (f".{fraction}" if fraction else "") + "S"
    return out


def corruptions() -> Iterator[str]:
    for text in WELL_FORMED:
        yield text
        yield text.lower()
        for i in range(len(text) + 1):
            for c in CHARS:
                yield text[:i] + c + text[i:]
                if i < len(text):
                    yield text[:i] + c + text[i + 1 :]
            if i < len(text):
                yield text[:i] + text[i + 1 :]
            yield text[:i]
            yield text + text[i:]


def tasks(tier: str) -> list[Any]:
    length = LENGTH[tier]
    out: list[Any] = [["texts", a + b, length] for a in ALPHABET for b in ALPHABET]
    out += [["short"], ["forms"], ["fractions"], ["corrupt"], ["special"]]
    days = DAYS if tier == "thorough" else DAYS[:7]
    out += [["write", d, first] for d in days for first in range(0, 86400, 21600)]
    seconds = [1, 0] if tier == "quick" else [1, 0, 59, 60, 3600, 86399]
    out += [["micros", s, first] for s in seconds for first in range(0, 10**6, 125000)]
    return out


DAYS = [0, 1, -1, -2, 999999999, -999999999, 30, 7, -7, 10, 365, 100000, -100000]
MICROS = [0, 1, 9, 10, 999, 1000, 1001, 100000, 123456, 500000, 999000, 999999]


class Checker:
    def __init__(self, ctx: Any) -> None:
        self.ctx = ctx
        self.reader = create_deserializer(dt.timedelta)
        self.writer = create_serializer(dt.timedelta)
        self.counts: dict[str, int] = {}

    def text(self, text: str, public: bool = False) -> Optional[str]:
        expected = denotes(text)
        try:
            value = self.reader.parse(text)
        except Exception as ex:
            kind = error_kind(ex)
            if kind != VALUE:
                return f"refused with {kind}"
            outcome = REFUSED
        else:
            if type(value) is not dt.timedelta:
                return "result is not a time interval"
            outcome = micros(value)
        self.ctx.step()
        if expected is OPEN:
            self.count("open")
        else:
            if outcome != expected:
                return f"expected {expected!r} microseconds but got {outcome!r}"
            self.count("refused" if expected is REFUSED else "accepted")
        if public:
            for f in (
                lambda: json_to_object(dt.timedelta, text),
                lambda: json_to_generic(list[dt.timedelta], [text])[0],
                lambda: json_to_generic(dict[str, dt.timedelta], {"k": text})["k"],
            ):
                try:
                    again: Any = micros(f())
                except Exception as ex:
                    again = REFUSED if error_kind(ex) == VALUE else error_kind(ex)
                if again != outcome:
                    return f"{outcome!r} at one place, {again!r} at another"
            self.ctx.step(3)
        return None

    def value(self, total: int, public: bool = False) -> Optional[str]:
        value = interval(total)
        text = self.writer.generate(value)
        expected = ref_duration_str(value)
        if type(text) is not str or text != expected:
            return f"written as {text!r} instead of {expected!r}"
        if denotes(text) != total:
            return f"written as {text!r} which denotes another interval"
        back = self.reader.parse(text)
        self.ctx.step(2)
        if back != value or type(back) is not dt.timedelta:
            return f"written as {text!r}, read as {back!r}"
        if public:
            if object_to_json(value) != text or object_to_json([value]) != [text]:
                return "written differently as a value and as an item"
            if json_to_object(dt.timedelta, through_text(object_to_json(value))) != value:
                return "not read back"
        return None

    def count(self, label: str) -> None:
        self.counts[label] = self.counts.get(label, 0) + 1


def run(task: Any, ctx: Any) -> None:
    c = Checker(ctx)
    kind = task[0]
    done = 0
    if kind in ("write", "micros"):
        totals: Iterator[int]
        if kind == "write":
            totals = (
                (task[1] * 86400 + s) * 10**6 + m
                for s in range(task[2], task[2] + 21600)
                for m in MICROS
                if LOW <= (task[1] * 86400 + s) * 10**6 + m <= HIGH
            )
        else:
            totals = ((s * task[1]) * 10**6 + m for s in (1, -1) for m in range(task[2], task[2] + 125000))
        for n, total in enumerate(totals):
            problem = c.value(total, public=n % 5003 == 0)
            done += 1
            if problem:
                ctx.violation(problem, value=repr(interval(total)))
            c.count("written")
        ctx.sample({"value": repr(interval(total)), "text": ref_duration_str(interval(total))})
    elif kind == "special":
        for text in (b"PT1S", 1, 1.5, True, None, ["PT1S"], {"PT1S": 1}):
            try:
                c.reader.parse(text)
                ctx.violation("value that is not text is accepted", value=text)
            except Exception as ex:
                if error_kind(ex) != TYPE:
                    ctx.violation(f"value that is not text is refused with {error_kind(ex)}", value=text)
            ctx.step()
            done += 1
        for total in (LOW, LOW + 1, -DAY, -DAY - 1, -DAY + 1, -1, 0, 1, HIGH, HIGH - 1):
            problem = c.value(total, public=True)
            done += 1
            if problem:
                ctx.violation(problem, value=repr(interval(total)))
    else:
        texts: Iterator[str]
        if kind == "texts":
            head, length = task[1], task[2]
            texts = (head + "".join(t) for n in range(length - 1) for t in itertools.product(ALPHABET, repeat=n))
        elif kind == "short":
            texts = itertools.chain([""], ALPHABET)
        elif kind == "forms":
            texts = combinations()
        elif kind == "fractions":
            texts = fractions()
        else:
            texts = corruptions()
        public = kind != "texts"
        if public:
            texts = iter(dict.fromkeys(texts))
        for text in texts:
            problem = c.text(text, public and len(text) < 100)
            done += 1
            if problem:
                ctx.violation(problem, text=text)
        ctx.sample({"text": text, "denotes": denotes(text)})
    # all cases of a task are different, and registering each would take more time than checking it
    ctx.count_states(done)
    ctx.trace(done)
    for label, n in c.counts.items():
        ctx.outcomes[label] += n
