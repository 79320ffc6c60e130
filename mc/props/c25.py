"""
C25: the printed form of a type denotes the type.

All type expressions over an alphabet of simple types and type constructors up to a nesting depth; the text printed for the
type is evaluated, and the outcome is compared with the original by structure (with the order of members, types of literal
values and annotations, which the equality of types in Python disregards). Short names are checked to be distinct identifiers.
"""

from __future__ import annotations

import collections
import collections.abc
import enum
import itertools
import keyword
import re
import types
import typing
from typing import Any, Iterator, Optional

from world import drop_module, new_module

from strong_typing.inspection import is_type_union
from strong_typing.name import TypeFormatter, python_type_to_name, python_type_to_str

LEVEL = "model_checking"
BOUNDS = {
    "quick": "32 simple types, 10 auxiliary types, 14 literals; 19 unary and 9 binary type constructors (with 13 kinds of "
    "annotations); all expressions of depth 1, unary constructors over depth 1 (second operands from 8 types), binary constructors over 12 x 12 "
    "of depth 1, three unary constructors over 8 types; both union notations (printed and written), 4 ways to write names (classes, "
    "forward references, string expressions, transformed names)",
    "thorough": "as quick, unary constructors over all of depth 1, binary constructors over 60 x 60 of depth 1, unary over all of these",
}

SOURCE = """
from collections.abc import Callable as ABCCallable, Iterable, Mapping, Sequence
from collections import defaultdict, deque
from typing import Callable, ClassVar, Final, Generic, TypeVar, Type, Tuple, List, Dict, Set, FrozenSet, Self, ParamSpec
from strong_typing.auxiliary import CompactDataClass, typeannotation
from datetime import datetime, date, time, timedelta
from decimal import Decimal
from uuid import UUID
from ipaddress import IPv4Address, IPv6Address
S = TypeVar("S")
class P:
    pass
@dataclass
class Q:
    q: int
class R(Q):
    pass
class E(enum.Enum):
    A = "a"
    B = "b"
class F(enum.IntEnum):
    ONE = 1
    TWO = 2
class G(enum.Flag):
    R = 1
    W = 2
class TP(NamedTuple):
    x: int
class Box(Generic[S]):
    pass
@typeannotation
class Note:
    text: str
    inner: Any = None
@dataclass(repr=False)
class Remark(CompactDataClass):
    names: list
    count: int = 0
@dataclass(frozen=True)
class Plain:
    x: int
Other = P
Items = list[int]
MaybeQ = Optional[Q]
Key = datetime
class Secret:
    pass
Hidden = Secret
del Secret
"""

CLASSES = (
    "bool int float str bytes object complex datetime date time timedelta Decimal UUID IPv4Address IPv6Address "
    "P Q R E F G TP Note list dict set tuple type"
).split()
OTHER = ["None", "Any", "S", "Self"]
AUX = [f"{s}int{b}" for s in ("", "u") for b in (8, 16, 32, 64)] + ["float32", "float64"]
LITERALS = [
    "Literal['a']",
    "Literal['a', 'b']",
    "Literal['b', 'a']",
    "Literal[1]",
    "Literal[True]",
    "Literal[0, False]",
    "Literal[-1, 1]",
    "Literal[None, 'x']",
    "Literal[b'x']",
    "Literal['it\\'s', '\"', '\\n', '']",
    "Literal[E.A]",
    "Literal[E.B, 'a']",
    "Literal[F.ONE, 1]",
    "Literal[G.R]",
]
LEAVES = CLASSES + OTHER + AUX + LITERALS
METADATA = [
    "'note'",
    "1",
    "True",
    "Alias('x')",
    "Storage(4)",
    "Signed(True), Storage(1)",
    "Precision(5, 2)",
    "IntegerRange(-5, 5), 'n'",
    "Note('it\\'s')",
    "Note('a', Note('b')), Note('c', [1, 2])",
    "Remark(['n'], 2)",
    "Plain(x=1)",
    "['list'], {'k': 1}",
]
UNARY = [
    "list[{}]",
    "set[{}]",
    "frozenset[{}]",
    "type[{}]",
    "tuple[{}]",
    "tuple[{}, ...]",
    "Optional[{}]",
    "({}) | None",
    "None | ({})",
    "Iterable[{}]",
    "Callable[[], {}]",
    "Callable[[{}], None]",
    "Callable[..., {}]",
    "Box[{}]",
    "deque[{}]",
    "List[{}]",
    "Tuple[{}, ...]",
    "ABCCallable[[{}, int], str]",
    "Annotated[{}, 'note', Alias('x')]",
]
BINARY = [
    "dict[{}, {}]",
    "tuple[{}, {}]",
    "Union[{}, {}]",
    "Union[{}, {}, None]",
    "Union[None, {}, {}]",
    "({}) | ({})",
    "Callable[[{}], {}]",
    "Mapping[{}, {}]",
    "tuple[{}, {}, int]",
]
TOP = ["ClassVar[{}]", "Final[{}]"]
EXTRA = ["tuple[()]", "Callable[[], None]", "Callable[[int, str, bool], None]", "dict[str, dict[str, dict[str, list[int]]]]"]
REPS = ["int", "P", "int8", "Literal['a', 'b']", "None", "Any", "datetime", "E"]


def clear() -> None:
    "Makes the `typing` module forget about types, as it substitutes equal types that are written differently."
    for cleanup in typing._cleanups:  # type: ignore[attr-defined]
        cleanup()


def same(a: Any, b: Any) -> bool:
    "True if types have the same structure."

    if a is b:
        return True
    if isinstance(a, typing.ForwardRef) or isinstance(b, typing.ForwardRef):
        return False
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if (a is None or a is type(None)) and (b is None or b is type(None)):
        return True
    ma, mb = getattr(a, "__metadata__", None), getattr(b, "__metadata__", None)
    if ma is not None or mb is not None:
        return (
            ma is not None
            and mb is not None
            and len(ma) == len(mb)
            and all(type(x) is type(y) and x == y for x, y in zip(ma, mb))
            and same(a.__origin__, b.__origin__)
        )
    oa, ob = typing.get_origin(a), typing.get_origin(b)
    if oa is None or ob is None:
        return False
    if is_union(oa) != is_union(ob) or (oa is not ob and not is_union(oa)):
        return False
    aa, ab = typing.get_args(a), typing.get_args(b)
    if len(aa) != len(ab):
        return False
    if oa is typing.Literal:
        return all(type(x) is type(y) and x == y for x, y in zip(aa, ab))
    if is_union(oa) and len(aa) == 2:
        # `Optional[X]` does not say whether `None` comes first
        aa, ab = (sorted(args, key=lambda t: t is type(None)) if type(None) in args else args for args in (aa, ab))
    return all(map(same, aa, ab))


def is_union(origin: Any) -> bool:
    return origin is typing.Union or origin is types.UnionType


class Space:
    "A module in which expressions are evaluated, and the transformations of names."

    def __init__(self) -> None:
        self.module = new_module(SOURCE)
        self.names = self.module.__dict__
        for name in set(collections.abc.__all__) & {"Iterable", "Mapping", "Sequence"}:
            self.names[name] = getattr(collections.abc, name)
        # names that stand for classes and values in transformed text
        self.codes: dict[Any, str] = {}
        self.marked: dict[str, Any] = {k: v for k, v in self.names.items() if k not in CLASSES}
        for name in ("list", "dict", "set", "tuple", "type", "frozenset"):
            self.marked[name] = Origin(getattr(typing, {"frozenset": "FrozenSet"}.get(name, name.capitalize())))
        self.marked["int"] = self.marked["str"] = None
        for name in CLASSES:
            cls = self.builtin(name)
            self.codes[cls] = f"__class_{name}"
            self.marked[f"__class_{name}"] = cls
            if name not in ("list", "dict", "set", "tuple", "type"):
                self.marked[name] = None
        for name in ("E", "F", "G", "Note"):
            self.marked[name] = None
        # a class that is not known by its own name
        self.codes[self.names["Hidden"]] = "__class_Hidden"
        self.marked["__class_Hidden"] = self.names["Hidden"]
        self.values: dict[str, Any] = {}

    def builtin(self, name: str) -> Any:
        return self.names.get(name) or __builtins__[name]  # type: ignore[index]

    def mark_type(self, typ: type) -> str:
        return self.codes[typ] if typ in self.codes else typ.__name__

    def mark_value(self, value: Any) -> str:
        code = f"__value_{type(value).__name__}_" + re.sub(r"\W", lambda m: f"_{ord(m[0])}_", str(value))
        self.marked[code] = value
        return code

    def evaluate(self, text: str, marked: bool = False) -> Any:
        clear()
        return eval(compile(text, "<type>", "eval", dont_inherit=True), self.marked if marked else self.names)


class Origin:
    "Allows subscription but no use as a type on its own."

    def __init__(self, origin: Any) -> None:
        self.origin = origin

    def __getitem__(self, args: Any) -> Any:
        return typing.get_origin(self.origin)[args]


def valid(space: Space, text: str) -> Optional[Any]:
    try:
        return space.evaluate(text)
    except TypeError:
        return None  # not a legal expression, such as `None | None`


def check(space: Space, text: str, typ: Any, ctx: Any, *, forward: str = "") -> None:
    "Checks all ways to print a type."

    ctx.trace()
    case = dict(expression=forward or text)
    formats = {
        "function": lambda t, op: python_type_to_str(t, use_union_operator=op),
        "formatter": lambda t, op: TypeFormatter(use_union_operator=op).python_type_to_str(t),
        "context": lambda t, op: TypeFormatter(context=space.module, use_union_operator=op).python_type_to_str(t),
        "transform": lambda t, op: TypeFormatter(
            context=space.module, type_transform=space.mark_type, value_transform=space.mark_value, use_union_operator=op
        ).python_type_to_str(t),
    }
    source = typ
    if forward:
        source = space.evaluate(forward)
        if forward.count("'!") or forward.count('"!'):
            raise AssertionError
    for way, fmt in formats.items():
        if way == "transform" and ("Annotated" in text or "Note" in text):
            continue  # metadata isn't transformed
        if forward and EXPRESSION.search(forward) and way in ("function", "formatter"):
            continue  # an expression that needs a context to be evaluated
        outputs = []
        for op in (False, True):
            ctx.step()
            try:
                printed = fmt(source, op)
            except Exception as ex:
                ctx.violation(f"type cannot be printed: {type(ex).__name__}: {ex}", way=way, operator=op, **case)
                continue
            outputs.append(printed)
            try:
                back = space.evaluate(printed, way == "transform")
            except Exception as ex:
                ctx.violation(f"text is not an expression: {ex}", way=way, operator=op, text=printed, **case)
                continue
            if not same(back, typ):
                ctx.violation("text denotes another type", way=way, operator=op, text=printed, found=repr(back), **case)
            if op and ("Optional[" in printed or "Union[" in printed):
                ctx.violation("union is not printed with the operator", way=way, text=printed, **case)
            if not op and " | " in printed:
                ctx.violation("union is printed with the operator", way=way, text=printed, **case)
        ctx.outcome("same in both notations" if len(set(outputs)) == 1 else "different")


EXPRESSION = re.compile(r"""(["'])[^"']*\W[^"']*\1""")


def depth1(part: str, second: list[str] = LEAVES) -> Iterator[str]:
    "Expressions of depth one."
    if part == "unary":
        for c in UNARY + TOP:
            for x in LEAVES:
                yield c.format(x)
        yield from EXTRA
    elif part == "annotated":
        for x in LEAVES:
            for m in METADATA:
                yield f"Annotated[{x}, {m}]"
        for x in AUX:
            for m in METADATA:
                yield f"Annotated[Annotated[{x}, {m}], 'more']"
                yield f"Optional[Annotated[{x}, {m}]]"
    elif part == "leaves":
        yield from LEAVES
    else:
        for x in LEAVES:
            for y in second:
                yield part.format(x, y)


def representatives(n: int) -> list[str]:
    every = [c.format(x) for c in UNARY for x in REPS] + [c.format(x, y) for c in BINARY for x, y in itertools.permutations(REPS, 2)]
    return every[:: max(1, len(every) // n)]


def tasks(tier: str) -> list[Any]:
    t: list[Any] = [["one", p] for p in ["leaves", "unary", "annotated"]]
    t += [["one", b] for b in BINARY]
    t += [["two", u, p] for u in UNARY for p in ["unary", "annotated", *BINARY]]
    t += [["pairs", b, 12 if tier == "quick" else 60] for b in BINARY]
    t += [["three", u] for u in UNARY]
    if tier == "thorough":
        t += [["pairs over", u, b, 40] for u in UNARY for b in BINARY]
    t += [["forward", way] for way in ("name", "expression")]
    t += [["name"], ["invalid"]]
    return t


def explore(space: Space, expressions: Iterator[str], ctx: Any) -> None:
    for text in expressions:
        typ = valid(space, text)
        if typ is None and text != "None":
            ctx.outcome("not a type expression")
            continue
        ctx.state(text)
        check(space, text, typ, ctx)
        if len(ctx.samples) < 1:
            ctx.sample(dict(expression=text, text=python_type_to_str(typ)))


def forward_references(space: Space, way: str, ctx: Any) -> None:
    names = ["P", "Q", "E", "datetime", "Other", "Items", "MaybeQ", "Key", "Hidden", "int"] if way == "name" else ["Optional[P]", "Optional[Other]", "dict[str, Items]", "list[Q]", "Union[P, Q]", "P | None", "dict[str, E]"]
    outer = UNARY + [b.format("{}", "int") for b in BINARY] + [b.format("int", "{}") for b in BINARY]
    outer = [o for o in outer if "|" not in o] + ["Annotated[{}, Note('x')]"]
    for o in outer:
        for i in ["{}"] + [u for u in UNARY if "|" not in u]:
            for n in names:
                pattern = o.format(i)
                text, forward = pattern.format(n), pattern.format(repr(n))
                typ = valid(space, text)
                if typ is None or valid(space, forward) is None:
                    ctx.outcome("not a type expression")
                    continue
                ctx.state(forward)
                check(space, text, typ, ctx, forward=forward)


def short_names(space: Space, ctx: Any) -> None:
    simple = [x for x in CLASSES + AUX if x not in ("type",)] + ["type(None)", "Any", "S", "Self"]
    unary = ["list[{}]", "set[{}]", "frozenset[{}]", "type[{}]", "tuple[{}]", "Optional[{}]"]
    binary = ["dict[{}, {}]", "tuple[{}, {}]", "Union[{}, {}]", "Union[{}, {}, None]"]
    known: dict[str, list[Any]] = {}

    def name_of(text: str, typ: Any, force: bool, composite: bool) -> Optional[str]:
        ctx.state(text, force)
        ctx.step()
        ctx.trace()
        try:
            name = python_type_to_name(typ, force=force)
        except TypeError:
            if not composite or force:
                ctx.violation("type has no name", expression=text, force=force)
            ctx.outcome("refused")
            return None
        except Exception as ex:
            ctx.violation(f"name of type fails with {type(ex).__name__}: {ex}", expression=text, force=force)
            return None
        if composite and not force:
            ctx.violation("composite type has a name without being forced", expression=text, name=name)
            return name
        if not isinstance(name, str) or not name.isidentifier() or keyword.iskeyword(name):
            ctx.violation("name is not an identifier", expression=text, force=force, name=name)
        ctx.outcome("named")
        return name

    def distinct(text: str, typ: Any, name: Optional[str]) -> None:
        if name is None:
            return
        bucket = known.setdefault(name, [])
        if not any(same(typ, t) for t in bucket):
            bucket.append(typ)
            if len(bucket) > 1:
                ctx.violation("name stands for several types", name=name, types=[repr(t) for t in bucket])

    expressions = [(s, False) for s in simple]
    expressions += [(u.format(s), True) for u in unary for s in simple]
    expressions += [(b.format(x, y), True) for b in binary for x in simple for y in simple]
    for text, composite in expressions:
        typ = valid(space, text)
        if typ is None:
            continue
        origin = typing.get_origin(typ)
        nested = origin is not None and getattr(typ, "__metadata__", None) is None
        for force in (False, True):
            name = name_of(text, typ, force, nested)
            if force or not nested:
                distinct(text, typ, name)
            for metadata in ("'note'", "Note('a'), Alias('b')", "['list']"):
                annotated = space.evaluate(f"Annotated[({text}), {metadata}]")
                if any(same(annotated, space.names[a]) for a in AUX):
                    continue
                other = name_of(f"Annotated[{text}, {metadata}]", annotated, force, nested)
                if not any(same(typ, space.names[a]) for a in AUX) and name is not None and other is not None and name != other:
                    ctx.violation("annotation changes the name", expression=text, metadata=metadata, names=[name, other])


def invalid(ctx: Any) -> None:
    for value in (0, 23, False, True, 1.5, b"x", object(), (1, 2), {}, enum):
        for op in (False, True):
            ctx.state(repr(type(value)), repr(value)[:20], op)
            ctx.step()
            ctx.trace()
            try:
                text = python_type_to_str(value, use_union_operator=op)  # type: ignore[arg-type]
                ctx.violation("object that is not a type is printed", value=value, text=text)
            except (ValueError, TypeError):
                ctx.outcome("not a type")
            except Exception as ex:
                ctx.violation(f"object that is not a type fails with {type(ex).__name__}: {ex}", value=value)


def run(task: Any, ctx: Any) -> None:
    space = Space()
    assert is_type_union(typing.Union[int, str])
    try:
        kind = task[0]
        if kind == "one":
            explore(space, depth1(task[1]), ctx)
        elif kind == "two":
            explore(space, (task[1].format(x) for x in depth1(task[2], LEAVES if ctx.thorough else REPS) if not x.startswith(("ClassVar", "Final"))), ctx)
        elif kind == "pairs":
            reps = representatives(task[2])
            explore(space, (task[1].format(x, y) for x in reps for y in reps), ctx)
        elif kind == "pairs over":
            reps = representatives(task[3])
            explore(space, (task[1].format(task[2].format(x, y)) for x in reps for y in reps), ctx)
        elif kind == "three":
            explore(space, (task[1].format(b.format(c.format(x))) for b in UNARY for c in UNARY for x in REPS), ctx)
        elif kind == "forward":
            forward_references(space, task[1], ctx)
        elif kind == "name":
            short_names(space, ctx)
        else:
            invalid(ctx)
    finally:
        drop_module(space.module)
