"""
C26: type inspection is exact and unaffected by annotations.

Type expressions are built from a syntax tree; the reference answers every predicate from the tree. All trees over the alphabet
are enumerated, in every notation of unions, with zero to two layers of annotations at the top and inside.
"""

from __future__ import annotations

import dataclasses
import itertools
import typing
from typing import Any, Iterator

from world import drop_module, evaluate, new_module

from strong_typing import inspection as ins

from .c25 import clear, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "30 simple types and literals, 10 type constructors, unions of 2 and 3 members in 8 notations, all trees of depth 1 and "
    "all unary over those of depth 1, 3 annotations at most in two layers, at the top and inside; 9 objects that are not types; "
    "all classes of 6 kinds with up to 3 members of 6 types, two levels of inheritance, plain and postponed annotations; classes of 35 base classes x 20 bodies x 5 decorators that resemble named tuples, data classes and enumerations; all classes of up to 3 members with names of 10 that are easily mistaken; unions, literals, classes and annotations of up to 100 members",
    "thorough": "as quick, binary constructors and unions of three over all of 40 trees of depth 1",
}

SOURCE = """
import abc, collections
class P:
    a: int
class Empty:
    pass
@dataclass
class Q:
    q: int
@dataclass(frozen=True)
class QF:
    q: int
@dataclass(slots=True)
class QS:
    q: int
class R(Q):
    pass
@dataclass
class RQ(Q):
    r: str = ""
class E(enum.Enum):
    A = "a"
    B = "b"
class F(enum.IntEnum):
    ONE = 1
class G(enum.Flag):
    R = 1
class H(str, enum.Enum):
    X = "x"
class M(enum.Enum):
    pass
class TP(NamedTuple):
    x: int
    y: str = ""
CT = collections.namedtuple("CT", "x y")
ET = collections.namedtuple("ET", "")
class Tup(tuple):
    pass
class TupF(tuple):
    _fields = ["x"]
class TupN(tuple):
    _fields = (1, 2)
class Fields:
    _fields = ("x",)
class L(list):
    pass
class DD(dict):
    pass
class NoteA:
    def __init__(self, value):
        self.value = value
    def __eq__(self, other):
        return type(self) is type(other) and self.value == other.value
    def __hash__(self):
        return hash(self.value)
class NoteB(NoteA):
    pass
class NoteC:
    __hash__ = None
n1 = NoteA(1)
n2 = NoteB(2)
n3 = NoteC()
"""

PLAIN = "bool int str bytes datetime.datetime decimal.Decimal uuid.UUID Any object list dict set tuple P Empty Tup TupF TupN Fields L DD".split()
DATACLASSES = "Q QF QS R RQ".split()
ENUMS = "E F G H M".split()
TUPLES = "TP CT ET".split()
LITERALS = [["'a'"], ["1", "2"], ["True", "1"], ["E.A"], ["None"], ["b'x'", "'x'", "0"]]
NONE = ("none",)

Node = Any  # ("leaf", text) | ("none",) | ("literal", ...) | (constructor, Node...) | ("union", notation, Node...)


def leaves() -> list[Node]:
    return [("leaf", t) for t in PLAIN + DATACLASSES + ENUMS + TUPLES] + [("literal", *lit) for lit in LITERALS]


REPS: list[Node] = [("leaf", t) for t in ("int", "str", "Q", "E", "TP", "Any")] + [("literal", "'a'", "'b'")]
CONSTRUCT = {
    "list": "list[{}]",
    "set": "set[{}]",
    "frozenset": "frozenset[{}]",
    "tuple": "tuple[{}]",
    "tuple...": "tuple[{}, ...]",
    "type": "type[{}]",
    "List": "typing.List[{}]",
    "Set": "typing.Set[{}]",
    "dict": "dict[{}, {}]",
    "Dict": "typing.Dict[{}, {}]",
    "pair": "tuple[{}, {}]",
}
BINARY = ["dict", "Dict", "pair"]
UNARY = [c for c in CONSTRUCT if c not in BINARY]
NOTATIONS = ["Union", "|", "Optional", "|None", "None|", "Union-None", "None-Union", "Union-None-mid"]


def text(node: Node) -> str:
    kind = node[0]
    if kind == "leaf":
        return node[1]
    if kind == "none":
        return "None"
    if kind == "literal":
        return f"Literal[{', '.join(node[1:])}]"
    if kind == "ann":
        return f"Annotated[{text(node[1])}, {', '.join(node[2:])}]"
    if kind == "union":
        members = [text(n) for n in node[2:]]
        return {
            "Union": "Union[{}]".format(", ".join(members)),
            "|": " | ".join(f"({m})" for m in members),
            "Optional": "Optional[Union[{}]]".format(", ".join(members)),
            "|None": " | ".join(f"({m})" for m in members) + " | None",
            "None|": "None | " + " | ".join(f"({m})" for m in members),
            "Union-None": "Union[{}, None]".format(", ".join(members)),
            "None-Union": "Union[None, {}]".format(", ".join(members)),
            "Union-None-mid": "Union[{}, None, {}]".format(members[0], ", ".join(members[1:] or members)),
        }[node[1]]
    return CONSTRUCT[kind].format(*map(text, node[1:]))


def members(node: Node) -> list[Node]:
    "Members of a union, with nested unions flattened."

    notation, parts = node[1], node[2:]
    if notation in ("Optional", "|None", "Union-None"):
        parts = (*parts, NONE)
    elif notation in ("None|", "None-Union"):
        parts = (NONE, *parts)
    elif notation == "Union-None-mid":
        parts = (parts[0], NONE, *parts[1:])
    flat: list[Node] = []
    for p in parts:
        flat.extend(members(p) if p[0] == "union" else [p])
    return list(dict.fromkeys(flat))


def strip(node: Node) -> tuple[Node, list[str]]:
    "Removes annotations at the top."

    notes: list[str] = []
    while node[0] == "ann":
        notes = [*node[2:], *notes]
        node = node[1]
    return node, notes


def equal(node: Node) -> Node:
    "Representative of all nodes that denote an equal type."

    if node[0] == "union":
        flat = list(dict.fromkeys(map(equal, members(node))))
        return flat[0] if len(flat) == 1 else ("union", "Union", *sorted(flat, key=repr))
    if node[0] in ("leaf", "none"):
        return node
    if node[0] == "literal":
        return node
    if node[0] == "ann":
        inner, notes = strip(node)
        return ("ann", equal(inner), *notes)
    return ({"List": "list", "Set": "set", "Dict": "dict"}.get(node[0], node[0]), *map(equal, node[1:]))


def layers(node: Node) -> Iterator[Node]:
    yield node
    for notes in (["n1"], ["n2"], ["n3"], ["n1", "n2"], ["'s'", "n2", "n1"]):
        yield ("ann", node, *notes)
    yield ("ann", ("ann", node, "n2"), "n1")
    yield ("ann", ("ann", node, "n3", "'s'"), "n2", "n3")


def unions(nodes: list[Node], width: int) -> Iterator[Node]:
    for n in NOTATIONS:
        for parts in itertools.permutations(nodes, width):
            yield ("union", n, *parts)


class Checker:
    def __init__(self, ctx: Any) -> None:
        self.ctx = ctx
        self.module = new_module(SOURCE)
        self.note = {k: self.module.__dict__[k] for k in ("n1", "n2", "n3")}
        self.note["'s'"] = "s"
        self.note.update({str(i): i for i in range(101)})

    def build(self, node: Node) -> Any:
        clear()
        return evaluate(self.module, text(node))

    def expect(self, function: str, expression: str, typ: Any, expected: Any, *args: Any, **kwargs: Any) -> None:
        ctx = self.ctx
        ctx.step()
        try:
            found = getattr(ins, function)(typ, *args, **kwargs)
        except Exception as ex:
            if expected is TypeError and isinstance(ex, TypeError):
                return
            ctx.violation(f"{function} fails with {type(ex).__name__}: {ex}", expression=expression)
            return
        if expected is TypeError:
            ctx.violation(f"{function} accepts a type of another form", expression=expression, found=found)
        elif isinstance(expected, bool):
            if found is not expected:
                ctx.violation(f"{function} gives a wrong answer", expression=expression, found=found, args=args, kwargs=kwargs)
        elif isinstance(expected, tuple):
            if not (isinstance(found, tuple) and len(found) == len(expected) and all(map(same_or_equal, found, expected))):
                ctx.violation(f"{function} gives other types", expression=expression, found=found, expected=expected)
        elif not same_or_equal(found, expected):
            ctx.violation(f"{function} gives another type", expression=expression, found=found, expected=expected)

    def check(self, node: Node) -> None:
        ctx = self.ctx
        node_text = text(node)
        try:
            typ = self.build(node)
        except TypeError:
            ctx.outcome("not a type expression")
            return
        ctx.state(node_text)
        ctx.trace()
        inner, notes = strip(node)
        kind = inner[0]
        parts: list[Node] = []
        if kind == "union":
            try:
                parts = members(inner)
            except TypeError:
                return
            reduced = list(dict.fromkeys(map(equal, parts)))
            if len(reduced) != len(parts) or len(reduced) < 2:
                # members that are equal are removed
                ctx.outcome("equal members")
                return
        optional = kind == "union" and NONE in parts
        strict = optional and len(parts) == 2
        union = kind == "union" and not strict
        leaf = inner[1] if kind == "leaf" else ""
        ctx.outcome(kind)

        e = self.expect
        e("is_type_optional", node_text, typ, optional)
        e("is_type_optional", node_text, typ, strict, strict=True)
        e("is_type_optional", node_text, typ, optional, strict=False)
        e("is_type_union", node_text, typ, union)
        e("is_type_enum", node_text, typ, leaf in ENUMS)
        e("is_type_literal", node_text, typ, kind == "literal")
        e("is_generic_list", node_text, typ, kind in ("list", "List"))
        e("is_generic_set", node_text, typ, kind in ("set", "Set"))
        e("is_generic_dict", node_text, typ, kind in ("dict", "Dict"))
        e("is_dataclass_type", node_text, typ, leaf in DATACLASSES)
        e("is_named_tuple_type", node_text, typ, leaf in TUPLES)
        e("is_type_annotated", node_text, typ, bool(notes))
        e("is_type_like", node_text, typ, True)
        e("is_dataclass_instance", node_text, typ, False)
        e("is_named_tuple_instance", node_text, typ, False)

        # constituent types; annotations stay with a single constituent
        def wrapped(part: Node) -> Any:
            return self.build(("ann", part, *notes) if notes else part)

        if optional:
            rest = [p for p in parts if p != NONE]
            e("unwrap_optional_type", node_text, typ, wrapped(rest[0] if len(rest) == 1 else ("union", "Union", *rest)))
        elif kind != "union":
            e("unwrap_optional_type", node_text, typ, TypeError)
        if kind == "union":
            e("unwrap_union_types", node_text, typ, tuple(self.build_member(p) for p in parts))
        else:
            e("unwrap_union_types", node_text, typ, TypeError)
        if kind in ("list", "List"):
            e("unwrap_generic_list", node_text, typ, wrapped(inner[1]))
        if kind in ("set", "Set"):
            e("unwrap_generic_set", node_text, typ, wrapped(inner[1]))
        if kind in ("dict", "Dict"):
            e("unwrap_generic_dict", node_text, typ, (self.build_member(inner[1]), self.build_member(inner[2])))
        if kind == "literal":
            values = tuple(evaluate(self.module, v) for v in inner[1:])
            e("unwrap_literal_values", node_text, typ, values)
            e("unwrap_literal_types", node_text, typ, tuple(type(v) for v in values))
            e("unwrap_literal_value", node_text, typ, values[0] if len(values) == 1 else TypeError)
        e("unwrap_annotated_type", node_text, typ, self.build_member(inner))

        # annotations by class
        values = [self.note[n] for n in notes]
        for cls in (self.module.NoteA, self.module.NoteB, self.module.NoteC, str, int, object):
            first = next((v for v in values if isinstance(v, cls)), None)
            ctx.step()
            found = ins.get_annotation(typ, cls)
            if found is not first:
                ctx.violation("get_annotation finds another annotation", expression=node_text, annotation=cls.__name__, found=found)
        ctx.step()
        seen: list[Any] = []
        replaced = ins.rewrap_annotated_type(lambda t: seen.append(t) or dict[str, t], typ)  # type: ignore
        if len(seen) != 1 or not same_or_equal(seen[0], self.build_member(inner)):
            ctx.violation("transformation is not applied to the wrapped type", expression=node_text, found=seen)
        elif not same_or_equal(replaced, typing.Annotated[(dict[str, seen[0]], *values)] if notes else dict[str, seen[0]]):
            ctx.violation("annotations are not restored", expression=node_text, found=replaced)

    def build_member(self, node: Node) -> Any:
        typ = self.build(node)
        return type(None) if typ is None else typ

    def not_types(self) -> None:
        m = self.module
        objects: dict[str, Any] = {
            "None": None,
            "5": 5,
            "'x'": "x",
            "[]": [],
            "{}": {},
            "set()": set(),
            "(1,)": (1,),
            "E.A": m.E.A,
            "F.ONE": m.F.ONE,
            "Q(1)": m.Q(1),
            "RQ(1)": m.RQ(1),
            "QS(1)": m.QS(1),
            "TP(1)": m.TP(1),
            "CT(1, 2)": m.CT(1, 2),
            "ET()": m.ET(),
            "P()": m.P(),
            "Tup()": m.Tup(),
            "TupN()": m.TupN(),
            "Fields()": m.Fields(),
        }
        for name, obj in objects.items():
            self.ctx.state(name)
            self.ctx.trace()
            for function in (
                "is_type_optional is_type_union is_type_enum is_type_literal is_generic_list is_generic_set is_generic_dict "
                "is_dataclass_type is_named_tuple_type is_type_annotated is_type_like"
            ).split():
                self.expect(function, name, obj, False)
            self.expect("is_dataclass_instance", name, obj, name.split("(")[0] in DATACLASSES)
            self.expect("is_named_tuple_instance", name, obj, name.split("(")[0] in TUPLES)


def same_or_equal(a: Any, b: Any) -> bool:
    if same(a, b):
        return True
    return type(a) is type(b) and not isinstance(a, type) and typing.get_origin(a) is None and a == b


# ---------------------------------------------------------------------------------------------------------------------
# members of classes

MEMBERS = ["int", "Optional[str]", "list[P]", "Annotated[int, n1]", "Union[E, None, Q]", "Literal['a']"]
KINDS = {
    "dataclass": "@dataclass\nclass {name}{bases}:\n{body}\n",
    "frozen": "@dataclass(frozen=True)\nclass {name}{bases}:\n{body}\n",
    "slots": "@dataclass(slots=True)\nclass {name}{bases}:\n{body}\n",
    "kw_only": "@dataclass(kw_only=True)\nclass {name}{bases}:\n{body}\n",
    "plain": "class {name}{bases}:\n{body}\n",
    "namedtuple": "class {name}(NamedTuple):\n{body}\n",
}


# names of members that are easily mistaken for each other
ODD_NAMES = ["m_", "m", "M", "in_", "m__", "_m", "items", "\u00e9", "mm", "Own"]


def odd_properties(kind: str, future: bool, ctx: Any) -> None:
    for n in (1, 2, 3):
        for names in itertools.permutations(ODD_NAMES, n):
            if kind == "namedtuple" and "_m" in names or n == 3 and not ({"m_", "in_", "M"} & set(names[:2])):
                continue
            shape = tuple((i * 2 + n) % 5 + 1 for i in range(n))
            lines = [f"    {n}: {MEMBERS[t]}\n" for n, t in zip(names, shape)]
            # class variables are not members
            places: list[list[str]] = [lines]
            if kind != "namedtuple" and n < 3:
                for v in ("    V: typing.ClassVar[int] = 3\n", "    V: typing.ClassVar = 3\n", "    V: typing.ClassVar[Optional[str]]\n"):
                    places += [[*lines[:i], v, *lines[i:]] for i in range(n + 1)]
            for body in places:
                source = KINDS[kind].format(name="Own", bases="", body="".join(body))
                space = new_module(SOURCE + source, future=future)
                try:
                    members_of(space, kind, list(names), shape, ctx, dict(kind=kind, postponed=future, source=source))
                finally:
                    drop_module(space)


def properties(kind: str, future: bool, ctx: Any) -> None:
    odd_properties(kind, future, ctx)
    shapes = [s for n in range(4) for s in itertools.product(range(6), repeat=n) if n < 3 or len(set(s)) == 3]
    shapes += [tuple((i * 5 + i // 6) % 6 for i in range(n)) for n in WIDE]
    for split in (0, 1, 2, 3, 9, 40):
        for shape in shapes:
            if split > len(shape) or split > 3 and len(shape) < 4 or (split and kind == "namedtuple"):
                continue
            source = ""
            names = [f"m{i}" for i in range(len(shape))]
            base, own = list(zip(names, shape))[:split], list(zip(names, shape))[split:]
            for name, part, bases in (("Base", base, ""), ("Own", own, "(Base)" if split else "")):
                body = "".join(f"    {n}: {MEMBERS[t]}\n" for n, t in part) or "    pass\n"
                source += KINDS[kind].format(name=name, bases=bases, body=body)
            space = new_module(SOURCE + source, future=future)
            try:
                members_of(space, kind, names, shape, ctx, dict(kind=kind, postponed=future, source=source))
            finally:
                drop_module(space)


def members_of(space: Any, kind: str, names: list[str], shape: Any, ctx: Any, case: Any) -> None:
    expected = {n: evaluate(space, MEMBERS[t]) for n, t in zip(names, shape)}
    ctx.state(tuple(sorted(case.items())))
    ctx.trace()
    ctx.step(2)
    cls = space.Own
    found = dict(ins.get_class_properties(cls))
    ordered = kind not in ("plain",)
    if set(found) != set(expected) or (ordered and list(found) != list(expected)):
        ctx.violation("other properties are listed", found=list(found), expected=list(expected), **case)
        return
    for n, t in expected.items():
        ctx.step()
        one = ins.get_class_property(cls, n)
        if not same(found[n], t):
            ctx.violation("property has another type", property=n, found=found[n], expected=t, **case)
        if not same(one, t):
            ctx.violation("looked up property has another type", property=n, found=one, expected=t, **case)
    for n in ["missing", "M0", "m00", "", "in", "m0_", "_m0", *(n for n in ODD_NAMES if n not in expected)]:
        ctx.step()
        if ins.get_class_property(cls, n) is not None:
            ctx.violation("property is found that does not exist", property=n, **case)
    if kind in ("plain", "namedtuple"):
        ctx.outcome("properties")
        return
    fields = list(ins.dataclass_fields(cls))
    if [f.name for f in fields] != list(expected):
        ctx.violation("other fields are listed", found=[f.name for f in fields], expected=list(expected), **case)
        return
    defaults = {f.name: f.default for f in dataclasses.fields(cls)}
    for f in fields:
        ctx.step()
        if any(d.default is not defaults[f.name] for d in (f, ins.dataclass_field_by_name(cls, f.name))):
            ctx.violation("field has another default value", property=f.name, expected=defaults[f.name], found=f, **case)
        if not same(f.type, expected[f.name]):
            ctx.violation("field has another type", property=f.name, found=f.type, **case)
        one = ins.dataclass_field_by_name(cls, f.name)
        if one.name != f.name or not same(one.type, expected[f.name]):
            ctx.violation("looked up field has another type", property=f.name, found=one, **case)
    for n in ["missing", "M0", "m00", "", "in", "m0_", "_m0", *(n for n in ODD_NAMES if n not in expected)]:
        ctx.step()
        try:
            ins.dataclass_field_by_name(cls, n)
            ctx.violation("field is found that does not exist", property=n, **case)
        except LookupError:
            pass
        except Exception as ex:
            ctx.violation(f"looking up a field fails with {type(ex).__name__}: {ex}", property=n, **case)
    ctx.outcome("fields")


WIDE = [4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100]


def wide() -> Iterator[Node]:
    "Unions of many members, literals of many values, many annotations and layers of annotations."
    members = [n for n in leaves() if n[0] != "literal" and n != ("leaf", "Any")]
    members += [("list", m) for m in members] + [("dict", ("leaf", "str"), m) for m in members] + [("tuple", m) for m in members]
    for n in WIDE:
        for notation in NOTATIONS:
            yield ("union", notation, *members[:n])
            yield ("union", notation, *members[n : 2 * n][::-1])
        literal = ("literal", *(f"'v{i}'" for i in range(n)))
        yield literal
        yield ("literal", *(str(i) if i % 2 else f"'{i}'" for i in range(n)))
        for inner in (("leaf", "int"), ("leaf", "Q"), ("list", ("leaf", "Q")), literal, ("union", "Union", *members[:n]), ("union", "|None", *members[:n])):
            for x in ("list", "tuple...", "type"):
                if x != "type" or inner[0] == "leaf":
                    yield (x, inner)
            yield ("ann", inner, *("n1" if i == n // 2 else "n2" if i == n - 1 else str(i) for i in range(n)))
            if n <= 33:
                layers_: Node = inner
                for i in range(n):
                    layers_ = ("ann", layers_, "n1" if i == n // 2 else str(i))
                yield layers_
                deep: Node = inner
                for i in range(n):
                    deep = (("list", "tuple...", "set", "List")[i % 4], deep)
                yield deep


def depth1() -> list[Node]:
    ls = leaves()
    return [(c, x) for c in UNARY for x in ls] + [(c, x, y) for c in BINARY for x in REPS for y in REPS]


def depth1_reps() -> list[Node]:
    return (
        [(c, x) for c in UNARY for x in REPS[:3]]
        + [("dict", REPS[1], x) for x in REPS[:3]]
        + [("union", n, REPS[0], REPS[1]) for n in ("Union", "|", "|None", "Union-None-mid")]
        + [("union", n, REPS[2]) for n in ("Optional", "None|")]
        + [("ann", x, "n1") for x in REPS]
        + [("ann", ("ann", x, "n1"), "n2") for x in REPS[:3]]
    )


def tasks(tier: str) -> list[Any]:
    t: list[Any] = [["leaves"], ["depth1"], ["not types"], ["wide"], ["class kinds"]]
    t += [["unions", w, n] for w in (1, 2) for n in range(len(NOTATIONS))]
    t += [["unions3", n] for n in range(len(NOTATIONS))]
    t += [["over", c] for c in UNARY + BINARY]
    t += [["unions over", n] for n in range(len(NOTATIONS))]
    if tier == "thorough":
        t += [["unions3 over", n] for n in range(len(NOTATIONS))]
    t += [["properties", k, f] for k in KINDS for f in (False, True)]
    return t


# classes that resemble data classes, named tuples and enumerations
CLASS_BASES = {
    "": "", "tuple": "tuple", "tuple, Mix": "", "Mix, tuple": "", "tuple[int, str]": "tuple", "typing.Tuple[int]": "", "TP": "",
    "CT": "", "ET": "", "Tup": "", "TupF": "", "list": "", "int": "", "str": "", "Mix": "", "Q": "dataclass", "R": "dataclass",
    "Q, Mix": "dataclass", "Mix, Q": "dataclass", "QF": "dataclass", "QS": "dataclass", "RQ": "dataclass", "M": "enum", "enum.Enum": "enum",
    "enum.IntFlag": "enum", "str, enum.Enum": "enum", "Mix, enum.Enum": "enum", "int, M": "enum", "typing.Generic[T]": "", "abc.ABC": "",
    "typing.Protocol": "", "Exception": "", "tuple, typing.Generic[T]": "", "Q, tuple": "dataclass", "tuple, Q": "dataclass",
}
CLASS_FIELDS = {
    "pass": None, "_fields = ()": True, "_fields = ('a',)": True, "_fields = ('a', 'b')": True, "_fields = ['a']": False,
    "_fields = []": False, "_fields = (1,)": False, "_fields = ('a', 1)": False, "_fields = (1, 'a')": False, "_fields = 'a'": False,
    "_fields = None": False, "_fields = {'a': 1}": False, "_field = ('a',)": None, "fields = ('a',)": None,
    "_fields = TP._fields": True, "a: int; _fields = ('a',)": True, "__match_args__ = ('a',)": None, "_fields = (b'a',)": False,
    "__slots__ = ()": None, "__annotations__ = {'a': int}": None,
}
CLASS_DECORATORS = {"": "", "@dataclass": "dataclass", "@dataclass(frozen=True)": "dataclass", "@functools.total_ordering": "", "@typing.final": ""}


def class_kinds(ctx: Any) -> None:
    m = new_module("import functools\nT = typing.TypeVar('T')\nclass Mix:\n    def __lt__(self, other): return False\n" + SOURCE)
    made = 0
    checks = ("is_dataclass_type", "is_named_tuple_type", "is_type_enum")
    try:
        for bases, fields, decorator in itertools.product(CLASS_BASES, CLASS_FIELDS, CLASS_DECORATORS):
            source = f"{decorator}\nclass Kind({bases}):\n    {fields}\n"
            if CLASS_BASES[bases] == "enum" and (decorator or "__" in fields or ":" in fields):
                continue
            try:
                exec(source, m.__dict__)
            except (TypeError, ValueError):
                continue  # no such class in Python
            made += 1
            kinds = {CLASS_BASES[bases], CLASS_DECORATORS[decorator]}
            expected = ("dataclass" in kinds, "tuple" in kinds and CLASS_FIELDS[fields] is True, "enum" in kinds)
            cls = m.Kind
            forms = {"": cls, "Annotated": typing.Annotated[cls, 1], "Annotated twice": typing.Annotated[typing.Annotated[cls, m.n1], m.n3]}
            for form, typ in forms.items():
                ctx.state((source, form))
                ctx.trace()
                for check, truth in zip(checks, expected):
                    ctx.step()
                    found = getattr(ins, check)(typ)
                    if found is not truth:
                        ctx.violation(f"{check} finds another answer", class_=source, form=form, found=found, expected=truth)
                for check in (
                    "is_type_optional is_type_union is_type_literal is_generic_list is_generic_set is_generic_dict is_dataclass_instance "
                    "is_named_tuple_instance"
                ).split():
                    ctx.step()
                    if getattr(ins, check)(typ) is not False:
                        ctx.violation(f"{check} takes a class for something else", class_=source, form=form)
            if "enum" in kinds:
                continue
            try:
                obj = cls()
            except TypeError:
                continue  # has members, or is abstract
            ctx.step(2)
            found2 = (ins.is_dataclass_instance(obj), ins.is_named_tuple_instance(obj))
            if found2 != expected[:2]:
                ctx.violation("instance is taken for something else", class_=source, found=found2, expected=expected[:2])
            ctx.outcome("instances")
        assert made > 1200, made
    finally:
        drop_module(m)


def nodes(task: Any) -> Iterator[Node]:
    kind = task[0]
    if kind == "leaves":
        yield from leaves()
    elif kind == "depth1":
        yield from depth1()
    elif kind == "wide":
        yield from wide()
    elif kind == "unions":
        for parts in itertools.permutations(leaves(), task[1]):
            yield ("union", NOTATIONS[task[2]], *parts)
    elif kind == "unions3":
        for parts in itertools.permutations(REPS, 3):
            yield ("union", NOTATIONS[task[1]], *parts)
    elif kind == "over":
        if task[1] in BINARY:
            inner = depth1_reps()
            yield from ((task[1], x, y) for x in inner for y in inner)
        else:
            yield from ((task[1], x) for x in depth1() + depth1_reps())
            yield from ((task[1], u) for w in (1, 2, 3) for u in unions(REPS[:4], w))
    elif kind in ("unions over", "unions3 over"):
        inner = depth1_reps()
        for parts in itertools.permutations(inner if kind == "unions over" else inner[::2], 2 if kind == "unions over" else 3):
            yield ("union", NOTATIONS[task[1]], *parts)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "class kinds":
        class_kinds(ctx)
        return
    if task[0] == "properties":
        properties(task[1], task[2], ctx)
        return
    checker = Checker(ctx)
    try:
        if task[0] == "not types":
            checker.not_types()
            return
        for node in nodes(task):
            variants = layers(node) if task[0] in ("leaves", "depth1", "unions3") or (task[0] == "unions" and task[1] == 1) else iter(
                [node, ("ann", node, "n1"), ("ann", ("ann", node, "n2"), "n1")]
            )
            for n in variants:
                checker.check(n)
    finally:
        drop_module(checker.module)
