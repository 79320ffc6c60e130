"""
C30: annotations of schemas (titles, descriptions, defaults and examples).

Every arrangement of documented and undocumented classes (kinds of classes x documentation strings x documented members x
base classes x positions) is described by a schema under every setting of the options; titles, descriptions, defaults and
examples are compared at every position of the schema with a reference model, and what remains without these is compared
with the schema of the same classes without documentation.
"""

from __future__ import annotations

import itertools
import json
from typing import Any, Callable, Optional

from world import drop_module, evaluate, new_module

from strong_typing.schema import SchemaOptions, classdef_to_schema

LEVEL = "model_checking"
BOUNDS = {
    "quick": "classes of 6 kinds x 12 documentation strings x 13 positions x 12 settings of options; all subsets of 9 documented "
    "members of a class; 3 levels of base classes and diamonds, each documenting any of 3 members or documenting a member anew; enumerations of 5 value types "
    "x 4 documentation strings x positions; 29 default values x 8 ways of declaring them; registered types with derived or given "
    "schemas x documentation x 5 lists of examples; members named as annotations, aliased members; 18 documentation strings that resemble those made by Python",
    "thorough": "as quick, all subsets of 9 documented members with all settings of options in all class kinds",
}

ANNOTATIONS = ("title", "description", "default", "examples")
Path = tuple[Any, ...]
MISSING = object()

# text, title, description, descriptions of members
DOCS: list[tuple[Optional[str], Optional[str], Optional[str], dict[str, str]]] = [
    (None, None, None, {}),
    ("", None, None, {}),
    ("Short.", "Short.", None, {}),
    ("Short.\n\nLong text: with a colon.", "Short.", "Long text: with a colon.", {}),
    ("\n    Short on\n    two lines.\n\n    Long, line 1.\n      Indented.\n\n    Last.\n    ", "Short on two lines.", "Long, line 1.\n  Indented.\n\nLast.", {}),
    ("Short.\n\n:param a: Text of a.", "Short.", None, {"a": "Text of a."}),
    ("Short.\n\nLong.\n\n:param a: Text of\n    a.\n:param b: Text of b.", "Short.", "Long.", {"a": "Text of a.", "b": "Text of b."}),
    (":param b: Only b.", None, None, {"b": "Only b."}),
    ("Short.\n\n:param a:\n:param b: Text of b: more.", "Short.", None, {"b": "Text of b: more."}),
    ("Short.\n\nShort.", "Short.", "Short.", {}),
    ("One\n\nOne and more. One\n\n:param a: One\n:param b: a", "One", "One and more. One", {"a": "One", "b": "a"}),
    ("Short.\n:see: elsewhere\n:param b: Text of b.", "Short.", None, {"b": "Text of b."}),
]  # fmt: skip

KINDS = ["dataclass", "frozen", "slots", "kwonly", "plain", "namedtuple"]


def literal(doc: Optional[str]) -> str:
    return "" if doc is None else f"    {doc!r}\n"


def declare(kind: str, name: str, doc: Optional[str], members: list[str], bases: str = "") -> str:
    head = {
        "dataclass": "@dataclass\n",
        "frozen": "@dataclass(frozen=True)\n",
        "slots": "@dataclass(slots=True)\n",
        "kwonly": "@dataclass(kw_only=True)\n",
        "plain": "",
        "namedtuple": "",
    }[kind]
    if kind == "namedtuple":
        bases = "NamedTuple"
    body = "".join(f"    {m}\n" for m in members) or "    pass\n"
    return f"{head}class {name}{f'({bases})' if bases else ''}:\n{literal(doc)}{body}"


# projection of schemas


def project(schema: Any, path: Path, out: dict[Path, dict[str, Any]]) -> None:
    "Collects the annotations at each position of a schema."
    if not isinstance(schema, dict):
        return
    found = {k: schema[k] for k in ANNOTATIONS if k in schema}
    if found:
        out[path] = found
    for key in ("properties", "definitions"):
        for name, sub in schema.get(key, {}).items():
            project(sub, path + (key, name), out)
    for key in ("oneOf", "prefixItems"):
        for i, sub in enumerate(schema.get(key, [])):
            project(sub, path + (key, i), out)
    for key in ("items", "additionalProperties"):
        if isinstance(schema.get(key), dict):
            project(schema[key], path + (key,), out)
    if isinstance(schema.get("const"), dict):
        project(schema["const"], path + ("const",), out)


def strip(schema: Any) -> Any:
    "Removes all annotations."
    if not isinstance(schema, dict):
        return schema
    out: dict[str, Any] = {}
    for key, value in schema.items():
        if key in ANNOTATIONS:
            continue
        if key in ("properties", "definitions"):
            out[key] = {n: strip(s) for n, s in value.items()}
        elif key in ("oneOf", "prefixItems"):
            out[key] = [strip(s) for s in value]
        elif key in ("items", "additionalProperties", "const"):
            out[key] = strip(value)
        else:
            out[key] = value
    return out


def same(a: Any, b: Any) -> bool:
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


# reference model


class Opts:
    def __init__(self, descriptions: bool, examples: bool, fun: int) -> None:
        self.descriptions = descriptions
        self.examples = examples
        self.fun = fun

    def make(self) -> SchemaOptions:
        return SchemaOptions(
            use_descriptions=self.descriptions,
            use_examples=self.examples,
            property_description_fun=[None, transform, suppress, internal][self.fun],
        )

    def __repr__(self) -> str:
        return f"use_descriptions={self.descriptions}, use_examples={self.examples}, fun={['None', 'transform', 'suppress', 'internal'][self.fun]}"


def transform(cls: type, name: str, text: str) -> str:
    return f"{cls.__name__}|{name}|{text}" if text else ""


def suppress(cls: type, name: str, text: str) -> str:
    return "" if name == "a" else text


def internal(cls: type, name: str, text: str) -> str:
    return "" if text.startswith("B ") else text


ALL_OPTS = [Opts(*o) for o in itertools.product((True, False), (True, False), range(3))]


class Cls:
    "A class: documentation, members as (Python name, JSON name, type, default)."

    def __init__(
        self,
        name: str,
        title: Optional[str],
        description: Optional[str],
        texts: dict[str, str],
        members: list[tuple[str, str, Any, Any]],
    ) -> None:
        self.name = name
        self.title = title
        self.description = description
        self.texts = texts
        self.members = members


class Reg:
    "A registered class or type."

    def __init__(self, cls: Any, examples: Any = None, given: bool = False) -> None:
        self.cls = cls
        self.examples = examples
        self.given = given
        self.name = cls.name


class Enm:
    def __init__(self, name: str, title: Optional[str], description: Optional[str]) -> None:
        self.name = name
        self.title = title
        self.description = description


# types: None (nothing to annotate), Cls, Reg, Enm, or (path element(s), types)
def expect(typ: Any, path: Path, o: Opts, out: dict[Path, dict[str, Any]], expand: bool = False) -> None:
    if typ is None:
        return
    if isinstance(typ, tuple):
        for where, inner in typ:
            expect(inner, path + where, o, out)
        return
    if isinstance(typ, Reg):
        if not expand:
            where = ("definitions", typ.name)
            if (*where, "seen") not in out:
                out[(*where, "seen")] = {}
                if not typ.given:
                    expect(typ.cls, where, o, out)
                else:
                    head(typ.cls, where, o, out)
                if typ.examples and o.examples:
                    out.setdefault(where, {})["examples"] = typ.examples
        else:
            expect(typ.cls, path, o, out)
        return
    head(typ, path, o, out)
    if isinstance(typ, Cls):
        for name, output, inner, default in typ.members:
            where = path + ("properties", output)
            expect(inner, where, o, out)
            if default is not MISSING:
                out.setdefault(where, {})["default"] = default
            text = typ.texts.get(name, "")
            if o.fun == 1 and text:
                text = f"{typ.name}|{name}|{text}"
            elif o.fun == 2 and name == "a":
                text = ""
            elif o.fun == 3 and text.startswith("B "):
                text = ""
            if text:
                entry = out.setdefault(where, {})
                entry.pop("title", None)
                entry["description"] = text


def head(typ: Any, path: Path, o: Opts, out: dict[Path, dict[str, Any]]) -> None:
    if o.descriptions:
        if typ.title:
            out.setdefault(path, {})["title"] = typ.title
        if typ.description:
            out.setdefault(path, {})["description"] = typ.description


def check(
    expression: str,
    source: str,
    bare: str,
    model: Any,
    ctx: Any,
    options: list[Opts],
    lenient: Callable[[Path, str], bool] = lambda p, k: False,
) -> None:
    "Compares schemas of a type, for all options, with the model and with the same type without documentation."
    module = new_module(source)
    plain = new_module(bare)
    try:
        base = strip(classdef_to_schema(evaluate(plain, expression)))
        typ = evaluate(module, expression)
        for o in [None, *options]:
            ctx.count_states(1)
            ctx.step()
            ctx.trace()
            try:
                schema = classdef_to_schema(typ, o.make() if o else None)
            except Exception as ex:
                ctx.violation(f"no schema: {type(ex).__name__}: {ex}", source=source, type=expression, options=repr(o))
                return
            expected: dict[Path, dict[str, Any]] = {}
            expect(model, (), o or ALL_OPTS[0], expected)
            expected = {p: v for p, v in expected.items() if v and p[-1:] != ("seen",)}
            actual: dict[Path, dict[str, Any]] = {}
            project(schema, (), actual)
            for path in sorted(expected.keys() | actual.keys(), key=repr):
                for key in ANNOTATIONS:
                    e, a = expected.get(path, {}).get(key, MISSING), actual.get(path, {}).get(key, MISSING)
                    if o and not o.descriptions and key == "description" and path[-2:-1] == ("properties",):
                        if a is MISSING:
                            continue  # whether the option applies to descriptions of members is left open
                    if (e is MISSING) != (a is MISSING) or (e is not MISSING and not same(e, a)):
                        if lenient(path, key) and (e is MISSING or a is MISSING):
                            continue
                        ctx.violation(
                            f"{key} differs",
                            source=source,
                            type=expression,
                            options=repr(o),
                            path="/".join(map(str, path)),
                            expected="(none)" if e is MISSING else e,
                            actual="(none)" if a is MISSING else a,
                        )
                        return
            if not same(strip(schema), base):
                ctx.violation("documentation changes the schema", source=source, type=expression, options=repr(o), schema=schema, bare=base)
                return
            ctx.outcome("annotated" if actual else "bare")
    finally:
        drop_module(module)
        drop_module(plain)


# positions in which a type may occur: expression, additional declarations, model
OUTER = "@dataclass\nclass Outer:\n{doc}    member: {type}\n    other: int\n"
POSITIONS = ["top", "list", "set", "dict", "tuple", "optional", "union", "annotated", "member", "documented", "optmember", "listmember", "type"]


def position(kind: str, typ: Any, name: str) -> tuple[str, str, str, Any]:
    "Returns a type expression, further declarations with and without documentation, and the model."
    simple = {
        "top": (name, typ),
        "list": (f"list[{name}]", ((("items",), typ),)),
        "set": (f"set[{name}]", ((("items",), typ),)),
        "dict": (f"dict[str, list[{name}]]", ((("additionalProperties", "items"), typ),)),
        "tuple": (f"tuple[int, {name}]", ((("prefixItems", 1), typ),)),
        "optional": (f"Optional[{name}]", ((("oneOf", 0), typ),)),
        "union": (f"Union[int, {name}, str]", ((("oneOf", 1), typ),)),
        "annotated": (f"Annotated[{name}, 'x']", typ),
    }
    if kind in simple:
        expression, model = simple[kind]
        return expression, "", "", model
    if kind == "type":

        class Expand:
            pass

        return f"type[{name}]", "", "", ((("const",), typ.cls if isinstance(typ, Reg) else typ),)
    form = {"member": name, "documented": name, "optmember": f"Optional[{name}]", "listmember": f"list[{name}]"}[kind]
    inner: Any = ((("items",), typ),) if kind == "listmember" else typ
    texts = {"member": "Text of member."} if kind in ("documented", "optmember") else {}
    title = "Outer class." if kind != "member" else None
    doc = "Outer class." + "".join(f"\n\n:param {n}: {t}" for n, t in texts.items())
    documented = OUTER.format(doc=literal(doc if title else None), type=form)
    cls = Cls("Outer", title, None, texts, [("member", "member", inner, MISSING), ("other", "other", None, MISSING)])
    return "Outer", documented, OUTER.format(doc="", type=form), cls


def run_classes(kind: str, di: int, ctx: Any) -> None:
    text, title, description, texts = DOCS[di]
    members = ["a: int", "b: str"]
    cls = Cls("C", title, description, texts, [("a", "a", None, MISSING), ("b", "b", None, MISSING)])
    for where, registered in itertools.product(POSITIONS, (0, 1, 2)):
        model: Any = cls if not registered else Reg(cls, [{"a": 1, "b": "x"}] if registered == 2 else None)
        expression, more, more_bare, whole = position(where, model, "C")
        reg = {
            0: "",
            1: "from strong_typing.schema import register_schema\nregister_schema(C)\n",
            2: "from strong_typing.schema import register_schema\nregister_schema(C, examples=[{'a': 1, 'b': 'x'}])\n",
        }[registered]
        if registered and where == "type" and False:
            continue
        source = declare(kind, "C", text, members) + reg + more
        bare = declare(kind, "C", None, members) + reg + more_bare
        check(expression, source, bare, whole, ctx, ALL_OPTS)


REGISTERED = """
from strong_typing.schema import register_schema
@dataclass
class R:
{doc}    v: int
register_schema(R, examples=[{{"v": 1}}])
"""
INNER = """
@dataclass
class I:
{doc}    w: int = 3
"""
COLOR = """
class E(enum.Enum):
{doc}    RED = "red"
    BLUE = "blue"
"""


def run_members(kind: str, part: int, ctx: Any) -> None:
    "A class of members of all kinds, any of which may be documented."
    inner = Cls("I", "Inner title.", "Inner description.", {"w": "Text of w."}, [("w", "w", None, 3)])
    reg = Reg(Cls("R", "Registered.", None, {"v": "Text of v."}, [("v", "v", None, MISSING)]), [{"v": 1}])
    enm = Enm("E", "Colors.", None)
    docs = dict(
        I="Inner title.\n\nInner description.\n\n:param w: Text of w.",
        R="Registered.\n\n:param v: Text of v.",
        E="Colors.",
    )

    def prelude(documented: bool) -> str:
        def doc(n: str) -> str:
            return literal(docs[n] if documented else None)

        return INNER.format(doc=doc("I")) + REGISTERED.format(doc=doc("R")) + COLOR.format(doc=doc("E"))

    defaults = kind not in ("namedtuple", "slots")
    members: list[tuple[str, str, str, Any, Any]] = [
        ("a", "a", "int", None, MISSING),
        ("n", "n", "I", inner, MISSING),
        ("r", "r", "R", reg, MISSING),
        ("l", "l", "list[I]", ((("items",), inner),), MISSING),
        ("o", "o", "Optional[I]", inner, MISSING),
        ("class_", "class", "str", None, MISSING),
        ("title", "title", "Annotated[str, Alias('description')]", None, MISSING),
        ("e", "e", "E = E.RED" if defaults else "E", enm, "red" if defaults else MISSING),
        ("d", "d", "Optional[datetime.date] = datetime.date(2024, 2, 29)" if defaults else "Optional[datetime.date]", None, "2024-02-29" if defaults else MISSING),
    ]  # fmt: skip
    members[6] = ("title", "description", *members[6][2:])
    names = [m[0] for m in members]
    opts = ALL_OPTS if ctx.thorough else [ALL_OPTS[0], ALL_OPTS[1], ALL_OPTS[6], ALL_OPTS[11]]
    for i, mask in enumerate(itertools.product((False, True), repeat=len(names))):
        if i % 4 != part:
            continue
        texts = {n: f"Text of {n}." for n, on in zip(names, mask) if on}
        doc = "Class title." + "".join(f"\n\n:param {n}: {t}" if j == 0 else f"\n:param {n}: {t}" for j, (n, t) in enumerate(texts.items()))
        lines = [f"{n}: {t}" for n, _, t, _, _ in members]
        cls = Cls("C", "Class title.", None, texts, [(n, out, m, d) for n, out, _, m, d in members])
        source = prelude(True) + declare(kind, "C", doc, lines)
        bare = prelude(False) + declare(kind, "C", None, lines)
        check("C", source, bare, cls, ctx, opts)
    ctx.sample({"source": source})


def run_bases(style: str, ctx: Any) -> None:
    "Members documented in base classes: own documentation first, then the nearest base class."
    names = ["p", "q", "s"]
    subsets = [set(c) for k in range(4) for c in itertools.combinations(names, k)]

    def doc(cls: str, on: set[str]) -> Optional[str]:
        return f"Class {cls}.\n\n" + "\n".join(f":param {n}: {cls} {n}." for n in sorted(on)) if on else f"Class {cls}."

    if style == "chain":
        # each class declares a member of its own; plain classes may document members of their base classes, too
        for kind in ("plain", "dataclass", "frozen"):
            own = {"A": {"p"}, "B": {"q"}, "C": {"s"}}
            for da, db, dc in itertools.product(subsets, repeat=3):
                documented = {"A": da, "B": db, "C": dc}
                if kind != "plain" and any(not documented[c] <= own[c] for c in "ABC"):
                    continue
                source = bare = ""
                for c, b in (("A", ""), ("B", "A"), ("C", "B")):
                    member = [f"{n}: int" for n in own[c]]
                    source += declare(kind, c, doc(c, documented[c]), member, b)
                    bare += declare(kind, c, None, member, b)
                for c, mro in (("A", "A"), ("B", "BA"), ("C", "CBA")):
                    visible = [n for n, k in zip(names, "ABC") if k in mro]
                    texts = {}
                    for n in visible:
                        for k in mro:
                            if n in documented[k]:
                                texts[n] = f"{k} {n}."
                                break
                    cls = Cls(c, f"Class {c}.", None, texts, [(n, n, None, MISSING) for n in visible])
                    check(c, source, bare, cls, ctx, [*ALL_OPTS[:3], Opts(True, True, 3)])
        # classes declare a member of a base class anew, and document it anew
        for kind in ("dataclass", "frozen"):
            for where in ("AB", "AC", "BC", "ABC"):
                for on in itertools.product((False, True), repeat=len(where)):
                    documented = {c: {"p"} if c in where and on[where.index(c)] else set() for c in "ABC"}
                    source = bare = ""
                    for c, b in (("A", ""), ("B", "A"), ("C", "B")):
                        member = ["p: int"] if c in where else []
                        source += declare(kind, c, doc(c, documented[c]), member, b)
                        bare += declare(kind, c, None, member, b)
                    for c, mro in (("A", "A"), ("B", "BA"), ("C", "CBA")):
                        if not set(mro) & set(where):
                            continue
                        texts = {"p": f"{k} p." for k in reversed(mro) if documented[k]}
                        cls = Cls(c, f"Class {c}.", None, texts, [("p", "p", None, MISSING)])
                        check(c, source, bare, cls, ctx, [*ALL_OPTS[:3], Opts(True, True, 3)])
    else:
        # diamond: D(B, C), B(A), C(A)
        for da, db, dc, dd in itertools.product(subsets[:4], repeat=4):
            documented = {"A": da, "B": db, "C": dc, "D": dd}
            source = bare = ""
            for c, b in (("A", ""), ("B", "A"), ("C", "A"), ("D", "B, C")):
                member = [f"{n}: int" for n in names] if c == "A" else []
                source += declare("plain", c, doc(c, documented[c]), member, b)
                bare += declare("plain", c, None, member, b)
            texts = {}
            for n in names:
                for k in "DBCA":
                    if n in documented[k]:
                        texts[n] = f"{k} {n}."
                        break
            cls = Cls("D", "Class D.", None, texts, [(n, n, None, MISSING) for n in names])
            check("D", source, bare, cls, ctx, [*ALL_OPTS[:3], Opts(True, True, 3)])


ENUMS = {
    "str": ("RED = 'red'\n    BLUE = 'blue'", "red"),
    "int": ("ONE = 1\n    ZERO = 0", 1),
    "bool": ("YES = True\n    NO = False", True),
    "float": ("HALF = 0.5\n    NONE = 0.0", 0.5),
    "date": ("D = datetime.date(2024, 2, 29)", "2024-02-29"),
}


def run_enums(ctx: Any) -> None:
    for (value, (body, _)), di, where, registered in itertools.product(ENUMS.items(), range(5), POSITIONS, (False, True)):
        text, title, description, _ = DOCS[di]
        source = f"class C(enum.Enum):\n{literal(text)}    {body}\n"
        bare = f"class C(enum.Enum):\n    {body}\n"
        reg = "from strong_typing.schema import register_schema\nregister_schema(C)\n" if registered else ""
        enm = Enm("C", title, description)
        model: Any = Reg(enm) if registered else enm
        expression, more, more_bare, whole = position(where, model, "C")
        check(expression, source + reg + more, bare + reg + more_bare, whole, ctx, ALL_OPTS[:1] + ALL_OPTS[6:7])


COLORS = "class Color(enum.Enum):\n    RED = 'red'\n    BLUE = 'blue'\nclass Num(enum.Enum):\n    ZERO = 0\n    ONE = 1\n"
# type, value, default in the schema (OPEN if it is left open whether there is one)
OPEN = object()
DEFAULTS: list[tuple[str, str, Any]] = [
    ("bool", "True", True), ("bool", "False", False), ("int", "0", 0), ("int", "-5", -5), ("int", "2**70", 2**70),
    ("float", "0.0", 0.0), ("float", "1.5", 1.5), ("float", "-1e300", -1e300),
    ("str", "''", ""), ("str", "'a'", "a"), ("str", "'é\\n\"'", 'é\n"'),
    ("Color", "Color.RED", "red"), ("Color", "Color.BLUE", "blue"), ("Num", "Num.ZERO", 0), ("Num", "Num.ONE", 1),
    ("datetime.date", "datetime.date(1, 1, 1)", "0001-01-01"),
    ("datetime.datetime", "datetime.datetime(2024, 2, 29, 12, 30, tzinfo=datetime.timezone.utc)", "2024-02-29T12:30:00Z"),
    ("datetime.time", "datetime.time(0, 0, 0, tzinfo=datetime.timezone.utc)", "00:00:00+00:00"),
    ("datetime.timedelta", "datetime.timedelta(days=1, seconds=2)", "P1DT2S"), ("datetime.timedelta", "datetime.timedelta(0)", "PT0S"),
    ("int16", "-1", -1), ("Annotated[str, MaxLength(5)]", "'abc'", "abc"), ("Literal['x', 'y']", "'y'", "y"), ("Union[int, str]", "'u'", "u"),
    ("Any", "0", 0), ("bytes", "b'ab'", OPEN), ("decimal.Decimal", "decimal.Decimal('1.5')", OPEN),
    ("tuple[int, str]", "(1, 'a')", OPEN), ("uuid.UUID", "uuid.UUID(int=5)", OPEN),
]  # fmt: skip
OPEN_VALUES = {"bytes": "YWI=", "decimal.Decimal": 1.5, "tuple[int, str]": [1, "a"], "uuid.UUID": "00000000-0000-0000-0000-000000000005"}
WAYS = ["attribute", "field", "factory", "none", "frozen", "plain", "inherited", "overridden"]


def run_defaults(ctx: Any) -> None:
    for (typ, value, doc), way, optional, text in itertools.product(DEFAULTS, WAYS, (False, True), (False, True)):
        form = f"Optional[{typ}]" if optional else typ
        if way == "none" and not optional:
            continue
        kind = {"frozen": "frozen", "plain": "plain"}.get(way, "dataclass")
        declared = {
            "field": f"field(default={value})",
            "factory": f"field(default_factory=lambda: {value})",
            "none": "None",
        }.get(way, value)
        docstring = "Title.\n\n:param m: Text of m." if text else None
        own = [f"m: {form} = {declared}"]
        if way == "inherited":
            source = declare(kind, "Base", docstring, own) + declare(kind, "C", None, ["k: int = 1"], "Base")
            bare = declare(kind, "Base", None, own) + declare(kind, "C", None, ["k: int = 1"], "Base")
        elif way == "overridden":
            before = [f"m: {form} = {'None' if optional else value}", "k: int = 1"]
            source = declare(kind, "Base", docstring, before) + declare(kind, "C", None, own, "Base")
            bare = declare(kind, "Base", None, before) + declare(kind, "C", None, own, "Base")
        else:
            source = declare(kind, "C", docstring, own + ["k: int = 1"])
            bare = declare(kind, "C", None, own + ["k: int = 1"])
        default: Any = doc
        open_default = doc is OPEN or way == "factory"
        if doc is OPEN:
            default = OPEN_VALUES[typ]
        if way == "none":
            default, open_default = MISSING, False
        title = "Title." if text and way not in ("inherited", "overridden") else None
        members = [("m", "m", None, default), ("k", "k", None, 1)]
        cls = Cls("C", title, None, {"m": "Text of m."} if text else {}, members)
        check(
            "C",
            COLORS + source,
            COLORS + bare,
            cls,
            ctx,
            ALL_OPTS[:1] + ALL_OPTS[6:7],
            lenient=lambda p, k: open_default and k == "default" and p == ("properties", "m"),
        )


GIVEN = ["{'type': 'string', 'maxLength': 5}", "{'type': 'integer'}", "{'type': 'object', 'properties': {'a': {'type': 'integer'}}, 'required': ['a']}"]
EXAMPLES: list[Any] = [None, [], ["x"], [{"a": 1}, {"a": 2}], [[1, [2]], None, ""]]


def run_registered(ctx: Any) -> None:
    for (di, (text, title, description, texts)), given, examples, where, decorated in itertools.product(
        enumerate(DOCS), [None, *GIVEN], EXAMPLES, POSITIONS, (False, True)
    ):
        if where == "type" and given:
            continue  # which schema `type[T]` has for a type of a given schema is left open
        kw = [f"schema={given}"] if given else []
        kw += [f"examples={examples!r}"] if examples is not None else []
        members = ["a: int", "b: str"]
        imports = "from strong_typing.schema import json_schema_type, register_schema\n"

        def write(doc: Optional[str]) -> str:
            if decorated:
                return imports + f"@json_schema_type({', '.join(kw)})\n" + declare("dataclass", "C", doc, members)
            return imports + declare("dataclass", "C", doc, members) + f"register_schema({', '.join(['C', *kw])})\n"

        cls = Cls("C", title, description, texts, [("a", "a", None, MISSING), ("b", "b", None, MISSING)])
        expression, more, more_bare, whole = position(where, Reg(cls, examples, given=given is not None), "C")
        check(expression, write(text) + more, write(None) + more_bare, whole, ctx, [ALL_OPTS[0], ALL_OPTS[3], ALL_OPTS[6], ALL_OPTS[9]])


def run_auto(ctx: Any) -> None:
    "Documentation made by Python for a class is not a description."
    forms = {
        "dataclass": "@dataclass\nclass {n}:\n    a: int = 1\n    b: Optional[str] = None\n",
        "empty": "@dataclass\nclass {n}:\n    pass\n",
        "default": "@dataclass\nclass {n}:\n    a: str = 'x) \\n ('\n    b: Any = (1, (2,))\n",
        "frozen": "@dataclass(frozen=True)\nclass {n}:\n    a: list[int] = field(default_factory=list)\n",
        "slots": "@dataclass(slots=True)\nclass {n}:\n    a: dict[str, 'int']\n",
        "derived": "@dataclass\nclass Base:\n    'Base doc.'\n    a: int\n@dataclass\nclass {n}(Base):\n    b: int\n",
        "plain": "class {n}:\n    a: int\n",
        "plainderived": "class Base:\n    'Base doc.'\n    a: int\nclass {n}(Base):\n    b: int\n",
        "namedtuple": "class {n}(NamedTuple):\n    a: int\n    b: Optional[str] = None\n",
        "namedtuple1": "class {n}(NamedTuple):\n    a: int\n",
        "enum": "class {n}(enum.Enum):\n    A = 'a'\n",
        "intenum": "class {n}(int, enum.Enum):\n    A = 1\n",
        "strenum": "class {n}(str, enum.Enum):\n    A = 'a'\n",
    }
    for form, name, where, reg in itertools.product(forms, ("C", "Cx_1", "_C", "É"), POSITIONS, (False, True)):
        source = forms[form].format(n=name)
        if reg:
            source += f"from strong_typing.schema import register_schema\nregister_schema({name})\n"
        expression, _, more, _ = position(where, None, name)
        module = new_module(source + more)
        try:
            for o in [None, ALL_OPTS[0], ALL_OPTS[6]]:
                ctx.count_states(1)
                ctx.step()
                ctx.trace()
                schema = classdef_to_schema(evaluate(module, expression), o.make() if o else None)
                found: dict[Path, dict[str, Any]] = {}
                project(schema, (), found)
                bad = {p: v for p, v in found.items() if "title" in v or "description" in v}
                if bad:
                    ctx.violation("documentation made by Python is a description", source=source, type=expression, found={str(k): v for k, v in bad.items()})
                else:
                    ctx.outcome("bare")
        finally:
            drop_module(module)


# documentation that resembles what Python makes for a class C with members a and b
ALIKE: list[tuple[str, str, Optional[str]]] = [
    ("C(a, b) holds both.", "C(a, b) holds both.", None),
    ("C(onfig) of all things.", "C(onfig) of all things.", None),
    ("C(a: int, b: str).", "C(a: int, b: str).", None),
    ("C(a: int, b: str)\n\nLong (text).", "C(a: int, b: str)", "Long (text)."),
    ("C(a, b)\n\nLong.", "C(a, b)", "Long."),
    ("See C(a, b)", "See C(a, b)", None),
    ("C (a, b)", "C (a, b)", None),
    ("Cx(a, b)", "Cx(a, b)", None),
    ("xC(a: int, b: str)", "xC(a: int, b: str)", None),
    ("c(a: int, b: str)", "c(a: int, b: str)", None),
    ("C", "C", None),
    ("C(", "C(", None),
    ("C[a, b]", "C[a, b]", None),
    ("(a: int, b: str)", "(a: int, b: str)", None),
    ("An enumeration", "An enumeration", None),
    ("An enumeration. Of two.", "An enumeration. Of two.", None),
    ("An enumeration.\n\nOf two.", "An enumeration.", "Of two."),
    ("an enumeration.", "an enumeration.", None),
]


def run_alike(ctx: Any) -> None:
    "Documentation that only resembles what Python makes is a description."
    for (text, title, description), where in itertools.product(ALIKE, POSITIONS):
        texts: dict[str, str] = {}
        members = ["a: int", "b: str"]
        cls = Cls("C", title, description, texts, [("a", "a", None, MISSING), ("b", "b", None, MISSING)])
        expression, more, more_bare, whole = position(where, cls, "C")
        for kind in KINDS:
            check(expression, declare(kind, "C", text, members) + more, declare(kind, "C", None, members) + more_bare, whole, ctx, [ALL_OPTS[6]])
        for base in ("enum.Enum", "str, enum.Enum"):
            source = f"class C({base}):\n{{doc}}    A = 'a'\n    B = 'b'\n"
            model = position(where, Enm("C", title, description), "C")[3]
            check(expression, source.format(doc=literal(text)) + more, source.format(doc="") + more_bare, model, ctx, [ALL_OPTS[6]])


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["classes", kind, di] for kind in KINDS for di in range(len(DOCS))]
    out += [["members", kind, part] for kind in (KINDS if tier == "thorough" else ["dataclass", "plain", "slots", "namedtuple"]) for part in range(4)]
    return out + [["bases", "chain"], ["bases", "diamond"], ["enums"], ["defaults"], ["registered"], ["auto"], ["alike"]]


def run(task: Any, ctx: Any) -> None:
    if task[0] == "classes":
        run_classes(task[1], task[2], ctx)
    elif task[0] == "members":
        run_members(task[1], task[2], ctx)
    elif task[0] == "bases":
        run_bases(task[1], ctx)
    else:
        {"enums": run_enums, "defaults": run_defaults, "registered": run_registered, "auto": run_auto, "alike": run_alike}[task[0]](ctx)
