"""
C08: equivalent spellings.

Every class of the universe is written in 8 spellings (direct, quoted, forward references inside generics, postponed
evaluation, `|` notation, wrapped in Annotated, and combinations); each is serialized, deserialized (valid and mutated
documents) and described by a schema: outcomes must agree with the reference model, and schemas must be the same for all
spellings. Classes are also composed across modules: base classes, member classes and type names of the same name but
different meaning in several modules, and types named by a string in the module of the caller.
"""

from __future__ import annotations

import itertools
import json
import types
from typing import Any, Iterator

from common import agrees, create_serializer, is_ok, object_to_json, plain, read
from ladders import _depth
from shapes import (
    DEF,
    DIRECT,
    FAC,
    INT,
    REQ,
    STR,
    STYLES,
    AnnS,
    ClassS,
    DictS,
    EnumS,
    Field,
    ListS,
    OptS,
    SetS,
    Shape,
    TupleS,
    UnionS,
    World,
    json_same,
    mutations,
    walk,
)
from universe import CONTAINERS, chunks, universe
from world import drop_module, evaluate, new_module

from strong_typing.schema import classdef_to_schema

LEVEL = "model_checking"
LEVELS = {"quick": 1, "thorough": 2}
BOUNDS = {
    "quick": "all classes of the universe (up to 2 nested containers over representative leaves, all class kinds and field "
    "modes) x 8 spellings x 3 services; cross-module: 6 class kinds x 15 member forms x 6 spellings x 11 module layouts with "
    "clashing names and nested classes; 44 names of classes x 6 class kinds x 6 member forms x 6 spellings",
    "thorough": "as quick, classes with up to 2 nested containers over all leaves, 3 over two leaves",
}

_types: dict[str, list[Shape]] = {}


def own_types(tier: str) -> list[Shape]:
    if tier not in _types:
        _types[tier] = [s for s in universe(LEVELS[tier]) if any(isinstance(w, ClassS) for w in walk(s))]
    return _types[tier]


def schema_of(typ: Any) -> str:
    try:
        return json.dumps(classdef_to_schema(typ), sort_keys=True)
    except Exception as ex:
        return f"{type(ex).__name__}"


def run_styles(shape: Shape, ctx: Any) -> None:
    direct: str = ""
    vals = shape.values()
    payloads = vals[:3] + vals[-1:]
    docs = [plain(shape.enc(p)) for p in payloads]
    docs += list(itertools.islice(mutations(docs[-1], [None, True, "a"]), 40))
    for style in STYLES.values():
        world = World(shape, style)
        what = dict(type=shape.name, style=style.name, source=world.source)
        ctx.state(shape.name, style.name)
        typ = world.type
        schema = schema_of(typ)
        ctx.step()
        if style is DIRECT:
            direct = schema
        elif schema != direct:
            ctx.violation("schema differs between spellings", schema=schema, direct=direct, **what)
            return
        for payload in payloads:
            obj = world.py(payload)
            expected = shape.enc(payload)
            for how in ("runtime", "declared"):
                try:
                    doc = (
                        create_serializer(typ, world.module).generate(obj) if how == "declared" else object_to_json(obj)
                    )
                except Exception as ex:
                    ctx.violation(f"serialization fails with {type(ex).__name__}: {ex}", object=obj, **what)
                    return
                ctx.step()
                if not json_same(doc, expected):
                    ctx.violation("serialized form depends on spelling", result=doc, expected=expected, **what)
                    return
        for doc in docs:
            expected = shape.dec(doc)
            actual = read(world, doc)
            ctx.step()
            problem = agrees(shape, world, actual, expected)
            if problem:
                ctx.violation(problem, document=doc, result=actual, expected=expected, **what)
                return
        ctx.trace()
        ctx.outcome(style.name)
        world.close()


# ---- across modules


class SpelledS(ClassS):
    "A class that is looked up by a label, and spelled with another name."

    def __init__(self, label: str, spell: str, fields: list[Field], kind: str = "dataclass", **kw: Any) -> None:
        super().__init__(label, fields, kind, **kw)
        self.spell = spell

    def src(self, style: Any) -> str:
        return style.class_name(self.spell)


class SpelledEnum(EnumS):
    def __init__(self, label: str, spell: str, members: dict[str, Any]) -> None:
        super().__init__(label, members)
        self.spell = spell

    def src(self, style: Any) -> str:
        return style.class_name(self.spell)


class Namespace:
    "Stands for a module: classes by label."

    def __init__(self, **members: Any) -> None:
        self.__dict__.update(members)


class FakeWorld:
    def __init__(self, typ: Any, context: types.ModuleType, **members: Any) -> None:
        self.type = typ
        self.context = context
        self.module = Namespace(**members)


FORMS: dict[str, Any] = {
    "plain": lambda x: x,
    "list": ListS,
    "dict": DictS,
    "opt": OptS,
    "union": lambda x: UnionS([INT, x]),
    "tuple": lambda x: TupleS([x, INT]),
    "set": lambda x: SetS(x) if x.hashable else None,
    "ann": lambda x: AnnS(x, "'n'"),
    "listopt": lambda x: ListS(OptS(x)),
    "optlist": lambda x: OptS(ListS(x)),
    "dictlist": lambda x: DictS(ListS(x)),
    "anndict": lambda x: AnnS(DictS(AnnS(x, "1")), "2"),
    "uniondict": lambda x: UnionS([INT, DictS(x)]),
    "opttuple": lambda x: OptS(TupleS([INT, x])),
    "listunion": lambda x: ListS(UnionS([INT, x])),
}
XSTYLES = ["direct", "quoted", "inner", "future", "future_pipe", "annotated_inner"]
XKINDS = ["dataclass", "frozen", "slots", "kw_only", "plain", "namedtuple"]
LAYOUTS = ["inherit", "inherit_same", "inherit3", "redeclare", "member", "member_list", "decoy_enum", "inherit_default", "imported"]
# names of classes that might clash with names that occur in the library
NAMES = [
    "typ", "module", "cls", "self", "obj", "data", "data_type", "context", "key", "name", "value", "T", "S", "K", "V", "type_params",
    "recursive_guard", "globals", "locals", "member", "field_type", "fields", "members", "annotation", "frame", "owner", "deserializer",
    "Serializer", "Enum", "Path", "_ROOT", "É", "_P", "P_1", "none", "types", "sys", "re", "json", "Date", "p", "W_", "Schema", "args",
]  # fmt: skip


def tasks(tier: str) -> list[Any]:
    return [["styles", *c] for c in chunks(len(own_types(tier)), 40)] + [
        ["cross", k, l] for k in XKINDS for l in LAYOUTS if not (k == "namedtuple" and l.startswith(("inherit", "redeclare")))
    ] + [["toplevel"], ["depth"]] + [["cross", k, l] for k in XKINDS for l in ("nested", "nested_base")] + [["names", n] for n in NAMES]  # fmt: skip


def declare(name: str, fields: list[Field], kind: str, style: Any, base: str = "") -> str:
    c = ClassS(name, fields, kind)
    text = c.declare(style)
    return text.replace(f"class {name}:", f"class {name}({base}):") if base else text


def indent(text: str) -> str:
    return "".join(f"    {line}\n" for line in text.splitlines())


def run_names(name: str, ctx: Any) -> None:
    "The name of a class has no influence."
    for kind in XKINDS:
        for form_name in ("plain", "list", "opt", "union", "dictlist", "listopt"):
            for style_name in XSTYLES:
                style = STYLES[style_name]
                p = SpelledS("A_P", name, [Field("a", INT)], "frozen")
                fields = [Field("p", FORMS[form_name](p))]
                module = new_module(
                    f"@dataclass(frozen=True)\nclass {name}:\n    a: int\n" + declare("W", fields, kind, style), future=style.future
                )
                members = dict(A_P=getattr(module, name), W=module.W)
                what = dict(layout="names", kind=kind, form=form_name, style=style_name, name=name, source=module.__source__)
                ctx.state(name, kind, form_name, style_name)
                check_world(SpelledS("W", "W", fields, kind), FakeWorld(module.W, module, **members), what, ctx)
                drop_module(module)


def run_cross(kind: str, layout: str, ctx: Any) -> None:
    for form_name, form in FORMS.items():
        for style_name in XSTYLES:
            style = STYLES[style_name]
            mkind = "frozen"
            # `P` has a different meaning in each module
            pa = SpelledS("A_P", "P", [Field("a", INT)], mkind)
            pb = SpelledS("B_P", "P", [Field("b", STR)], mkind)
            fa, fb = form(pa), form(pb)
            if fa is None:
                continue
            decl_pa = "@dataclass(frozen=True)\nclass P:\n    a: int\n"
            decl_pb = "@dataclass(frozen=True)\nclass P:\n    b: str\n"
            mods: list[types.ModuleType] = []

            def module(source: str, imports: str = "") -> types.ModuleType:
                m = new_module(imports + source, future=style.future)
                mods.append(m)
                return m

            if layout == "decoy_enum":
                # an enumeration in one module, a class in the other
                ea = SpelledEnum("A_P", "P", {"X": "x"})
                fa = form(ea)
                decl_pa = 'class P(enum.Enum):\n    X = "x"\n'
                pa = ea  # type: ignore[assignment]

            members: dict[str, Any] = {}
            if layout in ("inherit", "inherit_same", "inherit_default", "inherit3", "redeclare"):
                mode, default = REQ, None
                if layout == "inherit_default":
                    if kind in ("plain",):
                        continue
                    fa = fa if isinstance(fa, OptS) else OptS(fa) if not isinstance(fa, (UnionS, AnnS)) else None
                    fb = fb if isinstance(fb, OptS) else OptS(fb) if not isinstance(fb, (UnionS, AnnS)) else None
                    if fa is None:
                        continue
                    mode = DEF
                a_fields = [Field("p", fa, mode, default)]
                ma = module(decl_pa + declare("Base", a_fields, kind, style))
                base_spell = "Base"
                if layout == "inherit_same":
                    # the derived class has the name of its base class
                    mb = module(
                        decl_pb + declare("Base", [Field("q", fb, mode, default)], kind, style, "_B"),
                        f"from {ma.__name__} import Base as _B\n",
                    )
                    cls = mb.Base
                else:
                    b_fields = [Field("q", fb, mode, default)]
                    if layout == "redeclare":
                        b_fields = [Field("p", fb), Field("q", fb)]
                    mb = module(
                        decl_pb + declare("W", b_fields, kind, style, base_spell),
                        f"from {ma.__name__} import Base\n",
                    )
                    cls = mb.W
                fields = [Field("p", fb if layout == "redeclare" else fa, mode, default), Field("q", fb, mode, default)]
                members = dict(A_P=ma.P, B_P=mb.P)
                if layout == "inherit3":
                    pc = SpelledS("C_P", "P", [Field("c", INT), Field("d", INT)], mkind)
                    fc = form(pc)
                    mc = module(
                        "@dataclass(frozen=True)\nclass P:\n    c: int\n    d: int\n"
                        + declare("W", [Field("r", fc)], kind, style, "_W"),
                        f"from {mb.__name__} import W as _W\n",
                    )
                    cls = mc.W
                    fields.append(Field("r", fc))
                    members["C_P"] = mc.P
                shape: Shape = SpelledS("W", "W", fields, kind)
                members["W"] = cls
                typ, context = cls, mods[-1]
            elif layout in ("nested", "nested_base"):
                # a class that is nested in the class whose members refer to it
                fields = [Field("p", fa)]
                text = declare("W" if layout == "nested" else "Base", fields, kind, style)
                head, body = text.split(":\n", 1)
                text = f"{head}:\n{indent(decl_pa)}{body}"
                if layout == "nested_base":
                    fields = [*fields, Field("q", INT)]
                    text += declare("W", fields[1:], kind, style, "Base") if kind != "namedtuple" else text.replace("Base", "W")
                    fields = fields[:1] if kind == "namedtuple" else fields
                mb = module(text)
                shape = SpelledS("W", "W", fields, kind)
                members = dict(A_P=mb.W.P, W=mb.W)
                typ, context = mb.W, mb
            elif layout == "imported":
                # a name that is imported into the module under another name, and a name that is defined later
                ma = module(decl_pa)
                mb = module(
                    declare("W", [Field("p", fa), Field("q", fb)], kind, style).replace(
                        "q: ", "q: "
                    )
                    if False
                    else f"from {ma.__name__} import P\n" + declare("W", [Field("p", fa)], kind, style)
                )
                shape = SpelledS("W", "W", [Field("p", fa)], kind)
                members = dict(A_P=ma.P, W=mb.W)
                typ, context = mb.W, mb
            else:
                # a class of another module as a member
                ma = module(decl_pa + declare("M", [Field("p", fa)], kind, style))
                mshape = SpelledS("M", "M", [Field("p", fa)], kind)
                outer: Shape = mshape if layout != "member_list" else ListS(mshape)
                mb = module(
                    decl_pb + declare("W", [Field("m", outer), Field("q", fb)], kind, style),
                    f"from {ma.__name__} import M\n",
                )
                shape = SpelledS("W", "W", [Field("m", outer), Field("q", fb)], kind)
                members = dict(A_P=ma.P, B_P=mb.P, M=ma.M, W=mb.W)
                typ, context = mb.W, mb

            world = FakeWorld(typ, context, **members)
            what = dict(layout=layout, kind=kind, form=form_name, style=style_name, sources=[m.__source__ for m in mods])
            ctx.state(layout, kind, form_name, style_name)
            check_world(shape, world, what, ctx)
            for m in mods:
                drop_module(m)


_schemas: dict[tuple[str, ...], str] = {}


def check_world(shape: Shape, world: Any, what: dict[str, Any], ctx: Any) -> None:
    from strong_typing.serialization import json_to_generic

    vals = shape.values()
    payloads = vals[:3] + vals[-1:]
    docs = [plain(shape.enc(p)) for p in payloads]
    docs += list(itertools.islice(mutations(docs[-1], [None, True, "a", {"b": "x"}]), 60))

    class Ctx:
        module = world.context
        type = world.type

    # schema first or last, depending on the case, such that no service relies on another
    key = (what["layout"], what["kind"], what["form"])
    schema = schema_of(world.type)
    ctx.step()
    if _schemas.setdefault(key, schema) != schema:
        ctx.violation("schema differs between spellings", schema=schema, other=_schemas[key], **what)
        return
    for payload in payloads:
        obj = shape.to_py(payload, world)
        expected = shape.enc(payload)
        try:
            doc = object_to_json(obj)
        except Exception as ex:
            ctx.violation(f"serialization fails with {type(ex).__name__}: {ex}", **what)
            return
        ctx.step()
        if not json_same(doc, expected):
            ctx.violation("serialized form depends on spelling", result=doc, expected=expected, **what)
            return
    for doc in docs:
        expected = shape.dec(doc)
        actual = read(Ctx, doc)  # type: ignore[arg-type]
        ctx.step()
        problem = agrees(shape, world, actual, expected)
        if problem:
            ctx.violation(problem, document=doc, result=actual, expected=expected, **what)
            return
    ctx.trace()
    ctx.outcome("across modules")


def run_toplevel(ctx: Any) -> None:
    "Types named by strings at top level: in the module of the caller, in the module passed, or of the type itself."
    m1 = new_module(
        "from strong_typing.serialization import json_to_object, json_to_generic\n"
        "@dataclass\nclass P:\n    a: int\n    n: Optional['P'] = None\n"
        "def call(typ, doc, **kw):\n    return json_to_object(typ, doc, **kw)\n"
        "def generic(typ, doc, **kw):\n    return json_to_generic(typ, doc, **kw)\n"
    )
    m2 = new_module(
        "from strong_typing.serialization import json_to_object, json_to_generic\n"
        "@dataclass\nclass P:\n    b: str\n    n: list['P'] = field(default_factory=list)\n"
        "def call(typ, doc, **kw):\n    return json_to_object(typ, doc, **kw)\n"
        "def generic(typ, doc, **kw):\n    return json_to_generic(typ, doc, **kw)\n"
    )
    d1: Any = {"a": 1, "n": {"a": 2}}
    d2: Any = {"b": "x", "n": [{"b": "y"}]}
    forms = ['"P"', 'list["P"]', '"list[P]"', 'Optional["P"]', 'dict[str, "P"]', 'Union[int, "P"]', 'tuple["P", "P"]', 'Annotated["P", 1]', 'list[Optional["P"]]']  # fmt: skip
    embed = [lambda d: d, lambda d: [d], lambda d: [d, d], lambda d: d, lambda d: {"k": d}, lambda d: d, lambda d: [d, d], lambda d: d, lambda d: [None, d]]  # fmt: skip

    def find(obj: Any) -> Any:
        if isinstance(obj, (list, tuple)):
            return find(obj[-1])
        if isinstance(obj, dict):
            return find(obj["k"])
        return obj

    for _ in range(2):
        for form, emb in zip(forms, embed):
            for func in ("call", "generic"):
                for caller, ctxmod in itertools.product((m1, m2), (None, m1, m2)):
                    effective = ctxmod or caller
                    typ = evaluate(caller, form)
                    kw = {} if ctxmod is None else {"context": ctxmod}
                    for doc, target in ((d1, m1), (d2, m2)):
                        ctx.step()
                        ctx.state(form, func, caller is m1, ctxmod is m1, ctxmod is None, target is m1)
                        try:
                            r: Any = getattr(caller, func)(typ, emb(doc), **kw)
                        except Exception as ex:
                            r = ex
                        if effective is target:
                            obj = find(r)
                            inner = getattr(obj, "n", None)
                            inner = inner[0] if isinstance(inner, list) and inner else inner
                            if type(obj) is not target.P or type(inner) is not target.P:
                                ctx.violation("type name not resolved in the right module", form=form, function=func, result=r)
                                return
                            ctx.outcome("resolved")
                        else:
                            if not isinstance(r, Exception):
                                ctx.violation("type name resolved in the wrong module", form=form, function=func, result=r)
                                return
                            ctx.outcome("other module")
                        ctx.trace()


def run(task: Any, ctx: Any) -> None:
    if task[0] == "styles":
        for shape in own_types(ctx.tier)[task[1] : task[2]]:
            run_styles(shape, ctx)
        ctx.sample({"type": shape.name})
    elif task[0] == "cross":
        _schemas.clear()
        run_cross(task[1], task[2], ctx)
        ctx.sample({"kind": task[1], "layout": task[2]})
    elif task[0] == "names":
        _schemas.clear()
        run_names(task[1], ctx)
    elif task[0] == "toplevel":
        run_toplevel(ctx)
    else:
        for shape, _ in _depth():
            if len(shape.name) < 60:
                run_styles(shape, ctx)
