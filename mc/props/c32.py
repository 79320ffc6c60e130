"""
C32: run-time construction and enumeration of types.

Enumerations, modules, data classes and objects are made at run time from all small specifications; what is made is compared
with the specification. Modules of all combinations of members are searched for classes and functions.
"""

from __future__ import annotations

import dataclasses
import enum
import inspect
import itertools
import sys
import types
from typing import Any, Optional

from world import drop_module, evaluate, new_module

from strong_typing import inspection as ins
from strong_typing.docstring import get_docstring, has_default_docstring, has_docstring
from strong_typing.schema import classdef_to_schema
from strong_typing.serialization import json_to_generic, object_to_json

LEVEL = "model_checking"
SIZE = {"quick": 3, "thorough": 4}
BOUNDS = {
    "quick": "enumerations of up to 4 members over 12 values, extended by enumerations of up to 3 members over 8 values; modules of all "
    "sets of 12 kinds of members, all pairs of modules of 10 similar names; data classes of up to 3 members over 10 types and of 4 to 64 members; objects of 18 kinds of "
    "classes; all sequences of up to 3 creations of modules over 5 names; functions of 12 forms of annotations in 2 spellings; "
    "fields with 9 kinds of default values; documentation of 9 kinds of classes",
    "thorough": "as quick, data classes of up to 4 members",
}

# ---- enumerations

VALUES: list[Any] = [1, True, 0, False, "a", "", 1.0, 2.5, (1, 2), None, b"x", 3]


def members(values: tuple[Any, ...]) -> list[tuple[str, Any]]:
    "Members of an enumeration, where a member of the same value as an earlier member is another name of that member."
    out: list[tuple[str, Any]] = []
    for i, v in enumerate(values):
        if not any(v == w for _, w in out):
            out.append((f"M{i}", v))
    return out


def run_value_types(first: int, ctx: Any) -> None:
    for k in range(0, 4):
        for rest in itertools.product(VALUES, repeat=k):
            values = (VALUES[first], *rest)
            cls = enum.Enum("E", {f"M{i}": v for i, v in enumerate(values)})  # type: ignore[misc]
            ctx.count_states(1)
            ctx.step()
            ctx.trace()
            expected: list[type] = []
            for _, v in members(values):
                if type(v) not in expected:
                    expected.append(type(v))
            found = ins.enum_value_types(cls)
            if list(found) != expected:
                ctx.violation("types of values of an enumeration differ", values=repr(values), found=repr(found), expected=repr(expected))
                return
            ctx.outcome(f"{len(expected)} types")


EXT = ["a", "b", "c", "", 1, 2, 0, 2.5]


def run_extend(first: int, ctx: Any) -> None:
    for m, n in itertools.product(range(1, 4), range(1, 4)):
        for source in itertools.permutations(EXT, m):
            if source[0] != EXT[first]:
                continue
            for extension in itertools.permutations(EXT, n):
                if m + n > 4 and (m, n) != (3, 3) or (m, n) == (3, 3) and extension[0] != EXT[(first + 3) % len(EXT)]:
                    continue
                text = "class Source(enum.Enum):\n    'Source doc.'\n" + "".join(f"    S{i} = {v!r}\n" for i, v in enumerate(source))
                text += "Before = Source\n@extend_enum(Source)\nclass Extended(enum.Enum):\n    'Extended doc.'\n"
                text += "".join(f"    X{i} = {v!r}\n" for i, v in enumerate(extension))
                ctx.count_states(1)
                ctx.step()
                ctx.trace()
                clash = bool(set(source) & set(extension))
                try:
                    module = new_module(text, extra=dict(extend_enum=ins.extend_enum))
                except ValueError:
                    if not clash:
                        ctx.violation("enumeration cannot be extended", source=text)
                        return
                    ctx.outcome("values not unique")
                    continue
                try:
                    if clash:
                        ctx.violation("values of an extended enumeration are not unique", source=text)
                        return
                    cls = module.Extended
                    expected = [(f"S{i}", v) for i, v in enumerate(source)] + [(f"X{i}", v) for i, v in enumerate(extension)]
                    if [(e.name, e.value) for e in cls] != expected or [type(e.value) for e in cls] != [type(v) for _, v in expected]:
                        ctx.violation("extended enumeration has other members", source=text, found=repr(list(cls)))
                    elif not (isinstance(cls, enum.EnumMeta) and cls.__name__ == "Extended" and cls.__module__ == module.__name__):
                        ctx.violation("extended enumeration has another name", source=text, found=repr(cls))
                    elif cls.__doc__ != "Extended doc." or module.Source.__doc__ != "Source doc.":
                        ctx.violation("documentation differs", source=text, found=cls.__doc__)
                    elif [(e.name, e.value) for e in module.Source] != expected[:m]:
                        ctx.violation("source enumeration is modified", source=text)
                    elif any(cls(v) is not cls[k] or object_to_json(cls[k]) != v or json_to_generic(cls, v) is not cls[k] for k, v in expected):
                        ctx.violation("values of an extended enumeration are not converted", source=text)
                    elif cls in (module.Source,) or any(isinstance(e, module.Source) for e in cls):
                        ctx.violation("members belong to the source enumeration", source=text)
                    else:
                        ctx.outcome("extended")
                finally:
                    drop_module(module)


# ---- members of modules

PIECES: dict[str, tuple[str, list[str], list[str]]] = {
    # text, classes, functions
    "class": ("class Plain:\n    x: int\n", ["Plain"], []),
    "dataclass": ("@dataclass\nclass Data:\n    x: int\n    def method(self): pass\n", ["Data"], []),
    "enum": ("class Color(enum.Enum):\n    RED = 1\n", ["Color"], []),
    "namedtuple": ("class Pair(NamedTuple):\n    a: int\n", ["Pair"], []),
    "exception": ("class Failure(Exception):\n    pass\n", ["Failure"], []),
    "nested": ("class Outer:\n    class Inner:\n        pass\n", ["Outer"], []),
    "private": ("class _Private:\n    pass\ndef _private(): pass\n", ["_Private"], ["_private"]),
    "function": ("def function(a: int) -> str:\n    class Local: pass\n    return ''\n", [], ["function"]),
    "async": ("async def coroutine(): pass\ndef generator():\n    yield 1\n", [], ["coroutine", "generator"]),
    "imported": ("from {other} import Foreign, foreign, Foreign as Renamed\nfrom datetime import date\nimport json\n", [], []),
    "values": ("instance = object()\nnumber = 5\ntext = 'Plain'\nalias_type = list[int]\nanything = Any\noptional = Optional[int]\nbuiltin = len\n", [], []),
    "derived": ("from {other} import Foreign as _F\nclass Derived(_F):\n    pass\nclass Foreign2(Exception, _F):\n    pass\n", ["Derived", "Foreign2"], []),
}  # fmt: skip


def run_modules(part: int, ctx: Any) -> None:
    other = new_module("class Foreign:\n    pass\ndef foreign():\n    pass\n")
    try:
        for i, mask in enumerate(itertools.product((False, True), repeat=len(PIECES))):
            if i % 8 != part:
                continue
            chosen = [p for on, p in zip(mask, PIECES.values()) if on]
            module = new_module("".join(p[0].format(other=other.__name__) for p in chosen))
            try:
                ctx.count_states(1)
                ctx.step(2)
                ctx.trace(2)
                classes = {getattr(module, n) for p in chosen for n in p[1]}
                functions = {getattr(module, n) for p in chosen for n in p[2]}
                found_classes, found_functions = ins.get_module_classes(module), ins.get_module_functions(module)
                if set(found_classes) != classes or len(found_classes) != len(classes):
                    ctx.violation("other classes are listed", found=repr(found_classes), expected=repr(classes), source=module.__source__)
                    return
                if set(found_functions) != functions or len(found_functions) != len(functions):
                    ctx.violation("other functions are listed", found=repr(found_functions), expected=repr(functions), source=module.__source__)
                    return
                ctx.outcome("listed")
            finally:
                drop_module(module)
        ctx.sample({"source": module.__source__})
    finally:
        drop_module(other)


RELATED = ["mcrel", "mcrel.sub", "mcrel.sub.sub", "mcrelated", "mcre", "mcrel_", "MCREL", "sub", "x.mcrel", "__main__.mcrel"]


def run_related(ctx: Any) -> None:
    "Modules of similar names import from each other; classes and functions of the same name are different members."
    for first, second in itertools.permutations(RELATED, 2):
        text = "class Plain:\n    pass\nFirst = Plain\nclass Plain:\n    pass\ndef call(): pass\nfirst = call\ndef call(): pass\n"
        one = new_module(text, name=first)
        two = new_module(
            text + f"class Other:\n    pass\nimport sys\nForeign = sys.modules[{first!r}].Plain\nforeign = sys.modules[{first!r}].call\n",
            name=second,
        )
        one.__dict__.update(Foreign=two.Plain, foreign=two.call)
        try:
            for module, names in ((one, []), (two, ["Other"])):
                ctx.count_states(1)
                ctx.step(2)
                ctx.trace(2)
                classes = {getattr(module, n) for n in ["First", "Plain", *names]}
                functions = {module.first, module.call}
                if set(ins.get_module_classes(module)) != classes:
                    ctx.violation("other classes are listed", found=repr(ins.get_module_classes(module)), names=[first, second])
                    return
                if set(ins.get_module_functions(module)) != functions:
                    ctx.violation("other functions are listed", found=repr(ins.get_module_functions(module)), names=[first, second])
                    return
                ctx.outcome("related")
        finally:
            drop_module(one)
            drop_module(two)


# ---- creation of modules

NAMES = ["mc_new_a", "mc_new_b", "mc_new_a.sub", "mc.new.c", "json"]


def run_create_module(ctx: Any) -> None:
    for k in range(1, 4):
        for names in itertools.product(NAMES, repeat=k):
            made: dict[str, Any] = {}
            ctx.count_states(1)
            try:
                for name in names:
                    ctx.step()
                    ctx.trace()
                    before = sys.modules.get(name)
                    exists = name in made or name == "json"
                    try:
                        module = ins.create_module(name)
                    except KeyError:
                        if not exists:
                            ctx.violation("module cannot be created", name=name, names=names)
                            return
                        if sys.modules.get(name) is not before:
                            ctx.violation("existing module is replaced", name=name, names=names)
                            return
                        ctx.outcome("exists")
                        continue
                    if exists:
                        ctx.violation("module is created twice", name=name, names=names)
                        sys.modules["json"] = __import__("json") if name != "json" else before  # type: ignore[assignment]
                        return
                    made[name] = module
                    if type(module) is not types.ModuleType or module.__name__ != name or sys.modules.get(name) is not module:
                        ctx.violation("module is not registered under its name", name=name, names=names)
                        return
                    if [n for n in vars(module) if not n.startswith("__")]:
                        ctx.violation("module is not empty", name=name, found=list(vars(module)))
                        return
                    # the module is a context for types
                    exec("class Item:\n    a: int\n", module.__dict__)
                    item = json_to_generic("list[Item]", [{"a": 1}], context=module)
                    if type(item[0]) is not module.Item:
                        ctx.violation("types of the module are not found", name=name)
                        return
                    ctx.outcome("created")
                if any(sys.modules.get(n) is not m for n, m in made.items()):
                    ctx.violation("a module is replaced by another one", names=names)
            finally:
                for n in made:
                    sys.modules.pop(n, None)


# ---- creation of classes and objects

MEMBER_TYPES: list[tuple[Any, Any, Any]] = [
    # type, value, JSON
    (int, 5, 5), (str, "a", "a"), (bool, False, False), (float, 0.5, 0.5), (list[int], [1], [1]), (Optional[str], "s", "s"), (dict[str, int], {"k": 1}, {"k": 1}),
    (bytes, b"ab", "YWI="), (tuple[int, str], (1, "a"), [1, "a"]), (set[int], {3}, [3]),
]  # fmt: skip


def run_create_class(first: int, ctx: Any) -> None:
    size = SIZE[ctx.tier]
    shapes = [(first, *rest) for k in range(size) for rest in itertools.product(range(len(MEMBER_TYPES)), repeat=k)]
    shapes += [tuple((first + i) % len(MEMBER_TYPES) for i in range(n)) for n in (4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 64)]
    if first == 0:
        shapes.append(())
    for shape in shapes:
        for prefix in ("m", "class", "_p", "é"):
            if prefix != "m" and 1 < len(shape) < 4:
                continue
            names = [f"{prefix}{i}" for i in range(len(shape))]
            fields = [(n, MEMBER_TYPES[t][0]) for n, t in zip(names, shape)]
            values = [MEMBER_TYPES[t][1] for t in shape]
            doc = {n: MEMBER_TYPES[t][2] for n, t in zip(names, shape)}
            case = dict(fields=repr(fields))
            ctx.count_states(1)
            ctx.step(4)
            ctx.trace()
            given = list(fields)
            cls = ins.create_data_type("Made", fields)
            if fields != given:
                ctx.violation("list of fields is modified", **case)
                return
            if not isinstance(cls, type) or cls.__name__ != "Made" or not ins.is_dataclass_type(cls):
                ctx.violation("no data class is made", found=repr(cls), **case)
                return
            if [(f.name, f.type) for f in dataclasses.fields(cls)] != given or list(ins.get_class_properties(cls)) != given:
                ctx.violation("data class has other fields", found=repr(dataclasses.fields(cls)), **case)
                return
            obj = cls(*values)
            if [getattr(obj, n) for n in names] != values or cls(**dict(zip(names, values))) != obj:
                ctx.violation("objects have other values", found=repr(obj), **case)
                return
            if values:
                try:
                    cls(*values[:-1])
                    ctx.violation("fields may be omitted", **case)
                    return
                except TypeError:
                    pass
            try:
                obj.other = 1
                ctx.violation("objects may have other members", **case)
                return
            except AttributeError:
                pass
            if object_to_json(obj) != doc or json_to_generic(cls, doc) != obj:
                ctx.violation("objects are not converted", found=repr(object_to_json(obj)), **case)
                return
            if set(classdef_to_schema(cls).get("properties", {})) != set(names):
                ctx.violation("schema has other properties", **case)
                return
            ctx.outcome("data class")


CLASSES = """
log = []
class Plain:
    x: int
    def __init__(self):
        log.append("init")
class Required:
    def __init__(self, a, b):
        log.append("init")
class Slots:
    __slots__ = ("a",)
    def __init__(self, a):
        log.append("init")
class Derived(Required):
    y: str
@dataclass
class Data:
    a: int
    b: list = field(default_factory=list)
    def __post_init__(self):
        log.append("init")
@dataclass(frozen=True)
class Frozen:
    a: int
    def __post_init__(self):
        log.append("init")
@dataclass(slots=True)
class DataSlots:
    a: int
    def __post_init__(self):
        log.append("init")
@dataclass(kw_only=True)
class KwOnly:
    a: int = 5
    def __post_init__(self):
        log.append("init")
class Empty:
    pass
class Property:
    def __init__(self, a):
        log.append("init")
    @property
    def value(self):
        return 5
class Failure(Exception):
    def __init__(self, a, b):
        log.append("init")
        super().__init__(a)
class Simple(Exception):
    pass
class DerivedFailure(Failure):
    code: int
class ValueFailure(ValueError):
    def __init__(self, *, key):
        log.append("init")
@dataclass
class DataFailure(Exception):
    a: int
    def __post_init__(self):
        log.append("init")
class KeyFailure(KeyError):
    pass
class Generic_(typing.Generic[typing.TypeVar("X")]):
    def __init__(self, a):
        log.append("init")
class SystemFailure(OSError):
    def __init__(self, path):
        log.append("init")
"""
CREATED = [
    "Plain", "Required", "Slots", "Derived", "Data", "Frozen", "DataSlots", "KwOnly", "Empty", "Property", "Failure", "Simple", "DerivedFailure", "ValueFailure",
    "DataFailure", "KeyFailure", "Generic_", "SystemFailure",
]  # fmt: skip


def run_create_object(ctx: Any) -> None:
    for pair in itertools.product(CREATED, repeat=2):
        module = new_module(CLASSES)
        try:
            made = []
            for name in (*pair, pair[0]):
                cls = getattr(module, name)
                ctx.count_states(1)
                ctx.step()
                ctx.trace()
                obj = ins.create_object(cls)
                if type(obj) is not cls:
                    ctx.violation("object of another type is made", name=name, found=repr(type(obj)))
                    return
                if module.log:
                    ctx.violation("object is initialized", name=name)
                    return
                if getattr(obj, "__dict__", {}):
                    ctx.violation("object has members", name=name, found=repr(obj.__dict__))
                    return
                if any(obj is o for o in made):
                    ctx.violation("object is not new", name=name)
                    return
                made.append(obj)
                ctx.outcome("object")
        finally:
            drop_module(module)


# ---- signatures, fields, documentation, names

ANNOTATIONS = [
    "int", "'Item'", "list['Item']", "Optional['Item']", "dict[str, 'Item']", "Union[int, 'Item']", "Item", "list[Item]", "Optional[list[Item]]",
    "Annotated[Item, 'x']", "Literal['a']", "None",
]  # fmt: skip


def run_signatures(ctx: Any) -> None:
    for form, result, future in itertools.product(ANNOTATIONS, ANNOTATIONS, (False, True)):
        if future and "'Item'" in (form, result):
            continue  # a string in a string
        source = (
            "@dataclass\nclass Item:\n    a: int\n"
            f"def f(a: {form}, b, *args: {result}, c: {form} = None, **kw: {form}) -> {result}:\n    pass\n"
            f"class C:\n    def m(self, a: {result} = None) -> {form}:\n        pass\n"
        )
        module = new_module(source, future=future)
        plain = new_module(source)
        try:
            for fn, pf in ((module.f, plain.f), (module.C.m, plain.C.m), (module.C().m, plain.C().m)):
                ctx.count_states(1)
                ctx.step()
                ctx.trace()
                found = ins.get_signature(fn)
                spelled = inspect.signature(pf)
                if list(found.parameters) != list(spelled.parameters):
                    ctx.violation("other parameters", source=source, found=str(found))
                    return
                pairs = [(found.parameters[n], spelled.parameters[n]) for n in found.parameters]
                if any(a.kind is not b.kind or a.default is not b.default for a, b in pairs):
                    ctx.violation("parameters differ", source=source, found=str(found))
                    return
                types_ = [(a.annotation, b.annotation) for a, b in pairs] + [(found.return_annotation, spelled.return_annotation)]
                for annotation, written in types_:
                    if written is inspect.Signature.empty:
                        expected: Any = written
                    else:
                        text = written if isinstance(written, str) else None
                        expected = getattr(module, text) if text else _same_in(written, plain, module)
                    if annotation != expected:
                        ctx.violation("annotation is not evaluated", source=source, found=repr(annotation), expected=repr(expected))
                        return
                ctx.outcome("signature")
        finally:
            drop_module(module)
            drop_module(plain)


def _same_in(written: Any, plain: Any, module: Any) -> Any:
    "The same type in another module."
    text = repr(written).replace(f"{plain.__name__}.Item", "Item").replace("typing.", "").replace("<class 'Item'>", "Item")
    text = text.replace("ForwardRef('Item')", "'Item'").replace("<class 'int'>", "int")
    return evaluate(module, text)


DEFAULTS = ["5", "0", "None", "''", "field(default=7)", "field(default=None)", "field(default_factory=list)", "field()", ""]


def run_fields(ctx: Any) -> None:
    for kind in ("@dataclass(kw_only=True)", "@dataclass(kw_only=True, slots=True)", "@dataclass(kw_only=True, frozen=True)"):
        for future in (False, True):
            for choice in itertools.product(range(len(DEFAULTS)), repeat=3):
                if len(set(choice)) < 2 and choice[0]:
                    continue
                lines = "".join(f"    m{i}: Any{' = ' + DEFAULTS[d] if DEFAULTS[d] else ''}\n" for i, d in enumerate(choice))
                module = new_module(f"{kind}\nclass C:\n{lines}", future=future)
                try:
                    expected = [
                        {"5": 5, "0": 0, "None": None, "''": "", "field(default=7)": 7, "field(default=None)": None}.get(
                            DEFAULTS[d], dataclasses.MISSING
                        )
                        for d in choice
                    ]
                    ctx.count_states(1)
                    ctx.step(4)
                    ctx.trace(2)
                    fields = list(ins.dataclass_fields(module.C))
                    one = [ins.dataclass_field_by_name(module.C, f"m{i}") for i in range(3)]
                    for found in (fields, one):
                        if [f.name for f in found] != ["m0", "m1", "m2"] or [f.default for f in found] != expected:
                            ctx.violation("fields differ", source=lines, found=repr(found), expected=repr(expected))
                            return
                        if any(f.type is not Any for f in found):
                            ctx.violation("types of fields differ", source=lines, found=repr(found))
                            return
                    ctx.outcome("fields")
                finally:
                    drop_module(module)


DOCUMENTED: dict[str, tuple[str, bool]] = {
    # declaration, whether Python makes documentation
    "class": ("class X:\n{doc}    a: int\n", False),
    "dataclass": ("@dataclass\nclass X:\n{doc}    a: int\n", True),
    "default": ("@dataclass\nclass X:\n{doc}    a: str = ') ('\n    b: Any = None\n", True),
    "empty": ("@dataclass\nclass X:\n{doc}    pass\n", True),
    "frozen": ("@dataclass(frozen=True, slots=True)\nclass X:\n{doc}    a: 'list[X]'\n", True),
    "namedtuple": ("class X(NamedTuple):\n{doc}    a: int\n    b: str\n", True),
    "enum": ("class X(enum.Enum):\n{doc}    A = 1\n", False),
    "function": ("def X(a: int, b: str = ''):\n{doc}    pass\n", False),
    "derived": ("class B:\n    'Base.'\nclass X(B):\n{doc}    pass\n", False),
}
TEXTS: list[Optional[str]] = [None, "", "A", "X", "Text.", "Y(a: int)", "X marks a spot", "See X(a)", "X(a) is called.\n", "An enumeration", "\n    Text.\n    "]


def run_docstrings(ctx: Any) -> None:
    for (kind, (form, auto)), text in itertools.product(DOCUMENTED.items(), TEXTS):
        module = new_module(form.format(doc="" if text is None else f"    {text!r}\n"))
        try:
            ctx.count_states(1)
            ctx.step(3)
            ctx.trace(3)
            # an empty text is replaced by Python for data classes
            made = auto and (text is None or (text == "" and kind != "namedtuple"))
            found = [has_default_docstring(module.X), has_docstring(module.X), get_docstring(module.X)]
            expected = [made, bool(text), None if made else text]
            if found[:2] != expected[:2] or found[2] != expected[2]:
                ctx.violation("documentation is mistaken", kind=kind, text=text, found=found, expected=expected)
                return
            ctx.outcome("made by Python" if made else "documented" if text else "bare")
        finally:
            drop_module(module)


def run_reserved(ctx: Any) -> None:
    for size in range(1, 4):
        for core in itertools.product("ab1é_", repeat=size):
            name = "".join(core)
            if name[0] in "_1" or name[-1] == "_":
                continue
            for before, after in itertools.product(("", "_", "__"), repeat=2):
                full = before + name + after
                ctx.count_states(1)
                ctx.step()
                ctx.trace()
                expected = before == after == "__"
                if ins.is_reserved_property(full) is not expected:
                    ctx.violation("internal name is mistaken", name=full, expected=expected)
                    return
    if not all(ins.is_reserved_property(n) for n in [*dir(object), "_abc_impl", "__dict__", "__annotations__", "__dataclass_fields__"]):
        ctx.violation("internal property is not recognized")
    ctx.outcome("names")


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["values", i] for i in range(len(VALUES))] + [["extend", i] for i in range(len(EXT))]
    out += [["modules", i] for i in range(8)] + [["classes", i] for i in range(len(MEMBER_TYPES))]
    return out + [[n] for n in ("create", "related", "objects", "signatures", "fields", "docstrings", "reserved")]


def run(task: Any, ctx: Any) -> None:
    parts = {"values": run_value_types, "extend": run_extend, "modules": run_modules, "classes": run_create_class}
    whole = {
        "create": run_create_module,
        "related": run_related,
        "objects": run_create_object,
        "signatures": run_signatures,
        "fields": run_fields,
        "docstrings": run_docstrings,
        "reserved": run_reserved,
    }
    if task[0] in parts:
        parts[task[0]](task[1], ctx)
    else:
        whole[task[0]](ctx)
