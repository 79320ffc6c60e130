"""
C10: the generated schema admits exactly the documents that the type describes.

For every type of the universe, all documents of a lexicon, all single-point mutations of valid documents, and documents
at the boundaries of every constraint are validated, and the result is compared with the acceptance model of the type:
by the validator that the library uses, and by a validator that takes all formats and encodings in the schema for
constraints. `validate_object` itself is called with all documents for all leaf types and a selection of other types. The
schemas of leaf types are compared with the tables of the documentation, in every position.
"""

from __future__ import annotations

import json
from typing import Any, Iterator

import classforms
import jsonschema
from common import plain
from constrained import EDGES, KEY_DOCS, constrained
from schemas import library_validator, schema_of, strict_validator
from shapes import DOCS, MUTANT_ATOMS, SIMPLE, UNSPEC, Shape, World, acceptance, mutations, worlds
from universe import CLASSES, CONTAINERS, ENUMS, LITERALS, chunks, leaves, unions, universe
from world import drop_module, evaluate, new_module

from strong_typing.schema import validate_object

LEVEL = "model_checking"
LEVELS = {"quick": 1, "thorough": 2}
BOUNDS = {
    "quick": "all types of the universe with up to 2 nested containers over representative leaves, constraints in up to 2 "
    "nested containers, x (80 documents of the lexicon + 90 boundary documents for constrained types + all single-point "
    "mutations of up to 4 valid documents); 8 kinds of classes x 17 base classes x 10 features x 3 positions x 44 documents",
    "thorough": "as quick, 2 nested containers over all leaves, 3 over two leaves; all constraints in 2 nested containers",
}


def types(tier: str) -> list[Any]:
    return constrained(tier) + universe(LEVELS[tier])


def direct_types() -> list[Shape]:
    "Types for which `validate_object` itself is called with all documents."
    out: list[Shape] = list(leaves()) + list(unions())
    for c in CONTAINERS.values():
        for x in SIMPLE[:2] + SIMPLE[5:6] + ENUMS[:1] + CLASSES[:1]:
            s = c(x)
            if s is not None:
                out.append(s)
    return out


def tasks(tier: str) -> list[Any]:
    return (
        [["direct", *c] for c in chunks(len(direct_types()), 5)]
        + [["types", *c] for c in chunks(len(types(tier)), 60)]
        + [["documented", i] for i in range(len(DOCUMENTED))]
        + [["json", i] for i in range(len(JSON_TYPES))]
        + [["class forms", kind] for kind in classforms.KINDS if kind not in classforms.UNTYPED]
    )


def documents(shape: Shape, edges: bool) -> Iterator[Any]:
    yield from DOCS
    if edges:
        yield from EDGES
        yield from KEY_DOCS
    vals = shape.values()
    for i, v in enumerate(vals[:3] + vals[-1:]):
        doc = plain(shape.enc(v))
        yield doc
        yield from mutations(doc, EDGES[::2] + EDGES[1::2] if edges and i == 0 else MUTANT_ATOMS)


# how the documentation describes the schema of a type
DOCUMENTED: list[tuple[str, Any]] = [
    ("type(None)", {"type": "null"}),
    ("bool", {"type": "boolean"}),
    ("int", {"type": "integer"}),
    ("float", {"type": "number"}),
    ("str", {"type": "string"}),
    ("bytes", {"type": "string", "contentEncoding": "base64"}),
    ("decimal.Decimal", {"type": "number"}),
    ("datetime.datetime", {"type": "string", "format": "date-time"}),
    ("datetime.date", {"type": "string", "format": "date"}),
    ("datetime.time", {"type": "string", "format": "time"}),
    ("datetime.timedelta", {"type": "string", "format": "duration"}),
    ("uuid.UUID", {"type": "string", "format": "uuid"}),
    ("ipaddress.IPv4Address", {"type": "string", "format": "ipv4"}),
    ("ipaddress.IPv6Address", {"type": "string", "format": "ipv6"}),
    ("int32", {"type": "integer", "format": "int32"}),
    ("uint64", {"type": "integer", "format": "uint64"}),
    ("int8", {"type": "integer", "format": "int8"}),
    ("uint16", {"type": "integer", "format": "uint16"}),
    ("float32", {"type": "number", "format": "float32"}),
    ("float64", {"type": "number", "format": "float64"}),
    ("Annotated[int, IntegerRange(23, 82)]", {"type": "integer", "minimum": 23, "maximum": 82}),
    (
        "Annotated[decimal.Decimal, Precision(9, 6)]",
        {"type": "number", "multipleOf": 0.000001, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000},
    ),
    (
        "Annotated[float, Precision(9, 6)]",
        {"type": "number", "multipleOf": 0.000001, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000},
    ),
    ("Annotated[str, MinLength(2)]", {"type": "string", "minLength": 2}),
    ("Annotated[str, MaxLength(2)]", {"type": "string", "maxLength": 2}),
    ("Side", {"type": "string", "enum": ["L", "R"]}),
    ("list[int]", {"type": "array", "items": {"type": "integer"}}),
    ("dict[str, int]", {"type": "object", "additionalProperties": {"type": "integer"}}),
    ("set[int]", {"type": "array", "items": {"type": "integer"}, "uniqueItems": True}),
    (
        "tuple[int, str]",
        {"type": "array", "minItems": 2, "maxItems": 2, "prefixItems": [{"type": "integer"}, {"type": "string"}]},
    ),
    (
        "Any",
        {
            "oneOf": [
                {"type": "null"},
                {"type": "boolean"},
                {"type": "number"},
                {"type": "string"},
                {"type": "array"},
                {"type": "object"},
            ]
        },
    ),
]

SIDE = 'class Side(enum.Enum):\n    LEFT = "L"\n    RIGHT = "R"\n'
WRAPPERS = {
    "T": lambda s: s,
    "list[T]": lambda s: {"type": "array", "items": s},
    "dict[str, T]": lambda s: {"type": "object", "additionalProperties": s},
    "set[T]": lambda s: {"type": "array", "items": s, "uniqueItems": True},
    "tuple[T, bool]": lambda s: {"type": "array", "minItems": 2, "maxItems": 2, "prefixItems": [s, {"type": "boolean"}]},
    "Annotated[T, 'note']": lambda s: s,
    "list[Annotated[T, 'note']]": lambda s: {"type": "array", "items": s},
    "W": lambda s: {"type": "object", "properties": {"w": s}, "additionalProperties": False, "required": ["w"]},
    "O": lambda s: {"type": "object", "properties": {"w": s}, "additionalProperties": False},
    "A": lambda s: {"type": "object", "properties": {"w": s}, "additionalProperties": False, "required": ["w"]},
}


def check_documented(index: int, ctx: Any) -> None:
    from world import drop_module, evaluate, new_module

    expression, expected = DOCUMENTED[index]
    for wrapper, expect in WRAPPERS.items():
        for inner, expect2 in WRAPPERS.items():
            first = inner.replace("T", expression, 1)
            classes = "".join(
                f"@dataclass\nclass {n}1:\n    w: {a.replace('T', expression)}\n"
                for n, a in (("W", "T"), ("O", "Optional[T]"), ("A", "Annotated[T, Alias('w')]"))
            )
            first = f"{first}1" if len(first) == 1 else first
            outer = f"{wrapper}2" if len(wrapper) == 1 and wrapper != "T" else wrapper.replace("T", first, 1)
            classes += "".join(
                f"@dataclass\nclass {n}2:\n    w: {a.replace('T', first)}\n"
                for n, a in (("W", "T"), ("O", "Optional[T]"), ("A", "Annotated[T, Alias('w')]"))
            )
            if expression == "type(None)" and ("O" in (wrapper, inner) or inner == "T" and wrapper[0] in "sdlt"):
                continue
            module = new_module(SIDE + classes)
            want = expect(expect2(expected))
            got = dict(schema_of(evaluate(module, outer), use_descriptions=False))
            got.pop("$schema", None)
            ctx.step()
            ctx.trace()
            ctx.state(outer, first, expression)
            if got != want:
                ctx.violation("schema is not as documented", type=outer, inner=first, schema=got, expected=want)
            else:
                ctx.outcome("as documented")
            drop_module(module)


# untyped JSON, and how the members of the union types are understood
JSON_TYPES = ["JsonType", "StrictJsonType", "JsonObject", "JsonArray", "list[JsonType]", "dict[str, StrictJsonType]"]


def is_json_type(name: str, doc: Any) -> bool:
    if name == "JsonObject":
        return type(doc) is dict
    if name == "JsonArray":
        return type(doc) is list
    if name == "list[JsonType]":
        return type(doc) is list
    if name == "dict[str, StrictJsonType]":
        return type(doc) is dict and all(is_json_type("StrictJsonType", d) for d in doc.values())
    if isinstance(doc, list):
        return all(is_json_type(name, d) for d in doc)
    if isinstance(doc, dict):
        return all(is_json_type(name, d) for d in doc.values())
    return doc is not None or name == "JsonType"


def has_integer(doc: Any) -> bool:
    if isinstance(doc, list):
        return any(has_integer(d) for d in doc)
    if isinstance(doc, dict):
        return any(has_integer(d) for d in doc.values())
    return type(doc) is int or type(doc) is float and doc.is_integer()


def check_json(name: str, ctx: Any) -> None:
    from world import evaluate, new_module

    typ = evaluate(new_module(""), name)
    base = {"a": [0.5, "x", True, None, {"b": [False, "y"]}], "c": {}, "d": [[]], "e": None}
    seen: set[str] = set()
    for source in ([], *DOCS, base, [base, 1], {"k": base, "i": [[1]]}):
        for doc in [source, *mutations(source, DOCS)]:
            key = json.dumps(doc)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) == 1:
                library = library_validator(schema_of(typ))
            try:
                if len(key) < 30:
                    validate_object(typ, doc)
                    ctx.step()
                    actual = True
                else:
                    actual = library.is_valid(doc)
            except jsonschema.ValidationError:
                actual = False
            ctx.state(name, key)
            ctx.trace()
            if actual == is_json_type(name, doc):
                ctx.outcome("json valid" if actual else "json invalid")
            elif not actual and has_integer(doc) and name not in ("JsonObject", "JsonArray"):
                ctx.outcome("integer is not JSON")
                ctx.violation("JSON value with an integer rejected", key="json-type-integer", type=name, document=doc)
            else:
                ctx.violation("untyped JSON not decided correctly", type=name, document=doc, valid=actual)


def decide(shape: Shape, doc: Any, strict: bool) -> Any:
    acceptance.strict = strict
    try:
        return shape.acc(doc)
    finally:
        acceptance.strict = False


def report(what: str, shape: Shape, world: World, doc: Any, schema: Any, ctx: Any) -> None:
    ctx.violation(what, type=shape.name[:300], document=doc, schema=schema, source=world.source[:2000])


def class_forms(kind: str, ctx: Any) -> None:
    "Classes with all kinds of base classes and features."
    for name, source in classforms.forms(kind):
        module = new_module(source)
        for how in ("C", "list[C]", "W"):
            try:
                schema = schema_of(evaluate(module, how))
                validator = library_validator(schema)
            except Exception as ex:
                ctx.violation(f"no schema: {type(ex).__name__}: {ex}", type=how, form=name)
                continue
            for doc, good in classforms.others(kind):
                doc = classforms.wrap(how, doc)
                ctx.step()
                ctx.trace()
                ctx.state(name, how, doc)
                if good is not None and validator.is_valid(doc) is not good:
                    ctx.violation(f"class of another form: schema {'rejects' if good else 'admits'} document", type=how, form=name, document=doc, schema=schema)
                ctx.outcome("class of another form")
        drop_module(module)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "class forms":
        class_forms(task[1], ctx)
        return
    if task[0] == "documented":
        check_documented(task[1], ctx)
        return
    if task[0] == "json":
        check_json(JSON_TYPES[task[1]], ctx)
        return
    shapes = direct_types() if task[0] == "direct" else types(ctx.tier)
    edges_count = len(constrained(ctx.tier))
    for index, shape, world in ((i, shapes[i], w) for i in range(task[1], task[2]) for w in worlds(shapes[i])):
        schema = schema_of(world.type)
        ctx.step()
        library, strict = library_validator(schema), strict_validator(schema)
        seen: set[str] = set()
        for doc in documents(shape, task[0] == "types" and index < edges_count):
            key = json.dumps(doc)
            if key in seen:
                continue
            seen.add(key)
            ctx.state(shape.name, key)
            expected = decide(shape, doc, False)
            if task[0] == "direct":
                try:
                    validate_object(world.type, doc)
                    actual = True
                except jsonschema.ValidationError:
                    actual = False
                ctx.step()
            else:
                actual = library.is_valid(doc)
            ctx.trace()
            if expected is not UNSPEC and actual != expected:
                report("valid document rejected" if expected else "invalid document admitted", shape, world, doc, schema, ctx)
                continue
            ctx.outcome("unspecified" if expected is UNSPEC else "valid" if expected else "invalid")
            expected = decide(shape, doc, True)
            if expected is not UNSPEC and strict.is_valid(doc) != expected:
                report(
                    f"{'valid' if expected else 'invalid'} document {'rejected' if expected else 'admitted'} "
                    "by formats and encodings",
                    shape,
                    world,
                    doc,
                    schema,
                    ctx,
                )
        world.close()
    ctx.sample({"type": shape.name, "document": doc, "expected": repr(expected), "schema": schema})
