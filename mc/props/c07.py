"""
C07: one JSON name per field.

For all identifiers of a systematic set (every keyword and soft keyword, plain, with one, two and leading underscores, in
other letter case; identifiers around them), with and without alias, in every class kind and several spellings of the
annotation: the name under which the serializer writes the field, the deserializer reads it, the schema lists it (as
property, and as required) and a tagged union discriminates by it must be the name that the reference model derives.
"""

from __future__ import annotations

import json
import keyword
from typing import Any, Iterator, Optional

from common import is_ok, object_to_json, read
from shapes import DEF, FAC, INT, REQ, STR, STYLES, ClassS, Field, ListS, LiteralS, OptS, UnionS, World
from universe import KIND_NAMES, chunks, modes_of, wrap_class

from strong_typing.mapping import python_field_to_json_property
from strong_typing.schema import classdef_to_schema

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 35 keywords, 4 soft keywords and 12 other stems x 7 forms, 13 alias names, x 8 class kinds x 2 spellings x "
    "field modes; a second field with the stem name",
    "thorough": "as quick, all 8 spellings",
}

STEMS = keyword.kwlist + keyword.softkwlist + [
    "a", "id", "list", "self", "cls", "items", "keys", "name", "value", "x1", "camelCase", "_", "classs", "inn", "i",
    "ns", "is_in", "\u00e9t\u00e9",
]  # fmt: skip
FORMS = ["{}", "{}_", "{}__", "_{}", "_{}_", "{}_x", "{}_0"]
ALIASES: list[Optional[str]] = [
    "in", "in_", "class", "_", "", "a b", "$ref", "@type", "trailing_", "a", "snake-case", "\u00e9", "from_",
]  # fmt: skip


def names() -> list[tuple[str, Optional[str]]]:
    out: dict[tuple[str, Optional[str]], None] = {}
    for stem in STEMS:
        for s in {stem, stem.lower(), stem.upper()}:
            for form in FORMS:
                py = form.format(s)
                if py.isidentifier() and not keyword.iskeyword(py) and not py.startswith("__"):
                    out[(py, None)] = None
    for alias in ALIASES:
        for py in ("a", "in_", "class_", "b_", "trailing_"):
            out[(py, alias)] = None
    return sorted(out, key=repr)


STYLE_NAMES = {
    "quick": ["direct", "annotated_inner"],
    "thorough": list(STYLES),
}


def tasks(tier: str) -> list[Any]:
    return [[*c, s] for c in chunks(len(names()), 40) for s in STYLE_NAMES[tier]]


def run(task: Any, ctx: Any) -> None:
    style = STYLES[task[2]]
    for py, alias in names()[task[0] : task[1]]:
        expected = alias if alias is not None else py[:-1] if py.endswith("_") and keyword.iskeyword(py[:-1]) else py
        for kind in KIND_NAMES:
            if kind == "namedtuple" and (py.startswith("_") or py in ("count", "index")):
                continue
            for mode in modes_of(kind, INT):
                for pair in (False, True):
                    if pair and (mode != REQ or py in ("zz",)):
                        continue
                    c = wrap_class(INT, mode, kind, alias=alias)
                    f = c.fields[0]
                    f.py = py
                    if pair:
                        other = "zz" if expected == "a" or py == "a" else "a"
                        c = ClassS("W", [Field(other, STR), f], kind)
                    check(c, f, expected, style, ctx)
            # as discriminating property, and inherited
            check_tag(py, alias, expected, kind, style, ctx)
            if kind not in ("namedtuple",):
                base = ClassS("B", [Field(py, INT, alias=alias)], kind)
                c = ClassS("W", [Field("zz", OptS(INT))], kind, base=base)
                check(c, base.fields[0], expected, style, ctx)
    ctx.sample({"field": py, "alias": alias, "expected": expected})


def check(c: ClassS, f: Field, expected: str, style: Any, ctx: Any) -> None:
    world = World(c, style)
    ctx.state(c.name, f.py, f.alias, style.name)
    what = dict(type=c.name, field=f.py, alias=f.alias, expected=expected, source=world.source)
    payload = {g.py: 5 if g is f else g.shape.values()[-1] for g in c.all_fields()}
    obj = world.py(payload)
    doc = object_to_json(obj)
    names = {g.json_name for g in c.all_fields()}
    assert expected in names
    ctx.step(4)
    if set(doc) != {g.json_name for g in c.all_fields() if payload[g.py] is not None} or doc[expected] != 5:
        ctx.violation("field written under another name", result=doc, **what)
        return
    r = read(world, {g.json_name: v for g, v in ((g, g.shape.enc(payload[g.py])) for g in c.all_fields()) if v is not None})
    if r[0] != "ok" or not c.same(r[1], payload, world):
        ctx.violation("field not read under its name", result=r, **what)
        return
    # no other name is accepted
    for other in {f.py, f.py.rstrip("_"), expected + "_", expected.rstrip("_"), expected.lower(), expected.upper()} - names:
        r = read(world, {(other if k == expected else k): v for k, v in doc.items()})
        ctx.step()
        if r[0] == "ok":
            ctx.violation(f"field read under the name `{other}`", result=r, **what)
            return
    schema: Any = classdef_to_schema(world.type)
    if set(schema["properties"]) != names or set(schema.get("required", [])) != {
        g.json_name for g in c.all_fields() if not g.optional
    }:
        ctx.violation("schema lists the field under another name", result=json.dumps(schema), **what)
        return
    hint = world.module.__dict__["typing"].get_type_hints(
        getattr(world.module, (c.base or c).cls if f not in c.fields else c.cls), include_extras=True
    )[f.py]
    if python_field_to_json_property(f.py, hint) != expected:
        ctx.violation("name mapping yields another name", result=python_field_to_json_property(f.py, hint), **what)
        return
    if f.alias is None and python_field_to_json_property(f.py) != expected:
        ctx.violation("name mapping yields another name", result=python_field_to_json_property(f.py), **what)
        return
    ctx.trace()
    ctx.outcome("alias" if f.alias is not None else "keyword" if expected != f.py else "unchanged")
    world.close()


def check_tag(py: str, alias: Optional[str], expected: str, kind: str, style: Any, ctx: Any) -> None:
    a = ClassS("A1", [Field(py, LiteralS(["one"]), alias=alias), Field("zz", INT)], kind)
    b = ClassS("B1", [Field(py, LiteralS(["two"]), alias=alias), Field("zz", INT)], kind)
    union = UnionS([a, b], tag=expected)
    world = World(ListS(union), style)
    ctx.state("tag", py, alias, kind, style.name)
    for i, t in ((0, "one"), (1, "two")):
        doc = [{expected: t, "zz": 3}]
        r = read(world, doc)
        ctx.step()
        payload = [(i, {py: t, "zz": 3})]
        if r[0] != "ok" or not world.shape.same(r[1], payload, world):
            ctx.violation("union not discriminated by the name of the field", field=py, alias=alias, document=doc, result=r, source=world.source)
            return
        out = object_to_json(r[1])
        if out != doc:
            ctx.violation("tag written under another name", field=py, alias=alias, result=out, expected=doc, source=world.source)
            return
        ctx.trace()
    r = read(world, [{expected: "three", "zz": 3}])
    ctx.step()
    if r[0] == "ok":
        ctx.violation("unknown tag accepted", field=py, alias=alias, result=r, source=world.source)
    world.close()
