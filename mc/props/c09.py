"""
C09: what the serializer emits validates against the generated schema.

For every type of the universe (and annotated constraints in every position), the schema of the type is generated, and
every value of the type that respects the constraints is serialized and validated: by the validator that the library
uses, by a validator that takes all formats and encodings in the schema for constraints, and (for a part of the values)
by `validate_object` itself.
"""

from __future__ import annotations

import ipaddress
from typing import Any

from common import object_to_json
from constrained import constrained
from ladders import LADDERS, ladder
from schemas import library_validator, relaxed, schema_of, strict_validator
from shapes import UNSPEC, World, acceptance, worlds
from universe import chunks, universe

import jsonschema

from strong_typing.schema import validate_object

LEVEL = "model_checking"
LEVELS = {"quick": 2, "thorough": 3}
BOUNDS = {
    "quick": "all types of the universe with up to 2 nested containers over all leaves, 3 over two leaves; constraints in "
    "up to 2 nested containers; up to 38 values per type; size ladders",
    "thorough": "as quick, 3 nested containers over all representative leaves",
}


def types(tier: str) -> list[Any]:
    return constrained(tier) + universe(LEVELS[tier])


def tasks(tier: str) -> list[Any]:
    return [["types", *c] for c in chunks(len(types(tier)), 100)] + [["ladder", i] for i in range(len(LADDERS))] + [["scoped"]]


class Checked:
    def __init__(self, shape: Any, world: World, ctx: Any) -> None:
        self.shape = shape
        self.world = world
        self.ctx = ctx
        self.schema = schema_of(world.type)
        ctx.step()
        self.library = library_validator(self.schema)
        self.strict = strict_validator(self.schema)
        self.relaxed: Any = None

    def value(self, payload: Any, direct: bool) -> None:
        shape, world, ctx = self.shape, self.world, self.ctx
        obj = world.py(payload)
        if not shape.same(obj, payload, world):
            ctx.outcome("not representable")
            return
        doc = object_to_json(obj)
        ctx.step()
        ctx.state(shape.name[:300], payload)
        reason = self.rejected(doc, direct)
        if reason is None:
            ctx.outcome("valid")
            ctx.trace()
            return
        acceptance.strict = False
        if shape.acc(doc) is UNSPEC:
            if self.relaxed is None:
                self.relaxed = library_validator(relaxed(self.schema))
            if self.relaxed.is_valid(doc):
                # several member types of a union accept the document
                ctx.outcome("overlapping members")
                ctx.violation(
                    "serialized value accepted by several member types of a union is rejected",
                    key="overlapping-union",
                    type=shape.name[:300],
                    document=doc,
                    schema=self.schema,
                )
                return
        ctx.violation(
            f"serialized value rejected: {reason}", type=shape.name[:300], document=doc, schema=self.schema, object=obj
        )

    def rejected(self, doc: Any, direct: bool) -> Any:
        if not self.library.is_valid(doc):
            return "by the validator of the library"
        if not self.strict.is_valid(doc):
            # overlapping types are decided by the validator of the library
            if self.relaxed is None:
                self.relaxed = library_validator(relaxed(self.schema))
            if not strict_validator(relaxed(self.schema)).is_valid(doc):
                return "format or encoding does not match"
        if direct:
            try:
                validate_object(self.world.type, doc)
            except jsonschema.ValidationError as ex:
                return f"by validate_object: {ex.message[:200]}"
            self.ctx.step()
        return None


def scoped(ctx: Any) -> None:
    "IPv6 addresses with a scope, which the format of the schema does not permit."

    for text in ("fe80::1%eth0", "::1%1", "ff02::1%lo"):
        address = ipaddress.IPv6Address(text)
        for obj, typ in ((address, ipaddress.IPv6Address), ([address], list[ipaddress.IPv6Address])):
            ctx.step(2)
            ctx.state("scoped", repr(obj))
            doc = object_to_json(obj)
            try:
                validate_object(typ, doc)
            except jsonschema.ValidationError:
                ctx.violation("IPv6 address with a scope is rejected by its schema", key="ipv6-scope", document=doc)
            except Exception as ex:
                ctx.violation(f"validation fails with {type(ex).__name__}", document=doc)
            ctx.outcome("scoped address")


def run(task: Any, ctx: Any) -> None:
    if task[0] == "scoped":
        scoped(ctx)
    elif task[0] == "types":
        for shape in types(ctx.tier)[task[1] : task[2]]:
            for world in worlds(shape):
                checked = Checked(shape, world, ctx)
                for i, payload in enumerate(shape.values()):
                    checked.value(payload, i < (2 if ctx.thorough else 1))
                world.close()
        ctx.sample({"type": shape.name, "document": shape.enc(payload), "schema": checked.schema})
    else:
        for shape, payload in ladder(task[1]):
            world = World(shape)
            Checked(shape, world, ctx).value(payload, False)
            world.close()
