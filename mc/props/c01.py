"""
C01: round trip.

For every type of the universe and every value of the type, the object is serialized (by its run-time type and by its
declared type), written as JSON text (as string and as file), read back and deserialized with the declared type; the
result must be the same abstract value in every component. Values that the model says are not recoverable (unions whose
member types share a document) are left out.
"""

from __future__ import annotations

import io
import itertools
import json
from typing import Any

import classforms
from common import create_serializer, is_ok, json_dump_string, json_to_generic, object_to_json, plain
from ladders import GRIDS, LADDERS, grid, ladder
from shapes import DEF, INT, ClassS, Field, ListS, OptS, World, worlds
from universe import chunks, universe
from world import drop_module, evaluate, new_module

from strong_typing.serialization import json_dump, json_to_object

LEVEL = "model_checking"
LEVELS = {"quick": 2, "thorough": 3}
BOUNDS = {
    "quick": "all types of the universe: up to 2 nested containers over all leaves, 3 over two leaves; "
    "class kinds x field modes x all leaves; up to 38 values per type; size ladders up to 1000 items, depth 60; grids of values of each simple type; "
    "8 kinds of classes x 17 base classes x 10 features x 7 positions",
    "thorough": "as quick, 3 nested containers over all representative leaves",
}
ASSUMPTIONS = [
    "the reference model in shapes.py states which values of a union are recoverable",
    "an optional member whose default is not None holds a value other than None (see known findings)",
]


def tasks(tier: str) -> list[Any]:
    return (
        [["types", *c] for c in chunks(len(universe(LEVELS[tier])), 60)] + [["ladder", i] for i in range(len(LADDERS))] + [["grid", i, j] for i in range(len(GRIDS)) for j in range(3)] + [["known"]]
        + [["class forms", kind] for kind in classforms.KINDS if kind not in classforms.UNTYPED]
    )


def check_value(shape: Any, world: World, payload: Any, ctx: Any) -> None:
    enc = plain(shape.enc(payload))
    text = json.dumps(enc)
    r = shape.dec(json.loads(text))
    if not is_ok(r) or not shape.eq(r[1], payload):
        ctx.outcome("not recoverable")
        return
    obj = world.py(payload)
    if not shape.same(obj, payload, world):
        ctx.outcome("not representable")  # items of a set that are equal in Python, e.g. False and 0
        return
    for how, write in (("runtime", object_to_json), ("declared", None)):
        if write is None:
            doc = create_serializer(world.type, world.module).generate(obj)
        else:
            doc = write(obj)
        f = io.StringIO()
        json_dump(doc, f)
        texts = [json_dump_string(doc), f.getvalue(), json.dumps(doc)]
        for t in texts:
            back = json_to_generic(world.type, json.loads(t), context=world.module)
            ctx.step(2)
            if not shape.same(back, payload, world):
                ctx.violation("object differs after round trip", type=shape.name, how=how, text=t, object=obj, result=back)
                return
        if not shape.same(obj, payload, world):
            ctx.violation("serialized object has been changed", type=shape.name, object=obj)
    ctx.trace()
    ctx.state(shape.name, payload)
    ctx.outcome("same object")


def class_forms(kind: str, ctx: Any) -> None:
    "Classes with all kinds of base classes and features."
    for name, source in classforms.forms(kind):
        module = new_module(source)
        for value, how in itertools.product(classforms.VALUES, classforms.WRAPS):
            obj = classforms.wrap(how, classforms.make(module, value), module)
            typ = evaluate(module, how)
            for declared in (False, True):
                ctx.step(2)
                ctx.trace()
                ctx.state(name, value, how)
                try:
                    doc = create_serializer(typ, module).generate(obj) if declared else object_to_json(obj)
                    back = json_to_generic(typ, json.loads(json.dumps(doc)), context=module)
                    found = [(type(x) is module.C, (x.a, x.in_, x._c)) for x in classforms.unwrap(how, back)]
                except Exception as ex:
                    ctx.violation(f"round trip fails with {type(ex).__name__}: {ex}", type=how, form=name, value=value)
                    continue
                if not found or any(f != (True, value) for f in found):
                    ctx.violation("object differs after round trip", type=how, form=name, value=value, found=found)
                ctx.outcome("class of another form")
        drop_module(module)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "types":
        for shape in universe(LEVELS[ctx.tier])[task[1] : task[2]]:
            for world in worlds(shape):
                for payload in shape.values():
                    try:
                        check_value(shape, world, payload, ctx)
                    except Exception as ex:
                        ctx.violation(
                            f"round trip fails with {type(ex).__name__}: {ex}",
                            type=shape.name,
                            payload=payload,
                            source=world.source,
                        )
                world.close()
        ctx.sample({"type": shape.name, "source": world.source})
    elif task[0] == "class forms":
        class_forms(task[1], ctx)
    elif task[0] == "ladder":
        for shape, payload in ladder(task[1]):
            world = World(shape)
            try:
                check_value(shape, world, payload, ctx)
            except Exception as ex:
                ctx.violation(f"round trip fails with {type(ex).__name__}: {ex}", type=shape.name[:200])
            world.close()
    elif task[0] == "grid":
        leaf, values = grid(task[1])
        for shape in (leaf, ListS(leaf), ClassS("W", [Field("w", leaf)]))[task[2] : task[2] + 1]:
            world = World(shape)
            for value in values:
                payload = value if shape is leaf else [value] if isinstance(shape, ListS) else {"w": value}
                try:
                    check_value(shape, world, payload, ctx)
                except Exception as ex:
                    ctx.violation(f"round trip fails with {type(ex).__name__}: {ex}", type=shape.name, payload=payload)
            world.close()
    else:
        # known limitation: a member that is None is left out, hence read as the default
        shape = ClassS("W", [Field("w", OptS(INT), DEF, 5)])
        world = World(shape)
        doc = object_to_json(world.py({"w": None}))
        ctx.step(2)
        if not shape.same(json_to_object(world.type, doc), {"w": None}, world):
            ctx.violation(
                "member with type Optional and a default other than None that holds None is read back as the default",
                key="optional-default-none",
            )
