"Operations of the library on types of the universe, in terms of the model."

from __future__ import annotations

import json
from typing import Any, Optional

from shapes import ANY_ERROR, DIRECT, KEY, TYPE, VALUE, Shape, Style, World, is_ok, plain

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_dump_string, json_to_generic, object_to_json
from strong_typing.serializer import create_serializer

DOCUMENTED = (JsonKeyError, JsonTypeError, JsonValueError, ValueError)


def error_kind(ex: BaseException) -> str:
    if isinstance(ex, JsonKeyError):
        return KEY
    if isinstance(ex, JsonTypeError):
        return TYPE
    if isinstance(ex, (JsonValueError, ValueError)):
        return VALUE
    return type(ex).__name__


def read(world: World, doc: Any, skip: bool = False, typ: Any = None) -> Any:
    "Deserializes a document; returns `('ok', object)` or `('err', kind)`."
    try:
        options = DeserializerOptions(skip_unassigned=True) if skip else None
        return (
            "ok",
            json_to_generic(world.type if typ is None else typ, doc, context=world.module, options=options),
        )
    except (JsonKeyError, JsonTypeError, JsonValueError, ValueError) as ex:
        return ("err", error_kind(ex))
    except RecursionError:
        return ("err", "RecursionError")
    except Exception as ex:
        return ("err", f"{type(ex).__name__}: {ex}")


def agrees(shape: Shape, world: World, actual: Any, expected: Any) -> Optional[str]:
    "Compares what the library does with what the model expects; returns what differs, if anything."
    from shapes import UNSPEC

    if expected is UNSPEC:
        if actual[0] == "err":
            return None if actual[1] in ANY_ERROR else f"undocumented error {actual[1]}"
        return None if conforms(shape, actual[1], world) else "result does not conform to the type"
    if expected[0] == "ok":
        if actual[0] != "ok":
            return f"valid document refused with {actual[1]}"
        if not shape.same(actual[1], expected[1], world):
            return "result is not the object that the document represents"
        return None
    if actual[0] == "ok":
        return "invalid document accepted"
    if actual[1] not in expected[1]:
        return f"wrong error {actual[1]}, expected {sorted(expected[1])}"
    return None


def conforms(shape: Shape, obj: Any, world: World) -> bool:
    "True if the object conforms recursively to the type, whatever value it has."
    from shapes import (
        AliasTypeS,
        AnnS,
        AnyS,
        ClassS,
        DictS,
        EnumS,
        HookS,
        Leaf,
        ListS,
        LiteralS,
        OptS,
        RefS,
        SetS,
        TupleS,
        UnionS,
    )

    if isinstance(shape, AnyS):
        return True
    if isinstance(shape, (AnnS, AliasTypeS)):
        return conforms(shape.inner, obj, world)
    if isinstance(shape, RefS):
        return conforms(shape.target, obj, world)
    if isinstance(shape, Leaf):
        return type(obj) is shape.py_type
    if isinstance(shape, EnumS):
        return isinstance(obj, getattr(world.module, shape.cls))
    if isinstance(shape, LiteralS):
        return any(shape.same(obj, v, world) for v in shape.vals)
    if isinstance(shape, OptS):
        return obj is None or conforms(shape.item, obj, world)
    if isinstance(shape, UnionS):
        return any(conforms(m, obj, world) for m in shape.members)
    if isinstance(shape, ListS):
        return type(obj) is list and all(conforms(shape.item, o, world) for o in obj)
    if isinstance(shape, SetS):
        return type(obj) is set and all(conforms(shape.item, o, world) for o in obj)
    if isinstance(shape, DictS):
        key_ok = (lambda k: conforms(shape.key, k, world)) if shape.key else (lambda k: type(k) is str)
        return type(obj) is dict and all(key_ok(k) and conforms(shape.value, v, world) for k, v in obj.items())
    if isinstance(shape, TupleS):
        return (
            type(obj) is tuple
            and len(obj) == len(shape.items)
            and all(conforms(i, o, world) for i, o in zip(shape.items, obj))
        )
    if isinstance(shape, ClassS):
        return type(obj) is getattr(world.module, shape.cls) and all(
            hasattr(obj, f.py)
            and (
                conforms(f.shape, getattr(obj, f.py), world)
                or (f.mode != "req" and f.shape.same(getattr(obj, f.py), f.default, world))
            )
            for f in shape.all_fields()
        )
    if isinstance(shape, HookS):
        return type(obj) is getattr(world.module, shape.cls)
    if hasattr(shape, "is_default"):
        return bool(shape.is_default(obj)) or conforms(shape.item, obj, world)
    raise AssertionError(shape)


def through_text(doc: Any) -> Any:
    "Writes and reads JSON text, in the compact form."
    return json.loads(json_dump_string(doc))
