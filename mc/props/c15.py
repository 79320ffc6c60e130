"""
C15: calls neither modify their input nor share mutable state with results.

For every type of the universe: each document is read twice, each object is written twice, by different engines, and the
mutable containers (lists, dictionaries, sets, objects) of inputs and results are identified. No call may change its
input, whether it succeeds or fails, and no result may share a container with the input, with the result of another call
or with the library; then every container of one result is changed, and input, other result, and the results of later
calls must be what they would have been.
"""

from __future__ import annotations

import copy
import enum
import json
from typing import Any, Iterator

from common import create_serializer, object_to_json, plain, read
from ladders import LADDERS, ladder
from shapes import (
    ANY,
    DEF,
    FAC,
    INT,
    MUTANT_ATOMS,
    STR,
    ClassS,
    DictS,
    Field,
    ListS,
    OptS,
    Shape,
    TupleS,
    World,
    is_ok,
    json_same,
    mutations,
    walk,
)
from universe import CONTAINERS, KIND_NAMES, chunks, ordered, universe

from strong_typing.deserializer import create_deserializer

LEVEL = "model_checking"
LEVELS = {"quick": 1, "thorough": 2}
BOUNDS = {
    "quick": "all types of the universe with up to 2 nested containers over representative leaves, untyped values and "
    "default factories in all class kinds; up to 12 values and all single-point mutations of a document per type; every "
    "container of a result changed between calls",
    "thorough": "as quick, 2 nested containers over all leaves, 3 over two leaves; up to 38 values per type",
}


def untyped() -> list[Shape]:
    def gen() -> Iterator[Any]:
        yield ANY
        for c in CONTAINERS.values():
            for x in (ANY, ListS(ANY), DictS(ANY), TupleS([ANY, ANY])):
                try:
                    yield c(x)
                except Exception:
                    continue
        for kind in KIND_NAMES:
            yield ClassS("W", [Field("a", ANY), Field("b", ListS(ANY))], kind)
            if kind not in ("plain", "namedtuple"):
                for x, d in (
                    (ListS(ListS(INT)), [[1], []]),
                    (DictS(ListS(STR)), {"k": ["a"]}),
                    (ANY, {"k": [1]}),
                    (ClassS("P", [Field("l", ListS(INT), FAC, [1])]), {"l": [2]}),
                ):
                    yield ClassS("W", [Field("a", INT, DEF, 1), Field("b", x, FAC, d)], kind)
                    yield ClassS("W", [Field("a", INT), Field("b", x, FAC, d, init=False)], kind)

    return ordered(s for s in gen() if not (isinstance(s, OptS) and s.item is ANY))


def shares_default(shape: Shape) -> bool:
    """
    A default that is written in the class body is a single object that Python shares between all instances. (A data class
    refuses mutable defaults; a named tuple does not.)
    """
    return any(
        isinstance(s, ClassS)
        and s.kind == "namedtuple"
        and any(f.mode == DEF and not f.shape.hashable for f in s.all_fields())
        for s in walk(shape)
    )


def types(tier: str) -> list[Shape]:
    return [s for s in untyped() + universe(LEVELS[tier]) if not shares_default(s)]


def tasks(tier: str) -> list[Any]:
    return [["types", *c] for c in chunks(len(types(tier)), 60)] + [["ladder", i] for i in range(len(LADDERS))]


def containers(item: Any, found: dict[int, Any]) -> dict[int, Any]:
    "Mutable containers within an object, by identity."
    if item is None or isinstance(item, (bool, int, float, str, bytes, enum.Enum, type)):
        return found
    if id(item) in found:
        return found
    if isinstance(item, dict):
        found[id(item)] = item
        for k, v in item.items():
            containers(k, found)
            containers(v, found)
    elif isinstance(item, (list, set)):
        found[id(item)] = item
        for v in item:
            containers(v, found)
    elif isinstance(item, tuple):
        for v in item:
            containers(v, found)
    elif type(item).__module__.startswith("mcworld"):
        params = getattr(type(item), "__dataclass_params__", None)
        if params is None or not params.frozen:
            found[id(item)] = item
        if hasattr(item, "__dict__"):
            for v in vars(item).values():
                containers(v, found)
        for slot in getattr(type(item), "__slots__", ()):
            containers(getattr(item, slot), found)
    return found


def parts(item: Any) -> Iterator[Any]:
    "What an object consists of."
    if isinstance(item, dict):
        yield from item.keys()
        yield from item.values()
    elif isinstance(item, (list, set, tuple)):
        yield from item
    elif type(item).__module__.startswith("mcworld") and not isinstance(item, (enum.Enum, type)):
        if hasattr(item, "__dict__"):
            yield from vars(item).values()
        for slot in getattr(type(item), "__slots__", ()):
            yield getattr(item, slot)


def repeated(item: Any) -> Any:
    "A mutable container that occurs in an object more than once, or None."
    mutable = containers(item, {})
    seen: set[int] = set()

    def visit(x: Any) -> Any:
        if id(x) in mutable:
            if id(x) in seen:
                return x
            seen.add(id(x))
        for p in parts(x):
            again = visit(p)
            if again is not None:
                return again
        return None

    return visit(item)


def merged(item: Any, known: dict[Any, Any]) -> Any:
    "Makes equal parts of an object the same part."
    if isinstance(item, list):
        item[:] = [merged(x, known) for x in item]
    elif isinstance(item, dict):
        for k in item:
            item[k] = merged(item[k], known)
    elif isinstance(item, tuple):
        items = [merged(x, known) for x in item]
        item = type(item)._make(items) if hasattr(item, "_make") else tuple(items)
    elif type(item).__module__.startswith("mcworld") and not isinstance(item, (enum.Enum, type)):
        names = list(vars(item)) if hasattr(item, "__dict__") else []
        names += [n for n in getattr(type(item), "__slots__", ()) if hasattr(item, n)]
        for n in names:
            object.__setattr__(item, n, merged(getattr(item, n), known))
    elif not isinstance(item, set):
        return item
    return known.setdefault((type(item), repr(item)), item)


def spoil(found: dict[int, Any]) -> None:
    "Changes all containers."
    for item in found.values():
        if isinstance(item, dict):
            item.clear()
            item["spoilt"] = "spoilt"
        elif isinstance(item, list):
            item.append("spoilt")
        elif isinstance(item, set):
            item.add("spoilt")
        else:
            names = list(vars(item)) if hasattr(item, "__dict__") else list(getattr(type(item), "__slots__", ()))
            for n in names:
                setattr(item, n, "spoilt")


def shared(a: dict[int, Any], b: dict[int, Any]) -> Any:
    return [a[k] for k in a.keys() & b.keys()]


class Checker:
    def __init__(self, shape: Shape, world: World, ctx: Any) -> None:
        self.shape = shape
        self.world = world
        self.ctx = ctx
        self.typed = ANY not in walk(shape)

    def bad(self, what: str, **more: Any) -> None:
        self.ctx.violation(what, type=self.shape.name[:300], source=self.world.source[:1500], **more)

    def reading(self, doc: Any) -> None:
        shape, world, ctx = self.shape, self.world, self.ctx
        doc = json.loads(json.dumps(doc))  # equal parts are different objects
        pristine = copy.deepcopy(doc)
        twin = copy.deepcopy(doc)
        ctx.state(shape.name[:300], "read", json.dumps(doc)[:2000])
        first = read(world, doc)
        ctx.step()
        if not json_same(doc, pristine):
            self.bad("input document changed", document=pristine, changed=doc)
            return
        if first[0] == "err":
            ctx.outcome("refused")
            ctx.trace()
            return
        try:
            engine = create_deserializer(world.type, world.module)
            second = ("ok", engine.parse(doc))
            third = ("ok", engine.parse(twin))
        except Exception as ex:
            self.bad(f"second call fails with {type(ex).__name__}", document=doc)
            return
        ctx.step(2)
        for result in (first[1], second[1], third[1]):
            if repeated(result) is not None:
                self.bad("a container occurs in the result several times", document=doc, repeated=repeated(result))
                return
        if self.typed and repeated(one := merged(copy.deepcopy(doc), {})) is not None:
            result = engine.parse(one)
            ctx.step()
            if repeated(result) is not None:
                self.bad("a container occurs in the result several times, as in the document", document=doc, result=result)
                return
        cs = [containers(x, {}) for x in (doc, twin, first[1], second[1], third[1])]
        names = ["input", "equal input", "first result", "second result", "third result"]
        for i in range(5):
            for j in range(i):
                common = shared(cs[i], cs[j])
                if common:
                    self.bad(f"{names[i]} shares a container with {names[j]}", document=doc, shared=common[0])
                    return
        expected = shape.dec(pristine)
        spoil(cs[2])
        if not json_same(doc, pristine):
            self.bad("change of result changes the input", document=pristine)
            return
        spoil(cs[0])
        if is_ok(expected):
            for r in (second, third):
                if not shape.same(r[1], expected[1], world):
                    self.bad("change of result or input changes another result", document=pristine, result=r[1])
                    return
        spoil(cs[3])
        spoil(cs[4])
        again = read(world, copy.deepcopy(pristine))
        ctx.step()
        if is_ok(expected) and (again[0] != "ok" or not shape.same(again[1], expected[1], world)):
            self.bad("change of results changes the result of a later call", document=pristine, result=again)
            return
        ctx.trace()
        ctx.outcome(f"read, {min(len(cs[2]), 4)} containers")

    def writing(self, payload: Any) -> None:
        shape, world, ctx = self.shape, self.world, self.ctx
        obj = world.py(payload)
        if not shape.same(obj, payload, world):
            return
        expected = shape.enc(payload)
        ctx.state(shape.name[:300], "write", repr(payload)[:2000])
        first = object_to_json(obj)
        engine = create_serializer(world.type, world.module)
        second = engine.generate(obj)
        third = engine.generate(obj)
        ctx.step(3)
        if not shape.same(obj, payload, world):
            self.bad("object changed by serialization", object=obj)
            return
        one = merged(world.py(payload), {})
        documents = [first, second]
        if repeated(one) is not None:
            documents += [object_to_json(one), engine.generate(one)]
            ctx.step(2)
        for result in documents:
            if repeated(result) is not None:
                self.bad("a container occurs in the document several times", object=obj, repeated=repeated(result))
                return
            if not json_same(result, expected):
                self.bad("an object of which equal parts are the same object is written differently", object=obj, result=result)
                return
        cs = [containers(x, {}) for x in (obj, first, second, third)]
        names = ["object", "first result", "second result", "third result"]
        for i in range(4):
            for j in range(i):
                common = shared(cs[i], cs[j])
                if common:
                    self.bad(f"{names[i]} shares a container with {names[j]}", object=obj, shared=common[0])
                    return
        spoil(cs[1])
        if not shape.same(obj, payload, world):
            self.bad("change of document changes the object", payload=repr(payload))
            return
        spoil(cs[0])
        for r in (second, third):
            if not json_same(r, expected):
                self.bad("change of object or document changes another document", payload=repr(payload), result=r)
                return
        spoil(cs[2])
        spoil(cs[3])
        obj = world.py(payload)
        if shape.same(obj, payload, world) and not json_same(object_to_json(obj), expected):
            self.bad("change of documents changes the result of a later call", payload=repr(payload))
            return
        ctx.step()
        ctx.trace()
        ctx.outcome(f"write, {min(len(cs[1]), 4)} containers")


def run(task: Any, ctx: Any) -> None:
    if task[0] == "types":
        for shape in types(ctx.tier)[task[1] : task[2]]:
            world = World(shape)
            c = Checker(shape, world, ctx)
            vals = shape.values()
            picks = vals if ctx.thorough else vals[:8] + vals[8:][-4:]
            for payload in picks:
                c.writing(payload)
                c.reading(plain(shape.enc(payload)))
            doc = plain(shape.enc(vals[-1]))
            for m in mutations(doc, MUTANT_ATOMS):
                c.reading(copy.deepcopy(m))
            world.close()
        ctx.sample({"type": shape.name, "document": doc})
    else:
        for shape, payload in ladder(task[1]):
            world = World(shape)
            c = Checker(shape, world, ctx)
            c.writing(payload)
            c.reading(plain(shape.enc(payload)))
            world.close()
