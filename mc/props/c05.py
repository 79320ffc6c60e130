"""
C05: unknown members.

For every type of the universe that contains a class, unknown members are added to valid documents (and to documents with
another error) in every object, singly and in all objects at once; the documents are read without options and with
unknown members skipped, in both orders of calls (each on classes that the library has not seen before), and the outcomes
are compared with the reference model.
"""

from __future__ import annotations

from typing import Any, Iterator

from common import agrees, is_ok, plain, read
from ladders import LADDERS, ladder
from shapes import UNSPEC, ClassS, Shape, World, mutations, walk, worlds
from universe import chunks, universe

LEVEL = "model_checking"
LEVELS = {"quick": 1, "thorough": 2}
BOUNDS = {
    "quick": "all types with a class and up to 2 nested containers over representative leaves, 1 over all leaves; up to 5 "
    "documents per type; 18 unknown members in every object of a document; both options in both orders",
    "thorough": "as quick, 2 nested containers over all leaves, 3 over two leaves",
}

EXTRA: list[tuple[str, Any]] = [
    ("extra", 0),
    ("extra", None),
    ("extra", {}),
    ("extra", {"a": 0}),
    ("", 1),
    ("__class__", "x"),
    ("__dict__", {}),
    ("self", 1),
    ("a ", 1),
    ("W", 1),
    ("w_", 1),
    ("W_", []),
    ("in_", 5),
    ("in", 5),
    ("class", 5),
    ("type", "one"),
    ("a", 7),
    ("b", "q"),
]

_types: dict[str, list[Shape]] = {}


def types(tier: str) -> list[Shape]:
    if tier not in _types:
        _types[tier] = [s for s in universe(LEVELS[tier]) if any(isinstance(w, ClassS) for w in walk(s))]
    return _types[tier]


def tasks(tier: str) -> list[Any]:
    return [["ladder", i] for i in range(len(LADDERS))] + [["types", *c] for c in chunks(len(types(tier)), 20)[::-1]]


def extended(doc: Any, name: str, value: Any, first: bool) -> Iterator[Any]:
    "Documents with a member added to a single object."
    if isinstance(doc, list):
        for i, d in enumerate(doc):
            for e in extended(d, name, value, first):
                yield doc[:i] + [e] + doc[i + 1 :]
    elif isinstance(doc, dict):
        if name not in doc:
            yield {name: value, **doc} if first else {**doc, name: value}
        for k, d in doc.items():
            for e in extended(d, name, value, first):
                yield {**doc, k: e}


def everywhere(doc: Any, name: str, value: Any) -> Any:
    if isinstance(doc, list):
        return [everywhere(d, name, value) for d in doc]
    if isinstance(doc, dict):
        return {name: value, **{k: everywhere(d, name, value) for k, d in doc.items()}, name + "2": value}
    return doc


def documents(shape: Shape) -> Iterator[Any]:
    vals = shape.values()
    for v in vals[:4] + vals[-1:]:
        doc = plain(shape.enc(v))
        yield doc
        for i, (name, value) in enumerate(EXTRA):
            yield from extended(doc, name, value, i % 2 == 0)
        yield everywhere(doc, "extra", 0)
        yield everywhere(doc, "?", {"a": 1})
    # documents with another error, in addition
    doc = everywhere(plain(shape.enc(vals[-1])), "extra", 0)
    yield from mutations(doc, [None, {"bad": 1}])


def run(task: Any, ctx: Any) -> None:
    if task[0] == "types":
        for shape in types(ctx.tier)[task[1] : task[2]]:
            for order in ((False, True), (True, False)):
                # the second time, unions are written with `|`
                *_, world = worlds(shape) if order[0] else [World(shape)]
                for doc in documents(shape):
                    for skip in order:
                        check(shape, world, doc, skip, ctx)
                world.close()
        ctx.sample({"type": shape.name, "document": doc})
    else:
        for shape, payload in ladder(task[1]):
            doc = plain(shape.enc(payload))
            if not isinstance(doc, (dict, list)):
                continue
            world = World(shape)
            for d in (doc, everywhere(doc, "extra!", 0)):
                for skip in (False, True):
                    check(shape, world, d, skip, ctx)
            if isinstance(doc, dict):
                for d in ({**doc, "extra!": 0}, {"extra!": 0, **doc}):
                    for skip in (False, True):
                        check(shape, world, d, skip, ctx)
            world.close()


def check(shape: Shape, world: World, doc: Any, skip: bool, ctx: Any) -> None:
    expected = shape.dec(doc, skip)
    actual = read(world, doc, skip)
    ctx.step()
    ctx.state(shape.name[:300], repr(doc)[:2000], skip)
    problem = agrees(shape, world, actual, expected)
    if problem:
        ctx.violation(
            problem, type=shape.name[:300], skip=skip, document=doc, result=actual, expected=expected, source=world.source[:2000]
        )
        return
    ctx.trace()
    label = "unspecified" if expected is UNSPEC else "accepted" if is_ok(expected) else actual[1]
    ctx.outcome(f"skip: {label}" if skip else label)
