"""
C03: type-safe deserialization.

For every type of the universe, all documents of a lexicon (every JSON kind, every text format with near misses), all
lexicon items in every position of valid documents (at least one position at a time), with members and items removed,
added and renamed, are deserialized; the outcome must be the object that the reference model reads from the document,
or an error of the kinds that the model allows.
"""

from __future__ import annotations

import itertools
import json
from typing import Any, Iterator

import classforms
from common import DOCUMENTED, agrees, is_ok, json_to_generic, plain, read
from ladders import LADDERS, ladder
from shapes import ATOMS, COMPOUND, DOCS, MUTANT_ATOMS, UNSPEC, Shape, World, mutations, worlds
from universe import chunks, leaves, universe
from world import drop_module, evaluate, new_module

LEVEL = "model_checking"
LEVELS = {"quick": 2, "thorough": 3}
BOUNDS = {
    "quick": "all types of the universe with up to 2 nested containers over representative leaves, x (80 documents of the "
    "lexicon + all single-point mutations of 4 valid documents; for types with one container all lexicon items in every "
    "position); pairs of mutations for classes; size ladders with one bad item; "
    "8 kinds of classes x 17 base classes x 10 features x 3 positions x 44 documents",
    "thorough": "as quick, 3 nested containers over all representative leaves, lexicon items in every position of types "
    "with two containers",
}


def tasks(tier: str) -> list[Any]:
    return (
        [["ladder", i] for i in range(len(LADDERS))]
        + [["types", *c] for c in chunks(len(universe(LEVELS[tier])), 40)]
        + [["class forms", kind] for kind in classforms.KINDS if kind not in classforms.UNTYPED]
    )


def documents(shape: Shape, full: bool) -> Iterator[Any]:
    yield from DOCS
    vals = shape.values()
    picks = vals[:3] + vals[-1:]
    for i, v in enumerate(picks):
        doc = plain(shape.enc(v))
        yield doc
        yield from mutations(doc, DOCS if full and (i in (0, len(picks) - 1)) else MUTANT_ATOMS)
        if full and i == 0:
            # documents that differ in two places
            for m in itertools.islice(mutations(doc, [None, True, 0, "a"]), 60):
                if isinstance(m, (dict, list)) and m:
                    yield from mutations(m, [None, 1, "b"])


def compare(shape: Shape, world: World, doc: Any, ctx: Any) -> None:
    expected = shape.dec(doc)
    actual = read(world, doc)
    ctx.step()
    problem = agrees(shape, world, actual, expected)
    if problem:
        ctx.violation(problem, type=shape.name[:300], document=doc, result=actual, expected=expected, source=world.source[:3000])
        return
    ctx.trace()
    ctx.outcome("unspecified" if expected is UNSPEC else "accepted" if is_ok(expected) else actual[1])


def class_forms(kind: str, ctx: Any) -> None:
    "Classes with all kinds of base classes and features."
    for name, source in classforms.forms(kind):
        module = new_module(source)
        for how in ("C", "list[C]", "W"):
            typ = evaluate(module, how)
            for doc, good in classforms.others(kind):
                doc = classforms.wrap(how, doc)
                ctx.step()
                ctx.trace()
                ctx.state(name, how, doc)
                try:
                    items = classforms.unwrap(how, json_to_generic(typ, json.loads(json.dumps(doc)), context=module))
                except DOCUMENTED as ex:
                    if good:
                        ctx.violation(f"document of another form of class is refused: {ex}", type=how, form=name, document=doc)
                    ctx.outcome("refused")
                except Exception as ex:
                    ctx.violation(f"undocumented error {type(ex).__name__}: {ex}", type=how, form=name, document=doc)
                else:
                    if good is False:
                        ctx.violation("document of another form of class is read", type=how, form=name, document=doc)
                    elif any(type(x) is not module.C or type(x.a) is not int or type(x._c) is not list or type(x.in_) not in (str, type(None)) for x in items):
                        ctx.violation("members of other types", type=how, form=name, document=doc)
                    ctx.outcome("accepted")
        drop_module(module)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "class forms":
        class_forms(task[1], ctx)
        return
    if task[0] == "types":
        for index in range(task[1], task[2]):
            shape = universe(LEVELS[ctx.tier])[index]
            full = index < (1200 if ctx.tier == "quick" else 8000)
            for world in worlds(shape):
                seen: set[str] = set()
                for doc in documents(shape, full):
                    key = json.dumps(doc)
                    if key in seen:
                        continue
                    seen.add(key)
                    ctx.state(shape.name, key)
                    compare(shape, world, doc, ctx)
                world.close()
        ctx.sample({"type": shape.name, "document": doc, "expected": shape.dec(doc)})
    else:
        for shape, payload in ladder(task[1]):
            world = World(shape)
            doc = plain(shape.enc(payload))
            compare(shape, world, doc, ctx)
            ctx.state(shape.name[:300], len(repr(doc)))
            # a bad item in the first, middle and last position, an item too many, an item too few
            if isinstance(doc, list) and doc:
                for i in {0, len(doc) // 2, len(doc) - 1}:
                    for bad in (None, True, {"bad": 1}):
                        compare(shape, world, doc[:i] + [bad] + doc[i + 1 :], ctx)
                compare(shape, world, doc[:-1], ctx)
                compare(shape, world, doc + [doc[-1]], ctx)
                compare(shape, world, doc + [None], ctx)
            elif isinstance(doc, dict) and doc:
                keys = list(doc)
                for k in {keys[0], keys[len(keys) // 2], keys[-1]}:
                    for bad in (None, True, ["bad"]):
                        compare(shape, world, {**doc, k: bad}, ctx)
                    compare(shape, world, {q: v for q, v in doc.items() if q != k}, ctx)
                compare(shape, world, {**doc, "bad!": 0}, ctx)
                compare(shape, world, {"bad!": 0, **doc}, ctx)
            world.close()
