"""
C04: missing, null and present members.

For every class of the universe with up to three fields (and wider ones in the thorough tier), every combination of
member states {absent, null, valid values including falsy ones, wrong kind} is deserialized, with the members in every
order; the outcome is compared with the reference model.
"""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from common import agrees, is_ok, plain, read
from shapes import DEF, FAC, INT, REQ, STR, UNSPEC, ClassS, Field, ListS, OptS, Shape, UnionS, worlds
from universe import KIND_NAMES, chunks, class_kinds, inherited, multi_field, named_fields, no_init, ordered, recursive, wrap_class

LEVEL = "model_checking"
BOUNDS = {
    "quick": "8 class kinds x 8 field modes x all leaf types; all mode sequences of 3 and 4 fields; inheritance (fields declared again with "
    "another type or default, two base classes); irregular names; defaults that are no "
    "values of the type, such as None of a type that is not optional; "
    "all combinations of absent/null/valid/falsy/wrong members, all member orders (up to 3 members)",
    "thorough": "as quick, all mode sequences of 5 fields",
}

ABSENT = object()


class OddDefault(Shape):
    "A member whose default is not a value of its type, e.g. `None` of a type that is not optional."

    def __init__(self, item: Shape, default: Any) -> None:
        self.item = item
        self.default = default
        self.name = f"{item.name}={default!r}"
        self.hashable = item.hashable

    def children(self) -> Any:
        return (self.item,)

    def src(self, style: Any) -> str:
        return self.item.src(style)

    def values(self) -> list[Any]:
        return list(self.item.values())

    def is_default(self, payload: Any) -> bool:
        return type(payload) is type(self.default) and bool(payload == self.default)

    def to_py(self, payload: Any, world: Any) -> Any:
        return payload if self.is_default(payload) else self.item.to_py(payload, world)

    def py_src(self, payload: Any) -> str:
        return repr(payload) if self.is_default(payload) else self.item.py_src(payload)

    def same(self, obj: Any, payload: Any, world: Any) -> bool:
        if self.is_default(payload):
            return self.is_default(obj)
        return self.item.same(obj, payload, world)

    def eq(self, p: Any, q: Any) -> bool:
        if self.is_default(p) or self.is_default(q):
            return self.is_default(p) and self.is_default(q)
        return self.item.eq(p, q)

    def enc(self, payload: Any) -> Any:
        return self.item.enc(payload)

    def dec(self, doc: Any, skip: bool = False) -> Any:
        return self.item.dec(doc, skip)


def odd_defaults() -> Iterator[Shape]:
    inner = ClassS("D", [Field("a", INT)])
    for kind in KIND_NAMES:
        if kind == "plain":
            continue
        for i, x in enumerate((INT, STR, ListS(INT), inner, UnionS([INT, STR]))):
            for j, default in enumerate((None, "", 0, "n", (), False)):
                odd = OddDefault(x, default)
                for mode in (DEF,) if kind == "namedtuple" else (DEF, FAC):
                    c = ClassS(f"W{i}{j}", [Field("v", INT), Field("w", odd, mode, default)], kind)
                    c.name = f"{kind}:{mode}:{odd.name}"
                    yield c


def more_fields(count: int) -> Iterator[Shape]:
    for kind in KIND_NAMES:
        modes = {"plain": [REQ, "opt"], "namedtuple": [REQ, DEF, "opt", "optdef"]}.get(
            kind, [REQ, DEF, FAC, "opt", "optdef", "optfac"]
        )
        for ms in itertools.product(modes, repeat=count):
            defaults = [m in (DEF, FAC, "optdef", "optfac") for m in ms]
            if kind not in ("kw_only", "plain") and defaults != sorted(defaults):
                continue
            fields = []
            for i, (m, x) in enumerate(zip(ms, (INT, STR, INT, STR, INT))):
                f = wrap_class(x, m, kind).fields[0]
                f.py = "abcde"[i]
                fields.append(f)
            c = ClassS("W", fields, kind)
            c.name = f"{kind}:W({','.join(ms)})"
            yield c


_types: dict[str, list[Shape]] = {}


def types(tier: str) -> list[Shape]:
    if tier not in _types:

        def gen() -> Iterator[Shape]:
            yield from class_kinds()
            yield from named_fields()
            yield from multi_field()
            yield from no_init()
            yield from inherited()
            yield from (r for r in recursive() if isinstance(r, ClassS))
            # falsy defaults and defaults that differ from the first values
            for kind in KIND_NAMES:
                if kind == "plain":
                    continue
                for d in (0, 1, -1, 23):
                    yield ClassS(f"W{abs(d)}", [Field("w", INT, DEF, d)], kind)
                    yield ClassS(f"V{abs(d)}", [Field("w", OptS(INT), DEF, d)], kind)
                for t in ("", "a", "null"):
                    yield ClassS(f"W{t}", [Field("w", STR, DEF, t)], kind)
                if kind != "namedtuple":
                    for l in ([], [0], [1, 2]):
                        c = ClassS(f"W{len(l)}", [Field("w", ListS(INT), FAC, l)], kind)
                        yield c
            yield from odd_defaults()
            yield from more_fields(5 if tier == "thorough" else 4)

        out = []
        for s in gen():
            s.name = f"{s.name}"
            out.append(s)
        _types[tier] = out
    return _types[tier]


def tasks(tier: str) -> list[Any]:
    return chunks(len(types(tier)), 80)


def run(task: Any, ctx: Any) -> None:
    for shape, world in ((s, w) for s in types(ctx.tier)[task[0] : task[1]] for w in worlds(s)):
        assert isinstance(shape, ClassS)
        fields = shape.all_fields()
        wide = len(fields) > 3
        states = []
        for f in fields:
            vals = [plain(f.shape.enc(v)) for v in f.shape.values()]
            vals = [v for v in vals if v is not None]
            if len(fields) > 1:
                vals = vals[: 1 if wide else 2]
            if f.shape is INT and not wide:
                vals = list(dict.fromkeys([0, *vals]))
            states.append([ABSENT, None] + vals + ([{"bad": 1}] if not wide else []) + ([True] if f.shape is INT else []))
        for combo in itertools.product(*states):
            members = [(f.json_name, v) for f, v in zip(fields, combo) if v is not ABSENT]
            for order in itertools.permutations(members) if len(members) <= 3 else [members, members[::-1]]:
                doc = dict(order)
                expected = shape.dec(doc)
                actual = read(world, doc)
                ctx.step()
                ctx.state(shape.name, repr(order))
                problem = agrees(shape, world, actual, expected)
                if problem:
                    ctx.violation(problem, type=shape.name, document=doc, result=actual, expected=expected, source=world.source)
                    break
                ctx.trace()
                ctx.outcome("unspecified" if expected is UNSPEC else "accepted" if is_ok(expected) else actual[1])
        world.close()
    ctx.sample({"type": shape.name, "source": world.source, "document": doc})
