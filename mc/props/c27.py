"""
C27: instance-of-generic checks are exact.

All pairs of a type within the nesting bound and a small value, conforming or not; the reference decides by recursion over the
syntax tree of the type, such that an answer with a single wrong item anywhere is told apart.
"""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from world import drop_module, evaluate, new_module

from strong_typing.inspection import is_generic_instance

from .c25 import clear
from .c26 import strip, text

LEVEL = "model_checking"
BOUNDS = {
    "quick": "32 simple types and literals, 12 type constructors, unions in 6 notations, annotations; all types of depth 1, depth 2 over "
    "7 simple types; all of 25 simple values, all lists, sets, dictionaries and tuples of up to 3 of 6 values, and containers of up "
    "to 2 of 18 containers (4 500 values); all pairs; containers of up to 257 items of which one is of another type, "
    "types with up to 257 arguments, nested up to 33 deep",
    "thorough": "as quick, types of depth 3, containers of containers of 8 values",
}

SOURCE = """
import collections
class P:
    pass
class PS(P):
    pass
@dataclass(frozen=True)
class Q:
    q: int
@dataclass(frozen=True)
class R(Q):
    pass
class E(enum.Enum):
    A = "a"
    B = "b"
class F(enum.IntEnum):
    ONE = 1
class TP(NamedTuple):
    x: int
    y: str
class L(list):
    pass
class DD(dict):
    pass
class SS(set):
    pass
p, ps = P(), PS()
now = datetime.datetime(2020, 1, 1)
day = datetime.date(2020, 1, 1)
"""

SIMPLE = (
    "bool int float str bytes object Any datetime.datetime datetime.date list dict set tuple frozenset P PS Q R E F TP type(None) L"
).split()
LITERALS = [["'a'"], ["1"], ["True"], ["0", "'a'"], ["E.A"], ["E.B", "F.ONE"], ["None"], ["b'a'"], ["False", "'b'", "1"]]
REPS: list[Any] = [("leaf", t) for t in ("int", "str", "P", "Q", "Any", "bool")] + [("literal", "'a'", "1")]
UNARY = ["list", "set", "tuple", "tuple...", "List", "Set"]
BINARY = ["dict", "Dict", "pair"]
NOTATIONS = ["Union", "|", "|None", "None-Union", "Optional", "Union-None-mid"]

VALUES = (
    "None True False 0 1 2 1.0 1.5 'a' 'b' '' b'a' now day p ps Q(1) R(1) E.A E.B F.ONE int P 1j ...".split()
)
ITEMS = ["1", "'a'", "p", "None", "True", "Q(1)"]
# several values of the same type, of which some are members of a literal type or have the right structure
ALIKE = ["1", "0", "'a'", "'b'", "E.A", "E.B", "(1, 'a')", "(1, 1)"]


def types(depth: int) -> list[Any]:
    leaves: list[Any] = [("leaf", t) for t in SIMPLE] + [("literal", *v) for v in LITERALS]
    one: list[Any] = [(c, x) for c in UNARY for x in leaves]
    one += [(c, x, y) for c in BINARY for x in REPS for y in leaves]
    one += [("union", n, x) for n in ("Optional", "None-Union", "|None") for x in leaves]
    one += [("union", n, x, y) for n in NOTATIONS for x, y in itertools.permutations(REPS, 2)]
    one += [("union", "Union", x, y, z) for x, y, z in itertools.permutations(REPS, 3)]
    one += [("triple", x, y, z) for x in REPS for y in REPS for z in REPS[:4]]
    one += [("ann", x, "'note'") for x in leaves] + [("ann", ("ann", x, "[1]"), "'note'") for x in leaves]
    one += [("leaf", "tuple[()]")]
    if depth == 1:
        return leaves + one
    reps = inner()
    two: list[Any] = [(c, x) for c in UNARY for x in reps]
    two += [(c, x, y) for c in BINARY for x in REPS[:2] for y in reps]
    two += [("dict", y, x) for x in REPS[:2] for y in reps]
    two += [("pair", x, y) for x in reps for y in REPS[:2]]
    two += [("union", "Union", x, y) for x, y in itertools.permutations(reps, 2)]
    two += [("union", n, x) for n in ("Optional", "|None") for x in reps]
    two += [("ann", x, "'note'") for x in reps]
    if depth == 2:
        return two
    return [(c, x) for c in UNARY for x in two] + [("dict", REPS[1], x) for x in two] + [("pair", x, REPS[0]) for x in two]


def inner() -> list[Any]:
    some = REPS[:2] + REPS[-1:]
    return (
        [(c, x) for c in UNARY[:4] for x in some]
        + [("dict", REPS[1], x) for x in some]
        + [("pair", REPS[0], x) for x in some]
        + [("union", n, REPS[0], REPS[1]) for n in NOTATIONS[:4]]
        + [("union", "Optional", x) for x in some]
        + [("ann", x, "'note'") for x in some]
        + [("ann", ("list", x), "'note'") for x in some]
    )


def words(items: list[str], n: int) -> Iterator[tuple[str, ...]]:
    for k in range(n + 1):
        yield from itertools.product(items, repeat=k)


def containers(items: list[str], n: int) -> Iterator[str]:
    for w in words(items, n):
        yield "[" + ", ".join(w) + "]"
        yield "(" + "".join(f"{x}, " for x in w) + ")"
        if len(w) == 2 and "[" not in w[0] and "{" not in w[0] and "set(" not in w[0]:
            yield "{" + f"{w[0]}: {w[1]}" + "}"
    yield "{}"
    yield "set()"
    hashable = [i for i in items if not any(c in i for c in "[{") and "set(" not in i.replace("frozenset(", "")]
    for k in range(1, n + 1):
        for c in itertools.combinations(hashable, k):
            yield "{" + ", ".join(c) + "}"


def dictionaries() -> Iterator[str]:
    "Dictionaries with two and three entries, of which keys or values are of the same type."
    values = ["1", "'a'", "None", "'b'"]
    for n in (2, 3):
        for keys in itertools.permutations(ALIKE, n):
            for vals in itertools.product(values, repeat=n) if n == 2 else [("1",) * n, ("1", "'a'", "1"), ("'a'", "'b'", "'a'")]:
                yield "{" + ", ".join(f"{k}: {v}" for k, v in zip(keys, vals)) + "}"


def values(part: str, thorough: bool) -> list[str]:
    if part == "simple":
        return [
            *VALUES,
            "frozenset({1})",
            "TP(1, 'a')",
            "TP('a', 1)",
            "L([1])",
            "L(['a'])",
            "DD(a=1)",
            "DD({1: 1})",
            "SS({1})",
            "collections.OrderedDict(a=1)",
            "collections.defaultdict(int, {'a': 'a'})",
            "{'a': 1, 'b': 'b'}",
            "{'a': 1, 2: 1}",
            "{1: 'a', 2: 'b', 'a': 'a'}",
            "range(1)",
            "iter([1])",
            "'abc'",
            "bytearray(b'1')",
        ]
    if part == "containers":
        return list(dict.fromkeys([*containers(ITEMS, 3), *containers(ALIKE, 3), *dictionaries()]))
    base = list(containers(ITEMS[:3] if not thorough else ITEMS[:4], 1))
    base += ["{'a': 1}", "{'a': 'a'}", "{1: 'a'}", "(1, 'a')", "(1, 1)", "['a', 1]"]
    base = list(dict.fromkeys(base))
    return list(dict.fromkeys(containers([*base, "1", "'a'"], 2)))


def conforms(value: Any, node: Any, module: Any) -> bool:
    "Reference: whether a value has the structure of the type."

    node, _ = strip(node)
    kind, parts = node[0], node[1:]
    if kind == "leaf":
        if parts[0] == "Any":
            return True
        if parts[0] == "tuple[()]":
            return isinstance(value, tuple) and len(value) == 0
        return isinstance(value, leaf(module, parts[0]))
    if kind == "none":
        return value is None
    if kind == "literal":
        for v in parts:
            v = leaf(module, v)
            if type(v) is type(value) and v == value:
                return True
        return False
    if kind in ("list", "List"):
        return isinstance(value, list) and all(conforms(v, parts[0], module) for v in value)
    if kind in ("set", "Set"):
        return isinstance(value, set) and all(conforms(v, parts[0], module) for v in value)
    if kind in ("dict", "Dict"):
        return isinstance(value, dict) and all(
            conforms(k, parts[0], module) and conforms(v, parts[1], module) for k, v in value.items()
        )
    if kind == "tuple...":
        return isinstance(value, tuple) and all(conforms(v, parts[0], module) for v in value)
    if kind in ("tuple", "pair", "triple"):
        return isinstance(value, tuple) and len(value) == len(parts) and all(conforms(v, p, module) for v, p in zip(value, parts))
    if kind == "union":
        nullable = parts[0] not in ("Union", "|")
        return (nullable and value is None) or any(conforms(value, p, module) for p in parts[1:])
    raise AssertionError(kind)


_leaf: dict[str, Any] = {}


def leaf(module: Any, expression: str) -> Any:
    if expression not in _leaf:
        _leaf[expression] = evaluate(module, expression)
    return _leaf[expression]


def expression(node: Any) -> str:
    if node[0] == "triple":
        return "tuple[" + ", ".join(text(n) for n in node[1:]) + "]"
    return text(node)


def tasks(tier: str) -> list[Any]:
    t: list[Any] = []
    for part in ("simple", "containers", "nested"):
        for depth in (1, 2) if tier == "quick" else (1, 2, 3):
            n = 1 if part == "simple" else 8 if tier == "quick" else 16
            t += [[part, depth, n, i] for i in range(n)]
    return t + [["wide", n] for n in WIDE]


WIDE = [3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257]


def wide(n: int, ctx: Any) -> None:
    "Containers of many items of which one is of another type, types with many arguments, types nested deeply."
    module = new_module(SOURCE)

    def expect(value: Any, typ: str, expected: bool) -> None:
        ctx.step()
        ctx.trace()
        ctx.count_states(1)
        try:
            found = is_generic_instance(value, evaluate(module, typ) if typ not in known else known[typ])
        except Exception as ex:
            ctx.violation(f"check fails with {type(ex).__name__}: {ex}", type=typ[:300], value=value)
            return
        ctx.outcome("instance" if expected else "not an instance")
        if found is not expected:
            ctx.violation("value accepted that is not an instance" if found else "instance not recognized", type=typ[:300], value=value)

    known: dict[str, Any] = {}
    try:
        positions = sorted({0, 1, n // 3, n // 2, n - 2, n - 1} | (set(range(n)) if n <= 40 else set()))
        for at in [None, *positions]:
            good = at is None
            items: list[Any] = [i if i != at else "x" for i in range(n)]
            for form in ("list[int]", "typing.List[int]", "Optional[list[int]]", "Union[list[int], str]", "Annotated[list[int], 'n']"):
                expect(items, form, good)
            expect(items, "list[Union[int, str]]", True)
            expect(items, "list[object]", True)
            expect(tuple(items), "tuple[int, ...]", good)
            expect(tuple(items), "tuple[" + ", ".join(["int"] * n) + "]", good)
            expect(tuple(items), "tuple[" + ", ".join(["int" if i != at else "str" for i in range(n)]) + "]", True)
            expect(tuple(items), "tuple[" + ", ".join(["int" if i != at else "Optional[list[str]]" for i in range(n)]) + "]", good)
            expect(set(items), "set[int]", good)
            expect({x: i for i, x in enumerate(items)}, "dict[int, int]", good)
            expect({i: x for i, x in enumerate(items)}, "dict[int, int]", good)
            expect({i: x for i, x in enumerate(items)}, "dict[int, Union[int, str]]", True)
            expect([[x] for x in items], "list[list[int]]", good)
            expect([(i, {x}) for i, x in enumerate(items)], "list[tuple[int, set[int]]]", good)
        ints = ", ".join(["int"] * n)
        for k in (0, 1, n - 1, n + 1, 2 * n):
            expect(tuple(range(k)), f"tuple[{ints}]", k == n)
        values = ", ".join(f"'v{i}'" for i in range(n))
        for i in [*positions, n, n + 1, -1]:
            expect(f"v{i}", f"Literal[{values}]", 0 <= i < n)
            expect([f"v{i}"], f"list[Literal[{values}]]", 0 <= i < n)
            expect(f"v{i}", f"Optional[Literal[{values}]]", 0 <= i < n)
        if n <= 40:
            arms = [f"tuple[{'str, ' * i}int]" for i in range(n)]
            for union in ("Union[" + ", ".join(arms) + "]", " | ".join(arms), "Optional[Union[" + ", ".join(arms) + "]]"):
                for i in [*range(n + 2)]:
                    expect(("s",) * i + (1,), union, i < n)
                    expect(("s",) * i, union, False)
                expect(None, union, union.startswith("Opt"))
        if n <= 33:
            for forms in (["list"], ["list", "Optional", "tuple..."], ["dict", "list"], ["ann", "set1"]):
                typ, ok, wrong = "int", 1, "x"
                ok_value: Any = 1
                wrong_value: Any = "x"
                for i in range(n):
                    form = forms[i % len(forms)]
                    if form == "list":
                        typ, ok_value, wrong_value = f"list[{typ}]", [ok_value, ok_value], [ok_value, wrong_value]
                        if i > 6:
                            ok_value, wrong_value = ok_value[:1], wrong_value[1:]
                    elif form == "Optional":
                        typ = f"Optional[{typ}]"
                    elif form == "tuple...":
                        typ, ok_value, wrong_value = f"tuple[{typ}, ...]", (ok_value,), (wrong_value,)
                    elif form == "dict":
                        typ, ok_value, wrong_value = f"dict[str, {typ}]", {"k": ok_value}, {"k": wrong_value}
                    elif form == "ann":
                        typ = f"Annotated[{typ}, {i}]"
                    else:
                        typ, ok_value, wrong_value = f"tuple[{typ}]", (ok_value,), (wrong_value,)
                expect(ok_value, typ, True)
                expect(wrong_value, typ, False)
    finally:
        drop_module(module)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "wide":
        wide(task[1], ctx)
        return
    part, depth, n, i = task
    _leaf.clear()
    module = new_module(SOURCE)
    try:
        vals = [(v, evaluate(module, v)) for v in values(part, ctx.thorough)]
        nodes = list(dict.fromkeys(types(depth)))[i::n]
        for node in nodes:
            clear()
            typ = evaluate(module, expression(node))
            accepted = 0
            for value_text, value in vals:
                expected = conforms(value, node, module)
                try:
                    found = is_generic_instance(value, typ)
                except Exception as ex:
                    ctx.violation(f"check fails with {type(ex).__name__}: {ex}", type=expression(node), value=value_text)
                    continue
                if found is not expected:
                    ctx.violation(
                        "value accepted that is not an instance" if found else "instance not recognized",
                        type=expression(node),
                        value=value_text,
                    )
                accepted += expected
            ctx.step(len(vals))
            ctx.trace(len(vals))
            ctx.count_states(len(vals))
            ctx.outcomes["instance"] += accepted
            ctx.outcomes["not an instance"] += len(vals) - accepted
        ctx.sample(dict(type=expression(nodes[0]), values=[v for v, _ in vals[:3]]))
        ctx.extra["types"] += len(nodes)
        ctx.extra["values"] += len(vals) if i == 0 else 0
    finally:
        drop_module(module)
