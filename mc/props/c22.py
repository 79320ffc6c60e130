"""
C22: type dependencies are collected completely and sorted consistently.

All reference graphs among up to three classes x the kind of class x the form of the references x how forward references are
written. The model knows which types occur in which class; the library's collection must be the reachable types, and its
order must be an order of exactly these (with what a dependency function adds).
"""

from __future__ import annotations

import datetime
import decimal
import enum
import itertools
import uuid
from typing import Any, Callable, Iterable, Optional

from world import drop_module, evaluate, new_module

from strong_typing.inspection import get_referenced_types
from strong_typing.topological import type_topological_sort

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 512 graphs of references (with self-references) among 3 classes x 4 kinds of classes x 18 forms of references, 3 "
    "ways of writing them; all pairs of forms for pairs of references; all non-empty subsets of classes as input, in all 6 "
    "orders and 7 kinds of iterables; all dependency functions with up to 2 additional dependencies among 5 types; inherited "
    "members within and across modules; 120 types that are not classes; 9 forms with up to 33 arguments; chains of up to 300 classes",
    "thorough": "as quick, all 65536 graphs among 4 classes for one kind of class, all ways of writing for all forms",
}

# form -> additional types
FORMS: dict[str, set[type]] = {
    "{}": set(),
    "list[{}]": set(),
    "set[{}]": set(),
    "frozenset[{}]": set(),
    "dict[str, {}]": {str},
    "dict[{}, bytes]": {bytes},
    "tuple[{}]": set(),
    "tuple[int, {}]": {int},
    "Optional[{}]": set(),
    "Union[{}, float]": {float},
    "Union[None, bool, {}]": {bool},
    "Annotated[{}, 'note']": set(),
    "Annotated[Optional[list[{}]], 42, 'note']": set(),
    "dict[str, list[Optional[{}]]]": {str},
    "Union[list[{}], dict[str, {}]]": {str},
    "{} | None | datetime.date": {datetime.date},
    "{} | datetime.date": {datetime.date},
    "bytes | {}": {bytes},
}
FORM_NAMES = list(FORMS)
KINDS = {"dataclass": "@dataclass\nclass {}:\n", "frozen": "@dataclass(frozen=True)\nclass {}:\n", "plain": "class {}:\n", "ntuple": "class {}(NamedTuple):\n"}
# own members of the classes
OWN: list[tuple[str, set[Any]]] = [
    ("a0: int\n    b0: Any\n", {int}),
    ("a1: Literal['x', 1]\n    b1: Optional[uuid.UUID]\n", {uuid.UUID}),
    ("a2: E\n    b2: list[Annotated[decimal.Decimal, 'note']]\n", {"E", decimal.Decimal}),
    ("a3: datetime.datetime\n    b3: Any\n", {datetime.datetime}),
]
ENUM = "class E(enum.Enum):\n    A = 'a'\n"
WAYS = ["whole", "inner", "future"]


class Graph:
    "Classes that refer to each other."

    def __init__(self, n: int, forms: dict[tuple[int, int], str], kind: str, way: str) -> None:
        self.n = n
        self.names = [f"C{i}" for i in range(n)]
        source = ENUM
        deps: list[set[Any]] = []
        for i in range(n):
            text, own = OWN[i]
            body = "    " + text
            deps.append(set(own))
            for j in range(n):
                form = forms.get((i, j))
                if form is None:
                    continue
                if way == "inner" and "|" not in form:
                    annotation = form.format(*(['"C%d"' % j] * 2))
                elif way == "future":
                    annotation = form.format(f"C{j}", f"C{j}")
                else:
                    annotation = '"' + form.format(f"C{j}", f"C{j}") + '"'
                body += f"    r{j}: {annotation}\n"
                deps[i] |= {f"C{j}"} | FORMS[form]
            source += KINDS[kind].format(f"C{i}") + body
        self.source = source
        self.module = new_module(source, future=way == "future")
        self.deps = {self.get(f"C{i}"): {self.get(d) for d in deps[i]} for i in range(n)}

    def get(self, name: Any) -> Any:
        return getattr(self.module, name) if isinstance(name, str) else name

    def classes(self) -> list[type]:
        return [self.get(n) for n in self.names]

    def close(self) -> None:
        drop_module(self.module)


def reachable(start: Iterable[Any], deps: dict[Any, set[Any]]) -> set[Any]:
    found: set[Any] = set()
    todo = list(start)
    while todo:
        t = todo.pop()
        if t not in found:
            found.add(t)
            todo.extend(deps.get(t, ()))
    return found


def has_cycle(types: set[Any], deps: dict[Any, set[Any]]) -> bool:
    return any(t in reachable(deps.get(t, set()) - {t}, {k: v - {k} for k, v in deps.items()}) for t in types)


def show(types: Any) -> Any:
    return sorted(getattr(t, "__name__", repr(t)) for t in types)


def expect_types(ctx: Any, typ: Any, module: Any, expected: set[Any], **case: Any) -> None:
    ctx.step()
    ctx.trace()
    try:
        result = get_referenced_types(typ, module)
    except Exception as ex:
        ctx.violation(f"collecting types fails with {type(ex).__name__}: {ex}", type=repr(typ), **case)
        return
    if set(result) != expected:
        ctx.violation("other types are referenced", type=repr(typ), expected=show(expected), result=show(result), **case)


def expect_order(
    ctx: Any, given: Any, names: list[Any], deps: dict[Any, set[Any]], fn: Optional[Callable[[type], Iterable[type]]], **case: Any
) -> None:
    types = reachable(names, deps)
    loops = has_cycle(types, deps)
    ctx.step()
    ctx.trace()
    ctx.outcome("cyclic" if loops else "acyclic")
    case = dict(types=show(names), **case)
    try:
        result = type_topological_sort(given, fn) if fn is not None else type_topological_sort(given)
    except RuntimeError as ex:
        if not loops or isinstance(ex, RecursionError):
            ctx.violation(f"types without a cycle refused: {ex}", **case)
        return
    except Exception as ex:
        ctx.violation(f"sorting fails with {type(ex).__name__}: {ex}", **case)
        return
    if loops:
        ctx.violation("types with a cycle sorted", result=repr(result), **case)
        return
    if len(result) != len(types) or set(result) != types:
        ctx.violation("other types are sorted", expected=show(types), result=repr(result), **case)
        return
    position = {t: i for i, t in enumerate(result)}
    for t in types:
        for d in deps.get(t, ()):
            if position[d] > position[t]:
                ctx.violation("type before a type it depends on", type=repr(t), dependency=repr(d), result=repr(result), **case)
                return


ITERABLES: dict[str, Callable[[list[Any]], Any]] = {
    "list": list,
    "tuple": tuple,
    "set": set,
    "frozenset": frozenset,
    "generator": lambda x: (t for t in x),
    "iterator": iter,
    "keys": lambda x: dict.fromkeys(x).keys(),
}


def explore(g: Graph, ctx: Any, full: bool, **case: Any) -> None:
    classes = g.classes()
    for c in classes:
        expect_types(ctx, c, None, reachable([c], g.deps), source=g.source)
    for k in range(1, len(classes) + 1):
        for subset in itertools.combinations(classes, k):
            orders = list(itertools.permutations(subset)) if full else [subset, subset[::-1]][: 1 + (k > 1)]
            for order in orders:
                for name, make in ITERABLES.items() if full else [("list", list)]:
                    expect_order(ctx, make(list(order)), list(order), g.deps, None, iterable=name, source=g.source)
    # types that occur twice, and types of members
    expect_order(ctx, classes + classes[::-1], classes, g.deps, None, source=g.source)


def edges_of(n: int, bits: int) -> list[tuple[int, int]]:
    return [(i, j) for k, (i, j) in enumerate(itertools.product(range(n), repeat=2)) if bits >> k & 1]


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["graphs", kind, i] for kind in KINDS for i in range(8)]
    out += [["pairs", i] for i in range(len(FORM_NAMES))]
    out += [["iterables", kind] for kind in KINDS]
    out += [["function", i] for i in range(16)]
    out += [["inherit"], ["types"], ["chains"]]
    out += [["many", form] for form in MANY]
    if tier == "thorough":
        out += [["four", i] for i in range(64)]
    return out


def run(task: Any, ctx: Any) -> None:
    if task[0] == "graphs":
        for bits in range(task[2], 512, 8):
            edges = edges_of(3, bits)
            for f, form in enumerate(FORM_NAMES):
                for w, way in enumerate(WAYS):
                    if not ctx.thorough and (bits + f) % 3 != w:
                        continue
                    g = Graph(3, {e: form for e in edges}, task[1], way)
                    ctx.state(task[1], bits, form, way)
                    explore(g, ctx, False)
                    g.close()
        ctx.sample({"source": g.source})
    elif task[0] == "pairs":
        form1 = FORM_NAMES[task[1]]
        for form2 in FORM_NAMES:
            for (e1, e2), kind in itertools.product(itertools.permutations(edges_of(2, 15), 2), KINDS):
                for way in WAYS:
                    g = Graph(2, {e1: form1, e2: form2}, kind, way)
                    ctx.state(form1, form2, e1, e2, kind, way)
                    explore(g, ctx, False)
                    g.close()
    elif task[0] == "four":
        for bits in range(task[1], 2**16, 64):
            g = Graph(4, {e: FORM_NAMES[k % len(FORM_NAMES)] for k, e in enumerate(edges_of(4, bits), bits)}, "dataclass", "whole")
            ctx.state("four", bits)
            explore(g, ctx, False)
            g.close()
    elif task[0] == "iterables":
        for bits in range(512):
            if bits.bit_count() > 3:
                continue
            g = Graph(3, {e: FORM_NAMES[k % len(FORM_NAMES)] for k, e in enumerate(edges_of(3, bits), bits)}, task[1], "whole")
            ctx.state("iterables", task[1], bits)
            explore(g, ctx, True)
            g.close()
    elif task[0] == "function":
        functions(task[1], ctx)
    elif task[0] == "inherit":
        inherit(ctx)
    elif task[0] == "many":
        many(task[1], ctx)
    elif task[0] == "types":
        special(ctx)
    else:
        chains(ctx)


def functions(part: int, ctx: Any) -> None:
    "Every function that gives up to two additional dependencies."
    for bits in range(512):
        if bits.bit_count() > 2 or bits % 16 != part:
            continue
        g = Graph(3, {e: FORM_NAMES[k % len(FORM_NAMES)] for k, e in enumerate(edges_of(3, bits), bits)}, "dataclass", "whole")
        extra = new_module("class Other:\n    x: complex\n")
        other = extra.Other
        classes = g.classes()
        targets = classes + [other, decimal.Decimal]
        sources = classes + [other, int, decimal.Decimal]
        single = list(itertools.product(sources, targets))
        for added in itertools.chain([()], itertools.combinations(single, 1), itertools.combinations(single, 2)):
            deps = {**g.deps, other: {complex}}
            more: dict[Any, list[Any]] = {}
            for s, t in added:
                more.setdefault(s, []).append(t)
            for s, ts in more.items():
                deps[s] = deps.get(s, set()) | set(ts)
            results: list[Callable[[Any], Any]] = [lambda t: more.get(t, [])]
            if len(added) < 2:
                results += [lambda t: tuple(more.get(t, ())), lambda t: iter(more.get(t, ())), lambda t: set(more.get(t, ()))]
            for fn in results:
                for given in ([classes[0]], classes) if len(added) < 2 else ([classes[0]],):
                    ctx.count_states(1)
                    expect_order(ctx, given, given, deps, fn, source=g.source, added=repr(added))
        g.close()
        drop_module(extra)


def inherit(ctx: Any) -> None:
    "Inherited members, declared in the same or in another module; forward references mean the module of the declaration."
    first = {
        "dataclass": ("@dataclass\nclass Base:\n", "@dataclass\nclass {}(first.Base):\n"),
        "frozen": ("@dataclass(frozen=True)\nclass Base:\n", "@dataclass(frozen=True)\nclass {}(first.Base):\n"),
        "plain": ("class Base:\n", "class {}(first.Base):\n"),
    }
    for kind, (base, derived) in first.items():
        for form in FORM_NAMES:
            for way in WAYS:
                inner = way == "inner" and "|" not in form
                annotation = form.format(*(['"X"'] * 2)) if inner else form.format("X", "X") if way == "future" else repr(form.format("X", "X"))
                m1 = new_module("class X:\n    a: int\n" + base + f"    x: {annotation}\n", future=way == "future")
                # the second module has another class of the same name
                for own in ("", f"    y: {annotation}\n", "    y: str\n", "    x: str\n"):
                    body = own or "    pass\n"
                    m2 = new_module("class X:\n    a: bytes\n" + derived.format("D") + body, future=way == "future", extra={"first": m1})
                    deps = {
                        m1.X: {int},
                        m2.X: {bytes},
                        m1.Base: {m1.X} | FORMS[form],
                        m2.D: {m1.X} | FORMS[form],
                    }
                    if "y: str" in own:
                        deps[m2.D] = deps[m2.D] | {str}
                    elif "y" in own:
                        deps[m2.D] = deps[m2.D] | {m2.X}
                    elif "x: str" in own:
                        deps[m2.D] = {str}
                    ctx.state("inherit", kind, form, way, own)
                    ctx.outcome("inherited")
                    case = dict(first=m1.__source__, second=m2.__source__)
                    for t in (m1.Base, m2.D):
                        expect_types(ctx, t, None, reachable([t], deps), **case)
                        expect_order(ctx, [t], [t], deps, None, **case)
                    expect_order(ctx, [m2.D, m1.Base, m2.X], [m2.D, m1.Base, m2.X], deps, None, **case)
                    drop_module(m2)
                drop_module(m1)


def special(ctx: Any) -> None:
    "Types that are not classes, with and without forward references."
    m = new_module("class X:\n    a: int\n    y: 'list[Y]'\nclass Y:\n    b: Optional[str]\nAlias = dict[str, 'X']\nLoop = list['Loop']\n" + ENUM)
    closure = {"X": {m.X, int, m.Y, str}, "Y": {m.Y, str}, "E": {m.E}, "int": {int}, "Any": set()}
    closure |= {"Literal['a', 2]": set(), "datetime.datetime": {datetime.datetime}, "bytes": {bytes}, "Alias": {str, m.X, int, m.Y}}
    closure["Loop"] = set()
    for name, inside in closure.items():
        for form, more in {"{}": set(), **FORMS}.items():
            for quoted in (False, True):
                atom = f'"{name}"' if quoted else name
                if "|" in form and quoted:
                    continue
                try:
                    typ = evaluate(m, form.format(atom, atom))
                except TypeError:
                    continue
                ctx.state("special", name, form, quoted)
                ctx.outcome("special form")
                expect_types(ctx, typ, m, inside | more, expression=form.format(atom, atom))
    for typ, expected in [(type(None), set()), (Any, set()), (object, {object}), (type, {type}), (enum.Enum, {enum.Enum})]:
        expect_types(ctx, typ, None, expected)
    expect_order(ctx, [], [], {}, None)
    expect_order(ctx, [int, str, int], [int, str], {}, None)
    drop_module(m)


MANY: dict[str, Callable[[list[str]], str]] = {
    "tuple": lambda xs: f"tuple[{', '.join(xs)}]",
    "Union": lambda xs: f"Union[{', '.join(xs)}]",
    "OptUnion": lambda xs: f"Optional[Union[{', '.join(xs)}]]",
    "bar": lambda xs: " | ".join(xs),
    "barnone": lambda xs: " | ".join([*xs, "None"]),
    "nested": lambda xs: "tuple[int, " * len(xs) + "bool" + "".join(f", {x}]" for x in xs),
    "lists": lambda xs: "tuple[" + ", ".join(f"list[{x}]" for x in xs) + "]",
    "dicts": lambda xs: "Union[" + ", ".join(f"dict[str, {x}]" for x in xs) + "]",
    "annotated": lambda xs: "Annotated[tuple[" + ", ".join(f"Annotated[{x}, 'n']" for x in xs) + "], 1, 2, 3]",
}
MANY_MORE = {"nested": {int, bool}, "dicts": {str}}


def many(form: str, ctx: Any) -> None:
    "Types with many arguments, classes with many members, many classes as input, many dependencies."
    make = MANY[form]
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 32, 33]:
        if form == "nested" and n > 12:
            continue
        body = "".join(f"class C{i}:\n    a: list[T{i}]\nclass T{i}:\n    pass\n" for i in range(n))
        args = [f"C{i}" for i in range(n)]
        body += f"class M:\n    m: '{make(args)}'\n" if "'" not in make(args) else f"class M:\n    m: {make(args)}\n"
        body += "class F:\n" + "".join(f"    m{i}: {'Optional[C%d]' % i if i % 2 else 'C%d' % i}\n" for i in range(n))
        m = new_module(body, future=True)
        classes = [getattr(m, a) for a in args]
        deps = {c: {getattr(m, f"T{i}")} for i, c in enumerate(classes)}
        inside = reachable(classes, deps)
        more = MANY_MORE.get(form, set())
        deps[m.M] = set(classes) | more
        deps[m.F] = set(classes)
        ctx.state("many", form, n)
        ctx.outcome("many")
        expect_types(ctx, evaluate(m, make(args)), m, inside | more, form=form, length=n)
        expect_types(ctx, evaluate(m, make([f"'{a}'" for a in args])) if not form.startswith("bar") else m.M, m, inside | more | ({m.M} if form.startswith("bar") else set()), form=form, length=n)
        for given in ([m.M], [m.F], classes, classes[::-1], [m.M, m.F], inside):
            for fn_deps in ({}, {classes[0]: [m.F] if given != [m.F] else []}, {m.M: [int, str, float, bytes, complex]}, {c: [bytes] for c in classes}):
                all_deps = {**deps}
                for t, ts in fn_deps.items():
                    all_deps[t] = all_deps.get(t, set()) | set(ts)
                fn = (lambda t, d=fn_deps: d.get(t, [])) if fn_deps else None
                expect_order(ctx, given, list(given), all_deps, fn, form=form, length=n)
        drop_module(m)


def chains(ctx: Any) -> None:
    for n in (10, 50, 100, 200, 300):
        for form in FORM_NAMES:
            source = "".join(
                f"class C{i}:\n    r: {form.format(*(2 * [f'C{i - 1}'])) if i else 'int'}\n" for i in range(n)
            )
            if "|" in form:
                continue
            m = new_module(source)
            deps = {getattr(m, f"C{i}"): {getattr(m, f"C{i - 1}")} | FORMS[form] if i else {int} for i in range(n)}
            top = getattr(m, f"C{n - 1}")
            ctx.state("chain", n, form)
            ctx.outcome("chain")
            expect_types(ctx, top, None, reachable([top], deps), length=n, form=form)
            expect_order(ctx, [top], [top], deps, None, length=n, form=form)
            expect_order(ctx, list(deps), list(deps), deps, None, length=n, form=form)
            drop_module(m)
