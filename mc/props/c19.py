"""
C19: types reconstructed from a schema describe the same documents.

For every data class over the supported types, the schema is generated, a class is created from the schema, and every
document of the data class (and every document that differs from one of these in one place) is read and written with the
new class: the model of the original class tells what has to be accepted, and what has to be written. The schema of the
new class must equal the schema of the original class. Schemas with definitions are enumerated as graphs, in every order of
definitions; enumerations as sets of values whose member names clash or are not permitted.
"""

from __future__ import annotations

import enum
import itertools
from dataclasses import MISSING
from typing import Any, Iterator, Optional

from common import DOCUMENTED, object_to_json
from schemas import schema_of
from shapes import (
    BOOL,
    DATE,
    DATETIME,
    DEF,
    FLOAT,
    INT,
    IPV4,
    IPV6,
    REQ,
    STR,
    TIME,
    TIMEDELTA,
    UNSPEC,
    UUID,
    AliasTypeS,
    AnnS,
    ClassS,
    EnumS,
    Field,
    Leaf,
    ListS,
    LiteralS,
    OptS,
    Shape,
    UnionS,
    World,
    is_ok,
    json_same,
    mutations,
)
from universe import ES, FLOAT_ALIASES, INT_ALIASES, LITERALS, N, NI, E, chunks
from world import new_module

from strong_typing.classdef import schema_to_type
from strong_typing.serialization import json_to_generic

LEVEL = "model_checking"
BOUNDS = {
    "quick": "data classes with one field: 33 supported types in up to 2 of 5 containers x 4 field modes; two and three fields: 10 "
    "types x 4 modes each; all graphs of up to 3 definitions x 4 kinds of references x all orders of definitions; all sets of "
    "up to 3 of 28 enumeration values; pairs of schemas in one module; nested classes to depth 4; integer ranges between 63 boundary values, decimal numbers of up to 12 + 7 digits, lengths of strings; 1 to 100 properties, values, definitions and members; up to 400 documents per class",
    "thorough": "as quick, containers nested 3 deep, three fields over all combinations, graphs of 4 definitions, enumerations "
    "with 4 values",
}
SCHEMA = "https://json-schema.org/draft/2020-12/schema"

# types whose constraints a schema cannot be traced back to exactly, e.g. an enumeration of integers becomes an integer
LOSSY = [N, NI, LITERALS[3], INT_ALIASES[0], INT_ALIASES[1], AnnS(STR, "MinLength(2)", ["ab"]), AnnS(INT, "IntegerRange(0, 9)", [0, 9])]
EXACT: list[Shape] = [
    BOOL,
    INT,
    FLOAT,
    STR,
    DATETIME,
    DATE,
    TIME,
    TIMEDELTA,
    UUID,
    IPV4,
    IPV6,
    E,
    ES,
    LITERALS[0],
    LITERALS[1],
    LITERALS[2],
    LITERALS[4],
    LITERALS[5],
    LITERALS[6],
    INT_ALIASES[2],
    INT_ALIASES[4],
    INT_ALIASES[6],
    *FLOAT_ALIASES,
    AnnS(STR, "MaxLength(3)", ["", "a", "abc"], lambda d: len(d) <= 3),
    AnnS(INT, "'note'"),
    AnnS(STR, "'note'"),
]
R1 = ClassS("R1", [Field("p", INT)])
R2 = ClassS("R2", [Field("q", STR), Field("r", OptS(DATETIME), DEF, None)], "frozen")
R3 = ClassS("R3", [Field("type", LiteralS(["one"])), Field("v", INT)])
R4 = ClassS("R4", [Field("type", LiteralS(["two"])), Field("v", INT)])
UNIONS = [
    UnionS([INT, STR]),
    UnionS([STR, INT]),
    UnionS([DATE, BOOL]),
    UnionS([E, INT]),
    UnionS([IPV4, IPV6]),
    UnionS([R1, R2]),
    UnionS([ListS(R2), R1]),
    UnionS([R3, R4], tag="type"),
    UnionS([LITERALS[0], INT]),
]
WRAP = {
    "list": ListS,
    "class": lambda x: ClassS(f"W{depth(x)}", [Field("w", x), Field("n", OptS(INT), DEF, None)]),
    "optclass": lambda x: None if isinstance(x, OptS) else ClassS(f"O{depth(x)}", [Field("w", OptS(x), DEF, None)], "frozen"),
    "kwclass": lambda x: ClassS(f"K{depth(x)}", [Field("class_", x), Field("_in", OptS(x) if not isinstance(x, OptS) else x)]),
    "union": lambda x: None if isinstance(x, UnionS) or x.name in ("bool", "literal:[True]") else UnionS([x, BOOL]),
}
MODES = [REQ, "opt", "optdef", DEF]
FIELDS: list[Shape] = [INT, FLOAT, STR, DATETIME, UUID, E, LITERALS[0], ListS(INT), R1, UNIONS[0]]
NAMES = [["a", "b", "c"], ["z", "class_", "a"], ["from_", "A", "_"]]


def depth(x: Shape) -> int:
    return 1 + max((depth(c) for c in x.children()), default=0)


def has_default(x: Shape) -> bool:
    if isinstance(x, AnnS):
        return has_default(x.inner)
    # defaults of other types are not stated in schema
    return isinstance(x, (Leaf, EnumS, LiteralS, AliasTypeS)) and x.name not in ("uuid", "ipv4", "ipv6")


def field(name: str, x: Shape, mode: str) -> Optional[Field]:
    if mode == REQ:
        return Field(name, x)
    if mode == DEF:
        return Field(name, x, DEF, x.values()[-1]) if has_default(x) else None
    return Field(name, OptS(x), DEF if mode == "optdef" else REQ, None)


def base_types(tier: str) -> Iterator[tuple[Shape, bool]]:
    "Types of fields, and whether the schema of the new class is that of the original class."
    for exact, types in ((True, EXACT + UNIONS + [R1, R2]), (False, LOSSY)):
        for x in types:
            yield x, exact
            for w1 in WRAP.values():
                y = w1(x)
                if y is None:
                    continue
                yield y, exact
                for w2 in WRAP.values():
                    z = w2(y)
                    if z is not None:
                        yield z, exact
                        if tier == "thorough":
                            for w3 in WRAP.values():
                                u = w3(z)
                                if u is not None:
                                    yield u, exact


def classes(tier: str) -> list[tuple[ClassS, bool]]:
    out = []
    seen = set()
    for x, exact in base_types(tier):
        for mode in MODES:
            f = field("w", x, mode)
            if f is None:
                continue
            cls = ClassS("Top", [f])
            if cls.name not in seen:
                seen.add(cls.name)
                out.append((cls, exact))
    return out


def several(tier: str) -> list[tuple[ClassS, bool]]:
    out = []
    for i, (x, y) in enumerate(itertools.product(FIELDS, repeat=2)):
        for m1, m2 in itertools.product(MODES, repeat=2):
            for names in NAMES:
                fields = [field(names[0], x, m1), field(names[1], y, m2)]
                add(out, fields)
    for i, (x, y, z) in enumerate(itertools.product(FIELDS, repeat=3)):
        for j, ms in enumerate(itertools.product(MODES, repeat=3)):
            if tier != "thorough" and (i + j) % 16:
                continue
            names = NAMES[(i + j // 16) % 3]
            add(out, [field(n, s, m) for n, s, m in zip(names, (x, y, z), ms)])
    return out


def add(out: list[Any], fields: list[Optional[Field]]) -> None:
    present = [f for f in fields if f is not None]
    if len(present) == len(fields):
        # fields with a default follow fields without
        present.sort(key=lambda f: f.mode != REQ)
        out.append((ClassS("Top", present), True))


def tasks(tier: str) -> list[Any]:
    out: list[Any] = []
    out += [["one", *c] for c in chunks(len(classes(tier)), 40)]
    out += [["many", *c] for c in chunks(len(several(tier)), 150)]
    out += [["graph", n, c[0], c[1]] for n in (1, 2, 3) for c in chunks(2 ** (n * n), 16)]
    if tier == "thorough":
        out += [["graph", 4, *c] for c in chunks(2**16, 256)]
    out += [["enum", i] for i in range(len(ENUM_VALUES))]
    out += [["module", i] for i in range(len(PAIRED))]
    out += [["simple"], ["nested"], ["documented"], ["numbers"], ["sizes", 0], ["sizes", 1]]
    return out


# ---------------------------------------------------------------------------------------------------------------------
# comparison of schemas


def resolve(node: Any, definitions: dict[str, Any]) -> Any:
    while isinstance(node, dict) and set(node) == {"$ref"}:
        node = definitions[node["$ref"].rsplit("/", 1)[1]]
    return node


def same_schema(a: Any, adefs: Any, b: Any, bdefs: Any, docs: bool, seen: frozenset[Any] = frozenset()) -> bool:
    "Whether schemas impose the same constraints, no matter which parts are definitions."
    if isinstance(a, dict) and "$ref" in a and isinstance(b, dict) and "$ref" in b:
        pair = (a["$ref"], b["$ref"])
        if pair in seen:
            return True
        seen |= {pair}
    a, b = resolve(a, adefs), resolve(b, bdefs)
    if isinstance(a, dict) and isinstance(b, dict):
        drop = {"definitions", "$schema"} | (set() if docs else {"title", "description", "examples"})
        ka, kb = set(a) - drop, set(b) - drop
        if ka != kb:
            return False
        for k in ka:
            if k == "properties":
                if a[k].keys() != b[k].keys():
                    return False
                if not all(same_schema(a[k][n], adefs, b[k][n], bdefs, docs, seen) for n in a[k]):
                    return False
            elif k == "required":
                if sorted(a[k]) != sorted(b[k]):
                    return False
            elif k == "oneOf" and len(a[k]) == len(b[k]):
                # Python may exchange the members of a union
                if not any(all(same_schema(p, adefs, q, bdefs, docs, seen) for p, q in zip(a[k], qs)) for qs in itertools.permutations(b[k])):
                    return False
            elif not same_schema(a[k], adefs, b[k], bdefs, docs, seen):
                return False
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_schema(p, adefs, q, bdefs, docs, seen) for p, q in zip(a, b))
    return type(a) is type(b) and bool(a == b)


def equal_schemas(a: Any, b: Any, docs: bool = False) -> bool:
    return same_schema(a, a.get("definitions", {}), b, b.get("definitions", {}), docs)


# ---------------------------------------------------------------------------------------------------------------------
# objects of the new class


def equivalent(shape: Shape, payload: Any, obj: Any, world: World) -> bool:
    "Whether an object of a new class has the same contents as an object of the original class."
    if isinstance(shape, (AnnS, AliasTypeS)):
        return equivalent(shape.inner, payload, obj, world)
    if isinstance(shape, OptS):
        return obj is None if payload is None else equivalent(shape.item, payload, obj, world)
    if isinstance(shape, UnionS):
        return equivalent(shape.members[payload[0]], payload[1], obj, world)
    if isinstance(shape, ListS):
        return type(obj) is list and len(obj) == len(payload) and all(equivalent(shape.item, p, o, world) for p, o in zip(payload, obj))
    if isinstance(shape, ClassS):
        return all(equivalent(f.shape, payload[f.py], getattr(obj, f.py), world) for f in shape.all_fields())
    if isinstance(shape, (EnumS, LiteralS)):
        value = shape.enc(payload)
        if isinstance(obj, enum.Enum):
            obj = obj.value
        return type(obj) is type(value) and bool(obj == value)
    return shape.same(obj, payload, world)


def default_of(cls: Any, name: str) -> Any:
    return cls.__dataclass_fields__[name].default


class Checker:
    def __init__(self, shape: ClassS, exact: bool, ctx: Any) -> None:
        self.shape = shape
        self.ctx = ctx
        self.world = World(shape)
        self.schema = schema_of(self.world.type)
        self.module = new_module("")
        self.failed = False
        try:
            self.cls: Any = schema_to_type(self.schema, module=self.module, class_name="Top")
        except Exception as ex:
            self.bad(f"class cannot be created from schema: {type(ex).__name__}: {ex}")
            return
        ctx.step(2)
        if getattr(self.module, "Top", None) is not self.cls or self.cls.__name__ != "Top" or self.cls.__module__ != self.module.__name__:
            self.bad("new class is not a member of the module")
            return
        if exact:
            again = schema_of(self.cls)
            ctx.step()
            if not equal_schemas(self.schema, again):
                self.bad("new class has another schema", again=again)
        for f in shape.fields:
            if f.mode == REQ and not f.optional:
                if f.py in self.cls.__dataclass_fields__ and default_of(self.cls, f.py) is not MISSING:
                    self.bad("new class has a default", member=f.py)
            elif f.mode == DEF and f.default is not None:
                if f.py not in self.cls.__dataclass_fields__ or not equivalent(f.shape, f.default, default_of(self.cls, f.py), self.world):
                    self.bad("new class has another default", member=f.py)

    def bad(self, what: str, **more: Any) -> None:
        self.failed = True
        self.ctx.violation(what, type=self.shape.name[:300], schema=self.schema, **more)

    def documents(self) -> None:
        if self.failed:
            return
        shape, ctx = self.shape, self.ctx
        first = None
        for payload in shape.values()[:12]:
            doc = shape.enc(payload)
            if first is None:
                first = doc
            self.document(doc)
        if first is not None:
            for i, doc in enumerate(mutations(first, MUTANTS)):
                if i >= 400:
                    break
                self.document(doc)
        ctx.sample({"type": shape.name, "schema": self.schema, "document": first})

    def document(self, doc: Any) -> None:
        if self.failed:
            return
        shape, ctx = self.shape, self.ctx
        expected = shape.dec(doc)
        if expected is UNSPEC:
            ctx.outcome("open")
            return
        ctx.state(shape.name[:300], repr(doc))
        ctx.step()
        try:
            obj = json_to_generic(self.cls, doc, context=self.module)
        except DOCUMENTED as ex:
            if is_ok(expected):
                self.bad(f"document refused: {ex}", document=doc)
            else:
                ctx.outcome("refused")
                ctx.trace()
            return
        except Exception as ex:
            self.bad(f"reading fails with {type(ex).__name__}: {ex}", document=doc)
            return
        if not is_ok(expected):
            self.bad("invalid document accepted", document=doc)
            return
        if type(obj) is not self.cls or not equivalent(shape, expected[1], obj, self.world):
            self.bad("object has other contents", document=doc, object=repr(obj))
            return
        again = object_to_json(obj)
        if not json_same(again, shape.enc(expected[1])):
            self.bad("document is not written back", document=doc, again=again)
            return
        ctx.outcome("read and written")
        ctx.trace()

    def close(self) -> None:
        self.world.close()


MUTANTS: list[Any] = [None, True, 1, 0.5, "L", "a", "two", "2020-01-01T00:00:00Z", "192.0.2.1", [], {}, [1], {"p": 1}]


# ---------------------------------------------------------------------------------------------------------------------
# graphs of definitions

KINDS = ["optional", "array", "union", "required"]


def reference(kind: str, target: str) -> Any:
    ref = {"$ref": f"#/definitions/{target}"}
    if kind == "array":
        return {"type": "array", "items": ref}
    if kind == "union":
        return {"oneOf": [ref, {"type": "integer"}]}
    return ref


def graph_schema(names: list[str], edges: set[tuple[int, int]], kind: str, order: tuple[int, ...]) -> Any:
    defs = {}
    for i in order:
        props: dict[str, Any] = {f"v{i}": {"type": "integer"}}
        req = [f"v{i}"]
        for j in range(len(names)):
            if (i, j) in edges:
                props[f"r{i}{j}"] = reference(kind, names[j])
                if kind != "optional":
                    req.append(f"r{i}{j}")
        defs[names[i]] = {"type": "object", "properties": props, "additionalProperties": False, "required": req}
    return {
        "$schema": SCHEMA,
        "definitions": defs,
        "type": "object",
        "properties": {f"t{i}": {"$ref": f"#/definitions/{n}"} for i, n in enumerate(names)},
        "additionalProperties": False,
    }


def cyclic(n: int, edges: set[tuple[int, int]]) -> bool:
    reach = set(edges)
    for k, i, j in itertools.product(range(n), repeat=3):
        if (i, k) in reach and (k, j) in reach:
            reach.add((i, j))
    return any((i, i) in reach for i in range(n))


def graph_docs(n: int, edges: set[tuple[int, int]], kind: str, i: int, level: int, valid: bool) -> Iterator[Any]:
    "Documents of a definition; each one has a single place at which it is invalid unless `valid`."
    out = [j for j in range(n) if (i, j) in edges]
    if not valid:
        yield {**base_doc(n, edges, kind, i, 3), f"v{i}": "x"}
        yield {k: v for k, v in base_doc(n, edges, kind, i, 3).items() if k != f"v{i}"}
        if n > 1:
            yield base_doc(n, edges, kind, (i + 1) % n, 3)
    else:
        yield base_doc(n, edges, kind, i, 1)
        yield base_doc(n, edges, kind, i, 2)
    if level > 0:
        for j in out:
            for d in graph_docs(n, edges, kind, j, level - 1, valid):
                doc = base_doc(n, edges, kind, i, 1)
                doc[f"r{i}{j}"] = [d, d] if kind == "array" else d
                yield doc


def base_doc(n: int, edges: set[tuple[int, int]], kind: str, i: int, level: int) -> Any:
    doc: dict[str, Any] = {f"v{i}": i}
    for j in range(n):
        if (i, j) in edges:
            if kind == "required":
                doc[f"r{i}{j}"] = base_doc(n, edges, kind, j, level)
            elif level > 1:
                d = base_doc(n, edges, kind, j, level - 1)
                doc[f"r{i}{j}"] = [d] if kind == "array" else d
            elif kind == "array":
                doc[f"r{i}{j}"] = []
            elif kind == "union":
                doc[f"r{i}{j}"] = 5
    return doc


def graph(n: int, start: int, stop: int, ctx: Any) -> None:
    pairs = list(itertools.product(range(n), repeat=2))
    names = ["Beta", "Alpha", "Gamma", "Delta"][:n]
    orders = list(itertools.permutations(range(n)))
    if n == 4:
        orders = [(0, 1, 2, 3), (3, 2, 1, 0)]
    for bits in range(start, stop):
        edges = {p for k, p in enumerate(pairs) if bits >> k & 1}
        loops = cyclic(n, edges)
        if n == 4 and loops and bits % 8:
            continue
        for kind in KINDS:
            if kind == "required" and loops:
                continue
            cases = []
            for i in range(n):
                for valid in (True, False):
                    docs = list(graph_docs(n, edges, kind, i, 2, valid))
                    cases += [({f"t{i}": d}, valid) for d in (docs[:12] + docs[12:][-6:])]
            for o, order in enumerate(orders):
                schema = graph_schema(names, edges, kind, order)
                case = dict(edges=sorted(edges), kind=kind, order=order)
                module = new_module("")
                try:
                    cls: Any = schema_to_type(schema, module=module, class_name="Root")
                except Exception as ex:
                    ctx.violation(f"class cannot be created: {type(ex).__name__}: {ex}", **case)
                    continue
                ctx.step()
                ctx.state(n, bits, kind, order)
                ctx.outcome("cyclic graph" if loops else "acyclic graph")
                for name in names:
                    if getattr(getattr(module, name, None), "__name__", None) != name:
                        ctx.violation("definition is missing in module", name=name, **case)
                if o < 2:
                    again = schema_of(cls)
                    ctx.step()
                    if not equal_schemas(schema, again):
                        ctx.violation("new class has another schema", schema=schema, again=again, **case)
                for doc, valid in cases if o < 3 else cases[:: max(1, len(cases) // 6)]:
                    ctx.step()
                    try:
                        obj = json_to_generic(cls, doc, context=module)
                    except DOCUMENTED as ex:
                        if valid:
                            ctx.violation(f"document refused: {ex}", document=doc, **case)
                        else:
                            ctx.trace()
                        continue
                    except Exception as ex:
                        ctx.violation(f"reading fails with {type(ex).__name__}: {ex}", document=doc, **case)
                        continue
                    if not valid:
                        ctx.violation("invalid document accepted", document=doc, **case)
                    elif not json_same(object_to_json(obj), doc):
                        ctx.violation("document is not written back", document=doc, **case)
                    ctx.trace()
                del cls


# ---------------------------------------------------------------------------------------------------------------------
# enumerations

ENUM_VALUES = [
    "",
    "a",
    "A",
    "a b",
    "a-b",
    "a_b",
    "a.b",
    "_",
    "__",
    "_x_",
    "__x",
    "__x__",
    "x__",
    "_x",
    "mro",
    "name",
    "value",
    "None",
    "1",
    "-1",
    "\u00e9",
    "e\u0301",
    "\u5b57",
    "class",
    "__init__",
    "_ignore_",
    "_value_",
    "_Top__w__x",
]


def enums(i: int, ctx: Any) -> None:
    size = 4 if ctx.thorough else 3
    first = ENUM_VALUES[i]
    rest = ENUM_VALUES[:i] + ENUM_VALUES[i + 1 :]
    sets: list[tuple[str, ...]] = [(first,)]
    sets += [(first, v) for v in rest]
    sets += [(first, *vs) for k in range(2, size) for vs in itertools.combinations(rest, k)]
    sets.append((first, *rest))
    for values in sets:
        schema = {
            "$schema": SCHEMA,
            "type": "object",
            "properties": {
                "w": {"type": "string", "enum": list(values)},
                "d": {"type": "string", "enum": list(values), "default": values[-1]},
            },
            "additionalProperties": False,
            "required": ["w", "d"],
        }
        ctx.state(values)
        module = new_module("")
        try:
            cls: Any = schema_to_type(schema, module=module, class_name="Top")
        except Exception as ex:
            ctx.violation(f"class cannot be created: {type(ex).__name__}: {ex}", values=values)
            continue
        ctx.step()
        docs = [({"w": v}, True) for v in values] + [({"w": v}, False) for v in ("other", "A_v", 0, None)]
        members = set()
        for doc, valid in docs:
            try:
                obj = json_to_generic(cls, doc, context=module)
            except DOCUMENTED as ex:
                if valid:
                    ctx.violation(f"document refused: {ex}", values=values, document=doc)
            except Exception as ex:
                ctx.violation(f"reading fails with {type(ex).__name__}: {ex}", values=values, document=doc)
            else:
                if not valid:
                    ctx.violation("invalid document accepted", values=values, document=doc)
                elif not isinstance(obj.w, enum.Enum) or object_to_json(obj) != {"w": doc["w"], "d": values[-1]}:
                    ctx.violation("document is not written back", values=values, document=doc, object=repr(obj))
                else:
                    members.add(obj.w)
            ctx.step()
            ctx.trace()
        if len(members) != len(values) or sorted(e.value for e in type(obj.w)) != sorted(values):
            ctx.violation("new enumeration has other members", values=values)
        if len(values) < 3 and not equal_schemas(schema, schema_of(cls)):
            ctx.violation("new class has another schema", values=values)
        ctx.outcome(f"{len(values)} values" if len(values) < 5 else "all values")


# ---------------------------------------------------------------------------------------------------------------------
# several schemas in one module


def paired(spec: dict[str, Any], uses: dict[str, Any]) -> Any:
    out: dict[str, Any] = {"$schema": SCHEMA, "type": "object", "properties": uses, "additionalProperties": False}
    if spec:
        out["definitions"] = spec
    return out


def obj(**props: Any) -> Any:
    return {"type": "object", "properties": props, "additionalProperties": False, "required": sorted(props)}


INTEGER, STRING = {"type": "integer"}, {"type": "string"}
REF_A, REF_B = {"$ref": "#/definitions/A"}, {"$ref": "#/definitions/B"}
PAIRED: list[tuple[Any, Any, Any]] = [
    (paired({"A": obj(x=INTEGER)}, {"w": REF_A}), {"w": {"x": 1}}, {"w": {"x": "a"}}),
    (paired({"A": obj(x=STRING)}, {"w": REF_A}), {"w": {"x": "a"}}, {"w": {"x": 1}}),
    (paired({"A": STRING}, {"w": REF_A}), {"w": "a"}, {"w": 1}),
    (paired({"A": obj(b=REF_B), "B": obj(x=INTEGER)}, {"w": REF_A}), {"w": {"b": {"x": 1}}}, {"w": {"x": 1}}),
    (paired({"A": obj(b=REF_B), "B": STRING}, {"w": REF_A}), {"w": {"b": "a"}}, {"w": {"b": {"x": 1}}}),
    (paired({"B": obj(a=REF_A), "A": obj(y=INTEGER)}, {"w": REF_B}), {"w": {"a": {"y": 1}}}, {"w": {"a": {"x": 1}}}),
    (paired({}, {"w": obj(x=INTEGER)}), {"w": {"x": 1}}, {"w": {"x": "a"}}),
    (paired({}, {"w": {"type": "string", "enum": ["a", "b"]}}), {"w": "a"}, {"w": "c"}),
    (paired({}, {"w": {"type": "string", "enum": ["c"]}}), {"w": "c"}, {"w": "a"}),
    (paired({"A": {"type": "string", "enum": ["a"]}}, {"w": REF_A}), {"w": "a"}, {"w": "b"}),
    (paired({"A": {"type": "array", "items": REF_B}, "B": obj(x=INTEGER)}, {"w": REF_A}), {"w": [{"x": 1}]}, {"w": [{"x": "a"}]}),
]


def accepts(cls: Any, module: Any, good: Any, wrong: Any) -> Optional[str]:
    try:
        if not json_same(object_to_json(json_to_generic(cls, good, context=module)), good):
            return "document is not written back"
    except Exception as ex:
        return f"document refused with {type(ex).__name__}: {ex}"
    try:
        json_to_generic(cls, wrong, context=module)
    except DOCUMENTED:
        return None
    except Exception as ex:
        return f"reading fails with {type(ex).__name__}: {ex}"
    return "invalid document accepted"


def run(task: Any, ctx: Any) -> None:
    if task[0] in ("one", "many"):
        items = (classes if task[0] == "one" else several)(ctx.tier)[task[1] : task[2]]
        for shape, exact in items:
            checker = Checker(shape, exact, ctx)
            checker.documents()
            checker.close()
    elif task[0] == "graph":
        graph(task[1], task[2], task[3], ctx)
    elif task[0] == "enum":
        enums(task[1], ctx)
    elif task[0] == "module":
        for (schema, good, wrong), third in itertools.product(PAIRED, [None, *PAIRED]):
            module = new_module("")
            schema_to_type(PAIRED[task[1]][0], module=module, class_name="Top")
            if third is not None:
                schema_to_type(third[0], module=module, class_name="Mid")
            cls = schema_to_type(schema, module=module, class_name="Top")
            ctx.step(3)
            problem = accepts(cls, module, good, wrong)
            ctx.state(task[1], repr(schema), repr(third))
            ctx.trace()
            ctx.outcome("created after others")
            if problem is not None:
                ctx.violation(f"in a module with other types: {problem}", former=PAIRED[task[1]][0], schema=schema)
    elif task[0] == "simple":
        simple(ctx)
    elif task[0] == "nested":
        nested(ctx)
    elif task[0] == "numbers":
        numbers(ctx)
    elif task[0] == "sizes":
        sizes(task[1], ctx)
    else:
        documented(ctx)


def simple(ctx: Any) -> None:
    "Definitions of types other than classes."
    for x, y in itertools.product([s for s in EXACT if not isinstance(s, AnnS)] + UNIONS[:2], repeat=2):
        world = World(ClassS("Top", [Field("x", x), Field("y", y)]))
        inline = schema_of(world.type)
        for forms in itertools.product(("plain", "list", "optional"), repeat=2):
            top = paired({"A": inline["properties"]["x"], "B": inline["properties"]["y"]}, {})
            doc: dict[str, Any] = {}
            required = []
            for name, ref, shape, form in zip("xy", (REF_A, REF_B), (x, y), forms):
                top["properties"][name] = {"type": "array", "items": ref} if form == "list" else ref
                d = shape.enc(shape.values()[0])
                doc[name] = [d, d] if form == "list" else d
                if form != "optional":
                    required.append(name)
            if required:
                top["required"] = required
            module = new_module("")
            try:
                cls: Any = schema_to_type(top, module=module, class_name="Top")
                problem = accepts(cls, module, doc, {**doc, "x": {"no": 1}})
                if problem is None and not equal_schemas(top, schema_of(cls)):
                    problem = "new class has another schema"
            except Exception as ex:
                problem = f"{type(ex).__name__}: {ex}"
            ctx.step(2)
            ctx.trace()
            ctx.state(x.name, y.name, forms)
            ctx.outcome("simple definitions")
            if problem is not None:
                ctx.violation(problem, schema=top, document=doc)
        world.close()


def created(top: Any, docs: list[Any], wrong: list[Any], expected: Any, ctx: Any, key: Optional[str] = None) -> None:
    "Creates a class from a schema, and compares the schema of the class with the schema that is expected."
    module = new_module("")
    problem = None
    try:
        cls: Any = schema_to_type(top, module=module, class_name="Top")
        again = schema_of(cls)
        if not equal_schemas(expected, again):
            problem, key = f"new class has another schema: {again}", None
        for doc in docs:
            if problem is None:
                problem = accepts(cls, module, doc, wrong[0])
        for doc in wrong:
            if problem is None:
                problem = accepts(cls, module, docs[0], doc)
    except Exception as ex:
        problem = f"{type(ex).__name__}: {ex}"
    ctx.step(1 + len(docs) + len(wrong))
    ctx.trace(len(docs) + len(wrong))
    ctx.state(repr(top))
    if problem is not None:
        ctx.violation(problem, key=key if key and problem.startswith("document refused with JsonTypeError") else None, schema=top, documents=docs)


def width(lo: int, hi: int) -> Any:
    "Schema of the narrowest integer type of fixed width for a range."
    for bits in (16, 32, 64):
        top = 2 ** (bits - 1)
        if -top <= lo and hi < top:
            return {"type": "integer", "format": f"int{bits}"}
    return None


BOUNDARIES = sorted({s * 2**b + d for b in (0, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63) for s in (1, -1) for d in (-1, 0, 1)} - {2**63, 2**63 + 1, -(2**63) - 1})


def numbers(ctx: Any) -> None:
    "Ranges of integers, digits of decimal numbers, lengths of strings."
    integer = {"type": "integer"}
    for lo, hi in itertools.combinations_with_replacement(BOUNDARIES, 2):
        ctx.outcome("integer ranges")
        node = {"type": "integer", "minimum": lo, "maximum": hi}
        created({"$schema": SCHEMA, **obj(w=node)}, [{"w": lo}, {"w": hi}], [{"w": "x"}], {"$schema": SCHEMA, **obj(w=width(lo, hi))}, ctx)
        node = {"type": "integer", "enum": [hi, lo, (lo + hi) // 2] if hi - lo > 1 else [hi, lo] if hi > lo else [lo]}
        created({"$schema": SCHEMA, **obj(w=node)}, [{"w": lo}, {"w": hi}], [{"w": "x"}], {"$schema": SCHEMA, **obj(w=width(lo, hi))}, ctx)
    for bound in BOUNDARIES:
        for key in ("minimum", "maximum"):
            ctx.outcome("integer bound")
            created({"$schema": SCHEMA, **obj(w={**integer, key: bound})}, [{"w": bound}], [{"w": "x"}], {"$schema": SCHEMA, **obj(w=integer)}, ctx)
    for digits, decimals in itertools.product(range(13), range(8)):
        if digits + decimals == 0:
            continue
        ctx.outcome("decimal digits")
        node = {"type": "number", "multipleOf": 10 ** (-decimals), "exclusiveMinimum": -(10**digits), "exclusiveMaximum": 10**digits}
        docs = [{"w": 0.0}, {"w": 0.5 if decimals else 0.0}, {"w": 1.0 if digits else 0.0}, {"w": float(10**digits - 1)}]
        created({"$schema": SCHEMA, **obj(w=node)}, docs, [{"w": "x"}, {"w": True}, {"w": None}], {"$schema": SCHEMA, **obj(w=node)}, ctx, "decimal")
        for keys in (["multipleOf"], ["exclusiveMinimum"], ["exclusiveMaximum"], ["exclusiveMinimum", "exclusiveMaximum"]):
            ctx.outcome("some of the digits")
            part = {"type": "number", **{k: node[k] for k in keys}}
            created({"$schema": SCHEMA, **obj(w=part)}, docs[:1], [{"w": "x"}], {"$schema": SCHEMA, **obj(w={"type": "number"})}, ctx)
    for length in [*range(130), 255, 256, 257, 1023, 1024, 65535, 65536]:
        ctx.outcome("length of string")
        node = {"type": "string", "maxLength": length}
        top = {"$schema": SCHEMA, **obj(w=node)}
        created(top, [{"w": ""}, {"w": "x" * min(length, 300)}], [{"w": 1}, {"w": None}], top, ctx)


LADDER = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 26, 32, 33, 50, 64, 65, 100]


def sizes(part: int, ctx: Any) -> None:
    "Many properties, definitions, enumeration values, members of a union."
    leafs: list[Any] = [(INTEGER, 1), (STRING, "x"), ({"type": "boolean"}, True), ({"type": "array", "items": STRING}, ["x", "y"])]
    for n in LADDER:
        names = [f"p{(i * 37) % n}_{i}" for i in range(n)]
        nodes = [leafs[(i + i // 3) % 4] for i in range(n)]
        doc = {name: node[1] for name, node in zip(names, nodes)}
        wrong = [{**doc, name: None} for name in names] + [{k: v for k, v in doc.items() if k != name} for name in names]
        if part == 0:
            ctx.outcome("many properties")
            top = {"$schema": SCHEMA, **obj(**{name: node[0] for name, node in zip(names, nodes)})}
            created(top, [doc], wrong, top, ctx)
            optional = {**top, "required": names[::2]}
            wrong = [{**doc, name: []} for name, node in zip(names, nodes) if node[1] != ["x", "y"]]
            created(optional, [doc, {k: v for k, v in doc.items() if k in names[::2]}], wrong, optional, ctx)
            ctx.outcome("many values")
            values = [f"{'abc_- '[i % 6]}{i}" for i in range(n)]
            top = {"$schema": SCHEMA, **obj(w={"type": "string", "enum": values}, v={"type": "array", "items": {"type": "string", "enum": values[::-1]}})}
            sorted_top = {"$schema": SCHEMA, **obj(w={"type": "string", "enum": values}, v={"type": "array", "items": {"type": "string", "enum": values[::-1]}})}
            created(top, [{"w": v, "v": values} for v in values], [{"w": "?", "v": values}, {"w": values[0], "v": ["?"]}], sorted_top, ctx)
        elif n <= 33:
            for kind, order in itertools.product(("flat", "chain", "back"), (1, -1)):
                ctx.outcome("many definitions")
                defs: dict[str, Any] = {}
                value: dict[str, Any] = {}
                for i in range(n):
                    props = {"v": nodes[i][0], "w": {"type": "integer" if i % 2 else "boolean"}}
                    sample = {"v": nodes[i][1], "w": i if i % 2 else bool(i % 4)}
                    j = i + 1 if kind == "chain" else i - 1 if kind == "back" else -1
                    if 0 <= j < n:
                        props["r"] = {"$ref": f"#/definitions/D{j}"}
                    defs[f"D{i}"] = obj(**props)
                    value[f"D{i}"] = sample
                for i in range(n) if kind == "back" else reversed(range(n)):
                    j = i + 1 if kind == "chain" else i - 1 if kind == "back" else -1
                    if 0 <= j < n:
                        value[f"D{i}"] = {**value[f"D{i}"], "r": value[f"D{j}"]}
                definitions = dict(list(defs.items())[::order])
                top = {
                    "$schema": SCHEMA,
                    "definitions": definitions,
                    "type": "object",
                    "properties": {f"t{i}": {"$ref": f"#/definitions/D{i}"} for i in range(n)},
                    "additionalProperties": False,
                    "required": [f"t{i}" for i in range(n)],
                }
                whole = {f"t{i}": value[f"D{i}"] for i in range(n)}
                bad = [{**whole, f"t{i}": {**value[f"D{i}"], "v": None}} for i in range(n)]
                created(top, [whole], bad, top, ctx)
            ctx.outcome("many members")
            members = [obj(**{f"m{i}": leafs[i % 4][0]}) for i in range(n + 1)]
            values_ = [{f"m{i}": leafs[i % 4][1]} for i in range(n + 1)]
            top = {"$schema": SCHEMA, **obj(u={"oneOf": [{"$ref": f"#/definitions/M{i}"} for i in range(n + 1)]}), "definitions": {f"M{i}": m for i, m in enumerate(members)}}
            created(top, [{"u": v} for v in values_], [{"u": {f"m{n + 1}": 1}}, {"u": {"m0": "x"}}], top, ctx)


def nested(ctx: Any) -> None:
    "Inline objects to a depth; classes at different places do not affect each other although properties have the same names."
    leafs = [(INTEGER, 1, "x"), (STRING, "x", 1), ({"type": "string", "enum": ["p", "q"]}, "p", "r"), ({"type": "boolean"}, True, "x")]
    for level in range(1, 5):
        for choice in itertools.product(leafs, repeat=min(level + 1, 4)):

            def build(i: int) -> tuple[Any, Any, list[Any]]:
                node, good, bad = choice[min(i, len(choice) - 1)]
                if i == level:
                    return obj(v=node), {"v": good}, [{"v": bad}]
                sub, sub_good, sub_bad = build(i + 1)
                schema = obj(v=node, w=sub, u={"type": "array", "items": obj(v=node)})
                doc = {"v": good, "w": sub_good, "u": [{"v": good}]}
                return schema, doc, [{**doc, "v": bad}, {**doc, "u": [{"v": bad}]}, *({**doc, "w": b} for b in sub_bad)]

            schema, doc, wrong = build(0)
            top = {"$schema": SCHEMA, **schema}
            module = new_module("")
            try:
                cls: Any = schema_to_type(top, module=module, class_name="Top")
                problem = next(filter(None, (accepts(cls, module, doc, b) for b in wrong)), None)
                if problem is None and not equal_schemas(top, schema_of(cls)):
                    problem = "new class has another schema"
            except Exception as ex:
                problem = f"{type(ex).__name__}: {ex}"
            ctx.step(1 + len(wrong))
            ctx.trace(1 + len(wrong))
            ctx.state(level, repr(schema))
            ctx.outcome("nested objects")
            if problem is not None:
                ctx.violation(problem, schema=top, document=doc)


def documented(ctx: Any) -> None:
    "Titles and descriptions of classes, descriptions of properties."
    texts = [None, "Short text.", "A: b, c"]
    for short, long, p, q in itertools.product(texts, texts, texts, texts):
        if long is not None and short is None:
            continue
        props: dict[str, Any] = {"p": {"type": "integer"}, "q": {"type": "string"}}
        if p is not None:
            props["p"]["description"] = p
        if q is not None:
            props["q"]["description"] = q
        schema: dict[str, Any] = {"$schema": SCHEMA, **obj(**props)}
        if short is not None:
            schema["title"] = short
        if long is not None:
            schema["description"] = long
        module = new_module("")
        try:
            cls: Any = schema_to_type(schema, module=module, class_name="Top")
            again = schema_of(cls)
            problem = None if equal_schemas(schema, again, docs=True) else "new class has another documentation"
        except Exception as ex:
            problem, again = f"{type(ex).__name__}: {ex}", None
        ctx.step(2)
        ctx.trace()
        ctx.state(short, long, p, q)
        ctx.outcome("documentation")
        if problem is not None:
            ctx.violation(problem, schema=schema, again=again)

