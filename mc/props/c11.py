"""
C11: generated schemas are closed, meta-valid and reference registered types.

All reference graphs between up to three classes, each class registered (derived schema), registered with a custom
schema, registered under another name, or not registered, x the forms of references. For each root type and option the
generated schema must validate against the meta-schemas, have no dangling reference and no definition that is not used,
define exactly the registered types that are reachable, and admit exactly the documents of an acceptance model (which
shows that each reference leads to the type's own schema).
"""

from __future__ import annotations

import copy
import itertools
import json
from typing import Any, Iterator, Optional

import jsonschema
from schemas import library_validator
from universe import chunks
from world import drop_module, evaluate, new_module

from strong_typing.schema import JsonSchemaGenerator, SchemaOptions, Validator, classdef_to_schema

LEVEL = "model_checking"
BOUNDS = {
    "quick": "types of the same name (2 and 3 of 7 kinds), 41 names x 4 schemas; all graphs with 1 and 2 classes (4 ways of registration per class, 10/6 reference forms per edge), all 512 "
    "graphs with 3 classes x 27 ways of registration; stars, chains, cycles, trees and complete graphs of 4 to 24 classes; root types: each class, list, optional, dictionary, annotated and "
    "unregistered class; all drafts",
    "thorough": "as quick, all 10 reference forms for 2 classes, 64 ways of registration x 3 rotations of forms for 3 classes, all roots",
}
TASK_SECONDS = 3000

# form of reference: source text, optional member, documents that hold a document of the referenced type
FORMS: dict[str, str] = {
    "direct": "{}",
    "quoted": "'{}'",
    "opt": "Optional['{}']",
    "list": "list['{}']",
    "dict": "dict[str, '{}']",
    "tuple": "tuple['{}', int]",
    "union": "Union['{}', bool]",
    "ann": "Annotated['{}', 'note']",
    "optlist": "Optional[list['{}']]",
    "set": "set['{}']",
}
FORM_NAMES = list(FORMS)
FEW_FORMS = ["quoted", "opt", "list", "union", "ann"]
KINDS = ["derived", "custom", "unregistered", "named"]

ROOTS = {
    "class": "{}",
    "list": "list[{}]",
    "opt": "Optional[{}]",
    "dict": "dict[str, {}]",
    "ann": "Annotated[{}, 'x']",
    "wrap": "W",
}


class Graph:
    def __init__(self, kinds: list[str], edges: dict[tuple[int, int], str], tag: str, depth: int = 3) -> None:
        self.kinds = kinds
        self.edges = edges
        self.tag = tag
        self.depth = depth
        self.names = [f"{'ABCDEFGHIJKLMNOPQRSTUVWXYZ'[i]}{tag}" for i in range(len(kinds))]
        self.idents = [f"Name{n}" if k == "named" else n for n, k in zip(self.names, kinds)]

    def custom_schema(self, i: int) -> Any:
        return {"type": "string", "const": self.names[i]}

    def source(self) -> str:
        out = ["from strong_typing.schema import json_schema_type, register_schema\n"]
        for i, (name, kind) in enumerate(zip(self.names, self.kinds)):
            if kind == "derived":
                out.append("@json_schema_type\n")
            elif kind == "custom":
                out.append(f"@json_schema_type(schema={self.custom_schema(i)!r}, examples=[{name!r}])\n")
            out.append(f"@dataclass\nclass {name}:\n    tag: Literal[{name!r}]\n")
            for (a, b), form in self.edges.items():
                if a == i:
                    target = self.names[b]
                    text = FORMS["quoted" if form == "direct" and b >= a else form].format(target)
                    out.append(f"    m{b}: {text}\n")
            if kind == "named":
                out.append(f"register_schema({name}, name='Name{name}', examples=[{name!r}])\n")
        return "".join(out)

    def out(self, i: int) -> list[tuple[int, str]]:
        return [(b, form) for (a, b), form in self.edges.items() if a == i]

    def reachable(self, roots: list[int]) -> tuple[set[int], set[int]]:
        "Classes that occur in a schema, and those that may occur as a definition although not registered."
        seen: set[int] = set()
        todo = list(roots)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if self.kinds[i] != "custom":
                todo.extend(b for b, _ in self.out(i))
        recursive = set()
        for i in seen:
            if self.kinds[i] == "unregistered":
                reach: set[int] = set()
                todo = [b for b, _ in self.out(i)]
                while todo:
                    j = todo.pop()
                    if j not in reach:
                        reach.add(j)
                        if self.kinds[j] == "unregistered":
                            todo.extend(b for b, _ in self.out(j))
                if i in reach:
                    recursive.add(i)
        return seen, recursive

    # acceptance model

    def acc(self, i: int, doc: Any) -> bool:
        if self.kinds[i] == "custom":
            return doc == self.names[i]
        if not isinstance(doc, dict) or doc.get("tag") != self.names[i]:
            return False
        members = {f"m{b}": (b, form) for b, form in self.out(i)}
        if any(k != "tag" and k not in members for k in doc):
            return False
        for k, (b, form) in members.items():
            if k not in doc:
                if form not in ("opt", "optlist"):
                    return False
            elif not self.acc_form(b, form, doc[k]):
                return False
        return True

    def acc_form(self, b: int, form: str, d: Any) -> bool:
        if form in ("list", "optlist"):
            return isinstance(d, list) and all(self.acc(b, x) for x in d)
        if form == "set":
            texts = [json.dumps(x, sort_keys=True) for x in d] if isinstance(d, list) else []
            return isinstance(d, list) and all(self.acc(b, x) for x in d) and len(set(texts)) == len(texts)
        if form == "dict":
            return isinstance(d, dict) and all(self.acc(b, x) for x in d.values())
        if form == "tuple":
            return isinstance(d, list) and len(d) == 2 and self.acc(b, d[0]) and type(d[1]) is int
        if form == "union":
            return isinstance(d, bool) or self.acc(b, d)
        return self.acc(b, d)

    # documents

    def good(self, i: int, depth: int) -> Any:
        "A document of a class, or None if there is none within the depth."
        if self.kinds[i] == "custom":
            return self.names[i]
        doc: dict[str, Any] = {"tag": self.names[i]}
        for b, form in self.out(i):
            inner = self.good(b, depth - 1) if depth > 0 else None
            value = self.hold(form, inner)
            if value is None:
                if form not in ("opt", "optlist"):
                    return None
                continue
            doc[f"m{b}"] = value
        return doc

    @staticmethod
    def hold(form: str, inner: Any) -> Any:
        if inner is None:
            return {"list": [], "set": [], "dict": {}, "union": True}.get(form)
        return {
            "list": [inner],
            "optlist": [inner],
            "set": [inner],
            "dict": {"k": inner},
            "tuple": [inner, 1],
        }.get(form, inner)

    def documents(self, i: int, depth: int = 3) -> Iterator[Any]:
        doc = self.good(i, depth)
        stub = {"tag": self.names[i]}
        yield from (None, 0, True, "x", [], {}, stub, {**stub, "zz": 1}, {"tag": "?"})
        for j in range(len(self.names)):
            yield self.names[j]
            yield self.good(j, 1)
        if not isinstance(doc, dict):
            yield doc
            return
        yield doc
        for b, form in self.out(i):
            k = f"m{b}"
            yield {q: v for q, v in doc.items() if q != k}
            if depth > 1:
                for inner in self.documents(b, depth - 2):
                    yield {**doc, k: self.hold(form, inner) if inner is not None else None}
            for j in range(len(self.names)):
                yield {**doc, k: self.hold(form, self.good(j, 1) or {"tag": self.names[j]})}
                yield {**doc, k: self.hold("direct" if form != "direct" else "list", self.good(j, 0) or self.names[j])}

    def root_docs(self, root: str, i: int, limit: int) -> Iterator[Any]:
        inner = list(itertools.islice(self.documents(i, self.depth), limit))
        for d in inner:
            yield d
            if root == "list":
                yield [d]
                yield [self.good(i, 2) or self.names[i], d]
            elif root == "dict":
                yield {"k": d}
            elif root == "wrap":
                yield {"w": d}
                yield {"w": d, "v": [d]}

    def acc_root(self, root: str, i: int, d: Any) -> bool:
        if root == "list":
            return isinstance(d, list) and all(self.acc(i, x) for x in d)
        if root == "dict":
            return isinstance(d, dict) and all(self.acc(i, x) for x in d.values())
        if root == "opt":
            return d is None or self.acc(i, d)
        if root == "wrap":
            return (
                isinstance(d, dict)
                and set(d) <= {"w", "v"}
                and "w" in d
                and self.acc(i, d["w"])
                and ("v" not in d or isinstance(d["v"], list) and all(self.acc(i, x) for x in d["v"]))
            )
        return self.acc(i, d)


def references(schema: Any) -> Iterator[str]:
    if isinstance(schema, dict):
        for k, v in schema.items():
            if k == "$ref" and isinstance(v, str):
                yield v
            elif k not in ("const", "enum", "default", "examples"):
                yield from references(v)
    elif isinstance(schema, list):
        for v in schema:
            yield from references(v)


def closed(schema: Any, definitions: dict[str, Any], path: str) -> Optional[str]:
    "Checks that references and definitions match; returns what is wrong."
    used: set[str] = set()
    todo = list(references(schema))
    while todo:
        ref = todo.pop()
        if not ref.startswith(path):
            return f"reference {ref} does not point to a definition"
        name = ref[len(path) :]
        if name not in definitions:
            return f"dangling reference {ref}"
        if name not in used:
            used.add(name)
            todo.extend(references(definitions[name]))
    if set(definitions) != used:
        return f"definitions that are not used: {sorted(set(definitions) - used)}"
    return None


DRAFTS = {
    Validator.Draft7: jsonschema.Draft7Validator,
    Validator.Draft201909: jsonschema.Draft201909Validator,
    Validator.Draft202012: jsonschema.Draft202012Validator,
}


def document_limit(g: Graph, all_options: bool) -> int:
    return 700 if len(g.names) > 3 else 200 if all_options else 60


def check_root(g: Graph, module: Any, root: str, i: int, ctx: Any, all_options: bool) -> None:
    typ = evaluate(module, ROOTS[root].format(g.names[i]))

    def bad(what: str, **more: Any) -> None:
        ctx.violation(what, root=root, of=g.names[i], source=g.source(), **more)

    schema = classdef_to_schema(typ)
    ctx.step()
    ctx.trace()
    definitions = schema.get("definitions", {})
    ctx.outcome(f"{len(definitions)} definitions")
    problem = closed({k: v for k, v in schema.items() if k != "definitions"}, definitions, "#/definitions/")
    if problem:
        bad(problem, schema=schema)
        return
    seen, recursive = g.reachable([i])
    must = {g.idents[j] for j in seen if g.kinds[j] != "unregistered"}
    may = must | {g.names[j] for j in recursive}
    if not must <= set(definitions) <= may:
        bad("definitions are not the registered types", schema=schema, expected=sorted(must), permitted=sorted(may))
        return
    for j in seen:
        if g.kinds[j] in ("custom", "named"):
            definition = definitions[g.idents[j]]
            if definition.get("examples") != [g.names[j]]:
                bad("examples of registered type lost", schema=schema)
            if g.kinds[j] == "custom" and any(definition.get(k) != v for k, v in g.custom_schema(j).items()):
                bad("custom schema lost", schema=schema)
    for draft, validator in DRAFTS.items() if all_options else [(Validator.Latest, DRAFTS[Validator.Draft202012])]:
        s = classdef_to_schema(typ, validator=draft) if all_options else schema
        ctx.step()
        if s.get("$schema") != validator.META_SCHEMA["$id"]:
            bad("schema does not name its draft", schema=s)
        if not validator(validator.META_SCHEMA).is_valid(s):
            bad("schema does not validate against its meta-schema", schema=s)
        if {k: v for k, v in s.items() if k != "$schema"} != {k: v for k, v in schema.items() if k != "$schema"}:
            bad("schema depends on draft", schema=s, expected=schema)

    library = library_validator(schema)
    docs: list[Any] = []
    texts: set[str] = set()
    for d in g.root_docs(root, i, document_limit(g, all_options)):
        t = json.dumps(d, sort_keys=True)
        if t not in texts:
            texts.add(t)
            docs.append(d)
    for d in docs:
        if library.is_valid(d) != g.acc_root(root, i, d):
            bad("document not decided correctly", schema=schema, document=d, expected=g.acc_root(root, i, d))
            return
    ctx.extra["documents"] += len(docs)

    if all_options:
        for path, expand, describe, examples in itertools.product(
            ("#/definitions/", "#/components/schemas/"), (False, True), (False, True), (False, True)
        ):
            generator = JsonSchemaGenerator(SchemaOptions(path, use_descriptions=describe, use_examples=examples))
            s, defs = generator.classdef_to_schema(typ, force_expand=expand)
            ctx.step()
            problem = closed(s, defs, path)
            if problem:
                bad(problem, schema=s, definitions=defs, path=path, force_expand=expand)
                return
            if list(defs) != sorted(defs):
                bad("definitions are not sorted", definitions=defs)
            if expand and root in ("class", "ann") and g.kinds[i] == "custom":
                continue  # not documented what the expanded form of a custom schema is
            top = {g.idents[i]} if root in ("class", "ann") else set()
            if not must - top <= set(defs) <= may | top:
                bad("definitions are not the registered types", definitions=defs, force_expand=expand)
            if not expand and not must <= set(defs):
                bad("registered type is not defined", definitions=defs)
            if expand and root in ("class", "ann") and "$ref" in s and g.kinds[i] != "custom":
                bad("root type not expanded", schema=s)
            if any(("examples" in d) != (examples and g.kinds[g.idents.index(n)] in ("custom", "named")) for n, d in defs.items()):
                bad("examples do not follow the option", definitions=defs, use_examples=examples)
            if root in ("class", "ann") and expand:
                continue  # a custom schema is that of the definition
            whole = {**s, "definitions": defs, "components": {"schemas": defs}}
            v = library_validator(whole)
            for d in docs[:40]:
                if v.is_valid(d) != g.acc_root(root, i, d):
                    bad("document not decided correctly", schema=whole, document=d, path=path, force_expand=expand)
                    return


def graphs(kind: str, tier: str) -> list[Any]:
    "Descriptors of all graphs of a kind."
    out: list[Any] = []
    if kind == "one":
        for k in KINDS:
            for form in [None] + FORM_NAMES:
                out.append(([k], [form]))
    elif kind == "two":
        forms = [None] + (FEW_FORMS if tier == "quick" else FORM_NAMES)
        some: list[Any] = [None, "quoted", "opt", "list"]
        loops: Any = itertools.product(some, some)
        if tier == "quick":
            loops = [(None, None), ("opt", None), (None, "list"), ("quoted", "opt")]
        loops = list(loops)
        for ks in itertools.product(KINDS, repeat=2):
            for ab, ba in itertools.product(forms, forms):
                for aa, bb in loops:
                    out.append((list(ks), [aa, ab, ba, bb]))
        for ks in itertools.product(KINDS, repeat=2):
            for ab, ba in itertools.product([None] + FORM_NAMES, repeat=2):
                out.append((list(ks), [None, ab, ba, None]))
    elif kind == "large":
        shapes = [(name, n) for name, sizes in LARGE[tier].items() for n in sizes]
        for (name, n), pattern, form in itertools.product(shapes, PATTERNS, LARGE_FORMS):
            depth = {"chain": 2 * n, "cycle": 2 * n, "tree": 2 * n.bit_length()}.get(name, 3)
            out.append(([pattern[i % len(pattern)] for i in range(n)], {e: form for e in large_edges(name, n)}, depth))
    else:
        kinds = KINDS[:3] if tier == "quick" else KINDS
        for ks in itertools.product(kinds, repeat=3):
            for bits in range(512):
                for rot in range(1 if tier == "quick" else 3):
                    forms = [
                        FORM_NAMES[(bits + 3 * e + 7 * rot) % len(FORM_NAMES)] if bits >> e & 1 else None for e in range(9)
                    ]
                    out.append((list(ks), forms))
    return out


# graphs of many classes, to reveal limits on the number of definitions or the length of reference paths

LARGE = {
    "quick": {"star": [4, 5, 6, 7, 9, 12, 18, 24], "chain": [4, 5, 6, 8, 11, 15], "cycle": [4, 7, 12], "tree": [5, 7, 15], "complete": [4, 5]},
    "thorough": {
        "star": list(range(4, 27)),
        "chain": list(range(4, 21)),
        "cycle": list(range(4, 16)),
        "tree": list(range(4, 20)),
        "complete": [4, 5, 6],
    },
}
PATTERNS = [["derived"], ["derived", "unregistered"], ["unregistered", "derived", "named"], ["derived", "derived", "custom"]]
LARGE_FORMS = ["opt", "list"]


def large_edges(name: str, n: int) -> list[tuple[int, int]]:
    if name == "star":
        return [(0, i) for i in range(1, n)]
    if name == "chain":
        return [(i, i + 1) for i in range(n - 1)]
    if name == "cycle":
        return [(i, (i + 1) % n) for i in range(n)]
    if name == "tree":
        return [((i - 1) // 2, i) for i in range(1, n)]
    return [(i, j) for i in range(n) for j in range(n) if i != j]


SIZES = {"large": 4, "one": 8, "two": 200, "three": 300}


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["collision"], ["names"], ["values"]]
    for kind, size in SIZES.items():
        out += [[kind, *c] for c in chunks(len(graphs(kind, tier)), size)]
    return out


VALUE_TYPES = {
    "Union[int, str]": [0, "a"],
    "Annotated[str, MaxLength(3)]": ["", "abc"],
    "Annotated[int, IntegerRange(0, 5)]": [0, 5],
    "list[int]": [[], [1]],
    "dict[str, bool]": [{}, {"k": True}],
    "tuple[int, str]": [[1, "a"]],
    "Side": ["L", "R"],
    "Literal['x', 'y']": ["x"],
    "NT": [{"a": 1}],
}


def check_values(ctx: Any) -> None:
    "Types other than classes that are registered by name."
    source = "from strong_typing.schema import register_schema\n"
    source += 'class Side(enum.Enum):\n    L = "L"\n    R = "R"\nclass NT(NamedTuple):\n    a: int\n'
    for n, expression in enumerate(VALUE_TYPES):
        source += f"V{n} = {expression}\nregister_schema(V{n}, name='Value{n}')\n"
        source += f"@dataclass\nclass W{n}:\n    w: V{n}\n    v: list[V{n}]\n    o: Optional[dict[str, V{n}]] = None\n"
    module = new_module(source)
    for n, (expression, values) in enumerate(VALUE_TYPES.items()):
        for root in ("V{}", "list[V{}]", "dict[str, V{}]", "W{}", "tuple[V{}, V{}]", "list[W{}]", "set[V{}]"):
            typ = evaluate(module, root.replace("{}", str(n)))
            schema = classdef_to_schema(typ)
            ctx.step()
            ctx.trace()
            ctx.state(expression, root)
            definitions = schema.get("definitions", {})
            problem = closed({k: v for k, v in schema.items() if k != "definitions"}, definitions, "#/definitions/")
            if problem is None and set(definitions) != {f"Value{n}"}:
                problem = "registered type is not a definition"
            if problem is not None:
                ctx.violation(problem, type=expression, root=root, schema=schema)
                continue
            v = library_validator(schema)
            for good in values:
                for value, expected in ((good, True), (None, False), ([[["?"]]], False), ({"zz": None}, False), (-77.5, False)):
                    doc = {
                        "V{}": value,
                        "list[V{}]": [value],
                        "set[V{}]": [value],
                        "dict[str, V{}]": {"k": value},
                        "tuple[V{}, V{}]": [good, value],
                        "W{}": {"w": good, "v": [good], "o": {"k": value}},
                        "list[W{}]": [{"w": value, "v": []}],
                    }[root]
                    if v.is_valid(doc) != expected:
                        ctx.violation("document not decided correctly", type=expression, document=doc, schema=schema)
    drop_module(module)


NAMESAKES = {
    "registered": "@json_schema_type\n@dataclass\nclass Same:\n    {m}: {t}\n",
    "registered recursive": '@json_schema_type\n@dataclass\nclass Same:\n    {m}: {t}\n    next: Optional["Same"] = None\n',
    "recursive": '@dataclass\nclass Same:\n    {m}: {t}\n    next: Optional["Same"] = None\n',
    "mutually recursive": '@dataclass\nclass Other:\n    s: Optional["Same"] = None\n\n'
    "@dataclass\nclass Same:\n    {m}: {t}\n    next: Optional[Other] = None\n",
    "enumeration": "@json_schema_type\nclass Same(enum.Enum):\n    X = {v!r}\n",
    "plain": "@dataclass\nclass Same:\n    {m}: {t}\n",
    "numbered": "@json_schema_type(name='Same2')\n@dataclass\nclass Same:\n    {m}: {t}\n",
}


def check_collision(ctx: Any) -> None:
    "Different types of the same name in a schema: each is described by a definition of its own."
    parts = [{"m": "a", "t": "int", "v": "one"}, {"m": "b", "t": "str", "v": "two"}, {"m": "c", "t": "bool", "v": "three"}]
    for count in (2, 3):
        for kinds in itertools.product(NAMESAKES, repeat=count):
            modules = []
            for kind, part in zip(kinds, parts):
                source = NAMESAKES[kind].format(**part).replace("@json_schema_type(name='Same2')\n", "")
                module = new_module("from strong_typing.schema import json_schema_type, register_schema\n" + source)
                if kind == "numbered":
                    module.register_schema(module.Same, name="Same2")
                modules.append(module)
            top = new_module("")
            documents: list[Any] = []
            for n, (kind, part) in enumerate(zip(kinds, parts)):
                setattr(top, f"S{n}", modules[n].Same)
                doc: Any = part["v"] if kind == "enumeration" else {part["m"]: [1, "x", True][n]}
                if "mutually" in kind:
                    doc = {**doc, "next": {"s": {**doc, "next": {}}}}
                elif "recursive" in kind:
                    doc = {**doc, "next": {**doc, "next": doc}}
                documents.append(doc)
            for order in itertools.permutations(range(count)):
                schema = classdef_to_schema(evaluate(top, f"tuple[{', '.join(f'S{n}' for n in order)}]"))
                ctx.step()
                ctx.state("namesakes", kinds, order)
                validator = library_validator(schema)
                for docs in itertools.product(documents, repeat=count):
                    good = all(d == documents[n] for n, d in zip(order, docs))
                    if validator.is_valid(list(docs)) != good:
                        ctx.violation(
                            "types of the same name share a definition",
                            kinds=kinds,
                            order=order,
                            document=docs,
                            schema=schema,
                        )
                        break
                else:
                    ctx.trace()
                    ctx.outcome("namesakes")
            for module in [*modules, top]:
                drop_module(module)


NAMES = (
    "Any Object Type Array int str None Node A a x self object type definitions $ref $defs $id properties 0 1.5 a.b a-b a/b /a a/ "
    "a~b a~1b ~0 a%41 % %25 a#b # a?b a:b \u00e9 \u2028 \U0001f600 a\"b a\\b JsonType JsonSchema http://x/y"
).split(" ") + ["", " ", "a b", "a\nb", "a\tb", "A" * 300]
DECLARED: dict[str, tuple[Any, list[Any], list[Any]]] = {
    "derived": (None, [{"x": 1}], [{}, 1, {"x": "y"}]),
    "anything": ({}, [{"x": 1}, {}, 1, None], []),
    "string": ({"type": "string"}, ["x"], [1, {}]),
    "described": ({"title": "T"}, [{"x": 1}, None], []),
}


def check_names(ctx: Any) -> None:
    "Types that are registered with unusual names, or with unusual schemas, referenced side by side."
    source = "from strong_typing.schema import register_schema\n@dataclass\nclass C:\n    x: int\n\n@dataclass\nclass D:\n    c: C\n"
    for name, (kind, (declared, good, bad)) in itertools.product(NAMES, DECLARED.items()):
        module = new_module(source)
        module.register_schema(module.C, schema=copy.deepcopy(declared), name=name)
        for text, wrap in (
            ("list[C]", lambda d: [d]),
            ("tuple[C, D]", lambda d: [d, {"c": d}]),
            ("dict[str, D]", lambda d: {"k": {"c": d}}),
        ):
            for options in (SchemaOptions(), SchemaOptions(use_descriptions=False, use_examples=False)):
                schema = classdef_to_schema(evaluate(module, text), options)
                ctx.step()
                ctx.state("name", name, kind, text, options.use_descriptions)
                if list(schema.get("definitions", {})) != [name]:
                    ctx.violation("registered type not defined", name=name, declared=declared, schema=schema)
                    continue
                validator = library_validator(schema)
                try:
                    wrong = [d for d in good if not validator.is_valid(wrap(d))] + [d for d in bad if validator.is_valid(wrap(d))]
                except Exception as ex:
                    ctx.violation(f"schema cannot be resolved: {type(ex).__name__}", name=name, declared=declared, schema=schema)
                    continue
                if wrong:
                    ctx.violation("definition is not used", name=name, documents=wrong, schema=schema)
                    continue
                ctx.trace()
                ctx.outcome("named")
        drop_module(module)


def run(task: Any, ctx: Any) -> None:
    if task[0] == "names":
        check_names(ctx)
        return
    if task[0] == "collision":
        check_collision(ctx)
        return
    if task[0] == "values":
        check_values(ctx)
        return
    descriptors = graphs(task[0], ctx.tier)
    for index in range(task[1], task[2]):
        kinds, forms, *more = descriptors[index]
        n = len(kinds)
        if isinstance(forms, dict):
            edges = forms
        else:
            edges = {
                (a, b): form for (a, b), form in zip(itertools.product(range(n), repeat=2), forms) if form is not None
            }
        g = Graph(kinds, edges, f"{task[0]}{index}", *more)
        module = new_module(g.source())
        all_options = task[0] == "one" or ctx.thorough or (task[0] == "two" and index % 23 == 0)
        roots = list(ROOTS) if task[0] != "three" or ctx.thorough else [list(ROOTS)[index % len(ROOTS)]]
        if task[0] == "two" and not all_options:
            roots = ["class", "wrap"]
        if task[0] == "large":
            roots = ["class", "wrap"]
        for i in range(n) if task[0] in ("one", "two") or ctx.thorough and task[0] == "three" else (0,):
            for root in roots:
                if root == "wrap":
                    w = new_module(f"@dataclass\nclass W:\n    w: {g.names[i]}\n    v: Optional[list[{g.names[i]}]] = None\n", extra=vars(module))
                    check_root(g, w, root, i, ctx, all_options)
                    drop_module(w)
                else:
                    check_root(g, module, root, i, ctx, all_options)
                ctx.state(kinds, sorted(edges.items()), root, i)
        drop_module(module)
    ctx.sample({"source": g.source(), "roots": roots})
