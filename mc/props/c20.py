"""
C20: flattening a schema keeps every leaf property exactly once.

All trees of nested objects up to a number of properties, all subsets of required properties, all four option settings; every
form of a leaf at every depth; the result is compared with what the definition of flattening gives.
"""

from __future__ import annotations

import copy
import itertools
from typing import Any, Iterator, Optional

from strong_typing.classdef import SchemaFlatteningOptions, flatten_schema

LEVEL = "model_checking"
SIZE = {"quick": 6, "thorough": 7}
BOUNDS = {
    "quick": "all trees of nested objects with up to 6 properties (at any depth), all subsets of required properties, all 4 option "
    "settings, distinct names and names used again in each object; 36 forms of leaves at depths 0 to 3; title, description and "
    "definitions of the schema; titles, descriptions, formats and additional properties of 3 nested objects (12 x 12 x 12), with and without "
    "properties; 17 unusual names at 3 levels; chains of up to 12 nested objects; no options given; flattening twice",
    "thorough": "as quick, trees with up to 7 properties",
}
SCHEMA = "https://json-schema.org/draft/2020-12/schema"

Tree = tuple["Tree", ...]  # a leaf has no children


def forests(n: int) -> Iterator[Tree]:
    "All ordered forests with `n` nodes."
    if n == 0:
        yield ()
        return
    for k in range(n):
        for first in forests(k):
            for rest in forests(n - 1 - k):
                yield (first,) + rest


OBJ = {"type": "object", "properties": {"n": {"type": "integer"}}, "additionalProperties": False, "required": ["n"]}
LEAVES: list[Any] = [
    {"type": "integer"},
    {"type": "string", "title": "A title", "description": "A description: with a colon"},
    {"type": "array", "items": OBJ},
    {"type": "boolean", "const": False},
    {"type": "object"},
    {"$ref": "#/definitions/D"},
    {"type": "number", "default": 0.0},
    {"oneOf": [OBJ, {"type": "integer"}]},
    {"type": "boolean"},
    {"type": "boolean", "default": False, "examples": [True, False]},
    {"type": "boolean", "const": True, "default": True},
    {"type": "integer", "default": 0},
    {"type": "integer", "const": 0},
    {"type": "integer", "enum": [0, 1, -5], "examples": [1]},
    {"type": "integer", "minimum": 0, "maximum": 0, "format": "int16"},
    {"type": "integer", "format": "int64", "title": "", "description": ""},
    {"type": "number"},
    {"type": "number", "minimum": 0.5, "maximum": 1.5},
    {"type": "number", "exclusiveMinimum": -10.0, "exclusiveMaximum": 10.0, "multipleOf": 0.01},
    {"type": "number", "const": 0.0, "examples": [0.5], "format": "float32"},
    {"type": "string"},
    {"type": "string", "default": ""},
    {"type": "string", "const": ""},
    {"type": "string", "enum": ["", "a"], "default": "a", "examples": ["a"]},
    {"type": "string", "minLength": 0, "maxLength": 0},
    {"type": "string", "format": "date-time", "title": "T", "examples": ["2018-11-13T20:20:39+00:00"]},
    {"type": "array", "items": {"type": "string"}, "description": "Items"},
    {"type": "array", "items": {"type": "array", "items": OBJ}},
    {"type": "array", "items": {"$ref": "#/definitions/D"}, "title": "L"},
    {"type": "array", "items": {"oneOf": [OBJ, {"$ref": "#/definitions/D"}]}},
    {"type": "object", "title": "Any object", "description": "Free form"},
    {"type": "object", "additionalProperties": True},
    {"$ref": "#/definitions/D", "title": "Reference", "description": "to a definition"},
    {"oneOf": [{"type": "string"}, {"type": "array", "items": OBJ}], "title": "Choice"},
    {"oneOf": [{"$ref": "#/definitions/D"}, OBJ, {"type": "object"}], "description": "d"},
    {"oneOf": [{"oneOf": [{"type": "integer"}, {"type": "string"}]}, {"type": "boolean"}]},
]
DEFINITIONS = {"D": {**copy.deepcopy(OBJ), "title": "Nested", "properties": {"n": {"type": "integer"}, "m": OBJ}}}
SETTINGS = list(itertools.product((False, True), repeat=2))


class Builder:
    "Makes the schema of a tree."

    def __init__(self, required: list[bool], again: bool, first: int = 0) -> None:
        self.required = required
        self.again = again
        self.count = 0
        self.first = first

    def build(self, forest: Tree) -> Any:
        props: dict[str, Any] = {}
        req = []
        for i, tree in enumerate(forest):
            k = self.count
            self.count += 1
            name = "abcdefgh"[i] if self.again else f"p{k}"
            if tree:
                props[name] = self.build(tree)
                if k % 3 == 0:
                    props[name]["title"] = f"Inner object {k}"
            else:
                props[name] = copy.deepcopy(LEAVES[(self.first + k) % len(LEAVES)])
            if self.required[k % len(self.required)]:
                req.append(name)
        out: dict[str, Any] = {"type": "object", "properties": props, "additionalProperties": False}
        if req:
            out["required"] = req
        return out


def top(obj: Any, extra: int) -> Any:
    out = {"$schema": SCHEMA, **obj}
    if extra & 1:
        out["definitions"] = copy.deepcopy(DEFINITIONS)
    if extra & 2:
        out["title"] = "Title"
        out["description"] = "Description"
    return out


def expected(node: Any, qualified: bool, recursive: bool) -> tuple[dict[str, Any], list[str]]:
    "Properties that a flattened object has, and which of these are required."
    props: dict[str, Any] = {}
    req: list[str] = []
    for name, prop in node["properties"].items():
        if prop.get("type") == "object" and "properties" in prop:
            if recursive:
                inner, inner_req = expected(prop, qualified, recursive)
            else:
                inner, inner_req = prop["properties"], prop.get("required", [])
            for n, p in inner.items():
                full = f"{name}.{n}" if qualified else n
                if full in props:
                    raise KeyError(full)
                props[full] = p
                if n in inner_req:
                    req.append(full)
        else:
            if name in props:
                raise KeyError(name)
            props[name] = prop
            if name in node.get("required", []):
                req.append(name)
    return props, req


def same(a: Any, b: Any) -> bool:
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_set(a[k], b[k]) if k == "required" else same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and bool(a == b)


def same_set(a: Any, b: Any) -> bool:
    if isinstance(a, list) and isinstance(b, list):
        return sorted(a) == sorted(b)
    return same(a, b)


def collides(source: Any, recursive: bool) -> bool:
    try:
        expected(source, False, recursive)
    except KeyError:
        return True
    return False


# names that have a meaning in schemas, or that need escaping somewhere
NAMES = ["type", "properties", "required", "$ref", "title", "items", "additionalProperties", "", " ", "a.b", "a/b", "a~b", "class", "A", "\u00e9", "self", "0"]
# what else an object can have
MORE: list[Any] = [
    {},
    {"title": "o"},
    {"title": ""},
    {"title": "x"},
    {"title": "Top"},
    {"description": "o"},
    {"description": "x"},
    {"title": "Top", "description": "About"},
    {"additionalProperties": True},
    {"additionalProperties": None},
    {"format": "o"},
    {"title": "object", "additionalProperties": True, "description": ""},
]


def some(props: Any, required: Any, more: Any) -> Any:
    out: dict[str, Any] = {"type": "object", "properties": props, "additionalProperties": False}
    if required:
        out["required"] = required
    for key, value in more.items():
        if value is None:
            out.pop(key)
        else:
            out[key] = value
    return out


def check(source: Any, qualified: bool, recursive: bool, ctx: Any, default: bool = False) -> Optional[Any]:
    options = None if default else SchemaFlatteningOptions(qualified_names=qualified, recursive=recursive)
    copied = copy.deepcopy(source)
    case = dict(qualified_names=qualified, recursive=recursive)
    key = "name-collision" if not qualified and collides(source, recursive) else ""
    ctx.step()
    ctx.trace()
    try:
        result = flatten_schema(source, options=options)
    except Exception as ex:
        ctx.violation(f"flattening fails with {type(ex).__name__}: {ex}", source=copied, key=key, **case)
        return None
    if source != copied:
        ctx.violation("source schema is modified", source=copied, after=source, **case)
        return None
    if key:
        ctx.violation("nested objects have properties with the same name, one of which is lost", key=key, source=source, **case)
        return None
    props, req = expected(source, qualified, recursive)
    target = {k: v for k, v in source.items() if k not in ("properties", "required", "additionalProperties")}
    if props:
        target["properties"] = props
    else:
        target.pop("properties", None)
    target["additionalProperties"] = False
    if req:
        target["required"] = req
    if not same(result, target):
        ctx.violation("flattened schema differs", source=source, expected=target, result=result, **case)
        return None
    flat = all("properties" not in p for p in source.get("properties", {}).values())
    ctx.outcome("flat" if flat else "nested")
    return result


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["trees", n, part] for n in range(1, SIZE[tier] + 1) for part in range(1 if n < 5 else 8 if n < 7 else 24)]
    return out + [["leaves"], ["chains"], ["collisions"], ["objects"], ["names"]]


def run(task: Any, ctx: Any) -> None:
    if task[0] == "trees":
        n, part = task[1], task[2]
        parts = 1 if n < 5 else 8 if n < 7 else 24
        for i, forest in enumerate(forests(n)):
            if i % parts != part:
                continue
            for j, required in enumerate(itertools.product((False, True), repeat=n)):
                for qualified, recursive in SETTINGS:
                    for again in (False, True) if qualified else (False,):
                        source = top(Builder(list(required), again, i + j).build(forest), (i + j) % 4)
                        ctx.count_states(1)
                        result = check(source, qualified, recursive, ctx)
                        if result is not None and recursive:
                            # what is flat remains as is
                            check(result, qualified, recursive, ctx)
        ctx.sample({"source": source, "qualified_names": qualified, "recursive": recursive})
    elif task[0] == "leaves":
        for i in range(len(LEAVES)):
            for level in range(4):
                forest: Tree = ((), ())
                for _ in range(level):
                    forest = (forest, ())
                for required in itertools.product((False, True), repeat=3):
                    for qualified, recursive in SETTINGS:
                        for extra in range(4):
                            source = top(Builder(list(required), False, i).build(forest), extra)
                            ctx.count_states(1)
                            check(source, qualified, recursive, ctx)
                    ctx.count_states(1)
                    check(source, False, False, ctx, default=True)
    elif task[0] == "chains":
        for level in range(1, 13):
            forest = ((), ())
            for _ in range(level):
                forest = ((), forest, ())
            for required in ([True], [False], [True, False], [False, True, True]):
                for qualified, recursive in SETTINGS:
                    source = top(Builder(required, False).build(forest), 3)
                    ctx.count_states(1)
                    check(source, qualified, recursive, ctx)
                    # one level at a time gives the same as all levels at once
                    step = source
                    for _ in range(level):
                        step = flatten_schema(step, options=SchemaFlatteningOptions(qualified_names=qualified))
                        ctx.step()
                    whole = flatten_schema(source, options=SchemaFlatteningOptions(qualified_names=qualified, recursive=True))
                    if not same(step, whole):
                        ctx.violation("flattening step by step differs", source=source, steps=step, whole=whole)
    elif task[0] == "objects":
        # objects that differ in all but their properties: an outer, a nested and an innermost object, which can be without properties
        for outer, inner, last in itertools.product(MORE, repeat=3):
            for required, empty in itertools.product(([], ["x"], ["o", "x"], ["x", "o", "i"]), (False, True)):
                innermost = some({} if empty else {"x": {"type": "integer"}, "y": {"type": "string"}}, [n for n in required if n == "x" and not empty], last)
                nested = some({"i": innermost, "z": {"type": "boolean"}}, [n for n in required if n == "i"], inner)
                source = {"$schema": SCHEMA, **some({"o": nested, "l": {"type": "integer"}}, [n for n in required if n == "o"], {**outer, "additionalProperties": False})}
                for qualified, recursive in SETTINGS:
                    ctx.count_states(1)
                    check(source, qualified, recursive, ctx)
        ctx.sample({"source": source})
    elif task[0] == "names":
        leaf = {"type": "integer"}
        for a, b, c in itertools.product(NAMES, repeat=3):
            for required in (True, False):
                if b == c:
                    props: Any = {a: some({b: leaf}, [b] if required else [], {})}
                else:
                    props = {a: some({b: leaf, c: some({a: leaf, "v": leaf}, [a] if required else [], {})}, [b, c] if required else [], {})}
                source = {"$schema": SCHEMA, **some(props, [a] if required else [], {})}
                for qualified, recursive in SETTINGS:
                    if (qualified or b != a) or not recursive:
                        ctx.count_states(1)
                        check(source, qualified, recursive, ctx)
        ctx.sample({"source": source})
    else:
        for n in range(2, 6):
            for forest in forests(n):
                for qualified, recursive in SETTINGS:
                    source = top(Builder([True], True).build(forest), 0)
                    ctx.count_states(1)
                    check(source, qualified, recursive, ctx)
