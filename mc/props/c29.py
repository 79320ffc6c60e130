"""
C29: JSON text and entry points.

All documents up to a size (leaf alphabet of boundary values, all tree shapes) are written with `json_dump_string` and
`json_dump`; the text is taken apart by an independent tokenizer and compared token by token with the document. All entry
points are called with all combinations of optional arguments from modules in which the same name means different types.
"""

from __future__ import annotations

import io
import itertools
import json
import os
import tempfile
from typing import Any, Iterator

from world import drop_module, new_module

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError
from strong_typing.serialization import json_dump, json_dump_string, json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

LEVEL = "model_checking"
NODES = {"quick": 6, "thorough": 7}
BOUNDS = {
    "quick": "all JSON documents with up to 6 nodes (arrays and objects in all shapes, leaves from an alphabet of 32 boundary "
    "values in rotation, all values at every leaf up to 3 nodes), all strings of up to 3 characters over 26 characters "
    "as values and as keys, nesting up to 300 levels, up to 1000 items, shared sub-documents; text in memory, in text "
    "files of 12 kinds, and several documents in a row; 9 entry points x 3 callers x 4 contexts x 3 options x 12 forms of types",
    "thorough": "as quick, documents with up to 7 nodes, strings of up to 4 characters",
}

CHARS = '"\\/\b\f\n\r\t\x00\x01\x1f\x7f a0,:[]{}é\u2028\u2029漢😀'
LEAVES: list[Any] = [
    None, True, False, 0, 1, -1, 2**31, -(2**63), 2**64, 10**30, 0.0, -0.0, 0.5, 1.0, -2.75, 1e16, 1e22, 1e-7, 5e-324,
    1.7976931348623157e308, 0.1 + 0.2, "", "a", "é", "漢字", "😀", 'q"\\/', "a, b: c", "\n\t\r\b\f\x00\x1f", "\u2028\u2029", "\x7f\x80\xa0", "null",
]  # fmt: skip
KEYS = ["a", "", "é😀", 'k"\\ :,', "true", "\n"]


ENCODINGS = [
    ("utf-8", ""), ("utf-8", "\n"), ("utf-8", "\r\n"), ("utf-8-sig", ""), ("utf-16", ""), ("utf-16-le", ""), ("utf-32", ""),
    ("latin-1", ""), ("cp1252", ""), ("ascii", ""), ("gb18030", ""), ("shift_jis", ""),
]  # fmt: skip


def parse(text: str) -> Any:
    "Reads JSON text without any whitespace; independent of the `json` module. Objects are lists of pairs in an `Obj`."
    pos = 0

    def fail(what: str) -> Any:
        raise ValueError(f"{what} at {pos}")

    def string() -> str:
        nonlocal pos
        out = []
        pos += 1
        while True:
            if pos >= len(text):
                fail("unterminated string")
            c = text[pos]
            pos += 1
            if c == '"':
                return "".join(out)
            if c == "\\":
                e = text[pos]
                pos += 1
                if e == "u":
                    code = int(text[pos : pos + 4], 16)
                    pos += 4
                    if code >= 0x7F:
                        fail("escaped character that is to be written as is")
                    out.append(chr(code))
                else:
                    out.append({'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}[e])
            elif ord(c) < 0x20:
                fail("control character in string")
            else:
                out.append(c)

    stack: list[Any] = []
    key: Any = None
    keys: list[Any] = []
    while True:
        # value
        if pos >= len(text):
            fail("value expected")
        c = text[pos]
        value: Any
        if c in "[{":
            pos += 1
            stack.append([] if c == "[" else Obj())
            keys.append(key)
            close = "]" if c == "[" else "}"
            if text[pos : pos + 1] != close:
                if c == "{":
                    if text[pos : pos + 1] != '"':
                        fail("key expected")
                    key = string()
                    if text[pos : pos + 1] != ":":
                        fail("colon expected")
                    pos += 1
                continue
            pos += 1
            value, key = stack.pop(), keys.pop()
        elif c == '"':
            value = string()
        else:
            for word, val in (("null", None), ("true", True), ("false", False)):
                if text.startswith(word, pos):
                    value = val
                    pos += len(word)
                    break
            else:
                start = pos
                while pos < len(text) and text[pos] in "+-.0123456789eE":
                    pos += 1
                if pos == start:
                    fail("value expected")
                number = text[start:pos]
                value = float(number) if any(x in number for x in ".eE") else int(number)
        # what follows a value
        while stack:
            top = stack[-1]
            top.append((key, value) if isinstance(top, Obj) else value)
            c = text[pos : pos + 1]
            if c == ",":
                pos += 1
                if isinstance(top, Obj):
                    if text[pos : pos + 1] != '"':
                        fail("key expected")
                    key = string()
                    if text[pos : pos + 1] != ":":
                        fail("colon expected")
                    pos += 1
                break
            if c != ("}" if isinstance(top, Obj) else "]"):
                fail("delimiter expected")
            pos += 1
            value, key = stack.pop(), keys.pop()
        else:
            if pos != len(text):
                fail("text after document")
            return value


class Obj(list):  # type: ignore[type-arg]
    "Properties of an object, in the order in which they are written."


def same(doc: Any, parsed: Any) -> bool:
    "Compares a document with what has been read, iteratively (documents may be nested deeply)."
    todo = [(doc, parsed)]
    while todo:
        a, b = todo.pop()
        if isinstance(a, dict):
            if not isinstance(b, Obj) or [k for k, _ in b] != list(a):
                return False
            todo += [(v, w) for v, (_, w) in zip(a.values(), b)]
        elif isinstance(a, list):
            if type(b) is not list or len(a) != len(b):
                return False
            todo += list(zip(a, b))
        elif type(a) is not type(b) or (repr(a) != repr(b)):
            return False
    return True


def short(doc: Any) -> str:
    try:
        text = repr(doc)
    except RecursionError:
        text = "(deeply nested)"
    return text[:400]


def check_doc(doc: Any, ctx: Any, what: str) -> None:
    ctx.count_states(1)
    ctx.step(2)
    ctx.trace(2)
    try:
        text = json_dump_string(doc)
    except Exception as ex:
        ctx.violation(f"cannot write a document: {type(ex).__name__}: {ex}", document=short(doc), situation=what)
        return
    try:
        if not isinstance(text, str) or not same(doc, parse(text)):
            raise ValueError("text represents another document")
    except (ValueError, KeyError, IndexError) as ex:
        ctx.violation(f"not the compact text of the document: {ex}", document=short(doc), text=text[:400], situation=what)
        return
    stream = io.StringIO()
    stream.write("before")
    try:
        json_dump(doc, stream)
    except Exception as ex:
        ctx.violation(f"cannot write a document to a file: {type(ex).__name__}: {ex}", document=short(doc), situation=what)
        return
    if stream.closed or stream.getvalue() != "before" + text + "\n":
        ctx.violation(
            "file does not have the text and a newline",
            document=short(doc),
            text=text[:400],
            file="(closed)" if stream.closed else stream.getvalue()[:400],
        )
        return
    ctx.outcome(what)


def shapes(n: int) -> Iterator[Any]:
    "All trees with `n` nodes; a leaf is `None`, an inner node `('a', …)` or `('o', …)`."
    if n == 1:
        yield None
        yield ("a",)
        yield ("o",)
        return
    for kids in forests(n - 1):
        yield ("a", *kids)
        yield ("o", *kids)


def forests(n: int) -> Iterator[tuple[Any, ...]]:
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in shapes(k):
            for rest in forests(n - k):
                yield (first, *rest)


def count_leaves(shape: Any) -> int:
    return 1 if shape is None else sum(count_leaves(s) for s in shape[1:])


def fill(shape: Any, leaves: Iterator[Any], turn: int) -> Any:
    if shape is None:
        return next(leaves)
    if shape[0] == "a":
        return [fill(s, leaves, turn) for s in shape[1:]]
    return {KEYS[(turn + i) % len(KEYS)]: fill(s, leaves, turn + 1) for i, s in enumerate(shape[1:])}


CALLER = """
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json

@dataclass
class Item:
    {member}: int

@dataclass
class Holder:
    item: Item
    note: str = "-"

def call_object(typ, doc, **kw):
    return json_to_object(typ, doc, **kw)

def call_generic(typ, doc, **kw):
    return json_to_generic(typ, doc, **kw)

call_lambda = lambda typ, doc, **kw: json_to_object(typ, doc, **kw)

def call_inner(typ, doc, **kw):
    def inner():
        return json_to_generic(typ, doc, **kw)
    return inner()

def call_list(typ, doc, **kw):
    return [json_to_object(typ, doc, **kw) for _ in range(1)][0]

def call_generator(typ, doc, **kw):
    return next(json_to_generic(typ, doc, **kw) for _ in range(1))

class Caller:
    def method(self, typ, doc, **kw):
        return json_to_object(typ, doc, **kw)

    @classmethod
    def class_method(cls, typ, doc, **kw):
        return json_to_generic(typ, doc, **kw)

    def __call__(self, typ, doc, **kw):
        return json_to_generic(typ, doc, **kw)

call_method = Caller().method
call_class = Caller.class_method
call_object_call = Caller()
"""
ENTRIES = [
    "call_object", "call_generic", "call_lambda", "call_inner", "call_list", "call_generator", "call_method", "call_class", "call_object_call",
]  # fmt: skip
# type, document for a member of type `Item`, how the item is found in the result
FORMS: list[tuple[str, Any, Any]] = [
    ("'Item'", lambda d: d, lambda o: o),
    ("typing.ForwardRef('Item')", lambda d: d, lambda o: o),
    ("list['Item']", lambda d: [d], lambda o: o[0]),
    ("typing.List['Item']", lambda d: [d], lambda o: o[0]),
    ("dict[str, 'Item']", lambda d: {"k": d}, lambda o: o["k"]),
    ("tuple[int, 'Item']", lambda d: [1, d], lambda o: o[1]),
    ("Optional['Item']", lambda d: d, lambda o: o),
    ("Union[int, 'Item']", lambda d: d, lambda o: o),
    ("Annotated['Item', 'x']", lambda d: d, lambda o: o),
    ("dict[str, list[Optional['Item']]]", lambda d: {"k": [None, d]}, lambda o: o["k"][1]),
    ("'Holder'", lambda d: {"item": d, "note": "n"}, lambda o: o.item),
    ("list['Holder']", lambda d: [{"item": d, "note": "n"}], lambda o: o[0].item),
]
OPTIONS = [None, False, True]


def run_entries(part: int, ctx: Any) -> None:
    members = ["m0", "m1", "m2"]
    for ci, fi in itertools.product(range(3), range(len(FORMS))):
        if (ci * len(FORMS) + fi) % 6 != part:
            continue
        form, embed, extract = FORMS[fi]
        mods = [new_module(CALLER.format(member=m)) for m in members]
        try:
            for name, xi, skip in itertools.product(ENTRIES, (None, 0, 1, 2), OPTIONS):
                caller = mods[ci]
                effective = ci if xi is None else xi
                kw: dict[str, Any] = {}
                if xi is not None:
                    kw["context"] = mods[xi]
                if skip is not None:
                    kw["options"] = DeserializerOptions(skip_unassigned=skip)
                typ = eval(form, caller.__dict__)
                for extra in (False, True):
                    doc = {members[effective]: 5}
                    if extra:
                        doc["unknown"] = 6
                    ctx.state(ci, form, name, xi, skip, extra)
                    ctx.step()
                    ctx.trace()
                    case = dict(form=form, caller=ci, entry=name, context=xi, skip_unassigned=skip, unknown_member=extra)
                    try:
                        result = getattr(caller, name)(typ, embed(doc), **kw)
                    except JsonKeyError as ex:
                        # a union reports that no member matches
                        if not extra or skip:
                            ctx.violation(f"valid document refused: {ex}", **case)
                        else:
                            ctx.outcome("unknown member refused")
                        continue
                    except Exception as ex:
                        ctx.violation(f"call fails with {type(ex).__name__}: {ex}", **case)
                        continue
                    if extra and not skip:
                        ctx.violation("unknown member accepted", **case)
                    elif type(extract(result)) is not mods[effective].Item or getattr(extract(result), members[effective]) != 5:
                        ctx.violation("type is not taken from the right module", result=repr(result), **case)
                    else:
                        ctx.outcome("resolved")
        finally:
            for m in mods:
                drop_module(m)


def run_direct(ctx: Any) -> None:
    "Engines made explicitly do the same as the functions."
    module = new_module(CALLER.format(member="m"))
    try:
        item, holder = module.Item, module.Holder
        for typ, obj, doc in [
            (item, item(5), {"m": 5}),
            (holder, holder(item(5)), {"item": {"m": 5}, "note": "-"}),
            (list[item], [item(1), item(2)], [{"m": 1}, {"m": 2}]),
            (dict[str, item], {"a": item(1)}, {"a": {"m": 1}}),
            (tuple[item, int], (item(1), 2), [{"m": 1}, 2]),
            (int, 5, 5),
            (str, "a", "a"),
            (type(None), None, None),
        ]:
            for options in (None, DeserializerOptions(), DeserializerOptions(skip_unassigned=True)):
                ctx.count_states(1)
                ctx.step(5)
                ctx.trace(5)
                got = [
                    json_to_object(typ, doc, options=options),
                    json_to_generic(typ, doc, options=options),
                    create_deserializer(typ, options=options).parse(doc),
                    create_deserializer(typ, module, options=options).parse(doc),
                ]
                written = [object_to_json(obj), create_serializer(typ).generate(obj), create_serializer(typ, module).generate(obj)]
                if any(g != obj or type(g) is not type(obj) for g in got):
                    ctx.violation("ways of reading differ", type=repr(typ), results=repr(got))
                elif any(w != doc or type(w) is not type(doc) for w in written):
                    ctx.violation("ways of writing differ", type=repr(typ), results=repr(written))
                else:
                    ctx.outcome("same by all ways")
    finally:
        drop_module(module)


def tasks(tier: str) -> list[Any]:
    n = NODES[tier]
    out: list[Any] = [["all", k] for k in range(1, 4)]
    out += [["docs", k, part] for k in range(2, n + 1) for part in range(1 if k < 5 else 4)]
    out += [["strings", i] for i in range(0, len(CHARS))] + [["large"], ["files"], ["direct"]]
    return out + [["entries", part] for part in range(6)]


def run(task: Any, ctx: Any) -> None:
    if task[0] == "all":
        for shape in shapes(task[1]):
            for leaves in itertools.product(LEAVES, repeat=count_leaves(shape)):
                check_doc(fill(shape, iter(leaves), 0), ctx, "small")
    elif task[0] == "docs":
        parts = 1 if task[1] < 5 else 4
        for i, shape in enumerate(shapes(task[1])):
            if i % parts != task[2]:
                continue
            for turn in range(len(LEAVES)):
                # neighbouring leaves are different values
                rotation = itertools.cycle(LEAVES[turn:] + LEAVES[:turn])
                doc = fill(shape, rotation, turn)
                check_doc(doc, ctx, "document")
        ctx.sample(doc)
    elif task[0] == "strings":
        size = 4 if ctx.thorough else 3
        first = CHARS[task[1]]
        for k in range(size):
            for rest in itertools.product(CHARS, repeat=k):
                text = first + "".join(rest)
                check_doc(text, ctx, "string")
                check_doc({text: text}, ctx, "key")
    elif task[0] == "large":
        for depth in (1, 2, 5, 10, 20, 50, 100, 200, 300):
            for inner in (1, [], {}, "é"):
                for kinds in ("a", "o", "ao", "oa"):
                    doc: Any = inner
                    for i in range(depth):
                        doc = [doc] if kinds[i % len(kinds)] == "a" else {"k": doc}
                    check_doc(doc, ctx, "deep")
        for size in (10, 100, 1000):
            check_doc(list(range(size)), ctx, "wide")
            check_doc([LEAVES[i % len(LEAVES)] for i in range(size)], ctx, "wide")
            check_doc({f"k{i}": LEAVES[i % len(LEAVES)] for i in range(size)}, ctx, "wide")
            check_doc({f"k{size - i}": i for i in range(size)}, ctx, "wide")
            check_doc("é" * size, ctx, "wide")
        for leaf in LEAVES:
            shared_list, shared_dict = [leaf], {"a": leaf}
            check_doc([shared_list, shared_list, {"a": shared_list}], ctx, "shared")
            check_doc({"x": shared_dict, "y": shared_dict, "z": [shared_dict, shared_dict]}, ctx, "shared")
    elif task[0] == "files":
        with tempfile.TemporaryDirectory() as directory:
            for encoding, newline in ENCODINGS:
                for size in range(1, 4):
                    for docs in itertools.product([None, "\u00e9\n", [1, {"a": []}], {"\u6f22": 0.5}, "", 2**64], repeat=size):
                        expected = "".join(json_dump_string(doc) + "\n" for doc in docs)
                        try:
                            expected.encode(encoding)
                        except UnicodeEncodeError:
                            continue
                        path = os.path.join(directory, "out.json")
                        ctx.count_states(1)
                        ctx.step(size)
                        ctx.trace()
                        with open(path, "w", encoding=encoding, newline=newline) as f:
                            for doc in docs:
                                json_dump(doc, f)
                        with open(path, encoding=encoding, newline="") as f:
                            content = f.read()
                        if newline == "\r\n":
                            content = content.replace("\r\n", "\n")
                        lines = content.split("\n")
                        if (
                            content != expected
                            or lines[-1] != ""
                            or len(lines) != size + 1
                            or [json.loads(x) for x in lines[:-1]] != list(docs)
                        ):
                            ctx.violation(
                                "a file of several documents does not have one document per line",
                                documents=docs,
                                encoding=encoding,
                                content=content,
                            )
                        else:
                            ctx.outcome("lines")
    elif task[0] == "entries":
        run_entries(task[1], ctx)
    else:
        run_direct(ctx)
