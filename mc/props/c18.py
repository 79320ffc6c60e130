"""
C18: custom conversion hooks are honoured wherever the class occurs.

Every kind of class that can define hooks x every form of the JSON representation x what the hook returns x every position
of the class within up to two nested containers. The hooks record their calls; the model knows at which places of the
document (or object) the class occurs, and each place must hold the very object that a hook has returned, with exactly one
call for each place.
"""

from __future__ import annotations

import itertools
from collections import Counter
from typing import Any, Iterator, Optional

from common import create_serializer, error_kind
from shapes import DIRECT, Bag, HookS, OptS, Shape, Style, UnionS, World, ok
from universe import CONTAINERS, chunks, ordered

from strong_typing.deserializer import create_deserializer
from strong_typing.serialization import json_to_generic, object_to_json

LEVEL = "model_checking"
BOUNDS = {
    "quick": "14 kinds of classes with hooks x 7 forms of JSON (one of which is not JSON, one false, one null) x 3 kinds of results x every position "
    "in up to 2 nested containers (17 containers), up to 8 values per type; hooks that fail with 4 exceptions; classes with a "
    "single hook",
    "thorough": "as quick, 3 nested containers for 3 kinds of classes",
}

FORMS = {
    "obj": ('{"hook": n}', 'isinstance(d, dict) and list(d) == ["hook"]', 'd["hook"]'),
    "str": ('"#" + str(n)', 'isinstance(d, str) and d[:1] == "#"', "int(d[1:])"),
    "arr": ('[n, [n], {"n": None}]', "isinstance(d, list) and len(d) == 3", "d[0]"),
    "num": ("n", "type(d) is int", "d"),
    "raw": ("(n, {n})", "isinstance(d, tuple) and len(d) == 2", "d[0]"),
    # values that are false
    "falsy": ('{0: "", 7: 0, -1: {}}[n]', "type(d) in (str, int, dict) and not d", "{str: 0, int: 7, dict: -1}[type(d)]"),
    "none": ("None", "d is None", "0"),
}
FAIL = {"value": "ValueError('no')", "key": "JsonKeyError('no')", "type": "JsonTypeError('no')", "other": "RuntimeError('no')"}

COMMON = """
from strong_typing.exception import JsonKeyError, JsonTypeError
LOG = []
CALLS = []
FAIL = []
class Other:
    def __init__(self, n): self.n = n
def form(obj):
    n = num(obj)
    CALLS.append("to")
    if FAIL: raise FAIL[0]
    r = {to}
    LOG.append(("to", n, r))
    return r
def unform(cls, d):
    if not ({check}): raise ValueError("hook")
    CALLS.append("from")
    if FAIL: raise FAIL[0]
    n = {get}
    r = {ret}
    LOG.append(("from", n, r))
    return r
def num(obj): return {num}
CACHE = {{}}
"""

HOOKS = """    def to_json(self): return form(self)
    @classmethod
    def from_json(cls, d): return unform(cls, d)
"""

RESULTS = {"new": "make(n, cls)", "cached": "CACHE.setdefault(n, make(n, cls))", "other": "Other(n)"}

# kind -> (source, `make`, `num`, hashable)
KINDS: dict[str, tuple[str, str, str, bool]] = {
    "plain": ("class H:\n    def __init__(self, n): self.n = n\n", "cls(n)", "obj.n", True),
    "annotated": ("class H:\n    n: int\n    m: dict[str, str]\n    def __init__(self, n): self.n = n\n", "cls(n)", "obj.n", True),
    "dataclass": ("@dataclass\nclass H:\n    n: int\n    z: int = 5\n", "cls(n)", "obj.n", False),
    "frozen": ("@dataclass(frozen=True)\nclass H:\n    n: int\n", "cls(n)", "obj.n", True),
    "slots": ("@dataclass(slots=True)\nclass H:\n    n: int\n", "cls(n)", "obj.n", False),
    "namedtuple": ("class H(NamedTuple):\n    n: int\n    hook: str = 'x'\n", "cls(n)", "obj[0]", True),
    "enum": ("class H(enum.Enum):\n    A = 0\n    B = 7\n    C = -1\n", "cls(n)", "obj.value", True),
    "list": ("class H(list):\n", "cls([n])", "obj[0]", False),
    "dict": ("class H(dict):\n", "cls(n=n)", "obj['n']", False),
    "str": ("class H(str):\n", "cls(str(n))", "int(str(obj))", True),
    "int": ("class H(int):\n", "cls(n)", "int(obj)", True),
    "timedelta": ("class H(datetime.timedelta):\n", "cls(days=n)", "obj.days", True),
    "sub": ("@dataclass\nclass Base:\n    n: int\n@HOOKS@class H(Base):\n    k: int = 3\n", "cls(n)", "obj.n", False),
    "mixin": ("class Mixin:\n@HOOKS@@dataclass(frozen=True)\nclass H(Mixin):\n    n: int\n", "cls(n)", "obj.n", True),
}


class Hole:
    "A place in a document that a hook has to fill."

    def __init__(self, n: int) -> None:
        self.n = n

    def __repr__(self) -> str:
        return f"<result of hook for {self.n}>"


class ProbeS(HookS):
    def __init__(self, kind: str, form: str, result: str, which: str = "both") -> None:
        self.cls = "H"
        self.kind = kind
        self.form = form
        self.result = result
        self.which = which
        self.hashable = KINDS[kind][3]
        self.name = f"{kind}:{form}:{result}" + ("" if which == "both" else f":{which}")
        self.world: Optional[World] = None

    def declare(self, style: Style) -> str:
        source, make, num, _ = KINDS[self.kind]
        to, check, get = FORMS[self.form]
        hooks = HOOKS
        if self.which == "to":
            hooks = "    def to_json(self): return form(self)\n"
        elif self.which == "from":
            hooks = "    @classmethod\n    def from_json(cls, d): return unform(cls, d)\n"
        if "@HOOKS@" in source:
            source = source.replace("@HOOKS@", hooks)
        else:
            source += hooks
        common = COMMON.format(to=to, check=check, get=get, ret=RESULTS[self.result], num=num)
        return common + source + f"def make(n, cls=H): return {make}\n"

    def values(self) -> list[Any]:
        return [0, 7, -1]

    def to_py(self, payload: Any, world: World) -> Any:
        return world.module.make(payload)

    def py_src(self, payload: Any) -> str:
        return f"make({payload})"

    def same(self, obj: Any, payload: Any, world: World) -> bool:
        return any(kind == "from" and r is obj and n == payload for kind, n, r in world.module.LOG)

    def enc(self, payload: Any) -> Any:
        return Hole(payload)


def holes(doc: Any) -> list[int]:
    if isinstance(doc, Hole):
        return [doc.n]
    if isinstance(doc, Bag):
        doc = doc.items
    if isinstance(doc, list):
        return [n for d in doc for n in holes(d)]
    if isinstance(doc, dict):
        return [n for d in doc.values() for n in holes(d)]
    return []


def has_empty(doc: Any) -> bool:
    if isinstance(doc, dict):
        return not doc or any(has_empty(d) for d in doc.values())
    return isinstance(doc, (list, tuple)) and any(has_empty(d) for d in doc)


def filled(doc: Any, form: str) -> Any:
    "The actual document."
    if isinstance(doc, Hole):
        return eval(FORMS[form][0], {"n": doc.n})
    if isinstance(doc, Bag):
        doc = doc.items
    if isinstance(doc, list):
        return [filled(d, form) for d in doc]
    if isinstance(doc, dict):
        return {k: filled(d, form) for k, d in doc.items()}
    return doc


def match(actual: Any, expected: Any, log: list[Any]) -> bool:
    if isinstance(expected, Hole):
        return any(kind == "to" and r is actual and n == expected.n for kind, n, r in log)
    if isinstance(expected, Bag):
        if type(actual) is not list or len(actual) != len(expected.items):
            return False
        rest = list(expected.items)
        for a in actual:
            for i, e in enumerate(rest):
                if match(a, e, log):
                    del rest[i]
                    break
            else:
                return False
        return True
    if type(actual) is not type(expected):
        return False
    if isinstance(expected, list):
        return len(actual) == len(expected) and all(match(a, e, log) for a, e in zip(actual, expected))
    if isinstance(expected, dict):
        return actual.keys() == expected.keys() and all(match(actual[k], e, log) for k, e in expected.items())
    return bool(actual == expected)


def placed(x: Shape) -> Iterator[Optional[Shape]]:
    "Every position within up to two containers."
    yield x
    for c in CONTAINERS.values():
        yield c(x)
    for c1, c2 in itertools.product(CONTAINERS.values(), repeat=2):
        inner = c2(x)
        yield c1(inner) if inner is not None else None


def placed3(x: Shape) -> Iterator[Optional[Shape]]:
    for c1, c2, c3 in itertools.product(CONTAINERS.values(), repeat=3):
        i3 = c3(x)
        i2 = c2(i3) if i3 is not None else None
        yield c1(i2) if i2 is not None else None


def probes() -> list[ProbeS]:
    out = [ProbeS(k, f, r) for k in KINDS for f in FORMS for r in RESULTS]
    # a member of an enumeration is unique, hence a new one cannot be made
    return [p for p in out if not (p.kind == "enum" and p.result == "cached")]


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["probe", i] for i in range(len(probes()))]
    out += [["fail", k] for k in KINDS]
    out += [["single", k] for k in KINDS]
    if tier == "thorough":
        out += [["deep", k, part] for k in ("dataclass", "plain", "namedtuple") for part in range(8)]
    return out


class Checker:
    def __init__(self, shape: Shape, probe: ProbeS, ctx: Any) -> None:
        self.shape = shape
        self.probe = probe
        self.ctx = ctx
        self.world = World(shape)

    def bad(self, what: str, **more: Any) -> None:
        self.ctx.violation(what, type=self.shape.name[:300], probe=self.probe.name, source=self.world.source[-900:], **more)

    def reset(self) -> Any:
        m = self.world.module
        m.LOG.clear()
        m.CALLS.clear()
        m.CACHE.clear()
        return m

    def counts(self, kind: str, expected: Any) -> bool:
        m = self.world.module
        calls = Counter(n for k, n, _ in m.LOG if k == kind)
        wrong = [k for k, _, _ in m.LOG if k != kind]
        return not wrong and calls == Counter(holes(expected)) and m.CALLS == [kind] * len(m.LOG)

    def write(self, payload: Any) -> None:
        ctx, shape, world = self.ctx, self.shape, self.world
        expected = shape.enc(payload)
        ctx.state(shape.name[:300], "write", repr(payload))
        for way in ("typed", "dynamic"):
            obj = world.py(payload)
            m = self.reset()
            try:
                doc = create_serializer(world.type, m).generate(obj) if way == "typed" else object_to_json(obj)
            except Exception as ex:
                self.bad(f"{way} serialization fails with {type(ex).__name__}: {ex}", payload=repr(payload))
                return
            ctx.step()
            if not match(doc, expected, m.LOG):
                self.bad(f"{way} serialization does not use the result of the hook", payload=repr(payload), expected=repr(expected), doc=repr(doc))
                return
            if not self.counts("to", expected):
                self.bad(f"{way} serialization: number of calls", payload=repr(payload), expected=repr(expected), log=repr(m.LOG))
                return
        ctx.trace()
        ctx.outcome("written")

    def read(self, payload: Any) -> None:
        ctx, shape, world = self.ctx, self.shape, self.world
        expected = shape.enc(payload)
        doc = filled(expected, self.probe.form)
        if "union[dict" in shape.name and has_empty(doc):
            return  # the first member of the union accepts the empty object
        ctx.state(shape.name[:300], "read", repr(payload))
        m = self.reset()
        try:
            obj = json_to_generic(world.type, doc, context=m)
        except Exception as ex:
            self.bad(f"deserialization fails with {type(ex).__name__}: {ex}", document=repr(doc))
            return
        ctx.step()
        if not shape.same(obj, payload, world):
            self.bad("deserialization does not use the result of the hook", document=repr(doc), result=repr(obj))
            return
        if not self.counts("from", expected):
            self.bad("deserialization: number of calls", document=repr(doc), log=repr(m.LOG))
            return
        ctx.trace()
        ctx.outcome("read")


def run(task: Any, ctx: Any) -> None:
    if task[0] in ("probe", "deep"):
        if task[0] == "probe":
            p = probes()[task[1]]
            shapes = ordered(placed(p))
        else:
            p = ProbeS(task[1], "obj", "new")
            shapes = ordered(placed3(p))
            shapes = [s for i, s in enumerate(shapes) if i % 8 == task[2]]
        for shape in shapes:
            c = Checker(shape, p, ctx)
            vals = shape.values()
            for payload in vals[:6] + vals[6:][-2:]:
                c.write(payload)
                if p.form != "none":  # a hook cannot tell which object it is
                    c.read(payload)
            c.world.close()
        ctx.sample({"type": shape.name, "payload": repr(payload)})
    elif task[0] == "fail":
        # an exception that a hook raises is passed on, unless a union tries its next member
        p = ProbeS(task[1], "obj", "new")
        for shape in ordered(placed(p)):
            if "union[" in shape.name or "opt[" in shape.name:
                continue
            c = Checker(shape, p, ctx)
            for payload in shape.values():
                expected = shape.enc(payload)
                if not holes(expected):
                    continue
                for name, text in FAIL.items():
                    m = c.reset()
                    failure = eval(text, vars(m))
                    for way in ("to", "from"):
                        obj = c.world.py(payload)
                        ctx.state(shape.name, name, way, repr(payload))
                        ctx.step()
                        m.FAIL.append(failure)
                        try:
                            if way == "to":
                                object_to_json(obj)
                            else:
                                json_to_generic(c.world.type, filled(expected, p.form), context=m)
                            c.bad("exception raised by a hook is ignored", payload=repr(payload), exception=text)
                        except Exception as ex:
                            if type(ex) is not type(failure):
                                c.bad(f"exception raised by a hook turns into {type(ex).__name__}", exception=text)
                        finally:
                            m.FAIL.clear()
                        ctx.trace()
                        ctx.outcome("failure passed on")
            c.world.close()
    else:
        # classes that define only one of the hooks use the general rules for the other direction
        for which in ("to", "from"):
            p = ProbeS(task[1], "obj", "new", which)
            for shape in ordered(placed(p)):
                c = Checker(shape, p, ctx)
                for payload in shape.values()[:6]:
                    if which == "to":
                        c.write(payload)
                    else:
                        c.read(payload)
                c.world.close()
