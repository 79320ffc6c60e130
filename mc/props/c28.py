"""
C28: recursive predicate checks visit every nested member.

Objects are built together with the list of their nested members (type and value); all object shapes within the bounds are
enumerated, and a predicate that fails at one nested position is tried for every position in turn.
"""

from __future__ import annotations

import itertools
from typing import Any

from world import drop_module, evaluate, new_module

from strong_typing.inspection import RecursiveChecker, check_recursive

from .c25 import clear, same

LEVEL = "model_checking"
BOUNDS = {
    "quick": "22 simple member types, 10 nested classes, 7 containers, annotations; member types nested to depth 2, containers of 0 to 3 "
    "items, 8 kinds of classes (one whose members are declared with the options of `field`), plain and postponed annotations, classes with up to 3 members; containers of up to 50 items, classes with up to 50 members, "
    "members nested up to 18 deep; a predicate failing at each position in "
    "turn, by type, by value and by both; all combinations of predicates",
    "thorough": "as quick, member types nested to depth 3",
}

SOURCE = """
import collections
class E(enum.Enum):
    A = "a"
    B = "b"
    C = "c"
class F(enum.IntEnum):
    ONE = 1
    TWO = 2
@dataclass
class DC:
    da: int
    db: str
@dataclass(frozen=True)
class DF:
    fa: int
    fb: Annotated[str, MaxLength(9)]
@dataclass(slots=True)
class DS:
    sa: float
@dataclass
class DI(DC):
    dc: bytes
@dataclass
class DV:
    va: list[int]
    constant: typing.ClassVar[int] = 5
    vb: Optional[str] = None
@dataclass
class DE:
    pass
class NT(NamedTuple):
    na: int
    nb: str
class PK:
    pa: int
    pb: list[str]
    def __init__(self, pa, pb):
        self.pa = pa
        self.pb = pb
class PI(PK):
    pc: float
    def __init__(self, pa, pb, pc):
        super().__init__(pa, pb)
        self.pc = pc
@dataclass
class TR:
    label: str
    children: list["TR"]
"""

# type: value with a number
SIMPLE = {
    "int": "{}",
    "str": "'s{}'",
    "float": "{}.5",
    "bytes": "b'{}'",
    "bool": "bool({} % 2)",
    "type(None)": "None",
    "Any": "'any{}'",
    "datetime.datetime": "datetime.datetime(2020, 1, 1, 0, 0, 0, {})",
    "datetime.date": "datetime.date(1000 + {}, 1, 1)",
    "datetime.time": "datetime.time(0, 0, 0, {})",
    "datetime.timedelta": "datetime.timedelta(seconds={})",
    "decimal.Decimal": "decimal.Decimal({})",
    "uuid.UUID": "uuid.UUID(int={})",
    "ipaddress.IPv4Address": "ipaddress.IPv4Address({})",
    "ipaddress.IPv6Address": "ipaddress.IPv6Address({})",
    "E": "list(E)[{} % 3]",
    "F": "list(F)[{} % 2]",
    "Optional[int]": "[None, {}][{} % 2]",
    "Union[int, str]": "[{}, 'u{}'][{} % 2]",
    "Union[list[int], DC, None]": "[[{}], DC({}, 'x'), None][{} % 3]",
    "Literal['a', 'b']": "'ab'[{} % 2]",
    "int | None": "[None, {}][{} % 2]",
}
CLASSES = {
    "DC": [("int",), ("str",)],
    "DF": [("int",), ("str",)],
    "DS": [("float",)],
    "DI": [("int",), ("str",), ("bytes",)],
    "DV": [("list", ("int",)), ("Optional[str]",)],
    "DE": [],
    "NT": [("int",), ("str",)],
    "PK": [("int",), ("list", ("str",))],
    "PI": [("int",), ("list", ("str",)), ("float",)],
    "TR": [("str",), ("list", ("TR",))],
}
SIMPLE_EXTRA = {"Optional[str]": "[None, 'o{}'][{} % 2]"}
CONTAINERS = ["list", "dict", "dict int", "set", "tuple...", "pair", "ann"]
HASHABLE = set(SIMPLE) - {"Union[list[int], DC, None]"} | {"DF", "NT", "tuple...", "pair", "ann"}
KINDS = {
    "dataclass": ("@dataclass\nclass {name}:\n{body}\n", False),
    "frozen": ("@dataclass(frozen=True)\nclass {name}:\n{body}\n", False),
    "slots": ("@dataclass(slots=True)\nclass {name}:\n{body}\n", False),
    "derived": ("@dataclass\nclass {name}Base:\n{first}\n@dataclass\nclass {name}({name}Base):\n{rest}\n", False),
    "options": ("@dataclass\nclass {name}:\n{body}\n{init}", True),
    "namedtuple": ("class {name}(NamedTuple):\n{body}\n", False),
    "plain": ("class {name}:\n{body}\n{init}", True),
    "plain derived": ("class {name}Base:\n{first}\nclass {name}({name}Base):\n{rest}\n{init}", True),
}
# members of a data class that differ in how they take part in what is generated for the class
OPTIONS = [
    " = field(init=False)",
    " = field(repr=False, compare=False, default=None)",
    " = field(init=False, default=None)",
    " = field(default_factory=list)",
    " = field(kw_only=True)",
    " = field(hash=False, default=None, metadata={'key': 1})",
]

Node = Any


def text(node: Node) -> str:
    head = node[0]
    if head == "list":
        return f"list[{text(node[1])}]"
    if head == "dict":
        return f"dict[str, {text(node[1])}]"
    if head == "dict int":
        return f"dict[int, {text(node[1])}]"
    if head == "set":
        return f"set[{text(node[1])}]"
    if head == "tuple...":
        return f"tuple[{text(node[1])}, ...]"
    if head == "pair":
        return f"tuple[{text(node[1])}, {text(node[2])}]"
    if head == "tuple":
        return f"tuple[{', '.join(text(n) for n in node[1:])}]"
    if head == "ann":
        return f"Annotated[{text(node[1])}, 'note']"
    return head


def hashable(node: Node) -> bool:
    return node[0] in HASHABLE and all(hashable(n) for n in node[1:])


def key_of(i: int) -> str:
    return ("''", "'k1'", "'0'", "'_'", "' '")[i] if i < 5 else f"'k{i}'"


class Build:
    "Writes an expression for a value, and collects its nested members."

    def __init__(self) -> None:
        self.number = -1
        self.members: list[tuple[str, str]] = []

    def value(self, node: Node, sizes: tuple[int, ...], depth: int = 0) -> str:
        head = node[0]
        size = sizes[0] if sizes else 2
        rest = sizes[1:]
        if head == "list":
            return "[" + ", ".join(self.value(node[1], rest, depth) for _ in range(size)) + "]"
        if head == "dict":
            return "{" + ", ".join(f"{key_of(i)}: {self.value(node[1], rest, depth)}" for i in range(size)) + "}"
        if head == "dict int":
            return "{" + ", ".join(f"{i}: {self.value(node[1], rest, depth)}" for i in range(size)) + "}"
        if head == "set":
            return "{" + ", ".join(self.unique(node[1], rest, size)) + "}" if size else "set()"
        if head == "tuple...":
            return "(" + "".join(self.value(node[1], rest, depth) + ", " for _ in range(size)) + ")"
        if head == "pair":
            return f"({self.value(node[1], rest, depth)}, {self.value(node[2], rest, depth)})"
        if head == "tuple":
            return "(" + "".join(self.value(n, rest, depth) + ", " for n in node[1:]) + ")"
        if head == "ann":
            return self.value(node[1], sizes, depth)
        if head == "TR":
            label = self.value(("str",), ())
            children = [self.value(("TR",), (), depth + 1) for _ in range(2 - depth)]
            return f"TR({label}, [{', '.join(children)}])"
        if head in CLASSES:
            return f"{head}({', '.join(self.value(n, rest, depth) for n in CLASSES[head])})"
        self.number += 1
        pattern = SIMPLE.get(head) or SIMPLE_EXTRA[head]
        written = pattern.replace("{}", str(self.number))
        self.members.append((head, written))
        return written

    def unique(self, node: Node, sizes: tuple[int, ...], size: int) -> list[str]:
        "Items of a set that are not equal."

        items = []
        for i in range(size):
            if i and head_of(node) in ("bool", "type(None)", "E", "F", "Optional[int]", "int | None", "Literal['a', 'b']", "Union[int, str]"):
                break  # few values
            items.append(self.value(node, sizes))
        return items


def head_of(node: Node) -> str:
    while len(node) > 1:
        node = node[1]
    return node[0]


def nodes(depth: int) -> list[Node]:
    base: list[Node] = [(s,) for s in SIMPLE] + [(c,) for c in CLASSES]
    if depth == 0:
        return base
    inside = nodes(depth - 1) if depth < 3 else nodes(2)[::3]
    result = []
    for c in CONTAINERS:
        for n in inside:
            if c == "set" and not hashable(n):
                continue
            if c == "ann" and n[0] == "ann":
                continue
            if c == "pair":
                result.append((c, n, ("int",)))
                result.append((c, ("str",), n))
            else:
                result.append((c, n))
    return result


def declare(kind: str, name: str, types: list[str]) -> str:
    template, init = KINDS[kind]
    options = OPTIONS if kind == "options" else [""]
    lines = [f"    m{i}: {t}{options[i % len(options)]}\n" for i, t in enumerate(types)]
    args = ", ".join(f"m{i}" for i in range(len(types)))
    sets = "".join(f"        self.m{i} = m{i}\n" for i in range(len(types))) or "        pass\n"
    return template.format(
        name=name,
        body="".join(lines) or "    pass\n",
        first="".join(lines[:1]) or "    pass\n",
        rest="".join(lines[1:]) or "    pass\n",
        init=f"    def __init__(self{', ' + args if args else ''}):\n{sets}\n" if init else "",
    )


def explore(cases: list[tuple[str, list[Node], tuple[int, ...]]], future: bool, ctx: Any) -> None:
    "Cases are class kinds, types of members and sizes of containers."

    source = SOURCE
    names: dict[Any, str] = {}
    for kind, types, _ in cases:
        key = (kind, repr(types))
        if key not in names:
            names[key] = f"Root{len(names)}"
            source += declare(kind, names[key], [text(t) for t in types])
    clear()
    module = new_module(source, future=future)
    evaluated: dict[str, Any] = {}
    try:
        for kind, types, sizes in cases:
            name = names[kind, repr(types)]
            build = Build()
            value = f"{name}({', '.join(build.value(t, sizes) for t in types)})"
            obj = evaluate(module, value)
            members = []
            for t, v in build.members:
                if t not in evaluated:
                    evaluated[t] = evaluate(module, t)
                members.append((evaluated[t], evaluate(module, v)))
            case = dict(kind=kind, members=[text(t) for t in types], postponed=future, value=value)
            ctx.state(kind, case["members"], future, value)
            check(obj, members, case, ctx)
    finally:
        drop_module(module)


def alike(a: Any, b: Any) -> bool:
    return same(a[0], b[0]) and type(a[1]) is type(b[1]) and equal(a[1], b[1])


def equal(a: Any, b: Any) -> bool:
    return a == b


def check(obj: Any, members: list[Any], case: Any, ctx: Any) -> None:
    seen: list[Any] = []

    def ask(what: str, expected: bool, **predicates: Any) -> None:
        ctx.step()
        ctx.trace()
        try:
            found = check_recursive(obj, **predicates)
        except Exception as ex:
            ctx.violation(f"{what}: fails with {type(ex).__name__}: {ex}", **case)
            return
        if found is not expected:
            ctx.violation(f"{what}: gives {found}", **case)
        ctx.outcome("holds" if found else "fails")

    ask("predicate holds everywhere", True, pred=lambda t, v: seen.append((t, v)) or True)
    missing = list(members)
    for s in seen:
        at = next((i for i, m in enumerate(missing) if alike(s, m)), None)
        if at is None:
            ctx.violation("predicate is asked about something else", found=repr(s), **case)
            return
        del missing[at]
    if missing:
        ctx.violation("members are not visited", missing=repr(missing), **case)
        return
    ask("no predicate", True)
    ask("predicate fails everywhere", not members, pred=lambda t, v: False)
    for i, m in enumerate(members):
        ask(f"predicate fails at member {i}", False, pred=lambda t, v: not alike((t, v), m))
        ask(f"value predicate fails at member {i}", False, value_pred=lambda v: not (type(v) is type(m[1]) and v == m[1]))
        ask(
            f"type and value predicate fail at member {i}",
            False,
            type_pred=lambda t: same(t, m[0]),
            value_pred=lambda v: not (type(v) is type(m[1]) and v == m[1]),
        )
        # members of all other types are ignored
        ask(f"members other than those of the type of member {i}", True, type_pred=lambda t: same(t, m[0]), value_pred=lambda v: seen_with(v, m, members))
        others = [x for x in members if not same(x[0], m[0])]
        ask(f"members of other types than member {i}", not others, type_pred=lambda t: not same(t, m[0]), value_pred=lambda v: False)
        # values of other types are not looked at, of which the predicate may not be able to tell
        looked: list[Any] = []
        ask(f"values of the type of member {i}", True, type_pred=lambda t: same(t, m[0]), value_pred=lambda v: looked.append(v) or True)
        expected = [x[1] for x in members if same(x[0], m[0])]
        if len(looked) != len(expected) or any(not any(type(v) is type(e) and equal(v, e) for e in expected) for v in looked):
            ctx.violation(f"values of types other than that of member {i} are looked at", found=repr(looked), **case)
            return
    ask("no type is expected", True, type_pred=lambda t: False, value_pred=lambda v: False)
    ask("every type is expected", not members, type_pred=lambda t: True, value_pred=lambda v: False)


def seen_with(value: Any, member: Any, members: list[Any]) -> bool:
    "True if the value occurs with the type of a member."
    return any(same(t, member[0]) and type(v) is type(value) and v == value for t, v in members)


def combinations(ctx: Any) -> None:
    "Predicates that may be passed together."

    module = new_module(SOURCE)
    try:
        objects = [5, "s", None, 1.5, module.E.A, module.DC(1, "a"), module.NT(1, "a"), module.DE(), module.PK(1, ["x"])]
        for obj in objects:
            for answers in itertools.product((None, False, True), repeat=3):
                predicates: dict[str, Any] = {}
                pred, type_pred, value_pred = answers
                if pred is not None:
                    predicates["pred"] = lambda t, v, answer=pred: answer
                if type_pred is not None:
                    predicates["type_pred"] = lambda t, answer=type_pred: answer
                if value_pred is not None:
                    predicates["value_pred"] = lambda v, answer=value_pred: answer
                ctx.state(repr(type(obj)), answers)
                ctx.step()
                ctx.trace()
                refused = (pred is not None and len(predicates) > 1) or (type_pred is not None and value_pred is None)
                case = dict(object=obj, answers=answers)
                empty = isinstance(obj, module.DE)
                if pred is not None:
                    expected = pred
                elif type_pred is not None:
                    expected = not type_pred or bool(value_pred)
                else:
                    expected = value_pred is not False
                expected = expected or empty
                try:
                    found = check_recursive(obj, **predicates)
                except TypeError:
                    if not refused:
                        ctx.violation("predicates are refused", **case)
                    ctx.outcome("refused")
                    continue
                if refused:
                    ctx.violation("predicates are accepted that exclude each other", **case)
                elif found is not expected:
                    ctx.violation(f"answer is {found}", **case)
                ctx.outcome("answered")
    finally:
        drop_module(module)


def explicit(ctx: Any) -> None:
    "The checker applied to a type and a value, which must be an instance of the type."

    module = new_module(SOURCE)
    try:
        for node in nodes(0) + nodes(1) + nodes(2)[::4]:
            for sizes in ((0,), (1,), (3,)):
                build = Build()
                value = evaluate(module, build.value(node, sizes))
                members = [(evaluate(module, t), evaluate(module, v)) for t, v in build.members]
                typ = evaluate(module, text(node))
                ctx.state(text(node), sizes)
                ctx.step()
                ctx.trace()
                seen: list[Any] = []
                case = dict(type=text(node), value=value)
                try:
                    found = RecursiveChecker(lambda t, v: seen.append((t, v)) or True).check(typ, value)
                except Exception as ex:
                    ctx.violation(f"fails with {type(ex).__name__}: {ex}", **case)
                    continue
                if found is not True or len(seen) != len(members) or not all(any(alike(s, m) for s in seen) for m in members):
                    ctx.violation("members are not visited", found=repr(seen), expected=repr(members), **case)
                for i, m in enumerate(members):
                    ctx.step()
                    if RecursiveChecker(lambda t, v: not alike((t, v), m)).check(typ, value) is not False:
                        ctx.violation(f"failing member {i} goes unnoticed", **case)
                ctx.outcome("visited")
                # values of another form
                if node[0] in ("list", "dict", "set", "tuple...", "pair", *CLASSES, "E", "F"):
                    for other in (5, object(), None):
                        ctx.step()
                        try:
                            RecursiveChecker(lambda t, v: True).check(typ, other)
                            ctx.violation("object of another type is accepted", type=text(node), value=other)
                        except TypeError:
                            ctx.outcome("refused")
    finally:
        drop_module(module)


def tasks(tier: str) -> list[Any]:
    t: list[Any] = [["combinations"], ["explicit"]]
    depths = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)
    for kind in KINDS:
        for future in (False, True):
            for depth in depths:
                n = 1 if depth < 2 else 4 if depth == 2 else 16
                t += [["one", kind, future, depth, n, i] for i in range(n)]
            t += [["several", kind, future]]
            t += [["wide", kind, future]]
    return t


WIDE = [4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 24, 32, 33, 50]


def wide(kind: str) -> list[Any]:
    "Containers of many items, classes with many members, members that are nested deeply."
    cases: list[Any] = []
    varied: list[Node] = [("int",), ("str",), ("bytes",), ("list", ("float",)), ("DC",)]
    for n in WIDE:
        for item in [("int",), ("str",), ("datetime.date",)] if n < 20 else [("int",)]:
            for container in ("list", "dict", "set", "tuple..."):
                cases.append((kind, [(container, item), ("bool",)], (n,)))
            cases.append((kind, [("tuple", *(item,) * n)], ()))
        cases.append((kind, [("tuple", *(varied[i % 5] for i in range(n)))], (1,)))
        cases.append((kind, [varied[i % 5] for i in range(n)], (1,)))
        if n < 20:
            cases += [(kind, [("list", ("DC",))], (n,)), (kind, [("dict", ("NT",))], (n,)), (kind, [("list", ("pair", ("int",), ("str",)))], (n,))]
            deep: Node = ("int",)
            for i in range(n):
                deep = (("list", "dict", "tuple...", "ann")[i % 4], deep) if i % 5 != 4 else ("pair", deep, ("str",))
            cases.append((kind, [deep, ("bytes",)], (1,) * 99))
    return cases


def run(task: Any, ctx: Any) -> None:
    if task[0] == "combinations":
        combinations(ctx)
        return
    if task[0] == "explicit":
        explicit(ctx)
        return
    cases: list[Any] = []
    kind, future = task[1], task[2]
    if task[0] == "wide":
        cases = wide(kind)
    elif task[0] == "one":
        depth, n, i = task[3:]
        for node in nodes(depth)[i::n]:
            sizes = [(0,), (1,), (2,), (3,)] if depth == 1 else [(2,), (1, 3), (3, 0)] if depth >= 2 else [()]
            cases += [(kind, [node], s) for s in sizes]
    else:
        some: list[Node] = [("int",), ("str",), ("list", ("int",)), ("DC",), ("dict", ("NT",)), ("Optional[int]",), ("ann", ("PK",))]
        cases += [(kind, [], ())]
        for k in (2, 3):
            cases += [(kind, list(c), (1,)) for c in itertools.product(some, repeat=k)]
    for at in range(0, len(cases), 60):
        explore(cases[at : at + 60], future, ctx)
