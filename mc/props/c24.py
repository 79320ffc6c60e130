"""
C24: docstrings are checked against the declaration they document.

All combinations of declared and documented names, for data classes (with inherited members) and functions, with documented
return values and exceptions, in strict and non-strict mode. The reference compares sets of names.
"""

from __future__ import annotations

import inspect
import itertools
from typing import Any, Iterable, Optional

from world import drop_module, evaluate, new_module

from strong_typing.docstring import Docstring, check_dataclass_docstring, check_docstring, check_function_docstring, parse_text, parse_type

LEVEL = "model_checking"
BOUNDS = {
    "quick": "data classes: all assignments of 4 names to own members, inherited members (2 levels, 3 kinds of bases, in one, two or three modules) or none x all "
    "subsets of 5 documented names x 3 ways to write annotations; all ways in which 3 members may be declared anew in one to 3 of 3 classes; all ways to assign 3 members to a class and 3 base classes side by side, with or without a common base class; functions: all lists of up to 3 parameters in 9 forms x all "
    "subsets of documented names x 4 return annotations x documented return value x 5 kinds of functions; all subsets of 8 "
    "exceptions; up to 100 members, parameters and exceptions; strict and non-strict",
    "thorough": "as quick, 5 names of members, lists of 4 parameters",
}

TYPES = ["int", "Optional[str]", "list[Other]", "Annotated[float, 'note']", "dict[str, Union[int, str]]"]
PRELUDE = (
    "import functools\nfrom json import JSONDecodeError\nclass Custom(Exception):\n    pass\nclass Derived(Custom, ValueError):\n    pass\n"
    "class Other:\n    pass\nAlias = Custom\nnot_exception = 5\nclass Stop(BaseException):\n    pass\n"
)
RAISES = {
    "ValueError": True,
    "Custom": True,
    "Derived": True,
    "JSONDecodeError": True,
    "Alias": True,
    "Stop": True,
    "KeyboardInterrupt": True,
    "Other": False,
    "Missing": False,
    "int": False,
    "not_exception": False,
    "enum.Custom": False,
}


def documentation(params: Iterable[str], returns: bool = False, raises: Iterable[str] = ()) -> str:
    lines = ["Short.", ""]
    lines += [f":param {p}: About {p}." for p in params]
    if returns:
        lines.append(":returns: Result.")
    lines += [f":raises {r}: If {r}." for r in raises]
    return "\n".join(lines)


class Case:
    "One declaration with one docstring."

    def __init__(self, ctx: Any, typ: Any, **case: Any) -> None:
        self.ctx = ctx
        self.typ = typ
        self.case = case

    def bad(self, what: str, **more: Any) -> None:
        self.ctx.violation(what, **self.case, **more)

    def parse(self, valid: bool) -> Optional[Docstring]:
        ctx = self.ctx
        ctx.step()
        ctx.trace()
        try:
            d = parse_type(self.typ)
        except TypeError as ex:
            if valid:
                self.bad(f"valid docstring refused: {ex}")
            ctx.outcome("refused")
            return None
        except Exception as ex:
            self.bad(f"parsing fails with {type(ex).__name__}: {ex}")
            return None
        if not valid:
            self.bad("docstring accepted that does not match the declaration")
            return None
        ctx.outcome("accepted")
        return d

    def check(self, docstring: Docstring, strict: Optional[bool], valid: bool) -> None:
        ctx = self.ctx
        ctx.step()
        ctx.trace()
        try:
            if strict is None:
                # the functions for classes and functions decide alike
                direct = check_dataclass_docstring if isinstance(self.typ, type) else check_function_docstring
                try:
                    check_docstring(self.typ, docstring)
                except TypeError:
                    try:
                        direct(self.typ, docstring)
                    except TypeError:
                        raise
                    self.bad("check for the kind of the item accepts what the check refuses")
                    raise
                direct(self.typ, docstring)
            else:
                check_docstring(self.typ, docstring, strict=strict)
        except TypeError as ex:
            if valid:
                self.bad(f"check refuses a valid docstring: {ex}", strict=strict)
            ctx.outcome("strict: refused" if strict else "refused")
            return
        except Exception as ex:
            self.bad(f"check fails with {type(ex).__name__}: {ex}", strict=strict)
            return
        if not valid:
            self.bad("check accepts docstring that does not match the declaration", strict=strict)
        ctx.outcome("strict: accepted" if strict else "accepted")

    def types(self, entries: dict[str, Any], attribute: str, expected: dict[str, Any]) -> None:
        if list(entries) != list(expected):
            self.bad("other entries", entries=list(entries), expected=list(expected))
            return
        for name, entry in entries.items():
            found = getattr(entry, attribute)
            if found is not expected[name] and found != expected[name]:
                self.bad(f"{attribute} of `{name}` is not as declared", found=repr(found), expected=repr(expected[name]))


# ---------------------------------------------------------------------------------------------------------------------
# data classes

HEAD = {"dataclass": "@dataclass\n", "frozen": "@dataclass(frozen=True)\n", "slots": "@dataclass(slots=True)\n"}


def written(annotation: str, way: str) -> str:
    return repr(annotation) if way == "string" else annotation


def member_lines(names: list[str], order: str, way: str) -> str:
    return "".join(f"    {n}: {written(TYPES[order.index(n)], way)}\n" for n in names) or "    pass\n"


def classes(way: str, base_kind: str, part: int, apart: int, ctx: Any) -> None:
    names = "abcde" if ctx.thorough else "abcd"
    # 0: not declared, 1: own member, 2: member of base, 3: member of the base of the base
    for i, roles in enumerate(itertools.product(range(4), repeat=len(names))):
        if i % 4 != part:
            continue
        own, base, ground = ([n for n, r in zip(names, roles) if r == k] for k in (1, 2, 3))
        if base_kind == "none" and (base or ground):
            continue
        if base_kind == "plain":
            head_base, kind = "class Ground:\n{}class Base(Ground):\n{}", "dataclass"
        else:
            kind = "dataclass" if base_kind == "none" else base_kind
            head_base = HEAD[kind] + "class Ground:\n{}" + HEAD[kind] + "class Base(Ground):\n{}"
        source = PRELUDE + head_base.format(member_lines(ground, names, way), member_lines(base, names, way))
        tail = HEAD[kind] + ("class Top(Base):\n" if base_kind != "none" else "class Top:\n") + member_lines(own, names, way)
        modules = []
        if apart == 0:
            m = new_module(source + tail, future=way == "future")
        elif apart == 1:
            # base classes are declared in another module
            modules = [new_module(source, future=way == "future")]
            m = new_module(PRELUDE + tail, future=way == "future", extra={"Base": modules[0].Base})
        else:
            first, second = source[len(PRELUDE) :].split("class Base", 1)
            head = HEAD.get(kind, "") if base_kind != "plain" else ""
            modules = [new_module(PRELUDE + (first[: -len(head)] if head else first), future=way == "future")]
            modules.append(new_module(PRELUDE + head + "class Base" + second, future=way == "future", extra={"Ground": modules[0].Ground}))
            m = new_module(PRELUDE + tail, future=way == "future", extra={"Base": modules[1].Base})
        typ = m.Top
        expected = {n: evaluate(m, TYPES[names.index(n)]) for n in own}
        undocumented = Case(ctx, typ, source=tail, bases=source[len(PRELUDE) :])
        if undocumented.parse(True) != Docstring():
            undocumented.bad("docstring of a class without documentation is not empty")
        undocumented.check(Docstring(), True, not own)
        for k in range(len(names) + 2):
            for documented in itertools.combinations([*names, "zz"], k):
                for order in (documented, documented[::-1]) if k > 1 and i % 3 == 0 else (documented,):
                    typ.__doc__ = documentation(order)
                    case = Case(ctx, typ, source=tail, bases=source[len(PRELUDE) :], doc=typ.__doc__)
                    ctx.count_states(1)
                    valid = set(documented) <= set(own)
                    d = case.parse(valid)
                    if d is not None:
                        case.types(d.params, "param_type", {n: expected[n] for n in order})
                    parsed = parse_text(typ.__doc__)
                    case.check(parsed, None, valid)
                    case.check(parsed, False, valid)
                    case.check(parsed, True, set(documented) == set(own))
        for x in [m, *modules]:
            drop_module(x)


def redeclared(way: str, kind: str, ctx: Any) -> None:
    "Members that a class declares anew are own members of the class; whether the strict check requires them is left open."
    names = "abc"
    base_kind = "" if kind == "plain" else HEAD[kind]
    for roles in itertools.product(("-", "T", "B", "G", "TB", "TG", "BG", "TBG"), repeat=len(names)):
        if not any(len(r) > 1 for r in roles):
            continue
        lists = {c: [n for n, r in zip(names, roles) if c in r] for c in "TBG"}
        # the type in a base class is another one
        base_lines, ground_lines = (
            "".join(f"    {n}: {written(TYPES[(names.index(n) + k) % 5], way)}\n" for n in lists[c]) or "    pass\n" for k, c in ((1, "B"), (2, "G"))
        )
        source = f"{base_kind}class Ground:\n{ground_lines}{base_kind}class Base(Ground):\n{base_lines}"
        source += f"{HEAD['dataclass'] if kind == 'plain' else base_kind}class Top(Base):\n{member_lines(lists['T'], names, way)}"
        m = new_module(PRELUDE + source, future=way == "future")
        try:
            own = set(lists["T"])
            new = {n for n in own if roles[names.index(n)] == "T"}
            for k in range(len(names) + 1):
                for documented in itertools.permutations(names, k):
                    m.Top.__doc__ = documentation(documented)
                    case = Case(ctx, m.Top, source=source, doc=m.Top.__doc__)
                    ctx.count_states(1)
                    valid = set(documented) <= own
                    d = case.parse(valid)
                    if d is not None:
                        case.types(d.params, "param_type", {n: evaluate(m, TYPES[names.index(n)]) for n in documented})
                    parsed = parse_text(m.Top.__doc__)
                    case.check(parsed, None, valid)
                    case.check(parsed, False, valid)
                    if not valid or not new <= set(documented) or set(documented) == own:
                        case.check(parsed, True, set(documented) == own)
        finally:
            drop_module(m)


def siblings(way: str, kind: str, diamond: bool, ctx: Any) -> None:
    "Members of several base classes side by side."
    names = "abc"
    head = "" if kind == "plain" else HEAD[kind]
    for roles in itertools.product("TABCG-", repeat=len(names)):
        lists = {c: [n for n, r in zip(names, roles) if c == r] for c in "TABCG"}
        if lists["G"] and not diamond:
            continue
        source = head + "class G:\n" + member_lines(lists["G"], names, way)
        source += "".join(f"{head}class {c}{'(G)' if diamond else ''}:\n" + member_lines(lists[c], names, way) for c in "ABC")
        source += HEAD["dataclass"] if kind == "plain" else head
        source += "class Top(A, B, C):\n" + member_lines(lists["T"], names, way)
        m = new_module(PRELUDE + source, future=way == "future")
        try:
            for k in range(len(names) + 1):
                for documented in itertools.combinations(names, k):
                    m.Top.__doc__ = documentation(documented)
                    case = Case(ctx, m.Top, source=source, doc=m.Top.__doc__)
                    ctx.count_states(1)
                    valid = set(documented) <= set(lists["T"])
                    d = case.parse(valid)
                    if d is not None:
                        case.types(d.params, "param_type", {n: evaluate(m, TYPES[names.index(n)]) for n in documented})
                    parsed = parse_text(m.Top.__doc__)
                    case.check(parsed, False, valid)
                    case.check(parsed, True, set(documented) == set(lists["T"]))
        finally:
            drop_module(m)


# ---------------------------------------------------------------------------------------------------------------------
# functions

# form -> (declaration, rank, annotated)
PARAMS: dict[str, tuple[str, int, bool]] = {
    "positional": ("{n}, /", 0, False),
    "bare": ("{n}", 1, False),
    "typed": ("{n}: {t}", 1, True),
    "default": ("{n}: {t} = None", 2, True),
    "var": ("*{n}: {t}", 3, True),
    "only": ("*, {n}: {t}", 3, True),
    "keyword": ("{n}: {t}", 4, True),
    "keyword default": ("{n}: {t} = None", 4, True),
    "rest": ("**{n}: {t}", 5, True),
}
RETURNS = {"none": "", "int": " -> int", "list": " -> list[Other]", "None": " -> None"}
FUNCTIONS = {
    "function": ("{prefix}def fn({params}){returns}:\n    pass\n", "fn"),
    "method": ("class C:\n    def fn({self}{params}){returns}:\n        pass\n", "C.fn"),
    "static": ("class C:\n    @staticmethod\n    def fn({params}){returns}:\n        pass\n", "C.fn"),
    "async": ("async def fn({params}){returns}:\n    pass\n", "fn"),
    "wrapped": ("def inner({params}){returns}:\n    pass\n@functools.wraps(inner)\ndef fn(*args, **kwargs):\n    pass\n", "fn"),
}


def signatures(size: int) -> list[tuple[str, ...]]:
    "Lists of forms of parameters that Python permits."
    out = []
    for n in range(size + 1):
        for forms in itertools.product(PARAMS, repeat=n):
            ranks = [PARAMS[f][1] for f in forms]
            if ranks != sorted(ranks) or any(forms.count(f) > 1 for f in ("positional", "var", "only", "rest")):
                continue
            if "var" in forms and "only" in forms:
                continue
            if any(f.startswith("keyword") for f in forms) and not ("var" in forms or "only" in forms):
                continue
            out.append(forms)
    return out


def functions(kind: str, part: int, ctx: Any) -> None:
    names = "abcd"
    template, expression = FUNCTIONS[kind]
    for i, forms in enumerate(signatures(4 if ctx.thorough else 3)):
        if i % 4 != part:
            continue
        for j, (ret, ret_text) in enumerate(RETURNS.items()):
            way = ("plain", "string", "future")[(i + j) % 3]
            params = []
            for n, f in zip(names, forms):
                params.append(PARAMS[f][0].format(n=n, t=written(TYPES[names.index(n)], way)))
            text = ret_text if way != "string" or not ret_text else f" -> {ret_text[4:]!r}"
            source = template.format(prefix="", params=", ".join(params), returns=text, self="self, " if params else "self")
            m = new_module(PRELUDE + source, future=way == "future")
            fn = evaluate(m, expression)
            own = names[: len(forms)]
            expected = {
                n: evaluate(m, TYPES[names.index(n)]) if PARAMS[f][2] else inspect.Signature.empty for n, f in zip(names, forms)
            }
            declared = {"none": inspect.Signature.empty, "int": int, "list": list[m.Other], "None": None}[ret]
            candidates = [*own, "zz"]
            for k in range(len(candidates) + 1):
                for documented in itertools.combinations(candidates, k):
                    for returns in (False, True):
                        fn.__doc__ = documentation(documented, returns)
                        case = Case(ctx, fn, source=source, doc=fn.__doc__)
                        ctx.count_states(1)
                        valid = set(documented) <= set(own) and not (returns and ret == "none")
                        d = case.parse(valid)
                        if d is not None:
                            case.types(d.params, "param_type", {n: expected[n] for n in documented})
                            if returns != (d.returns is not None):
                                case.bad("return value is missing or unexpected")
                            elif d.returns is not None and d.returns.return_type != declared:
                                case.bad("return type is not as declared", found=repr(d.returns.return_type))
                        parsed = parse_text(fn.__doc__)
                        case.check(parsed, None, valid)
                        case.check(parsed, False, valid)
                        if ret == "None" and not returns:
                            continue  # whether a function that returns nothing has to document it
                        case.check(parsed, True, valid and set(documented) == set(own) and (returns or ret == "none"))
            drop_module(m)


# ---------------------------------------------------------------------------------------------------------------------
# exceptions


def exceptions(kind: str, ctx: Any) -> None:
    sources = {
        "function": ("def fn(a: int) -> int:\n    pass\n", "fn"),
        "method": ("class C:\n    def fn(self, a: int) -> int:\n        pass\n", "C.fn"),
        "dataclass": ("@dataclass\nclass C:\n    a: int\n", "C"),
        "plain": ("class C:\n    a: int\n", "C"),
    }
    source, expression = sources[kind]
    m = new_module(PRELUDE + source)
    other = new_module("class Custom(Exception):\n    pass\nclass Missing(Exception):\n    pass\n")
    typ = evaluate(m, expression)
    for k in range(4 if not ctx.thorough else 6):
        for chosen in itertools.permutations(RAISES, k) if k < 3 else itertools.combinations(RAISES, k):
            for params in ([], ["a"]):
                typ.__doc__ = documentation(params, False, chosen)
                case = Case(ctx, typ, source=source, doc=typ.__doc__)
                ctx.count_states(1)
                d = case.parse(all(RAISES[r] for r in chosen))
                if d is not None:
                    import builtins

                    expected = {r: getattr(m, r, None) or getattr(builtins, r) for r in chosen}
                    case.types(d.raises, "raise_type", expected)
    # a class that is no data class has no members that can be checked
    if kind == "plain":
        for docstring in (Docstring(), parse_text(documentation(["a"]))):
            try:
                check_dataclass_docstring(typ, docstring)
            except TypeError:
                ctx.outcome("no data class")
            else:
                ctx.violation("check for data classes accepts a class that is none", source=source)
    # an exception of the module hides a built-in exception of the same name
    m2 = new_module("class ValueError(Exception):\n    pass\n" + source)
    typ = evaluate(m2, expression)
    typ.__doc__ = documentation([], False, ["ValueError", "KeyError"])
    case = Case(ctx, typ, source=m2.__source__, doc=typ.__doc__)
    d = case.parse(True)
    if d is not None:
        case.types(d.raises, "raise_type", {"ValueError": m2.ValueError, "KeyError": KeyError})
    for x in (m, m2, other):
        drop_module(x)


WIDE = [4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 100]


def wide(part: int, ctx: Any) -> None:
    "Many members, parameters, exceptions, levels of inheritance."
    for n in WIDE[part::4]:
        names = [f"m{i}" for i in range(n)]
        types = [TYPES[i % len(TYPES)] for i in range(n)]
        source = "@dataclass\nclass Top:\n" + "".join(f"    {a}: {t}\n" for a, t in zip(names, types))
        source += "def fn(" + ", ".join(f"{a}: {t}" for a, t in zip(names, types)) + ") -> int:\n    pass\n"
        source += "def bare(" + ", ".join(names) + "):\n    pass\n"
        levels = min(n, 20)
        source += "@dataclass\nclass L0:\n    b0: int\n"
        source += "".join(f"@dataclass\nclass L{i}(L{i - 1}):\n    b{i}: {types[i]}\n" for i in range(1, levels))
        source += "".join(f"class X{i}(Exception):\n    pass\n" for i in range(n))
        m = new_module(PRELUDE + source)
        declared = {a: evaluate(m, t) for a, t in zip(names, types)}
        at = sorted({0, 1, n // 2, n - 2, n - 1})
        for form in ("Top", "fn", "bare"):
            typ = getattr(m, form)
            for returns in (False, True):
                for missing in [None, *at]:
                    for extra in (None, 0, n - 1):
                        for order in (1, -1):
                            documented = [a for i, a in enumerate(names) if i != missing][::order]
                            if extra is not None:
                                documented.insert(extra, "zz")
                            typ.__doc__ = documentation(documented, returns)
                            case = Case(ctx, typ, form=form, members=n, missing=missing, extra=extra)
                            ctx.count_states(1)
                            valid = extra is None and (not returns or form == "fn")
                            if form == "Top" and returns:
                                continue  # a class has no return value
                            d = case.parse(valid)
                            if d is not None and form != "bare":
                                case.types(d.params, "param_type", {a: declared[a] for a in documented})
                            parsed = parse_text(typ.__doc__)
                            case.check(parsed, False, valid)
                            if form != "bare":
                                complete = valid and missing is None and (form == "Top" or returns)
                                case.check(parsed, True, complete)
        typ = getattr(m, f"L{levels - 1}")
        for other in range(levels):
            typ.__doc__ = documentation([f"b{levels - 1}", f"b{other}"] if other != levels - 1 else [f"b{other}"])
            case = Case(ctx, typ, levels=levels, inherited=other)
            ctx.count_states(1)
            case.parse(other == levels - 1)
            case.check(parse_text(typ.__doc__), False, other == levels - 1)
            case.check(parse_text(typ.__doc__), True, other == levels - 1)
        beside = min(n, 40)
        source = "".join(f"@dataclass\nclass B{i}:\n    b{i}: int\n" for i in range(beside))
        source += f"@dataclass\nclass Sum({', '.join(f'B{i}' for i in range(beside))}):\n    own: int\n"
        m3 = new_module(PRELUDE + source)
        for other in range(beside):
            m3.Sum.__doc__ = documentation(["own", f"b{other}"])
            case = Case(ctx, m3.Sum, bases=beside, inherited=other)
            ctx.count_states(1)
            case.parse(False)
            case.check(parse_text(m3.Sum.__doc__), False, False)
            case.check(parse_text(m3.Sum.__doc__), True, False)
        drop_module(m3)
        for wrong in [None, *at]:
            raised = [f"X{i}" if i != wrong else "Missing" for i in range(n)]
            m.fn.__doc__ = documentation([], False, raised)
            case = Case(ctx, m.fn, exceptions=n, wrong=wrong)
            ctx.count_states(1)
            d = case.parse(wrong is None)
            if d is not None:
                case.types(d.raises, "raise_type", {r: getattr(m, r) for r in raised})
        drop_module(m)


def tasks(tier: str) -> list[Any]:
    out: list[Any] = []
    for way in ("plain", "string", "future"):
        for base in ("none", "dataclass", "frozen", "plain"):
            out += [["class", way, base, i, apart] for i in range(4) for apart in (0, 1, 2) if apart == 0 or base != "none"]
    out += [["redeclared", way, kind] for way in ("plain", "string", "future") for kind in ("dataclass", "frozen", "slots", "plain")]
    out += [["siblings", way, kind, diamond] for way in ("plain", "future") for kind in ("dataclass", "frozen", "plain") for diamond in (False, True)]
    out += [["function", kind, i] for kind in FUNCTIONS for i in range(4)]
    out += [["wide", i] for i in range(4)]
    return out + [["exception", kind] for kind in ("function", "method", "dataclass", "plain")]


def run(task: Any, ctx: Any) -> None:
    if task[0] == "class":
        classes(task[1], task[2], task[3], task[4], ctx)
    elif task[0] == "redeclared":
        redeclared(task[1], task[2], ctx)
    elif task[0] == "siblings":
        siblings(task[1], task[2], task[3], ctx)
    elif task[0] == "wide":
        wide(task[1], ctx)
    elif task[0] == "function":
        functions(task[1], task[2], ctx)
    else:
        exceptions(task[1], ctx)
    ctx.sample({"task": task})
