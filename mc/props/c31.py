"""
C31: annotation classes and auxiliary types.

All sequences of annotations over an alphabet (on several base types) are looked up as auxiliary types and compared with a
table; all declarations of annotation classes within bounds are made with `typeannotation` and their objects compared, hashed,
ordered and printed against a reference model.
"""

from __future__ import annotations

import dataclasses
import itertools
import operator
import typing
from typing import Annotated, Any, Optional

from world import drop_module, new_module

from strong_typing import auxiliary as aux
from strong_typing.inspection import get_annotation, unwrap_annotated_type
from strong_typing.name import python_type_to_str
from strong_typing.schema import classdef_to_schema

LEVEL = "model_checking"
LENGTH = {"quick": 4, "thorough": 5}
BOUNDS = {
    "quick": "10 auxiliary types; all sequences of up to 4 annotations over an alphabet of 14 on 3 base types; annotation classes of up "
    "to 4 members (and 5 to 20), with all settings of defaults, equality and ordering, in 6 ways of declaration, all pairs of up "
    "to 9 objects of 3 classes; annotation classes of the library with boundary values",
    "thorough": "as quick, sequences of up to 5 annotations",
}

INTEGERS = {f"{'' if signed else 'u'}int{bits}": (signed, bits) for signed in (True, False) for bits in (8, 16, 32, 64)}
FLOATS = {"float32": 4, "float64": 8}


def metadata(name: str) -> tuple[type, tuple[Any, ...]]:
    if name in FLOATS:
        return float, (aux.Storage(FLOATS[name]),)
    signed, bits = INTEGERS[name]
    low, high = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2**bits - 1)
    return int, (aux.Signed(signed), aux.Storage(bits // 8), aux.IntegerRange(low, high))


TABLE = {name: metadata(name) for name in [*INTEGERS, *FLOATS]}


def run_types(ctx: Any) -> None:
    for name, (base, annotations) in TABLE.items():
        typ = getattr(aux, name)
        ctx.count_states(1)
        ctx.step(8)
        ctx.trace()
        case = dict(type=name)
        if unwrap_annotated_type(typ) is not base or typing.get_args(typ)[1:] != annotations:
            ctx.violation("auxiliary type has other annotations", expected=repr(annotations), found=repr(typ), **case)
        for cls in (aux.Signed, aux.Storage, aux.IntegerRange, aux.Precision):
            expected = next((a for a in annotations if type(a) is cls), None)
            if get_annotation(typ, cls) != expected:
                ctx.violation("annotation is not found", annotation=cls.__name__, found=get_annotation(typ, cls), **case)
        if aux.get_auxiliary_format(typ) != name or aux.get_auxiliary_format(Annotated[(base, *annotations)]) != name:
            ctx.violation("format is not the name of the type", found=aux.get_auxiliary_format(typ), **case)
        if python_type_to_str(typ) != name:
            ctx.violation("type is printed under another name", found=python_type_to_str(typ), **case)
        # annotations in the schema
        schema = classdef_to_schema(typ)
        schema.pop("$schema")
        if schema.get("format") != name or schema.get("type") != ("number" if base is float else "integer"):
            ctx.violation("schema has another format", schema=schema, **case)
        ctx.outcome("auxiliary type")
    for typ in (int, float, str, bool, None, "int8", list[int], Optional[int], Annotated[str, aux.MaxLength(5)], Annotated[int, [1]], 5):
        ctx.count_states(1)
        ctx.step()
        if aux.get_auxiliary_format(typ) is not None:
            ctx.violation("format of something that is no auxiliary type", type=repr(typ))


ALPHABET: list[Any] = [
    aux.Signed(True), aux.Signed(False), aux.Storage(1), aux.Storage(2), aux.Storage(4), aux.Storage(8),
    aux.IntegerRange(-128, 127), aux.IntegerRange(0, 255), aux.IntegerRange(0, 65535), aux.IntegerRange(-(2**31), 2**31 - 1), aux.IntegerRange(-(2**63), 2**63 - 1),
    aux.IntegerRange(-128, 128), "note", ["unhashable"],
]  # fmt: skip


def run_sequences(first: int, ctx: Any) -> None:
    size = LENGTH[ctx.tier]
    for base in (int, float, str):
        for k in range(size):
            for rest in itertools.product(ALPHABET, repeat=k):
                annotations = (ALPHABET[first], *rest)
                typ: Any = Annotated[(base, *annotations)]  # type: ignore[misc]
                ctx.count_states(1)
                ctx.step(2)
                ctx.trace(2)
                name = None
                count = 0
                for n, (b, expected) in TABLE.items():
                    if b is base and annotations[: len(expected)] == expected:
                        name, count = n, len(expected)
                fmt, extra = aux.split_auxiliary_type(typ)
                if fmt != name or tuple(extra) != annotations[count:]:
                    ctx.violation("auxiliary type is taken apart wrongly", type=repr(typ), found=[fmt, repr(extra)], expected=name)
                    return
                exact = name if count == len(annotations) else None
                if aux.get_auxiliary_format(typ) != exact:
                    ctx.violation("wrong format", type=repr(typ), found=aux.get_auxiliary_format(typ), expected=exact)
                    return
                ctx.outcome("auxiliary" if exact else "extended" if name else "other")


# ---- annotation classes

WAYS = {
    "bare": "@typeannotation\n",
    "call": "@typeannotation()\n",
    "eq": "@typeannotation(eq={eq})\n",
    "order": "@typeannotation(order={order})\n",
    "both": "@typeannotation(eq={eq}, order={order})\n",
    "function": "",
}
VALUES = [0, 1, "a", -1, (1, "x"), None, 2.5, "é'\"", True, [3]]
OPERATORS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def run_classes(way: str, n: int, ctx: Any) -> None:
    for defaults, eq, order in itertools.product(range(0, n + 1), (True, False), (False, True)):
        if n > 4 and defaults not in (0, 1, n):
            continue
        if not eq and (order or way not in ("eq", "both")) or order and way not in ("order", "both"):
            continue
        head = WAYS[way].format(eq=eq, order=order)
        body = "".join(f"    m{i}: int{' = 7' if i >= n - defaults else ''}\n" for i in range(n)) or "    pass\n"
        extra = "\n    @property\n    def first(self):\n        return self.m0\n" if n else ""
        source = (
            f"{head}class A:\n    'An annotation.'\n{body}{extra}\n{head}class B:\n{body}\n"
        )
        module = new_module(source, extra=dict(typeannotation=aux.typeannotation))
        if way == "function":
            plain = module.A
            module.A = aux.typeannotation(plain)
            module.B = aux.typeannotation(module.B)
            if module.A is not plain:
                ctx.violation("decorator returns another class", source=source)
        try:
            check_class(module, n, defaults, eq, order, dict(source=source, way=way), ctx)
        finally:
            drop_module(module)


def check_class(module: Any, n: int, defaults: int, eq: bool, order: bool, case: Any, ctx: Any) -> None:
    A, B = module.A, module.B
    if not dataclasses.is_dataclass(A) or [f.name for f in dataclasses.fields(A)] != [f"m{i}" for i in range(n)]:
        ctx.violation("not a data class of these members", **case)
        return
    rows: list[tuple[Any, ...]] = []
    for r in range(5):
        row = tuple([5, 6, 4, 5, 6][(r * (i + 1)) % 5] for i in range(n))
        rows.append(row)
    rows += [rows[0]]
    if n:
        rows += [(*rows[0][:-1], 9), (8, *rows[0][1:])]
    objects = [(cls, row, cls(*row)) for cls in (A, B) for row in rows]
    for cls, row, obj in objects:
        ctx.step(4)
        ctx.trace()
        if tuple(getattr(obj, f"m{i}") for i in range(n)) != row:
            ctx.violation("members have other values", object=repr(obj), expected=row, **case)
            return
        by_name = cls(**{f"m{i}": v for i, v in enumerate(row)})
        if n and repr(by_name) != repr(obj):
            ctx.violation("objects made by names of members differ", object=repr(by_name), **case)
        text = repr(obj)
        expected = f"{cls.__name__}({', '.join(map(repr, row))})"
        if text != expected:
            ctx.violation("printed form is not compact", found=text, expected=expected, **case)
            return
        for name in [f"m{i}" for i in range(n)] + ["other"]:
            try:
                setattr(obj, name, 1)
                ctx.violation("annotations can be modified", member=name, **case)
                return
            except dataclasses.FrozenInstanceError:
                pass
            if name != "other":
                try:
                    delattr(obj, name)
                    ctx.violation("members of annotations can be deleted", member=name, **case)
                    return
                except dataclasses.FrozenInstanceError:
                    pass
    # omitted members have their default values
    required = (1,) * (n - defaults)
    if defaults and tuple(getattr(A(*required), f"m{i}") for i in range(n)) != required + (7,) * defaults:
        ctx.violation("default values differ", **case)
    for few in range(n - defaults):
        try:
            A(*required[:few])
            ctx.violation("required members may be omitted", **case)
        except TypeError:
            pass
    for (c1, r1, o1), (c2, r2, o2) in itertools.product(objects, repeat=2):
        ctx.count_states(1)
        ctx.step(2)
        ctx.trace()
        same = (c1 is c2 and r1 == r2) if eq else o1 is o2
        if (o1 == o2) is not same or (o1 != o2) is same:
            ctx.violation("wrong result of equality", left=repr(o1), right=repr(o2), expected=same, **case)
            return
        if same and hash(o1) != hash(o2):
            ctx.violation("equal annotations have different hash values", left=repr(o1), **case)
            return
        for sign, op in OPERATORS.items():
            try:
                found: Any = op(o1, o2)
            except TypeError:
                found = TypeError
            wanted: Any = op(r1, r2) if order and c1 is c2 else TypeError
            if found is not wanted:
                ctx.violation("wrong order", left=repr(o1), operator=sign, right=repr(o2), expected=str(wanted), found=str(found), **case)
                return
    # values of any type
    for shift in range(len(VALUES) if n else 0):
        row = tuple(VALUES[(shift + i) % len(VALUES)] for i in range(n))
        one, two, other = A(*row), A(*row), A(*row[:-1], "other")
        ctx.count_states(1)
        ctx.step(4)
        ctx.trace()
        if repr(one) != f"A({', '.join(map(repr, row))})" or eval(repr(one), {"A": A}) != one and eq:
            ctx.violation("printed form is not the object", found=repr(one), values=repr(row), **case)
            return
        if (one == two) is not eq or one == other or one == row or row == one:
            ctx.violation("wrong result of equality", left=repr(one), right=repr(two), **case)
            return
        try:
            hash(row)
            hashable = True
        except TypeError:
            hashable = False
        try:
            if hash(one) != hash(one) or eq and hash(one) != hash(two):
                ctx.violation("equal annotations have different hash values", left=repr(one), **case)
                return
            if eq and not hashable:
                ctx.violation("annotations with members that are not hashable are hashable", left=repr(one), **case)
                return
            if not eq and len({one, two, other}) != 3:
                ctx.violation("annotations without equality are not distinct", left=repr(one), **case)
                return
        except TypeError:
            if hashable or not eq:
                ctx.violation("annotation is not hashable", left=repr(one), **case)
                return
    if eq:
        # usable as annotations: types are the same if and only if annotations are
        for r1, r2 in itertools.product(rows, repeat=2):
            if (Annotated[int, A(*r1)] == Annotated[int, A(*r2)]) is not (r1 == r2):
                ctx.violation("annotated types differ", left=r1, right=r2, **case)
                return
    ctx.outcome("annotation class")


def run_compact(ctx: Any) -> None:
    "Printed forms of compact data classes and of classes that have been data classes before."

    class Plain(aux.CompactDataClass):
        pass

    if repr(Plain()) != "Plain":
        ctx.violation("printed form of a class that is not a data class", found=repr(Plain()))
    for n in range(0, 11):
        body = "".join(f"    m{i}: typing.Any\n" for i in range(n)) or "    pass\n"
        source = (
            f"@dataclass(repr=False)\nclass C(CompactDataClass):\n{body}\n"
            f"@typeannotation\n@dataclass\nclass M:\n{body}\n"
            f"@typeannotation()\n@dataclass(frozen=True, order=True)\nclass F:\n{body}\n"
            f"@dataclass(frozen=True)\nclass P:\n{body}\n"
        )
        module = new_module(source, extra=dict(typeannotation=aux.typeannotation, CompactDataClass=aux.CompactDataClass))
        try:
            for turn in range(len(VALUES)):
                values = [VALUES[(turn + i) % len(VALUES)] for i in range(n)]
                for name in ("C", "M", "F"):
                    cls = getattr(module, name)
                    ctx.count_states(1)
                    ctx.step(2)
                    ctx.trace()
                    obj = cls(*values)
                    expected = f"{name}({', '.join(map(repr, values))})"
                    if repr(obj) != expected:
                        ctx.violation("printed form is not compact", found=repr(obj), expected=expected, source=source)
                        return
                    if eval(repr(obj), module.__dict__) != obj:
                        ctx.violation("printed form is not the object", found=repr(obj), source=source)
                        return
                if n:
                    # a data class stays as it has been declared
                    obj = module.M(*values)
                    obj.m0 = 55
                    if obj.m0 != 55 or repr(obj) != f"M({', '.join(map(repr, [55, *values[1:]]))})":
                        ctx.violation("a data class does not stay modifiable", source=source)
                        return
                    if not module.F(*([1] * n)) < module.F(*([1] * (n - 1)), 2):
                        ctx.violation("a data class does not keep its order", source=source)
                        return
            nested = module.C(*([module.C(*range(n))] * n))
            if n and eval(repr(nested), module.__dict__) != nested:
                ctx.violation("printed form of nested objects is not the object", found=repr(nested), source=source)
            ctx.outcome("compact")
        finally:
            drop_module(module)


LIBRARY: dict[str, tuple[int, int, list[Any]]] = {
    # members, of these optional, values
    "Alias": (1, 0, ["", "a", "é'\"\\"]),
    "Signed": (1, 0, [True, False]),
    "Storage": (1, 0, [0, 1, 8]),
    "IntegerRange": (2, 0, [0, -1, 2**63 - 1, -(2**63)]),
    "Precision": (2, 1, [0, 1, 5, 10]),
    "TimePrecision": (1, 1, [0, 3, 6]),
    "Length": (1, 0, [0, 5]),
    "MinLength": (1, 0, [0, 5]),
    "MaxLength": (1, 0, [0, 5]),
    "SpecialConversion": (0, 0, []),
}


def run_library(ctx: Any) -> None:
    everything: list[Any] = []
    for name, (n, optional, values) in LIBRARY.items():
        cls = getattr(aux, name)
        for k in range(n - optional, n + 1):
            for args in itertools.product(values, repeat=k):
                ctx.count_states(1)
                ctx.step(3)
                ctx.trace(2)
                obj = cls(*args)
                full = (*args, *((0,) * (n - k)))
                if repr(obj) != f"{name}({', '.join(map(repr, full))})" or eval(repr(obj), vars(aux)) != obj:
                    ctx.violation("printed form is not the annotation", found=repr(obj), arguments=repr(args))
                    return
                if dataclasses.astuple(obj) != full:
                    ctx.violation("members have other values", found=repr(obj), arguments=repr(args))
                    return
                if name == "Precision" and obj.integer_digits != full[0] - full[1]:
                    ctx.violation("wrong number of integer digits", found=obj.integer_digits, arguments=repr(args))
                    return
                everything.append((name, full, obj))
    for (n1, f1, o1), (n2, f2, o2) in itertools.product(everything, repeat=2):
        ctx.count_states(1)
        ctx.step()
        ctx.trace()
        same = n1 == n2 and f1 == f2
        if (o1 == o2) is not same or (same and hash(o1) != hash(o2)):
            ctx.violation("annotations are compared wrongly", left=repr(o1), right=repr(o2))
            return
        ctx.outcome("same" if same else "different")


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["types"], ["compact"], ["library"]] + [["sequences", i] for i in range(len(ALPHABET))]
    return out + [["classes", way, n] for way in WAYS for n in (0, 1, 2, 3, 4, 5, 8, 9, 12, 16, 20)]


def run(task: Any, ctx: Any) -> None:
    if task[0] == "types":
        run_types(ctx)
    elif task[0] == "sequences":
        run_sequences(task[1], ctx)
    elif task[0] == "classes":
        run_classes(task[1], task[2], ctx)
    elif task[0] == "compact":
        run_compact(ctx)
    else:
        run_library(ctx)
