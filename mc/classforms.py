"""
Class declarations: kinds of classes x base classes x features, with the documents of their objects.

Used by C01, C02, C03 and C09. The universe of types (shapes.py) varies member types, this one varies all other parts of a class
declaration, none of which change how an object is written and read.
"""

from __future__ import annotations

import itertools
from typing import Any, Iterator, Optional

PRELUDE = """
import abc, collections, collections.abc
from typing import ClassVar, Generic, Protocol, TypeVar
T = TypeVar("T")
K = TypeVar("K")

class Mixin:
    "Methods only."
    def method(self) -> int:
        return 1

class SlotsMixin:
    __slots__ = ()
    def method(self) -> int:
        return 1

class Meta(type):
    pass

class Registry:
    seen: ClassVar[list] = []
    def __init_subclass__(cls, **kwargs: Any) -> None:
        super().__init_subclass__(**kwargs)

class Failure(Exception):
    pass

class Failure2(Failure):
    "Derived indirectly."

class Named(Protocol):
    def method(self) -> int: ...

class Abstract(abc.ABC):
    @abc.abstractmethod
    def required(self) -> int: ...
"""

# base classes, and what a class has to define with them
BASES: dict[str, tuple[str, str]] = {
    "none": ("", ""),
    "object": ("object", ""),
    "mixin": ("Mixin", ""),
    "slots mixin": ("SlotsMixin", ""),
    "abc": ("abc.ABC", ""),
    "abstract": ("Abstract", "    def required(self) -> int:\n        return 2\n"),
    "generic": ("Generic[T]", ""),
    "generic2": ("Mixin, Generic[T, K]", ""),
    "metaclass": ("metaclass=Meta", ""),
    "registry": ("Registry", ""),
    "sized": ("collections.abc.Sized", "    def __len__(self) -> int:\n        return 0\n"),
    "protocol": ("Named", "    def method(self) -> int:\n        return 3\n"),
    "exception": ("Exception", ""),
    "failure": ("Failure", ""),
    "failure2": ("Failure2", ""),
    "value error": ("ValueError", ""),
    "key error": ("Mixin, KeyError", ""),
}
ERRORS = {"exception", "failure", "failure2", "value error", "key error"}

# further parts of a class, and whether they add to the document of an object of an untyped class
FEATURES: dict[str, str] = {
    "plain": "",
    "method": "    def compute(self) -> int:\n        return self.a\n",
    "classmethod": "    @classmethod\n    def make(cls):\n        return cls\n",
    "class variable": "    version: ClassVar[int] = 7\n",
    "string": "    def __str__(self) -> str:\n        return 'C'\n    __repr__ = __str__\n",
    "truth": "    def __bool__(self) -> bool:\n        return False\n",
    "never equal": "    def __eq__(self, other: object) -> bool:\n        return False\n    __hash__ = None\n",
    "attributes": "    def __getattr__(self, name: str):\n        raise AttributeError(name)\n",
    "iterable": "    def __iter__(self):\n        return iter((1, 2))\n    def __len__(self):\n        return 2\n    def keys(self):\n        return ['a']\n    def __getitem__(self, key):\n        return 0\n",
    "callable": "    def __call__(self) -> int:\n        return 1\n",
}

MEMBERS = "    a: int\n    in_: Optional[str] = None\n    _c: list[int] = {factory}\n"
INIT = "    def __init__(self, a, in_=None, _c=()):\n        self.a = a\n        self.in_ = in_\n        self._c = list(_c)\n"

KINDS = ["dataclass", "frozen", "slots", "kwonly", "noeq", "order", "plain", "plain slots", "untyped", "untyped slots"]
UNTYPED = {"untyped", "untyped slots"}


def declare(kind: str, base: str, feature: str) -> Optional[str]:
    "Source of a class, or nothing if Python does not permit it."
    bases, more = BASES[base]
    more += FEATURES[feature]
    if feature == "class variable" and kind in UNTYPED:
        return None  # an attribute like others
    if base == "sized" and feature == "iterable":
        more = FEATURES[feature]
    if kind in UNTYPED and base in ERRORS:
        return None  # attributes of exceptions
    if kind in UNTYPED and base == "registry":
        return None  # whether a class variable is an attribute like others is left open
    head = {
        "dataclass": "@dataclass\n",
        "frozen": "@dataclass(frozen=True)\n",
        "slots": "@dataclass(slots=True)\n",
        "kwonly": "@dataclass(kw_only=True)\n",
        "noeq": "@dataclass(eq=False)\n",
        "order": "@dataclass(order=True)\n",
    }.get(kind, "")
    if kind in ("order",) and feature == "never equal":
        return None
    if head:
        body = MEMBERS.format(factory="field(default_factory=list)")
    elif kind == "plain":
        body = MEMBERS.format(factory="[]") + INIT
    elif kind == "plain slots":
        body = "    __slots__ = ('a', 'in_', '_c')\n    a: int\n    in_: Optional[str]\n    _c: list[int]\n" + INIT
    elif kind == "untyped slots":
        body = "    __slots__ = ('a', 'in_', '_c')\n" + INIT
    else:
        body = INIT
    return f"{head}class C{f'({bases})' if bases else ''}:\n{body}{more}"


VALUES: list[tuple[int, Optional[str], list[int]]] = [(1, None, []), (0, "", [0]), (-5, "x", [1, 2]), (10**20, "null", [])]
WRAPS = ["C", "list[C]", "dict[str, C]", "Optional[C]", "tuple[C, int]", "Union[int, C]", "W"]
WRAPPED = "@dataclass\nclass W:\n    w: C\n    v: list[C] = field(default_factory=list)\n"


def forms(kind: str) -> Iterator[tuple[str, str]]:
    "Names and sources of classes."
    for base, feature in itertools.product(BASES, FEATURES):
        source = declare(kind, base, feature)
        if source is not None:
            yield f"{kind} / {base} / {feature}", PRELUDE + source + WRAPPED


def document(value: tuple[int, Optional[str], list[int]]) -> dict[str, Any]:
    a, b, c = value
    return {"a": a, **({"in": b} if b is not None else {}), "_c": c}


def wrap(how: str, item: Any, module: Any = None) -> Any:
    "An object that holds an object, or a document that holds a document."
    if how in ("C", "Optional[C]", "Union[int, C]"):
        return item
    if how == "list[C]":
        return [item, item]
    if how == "dict[str, C]":
        return {"k": item}
    if how == "tuple[C, int]":
        return (item, 5) if module is not None else [item, 5]
    return module.W(item, [item]) if module is not None else {"w": item, "v": [item]}


def unwrap(how: str, obj: Any) -> list[Any]:
    if how in ("C", "Optional[C]", "Union[int, C]"):
        return [obj]
    if how == "list[C]":
        return list(obj)
    if how == "dict[str, C]":
        return [obj["k"]]
    if how == "tuple[C, int]":
        return [obj[0]]
    return [obj.w, *obj.v]


def make(module: Any, value: tuple[int, Optional[str], list[int]]) -> Any:
    return module.C(a=value[0], in_=value[1], _c=list(value[2]))


def others(kind: str) -> list[tuple[Any, Optional[bool]]]:
    "Documents, and whether they describe an object of the class (nothing if this is left to C04)."
    good: dict[str, Any] = {"a": 1, "in": "x", "_c": [1]}
    plain = kind in ("plain", "plain slots")
    out: list[tuple[Any, Optional[bool]]] = [(document(v), True) for v in VALUES]
    out += [
        ({"a": 1, "_c": []}, True),
        ({"_c": [2], "in": "", "a": 0}, True),
        ({"a": 1}, False if plain else None),
        ({"a": 1, "in": "x"}, False if plain else None),
        ({}, False),
        (None, False),
        ([], False),
        ([1, "x", [1]], False),
        ("C", False),
        (1, False),
    ]
    for key, values in {"a": [None, "1", True, 1.5, [1]], "in": [1, ["x"], {}], "_c": [None, {}, "", [None], ["1"], [1, True], [[1]]]}.items():
        out += [({**good, key: v}, None if v is None and key == "_c" and not plain else False) for v in values]
    for key in ("in_", "c", "method", "seen", "version", "compute", "args", "_abc_impl", "__doc__", "__dict__", "_is_protocol", "required", "A", ""):
        out.append(({**good, key: 1}, False))
    out.append(({"in": "x", "_c": []}, False))
    return out
