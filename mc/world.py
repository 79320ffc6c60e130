"""
Worlds: freshly created modules that hold the classes of one configuration.

Every world is a new module with a unique name whose classes are new objects (hence not known to any cache of the
library), while the class names are the same in every world (hence names never identify a class).
"""

from __future__ import annotations

import itertools
import sys
import types
import typing
from typing import Any, Optional

_counter = itertools.count()

PRELUDE = """
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import typing
import uuid
from collections import namedtuple
from dataclasses import dataclass, field
from typing import Annotated, Any, Literal, NamedTuple, Optional, Union
from strong_typing.auxiliary import (
    Alias, IntegerRange, Length, MaxLength, MinLength, Precision, Signed, Storage, TimePrecision, SpecialConversion,
    float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64,
)
from strong_typing.core import JsonArray, JsonObject, JsonType, StrictJsonType
"""

_prelude: dict[str, Any] = {}


def new_module(
    source: str, *, future: bool = False, name: str = "", extra: Optional[dict[str, Any]] = None
) -> types.ModuleType:
    "Executes source code as a new module."

    if not _prelude:
        exec(compile(PRELUDE, "<prelude>", "exec", dont_inherit=True), _prelude)
        _prelude.pop("__builtins__", None)

    # the `typing` module re-uses e.g. `Optional[Union[int, str]]` for `Optional[Union[str, int]]`: start anew, such that
    # the order of member types does not depend on types that have been written earlier
    for cleanup in typing._cleanups:  # type: ignore[attr-defined]
        cleanup()

    full_name = name or f"mcworld_{next(_counter)}"
    module = types.ModuleType(full_name)
    module.__dict__.update(_prelude)
    if extra:
        module.__dict__.update({k: v for k, v in extra.items() if not k.startswith("__")})
    sys.modules[full_name] = module
    text = ("from __future__ import annotations\n" if future else "") + source
    code = compile(text, f"<{full_name}>", "exec", dont_inherit=True)
    exec(code, module.__dict__)
    module.__dict__["__source__"] = text
    return module


def drop_module(module: types.ModuleType) -> None:
    sys.modules.pop(module.__name__, None)


def evaluate(module: types.ModuleType, expression: str) -> Any:
    return eval(compile(expression, f"<{module.__name__}>", "eval", dont_inherit=True), module.__dict__)
