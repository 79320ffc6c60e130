"Schemas of types, and validation of documents in three readings."

from __future__ import annotations

from typing import Any, Iterator

import jsonschema
import jsonschema.validators

from shapes import UNSPEC, ref_base64, ref_date, ref_datetime, ref_duration, ref_ipv4, ref_ipv6, ref_time, ref_uuid

from strong_typing.schema import SchemaOptions, classdef_to_schema

LATEST = jsonschema.Draft202012Validator

_PARSERS = {
    "date-time": ref_datetime,
    "date": ref_date,
    "time": ref_time,
    "duration": ref_duration,
    "uuid": ref_uuid,
    "ipv4": ref_ipv4,
    "ipv6": ref_ipv6,
}

FORMATS = jsonschema.FormatChecker(formats=())


def _text_format(name: str, parser: Any) -> None:
    @FORMATS.checks(name)
    def check(doc: Any) -> bool:
        if not isinstance(doc, str):
            return True
        return parser(doc) is not None


def _int_format(name: str, lo: int, hi: int) -> None:
    @FORMATS.checks(name)
    def check(doc: Any) -> bool:
        if isinstance(doc, bool) or not isinstance(doc, int):
            return True
        return lo <= doc <= hi


for _name, _parser in _PARSERS.items():
    _text_format(_name, _parser)
for _bits in (8, 16, 32, 64):
    _int_format(f"int{_bits}", -(2 ** (_bits - 1)), 2 ** (_bits - 1) - 1)
    _int_format(f"uint{_bits}", 0, 2**_bits - 1)


def _content_encoding(validator: Any, encoding: Any, instance: Any, schema: Any) -> Iterator[Any]:
    if encoding == "base64" and isinstance(instance, str) and ref_base64(instance) is None:
        yield jsonschema.ValidationError("not Base64")


STRICT = jsonschema.validators.extend(LATEST, {"contentEncoding": _content_encoding})


def schema_of(typ: Any, **options: Any) -> Any:
    return classdef_to_schema(typ, SchemaOptions(**options) if options else None)


def library_validator(schema: Any) -> Any:
    "Checks what `validate_object` checks."
    return LATEST(schema, format_checker=LATEST.FORMAT_CHECKER)


def strict_validator(schema: Any) -> Any:
    "Takes formats and content encodings for constraints, as documented."
    return STRICT(schema, format_checker=FORMATS)


def relaxed(schema: Any) -> Any:
    "The same schema in which alternatives may overlap."
    if isinstance(schema, dict):
        out = {k: relaxed(v) for k, v in schema.items()}
        if isinstance(out.get("oneOf"), list) and "anyOf" not in out:
            out["anyOf"] = out.pop("oneOf")
        return out
    if isinstance(schema, list):
        return [relaxed(s) for s in schema]
    return schema
