From 47c384d6b321347c6449ef8838c9c4adf905bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 01/63] fix: identify cached de-serializers by class and
 options, and publish only complete ones

---
 strong_typing/deserializer.py | 43 +++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..c15491b 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -15,6 +15,7 @@ import inspect
 import ipaddress
 import re
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -825,43 +826,57 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        # options may be altered by the caller later
+        options = dataclasses.replace(options)
+
+    with _LOCK:
+        try:
+            deserializer = _get_deserializer(typ, context, options)
 
-    return _get_deserializer(typ, context, options)
+            # make de-serializers available to later calls only when all de-serializers they depend on are complete
+            _CACHE.update((key, value) for key, value in _PENDING.items() if isinstance(key[0], type))
+        finally:
+            _PENDING.clear()
+
+    return deserializer
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+# guards the creation of de-serializers
+_LOCK = threading.RLock()
+
+# de-serializers ready to be used, identified by class and options
+_CACHE: dict[tuple[Any, ...], Deserializer] = {}
+
+# de-serializers being created, identified by class (or the context and the name of a type alias) and options
+_PENDING: dict[tuple[Any, ...], Deserializer] = {}
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    cache_key: Optional[tuple[Any, ...]] = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
-        if isinstance(typ, str):
-            if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
-        elif isinstance(typ, typing.ForwardRef):
-            if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
-
+        name = typ if isinstance(typ, str) else typ.__forward_arg__
+        cache_key = (context.__name__, name, dataclasses.astuple(options))
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        cache_key = (typ, dataclasses.astuple(options))
 
     if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
+        deserializer = _CACHE.get(cache_key) or _PENDING.get(cache_key)
         if deserializer is None:
             deserializer = _create_deserializer(typ, options)
 
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
+            # store de-serializer immediately to avoid stack overflow for recursive types
+            _PENDING[cache_key] = deserializer
 
             if isinstance(typ, type):
                 # use type's own module as context for evaluating member types
-- 
2.43.0


From b48f9c4245e9af84378db72fba6e5dae808c970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 02/63] fix: try next member type of a union when a value is
 invalid for a member type

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index c15491b..ae176e6 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -417,9 +417,11 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
+                # the data is not a valid value for the type (e.g. a string in a different format)
+                # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
                 continue
 
-- 
2.43.0


From a1244599f1220a755fa5631f69eb281248c1b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 03/63] fix: refuse JSON booleans as numbers and as numeric
 enumeration values

---
 strong_typing/deserializer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index ae176e6..0f8712a 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -118,7 +118,7 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        if not isinstance(data, int) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -127,7 +127,7 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
         return float(data)
 
@@ -548,7 +548,11 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        return self.enum_type(data)
+        member = self.enum_type(data)
+        if isinstance(data, bool) is not isinstance(member.value, bool):
+            # `True` and `False` compare equal to 1 and 0
+            raise JsonTypeError(f"`{self.enum_type.__name__}` type does not permit JSON value: {data}")
+        return member
 
 
 class CustomDeserializer(Deserializer[T]):
-- 
2.43.0


From 2eef77a048be2632f47ee790ee0331eec80d30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:48 +0000
Subject: [PATCH 04/63] fix: report numbers and durations out of range as
 invalid values

---
 strong_typing/deserializer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 0f8712a..d542288 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -129,7 +129,10 @@ class FloatDeserializer(Deserializer[float]):
     def parse(self, data: JsonType) -> float:
         if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        try:
+            return float(data)
+        except OverflowError as ex:
+            raise JsonValueError("`float` type cannot represent an integer that is too large") from ex
 
 
 class StringDeserializer(Deserializer[str]):
@@ -232,11 +235,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        try:
+            return datetime.timedelta(
+                days=7 * weeks + days,
+                seconds=3600 * hours + 60 * minutes + seconds,
+                microseconds=nanoseconds // 1000,
+            )
+        except OverflowError as ex:
+            raise JsonValueError(f"`timedelta` type cannot represent a duration that is too long: {data}") from ex
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
-- 
2.43.0


From 8543f3cffd688eee475bb06c3b2b3eed5ce11ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:25 +0000
Subject: [PATCH 05/63] fix: write and read negative durations with a leading
 sign, refuse a trailing newline

---
 strong_typing/deserializer.py | 14 ++++++++------
 strong_typing/serializer.py   |  4 ++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index d542288..9b0432d 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -193,8 +193,9 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
     Parses JSON `string` values representing durations in ISO 8601 format to Python `timedelta` type.
 
     Format string is limited to weeks, days, hours, minutes, seconds and sub-second fractional part up to microsecond
-    precision. The Python type `timedelta` has no notion of date features (e.g. to capture differences in number of days
-    in Gregorian months or leap years) and is limited to microsecond precision.
+    precision. A leading minus sign denotes a negative duration. The Python type `timedelta` has no notion of date
+    features (e.g. to capture differences in number of days in Gregorian months or leap years) and is limited to
+    microsecond precision.
     """
 
     def parse(self, data: JsonType) -> datetime.timedelta:
@@ -202,18 +203,18 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonTypeError(f"`timedelta` type expects JSON `string` data but instead received: {data}")
 
         pattern = re.compile(
-            r"^P"  # starts with 'P'
+            r"(?P<sign>-)?P"  # optional sign, followed by 'P'
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
             r"(?:(?P<days>\d+)D)?"  # optional days
             r"(?:T"  # start of time part
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
             r"(?:(?P<seconds>\d+)(?:\.(?P<fractional>\d{1,9}))?S)?"  # optional seconds (integer and fractional part)
-            r")?$",  # end of time part
+            r")?",  # end of time part
             flags=re.ASCII,
         )
 
-        match = pattern.match(data)
+        match = pattern.fullmatch(data)
         if not match:
             raise JsonValueError(
                 f"`timedelta` type expects ISO 8601 duration format string (with limitations) but received: {data}"
@@ -236,11 +237,12 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
         try:
-            return datetime.timedelta(
+            duration = datetime.timedelta(
                 days=7 * weeks + days,
                 seconds=3600 * hours + 60 * minutes + seconds,
                 microseconds=nanoseconds // 1000,
             )
+            return -duration if parts["sign"] else duration
         except OverflowError as ex:
             raise JsonValueError(f"`timedelta` type cannot represent a duration that is too long: {data}") from ex
 
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..1f14796 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -102,6 +102,10 @@ class TimeSerializer(Serializer[datetime.time]):
 
 class TimeDeltaSerializer(Serializer[datetime.timedelta]):
     def generate(self, obj: datetime.timedelta) -> str:
+        if obj < datetime.timedelta(0):
+            # Python normalizes negative durations to a negative number of days and non-negative seconds
+            return f"-{self.generate(-obj)}"
+
         if obj.days != 0:
             day_component = f"{obj.days}D"
         else:
-- 
2.43.0


From 6f9542fbedfe075fa673d3a502ecb6649f19c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/63] fix: read named tuples with the property names they are
 written with, and with optional and default members

---
 strong_typing/deserializer.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 9b0432d..03564c1 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -713,14 +713,26 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults", {})
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            is_optional = is_type_optional(field_type)
+            required_type = unwrap_optional_type(field_type) if is_optional else field_type
+            parser = self.get_deserializer(required_type, context)
+
+            if field_name in field_defaults:
+                field_parser: FieldDeserializer = DefaultFieldDeserializer(
+                    property_name, field_name, parser, field_defaults[field_name]
+                )
+            elif is_optional:
+                field_parser = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From e2078b203abfdcf1b1875592f895ea37c3b17176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:08 +0000
Subject: [PATCH 07/63] fix: read frozen data classes with fields that are not
 initializer parameters

---
 strong_typing/deserializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 03564c1..23822a8 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -792,7 +792,13 @@ class FrozenDataclassDeserializer(DataclassDeserializer[T]):
         obj: T = create_object(self.class_type)
 
         # can't use `setattr` on frozen dataclasses, pass member variable values to `__init__`
-        obj.__init__(**field_values)  # type: ignore
+        init_fields = set(field.name for field in dataclasses.fields(typing.cast(Any, self.class_type)) if field.init)
+        obj.__init__(**{name: value for name, value in field_values.items() if name in init_fields})  # type: ignore
+
+        # assign member variables that `__init__` does not take
+        for name, value in field_values.items():
+            if name not in init_fields:
+                object.__setattr__(obj, name, value)
         return obj
 
 
-- 
2.43.0


From d58a2d76017b80109bdb66f70d4e5a0c7a9e167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 08/63] fix: evaluate postponed field annotations in the module
 that declares the field

---
 strong_typing/inspection.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..1b7ba5c 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -161,7 +161,8 @@ def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
     for field in dataclasses.fields(cls):
-        yield DataclassField(field.name, evaluate_member_type(field.type, cls), field.default)
+        field_type = evaluate_member_type(field.type, get_declaring_class(cls, field.name))
+        yield DataclassField(field.name, field_type, field.default)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
@@ -169,7 +170,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, cls))
+            return DataclassField(field.name, evaluate_member_type(field.type, get_declaring_class(cls, field.name)))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
@@ -555,11 +556,31 @@ def get_resolved_hints(typ: type) -> dict[str, type]:
     return typing.get_type_hints(typ, include_extras=True)
 
 
+def get_declaring_class(typ: type, name: str) -> type:
+    "Returns the class in the inheritance chain of a class that declares the type of a property."
+
+    for base in inspect.getmro(typ):
+        if name in getattr(base, "__annotations__", {}):
+            return base
+    return typ
+
+
+def _get_field_type(typ: type, field: dataclasses.Field) -> TypeLike:
+    "Returns the type of a data-class field, evaluating postponed annotations in the module that declares the field."
+
+    if isinstance(field.type, str):
+        try:
+            return evaluate_member_type(field.type, get_declaring_class(typ, field.name))
+        except NameError:
+            pass  # name is not available at run time
+    return field.type
+
+
 def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
     if is_dataclass_type(typ):
-        return ((field.name, field.type) for field in dataclasses.fields(typ))
+        return ((field.name, _get_field_type(typ, field)) for field in dataclasses.fields(typ))
     else:
         resolved_hints = get_resolved_hints(typ)
         return resolved_hints.items()
-- 
2.43.0


From bf684b8fb00f598a83762a78a26ddc3dbe219044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:43 +0000
Subject: [PATCH 09/63] fix: evaluate member types for serialization in the
 module that declares the member

---
 strong_typing/serializer.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 1f14796..4c88863 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -27,6 +27,7 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
+    get_declaring_class,
     get_resolved_hints,
     is_dataclass_type,
     is_named_tuple_type,
@@ -294,14 +295,17 @@ class TypedClassSerializer(Serializer[T]):
     property_generators: list[FieldSerializer]
 
     def __init__(self, class_type: type[T], context: Optional[ModuleType]) -> None:
-        self.property_generators = [
-            FieldSerializer(
-                field_name,
-                python_field_to_json_property(field_name, field_type),
-                _get_serializer(field_type, context),
+        self.property_generators = []
+        for field_name, field_type in get_class_properties(class_type):
+            # evaluate member types in the module in which the member is declared
+            context = sys.modules[get_declaring_class(class_type, field_name).__module__]
+            self.property_generators.append(
+                FieldSerializer(
+                    field_name,
+                    python_field_to_json_property(field_name, field_type),
+                    _get_serializer(field_type, context),
+                )
             )
-            for field_name, field_type in get_class_properties(class_type)
-        ]
 
     def generate(self, obj: T) -> dict[str, JsonType]:
         object_dict: dict[str, JsonType] = {}
@@ -494,7 +498,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From 1c7ce5f81418cba591df2a2468c1aa5952b847f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:18 +0000
Subject: [PATCH 10/63] fix: serialize recursive types, publish only complete
 serializers

---
 strong_typing/serializer.py | 57 +++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 4c88863..0f49a99 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -10,10 +10,10 @@ import abc
 import base64
 import datetime
 import enum
-import functools
 import inspect
 import ipaddress
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -368,6 +368,15 @@ class UntypedNamedTupleSerializer(Serializer):
         return object_dict
 
 
+class DeferredSerializer(Serializer[T]):
+    "Stands for a serializer engine that is being created, used for members of a recursive type."
+
+    generator: Serializer[T]
+
+    def generate(self, obj: T) -> JsonType:
+        return self.generator.generate(obj)
+
+
 class UntypedClassSerializer(Serializer):
     def generate(self, obj: object) -> JsonType:
         # iterate over object attributes to get a standard representation
@@ -411,27 +420,59 @@ def create_serializer(typ: TypeLike, context: Optional[ModuleType] = None) -> Se
         if isinstance(typ, type):
             context = sys.modules[typ.__module__]
 
-    return _get_serializer(typ, context)
+    with _LOCK:
+        try:
+            serializer = _get_serializer(typ, context)
+
+            # make serializers available to later calls only when all serializers they depend on are complete
+            _CACHE.update((key, value.generator) for key, value in _PENDING.items() if isinstance(key, type))
+        finally:
+            _PENDING.clear()
+
+    return serializer
+
+
+# guards the creation of serializers
+_LOCK = threading.RLock()
+
+# serializers ready to be used
+_CACHE: dict[type, Serializer] = {}
+
+# serializers being created, identified by class, or the context and the name of a type alias
+_PENDING: dict[Union[type, tuple[str, str]], DeferredSerializer] = {}
 
 
 def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
+    key: Union[type, tuple[str, str], None] = None
+
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
+        key = (context.__name__, typ if isinstance(typ, str) else typ.__forward_arg__)
         typ = evaluate_type(typ, context)
 
     if isinstance(typ, type):
-        return _fetch_serializer(typ)
-    else:
+        key = typ
+        context = sys.modules[typ.__module__]
+
+    if key is None:
         # special forms are not always hashable
         return _create_serializer(typ, context)
 
+    serializer = _CACHE.get(key) if isinstance(key, type) else None
+    if serializer is not None:
+        return serializer
+
+    deferred = _PENDING.get(key)
+    if deferred is None:
+        # store a placeholder immediately to avoid stack overflow for recursive types
+        deferred = DeferredSerializer()
+        _PENDING[key] = deferred
+        deferred.generator = _create_serializer(typ, context)
+        return deferred.generator
 
-@functools.lru_cache(maxsize=None)
-def _fetch_serializer(typ: type) -> Serializer:
-    context = sys.modules[typ.__module__]
-    return _create_serializer(typ, context)
+    return deferred
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From e9317b93144ef6e0c4c8c72a83192e6592af557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:05 +0000
Subject: [PATCH 11/63] fix: discriminate tagged unions by JSON property names
 and values

---
 strong_typing/deserializer.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 23822a8..6d209f9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -31,7 +31,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -438,15 +437,28 @@ class UnionDeserializer(RecursiveDeserializer):
 
 
 def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+    "Returns the JSON names of all properties in a class that are of a literal type."
 
     return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
+        python_field_to_json_property(property_name, property_type)
+        for property_name, property_type in get_class_properties(typ)
+        if is_type_literal(property_type)
     )
 
 
+def get_literal_property_values(typ: type, name: str) -> tuple[JsonType, ...]:
+    "Returns the JSON values that a property (identified by its JSON name) of a literal type may take."
+
+    for property_name, property_type in get_class_properties(typ):
+        if python_field_to_json_property(property_name, property_type) == name:
+            return tuple(
+                value.value if isinstance(value, enum.Enum) else value for value in unwrap_literal_values(property_type)
+            )
+    return ()
+
+
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
-    "Returns a set of properties with literal type that are common across all specified classes."
+    "Returns the JSON names of properties with literal type that are common across all specified classes."
 
     if not types or not all(isinstance(typ, type) for typ in types):
         return set()
@@ -474,11 +486,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         self.member_parsers = {}
         for member_type in self.member_types:
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
-                if not literal_type:
-                    continue
-
-                for literal_value in unwrap_literal_values(literal_type):
+                for literal_value in get_literal_property_values(member_type, property_name):
                     tpl = (property_name, literal_value)
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
@@ -504,7 +512,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            member_parser = None
+            if isinstance(disambiguating_value, (bool, int, str)):
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
-- 
2.43.0


From 0953de7b2b88fb47ee83b6046b4cfb5f0e422fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 12/63] fix: evaluate type names passed to json_to_object in
 the module of the caller

---
 strong_typing/serialization.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/strong_typing/serialization.py b/strong_typing/serialization.py
index 218781c..c121f52 100644
--- a/strong_typing/serialization.py
+++ b/strong_typing/serialization.py
@@ -38,6 +38,22 @@ def object_to_json(obj: Any) -> JsonType:
     return generator.generate(obj)
 
 
+def _get_caller_module() -> Optional[ModuleType]:
+    "Returns the module from which a function in this module has been called, used as context for evaluating types."
+
+    frame = inspect.currentframe()
+    try:
+        # skip the frames of this function and of its caller
+        for _ in range(2):
+            if frame is None:
+                return None
+            frame = frame.f_back
+
+        return sys.modules.get(frame.f_globals.get("__name__", "")) if frame is not None else None
+    finally:
+        del frame
+
+
 def json_to_object(
     typ: type[T],
     data: JsonType,
@@ -65,6 +81,9 @@ def json_to_object(
     :raises JsonTypeError: Deserialization for data has failed due to a type mismatch.
     """
 
+    if context is None:
+        context = _get_caller_module()
+
     return typing.cast(T, json_to_generic(typ, data, context=context, options=options))
 
 
@@ -82,18 +101,8 @@ def json_to_generic(
     `Optional[T]`, `Literal[...]` or `Union[...]`.
     """
 
-    # use caller context for evaluating types if no context is supplied
     if context is None:
-        this_frame = inspect.currentframe()
-        if this_frame is not None:
-            caller_frame = this_frame.f_back
-            del this_frame
-
-            if caller_frame is not None:
-                try:
-                    context = sys.modules[caller_frame.f_globals["__name__"]]
-                finally:
-                    del caller_frame
+        context = _get_caller_module()
 
     parser = create_deserializer(typ, context, options=options)
     return parser.parse(data)
-- 
2.43.0


From 8cd34139667fe3c6a17ab363d91eebfd1a35227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 13/63] fix: write keys of untyped dictionaries as strings

---
 strong_typing/serializer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 0f49a99..4132184 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -181,11 +181,9 @@ class UntypedListSerializer(Serializer[list]):
 
 class UntypedDictSerializer(Serializer[dict]):
     def generate(self, obj: dict) -> dict[str, JsonType]:
-        if obj and isinstance(next(iter(obj.keys())), enum.Enum):
-            iterator = ((key.value, object_to_json(value)) for key, value in obj.items())
-        else:
-            iterator = ((str(key), object_to_json(value)) for key, value in obj.items())
-        return dict(iterator)
+        return {
+            str(key.value if isinstance(key, enum.Enum) else key): object_to_json(value) for key, value in obj.items()
+        }
 
 
 class UntypedSetSerializer(Serializer[set]):
-- 
2.43.0


From bbc97e883b7098291736cd2b97387c67123fb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 14/63] fix: write and read members of type Any as JSON values

---
 strong_typing/deserializer.py | 12 ++++++++++++
 strong_typing/serializer.py   |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6d209f9..e3781e9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -8,6 +8,7 @@ Type-safe data interchange for Python data classes.
 
 import abc
 import base64
+import copy
 import dataclasses
 import datetime
 import enum
@@ -573,6 +574,13 @@ class EnumDeserializer(Deserializer[E]):
         return member
 
 
+class AnyDeserializer(Deserializer[Any]):
+    "Returns a copy of the JSON value, whatever its type."
+
+    def parse(self, data: JsonType) -> Any:
+        return copy.deepcopy(data)
+
+
 class CustomDeserializer(Deserializer[T]):
     "Uses the `from_json` class method in class to de-serialize the object from JSON."
 
@@ -965,6 +973,10 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
     elif typ is ipaddress.IPv6Address:
         return IPv6Deserializer()
 
+    # dynamically-typed value
+    if typ is Any:
+        return AnyDeserializer()
+
     # dynamically-typed collection types
     if typ is list:
         raise TypeError("explicit item type required: use `list[T]` instead of `list`")
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 4132184..f5936da 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -502,6 +502,10 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
     elif typ is ipaddress.IPv6Address:
         return IPv6Serializer()
 
+    # dynamically-typed value
+    if typ is Any:
+        return UnionSerializer()
+
     # dynamically-typed collection types
     if typ is list:
         return UntypedListSerializer()
-- 
2.43.0


From eb24fe5364f52ef5798769d86ebee17f05633817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 15/63] fix: use the JSON property name of fields in schema

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..23e8c07 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # rename property if an alias name is specified or the identifier clashes with a keyword
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From a5d88c61da11717ebf669b6937d44ae16aca7897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 16/63] fix: describe IP addresses as strings in schema

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 23e8c07..e975b34 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From 51c1fb2ee44661b3d98a62d2152b6c8c1288babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 17/63] fix: validate objects with the format checks of the
 schema dialect in use

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index e975b34..74ccf82 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -604,7 +604,7 @@ def validate_object(data_type: TypeLike, json_dict: JsonType) -> None:
     """
 
     schema_dict = classdef_to_schema(data_type)
-    jsonschema.validate(json_dict, schema_dict, format_checker=jsonschema.FormatChecker())
+    jsonschema.validate(json_dict, schema_dict, format_checker=Validator.Latest.value.FORMAT_CHECKER)
 
 
 def print_schema(data_type: type) -> None:
-- 
2.43.0


From 547bf506c09bc93d5c93a5d01198de46ef1f63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 18/63] fix: match enumeration keys literally in schema

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 74ccf82..3dd6a73 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -393,7 +394,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(value) for value in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From c8179f64efe5bc783099c3f723b76066ee80770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 19/63] fix: generate schema for optional types that are not
 class members

---
 strong_typing/schema.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 3dd6a73..d8f01ca 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -379,6 +379,9 @@ class JsonSchemaGenerator:
         if is_type_union(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
+        if is_type_optional(typ):
+            return {"oneOf": [self.type_to_schema(unwrap_optional_type(typ)), {"type": "null"}]}
+
         origin_type = typing.get_origin(typ)
         if origin_type is list:
             (list_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From 6bb1a8d2ad767c819642e2992e78f59056c8c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 20/63] fix: generate schema for literals with several values
 or enumeration members

---
 strong_typing/schema.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index d8f01ca..dd2e389 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -427,9 +427,16 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_values = [object_to_json(value) for value in typing.get_args(typ)]  # unpack values of literal type
+            literal_types = list(dict.fromkeys(type(value) for value in literal_values))
+            if len(literal_types) != 1:
+                raise ValueError(f"literals must have a consistent value type but several types found: {literal_types}")
+
+            schema = self.type_to_schema(literal_types.pop())
+            if len(literal_values) == 1:
+                schema["const"] = literal_values[0]
+            else:
+                schema["enum"] = literal_values
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From 7d0e46e7c5f3109aa9e7a9e5db3cc8ddae068edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:21 +0000
Subject: [PATCH 21/63] fix: do not share registered examples with generated
 schema

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index dd2e389..4c120f9 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -519,7 +519,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From 72eb6cb352bed589a05c2cc24fbd49989501f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:56 +0000
Subject: [PATCH 22/63] fix: resolve forward references in schema in the module
 that defines the class, define recursive classes

---
 strong_typing/schema.py | 94 +++++++++++++++++++++++++++++------------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 4c120f9..8b0fd3a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -13,9 +13,11 @@ import inspect
 import ipaddress
 import json
 import re
+import sys
 import typing
 import uuid
 from copy import deepcopy
+from types import ModuleType
 from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, overload
 
 import jsonschema
@@ -26,7 +28,9 @@ from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
+    evaluate_type,
     get_class_properties,
+    get_declaring_class,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -105,20 +109,6 @@ def id_from_ref(data_type: Union[typing.ForwardRef, str, type]) -> str:
         return data_type.__name__
 
 
-def type_from_ref(data_type: Union[typing.ForwardRef, str, type]) -> tuple[str, type]:
-    "Creates a type from a forward reference."
-
-    if isinstance(data_type, typing.ForwardRef):
-        forward_type: typing.ForwardRef = data_type
-        true_type = eval(forward_type.__forward_code__)
-        return forward_type.__forward_arg__, true_type
-    elif isinstance(data_type, str):
-        true_type = eval(data_type)
-        return data_type, true_type
-    else:
-        return data_type.__name__, data_type
-
-
 @dataclasses.dataclass
 class TypeCatalogEntry:
     schema: Optional[Schema]
@@ -169,6 +159,15 @@ class TypeCatalog:
         else:
             return self._by_type[data_type]
 
+    def find(self, identifier: str) -> Optional[TypeLike]:
+        "Looks up a type by the identifier it is registered with."
+
+        entry = self._by_name.get(identifier)
+        for data_type, type_entry in self._by_type.items():
+            if type_entry is entry:
+                return data_type
+        return None
+
     def __repr__(self) -> str:
         return f"{type(self).__name__}({repr(self._by_name)})"
 
@@ -188,12 +187,17 @@ class JsonSchemaGenerator:
     types_used: dict[str, TypeLike]
     options: SchemaOptions
 
+    _context: Optional[ModuleType]
+    _classes: list[type]
+
     def __init__(self, options: Optional[SchemaOptions] = None):
         if options is None:
             self.options = SchemaOptions()
         else:
             self.options = options
         self.types_used = {}
+        self._context = None
+        self._classes = []
 
     @functools.singledispatchmethod
     def _metadata_to_schema(self, arg: object) -> Schema:
@@ -287,6 +291,26 @@ class JsonSchemaGenerator:
             # not a simple type
             return None
 
+    def _resolve_reference(self, data_type: Union[typing.ForwardRef, str]) -> TypeLike:
+        """
+        Returns the type that a forward reference stands for.
+
+        The name is looked up in the module that defines the class being processed, and as the name of a registered
+        type.
+        """
+
+        if self._context is not None:
+            try:
+                return evaluate_type(id_from_ref(data_type), self._context)
+            except NameError:
+                pass
+
+        identifier = id_from_ref(data_type)
+        true_type = JsonSchemaGenerator.type_catalog.find(identifier)
+        if true_type is None:
+            raise NameError(f"name {identifier!r} is not defined")
+        return true_type
+
     def type_to_schema(self, data_type: TypeLike, force_expand: bool = False) -> Schema:
         """
         Returns the JSON schema associated with a type.
@@ -302,6 +326,9 @@ class JsonSchemaGenerator:
         if schema is not None:
             return schema
 
+        if isinstance(data_type, (typing.ForwardRef, str)):
+            return self.type_to_schema(self._resolve_reference(data_type), force_expand=force_expand)
+
         # types registered in the type catalog of well-known types
         type_catalog = JsonSchemaGenerator.type_catalog
         if not force_expand and data_type in type_catalog:
@@ -330,18 +357,8 @@ class JsonSchemaGenerator:
             # type is a regular type
             typ = data_type
 
-        if isinstance(typ, typing.ForwardRef) or isinstance(typ, str):
-            if force_expand:
-                identifier, true_type = type_from_ref(typ)
-                return self.type_to_schema(true_type, force_expand=True)
-            else:
-                try:
-                    identifier, true_type = type_from_ref(typ)
-                    self.types_used[identifier] = true_type
-                except NameError:
-                    identifier = id_from_ref(typ)
-
-                return {"$ref": f"{self.options.definitions_path}{identifier}"}
+        if isinstance(typ, (typing.ForwardRef, str)):
+            return self.type_to_schema(self._resolve_reference(typ), force_expand=force_expand)
 
         if is_type_enum(typ):
             enum_type: type[enum.Enum] = typ
@@ -442,6 +459,22 @@ class JsonSchemaGenerator:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
             return {"const": self.type_to_schema(concrete_type, force_expand=True)}
 
+        if typ in self._classes:
+            # recursive class that is not registered
+            self.types_used.setdefault(typ.__name__, typ)
+            return {"$ref": f"{self.options.definitions_path}{typ.__name__}"}
+
+        context = self._context
+        self._classes.append(typ)
+        try:
+            return self._class_to_schema(typ)
+        finally:
+            self._classes.pop()
+            self._context = context
+
+    def _class_to_schema(self, typ: type) -> Schema:
+        "Returns the JSON schema associated with a class that has properties."
+
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
@@ -450,6 +483,9 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
+            # evaluate property types in the module in which the property is declared
+            self._context = sys.modules.get(get_declaring_class(typ, property_name).__module__)
+
             # rename property if an alias name is specified or the identifier clashes with a keyword
             output_name = python_field_to_json_property(property_name, property_type)
 
@@ -488,7 +524,7 @@ class JsonSchemaGenerator:
 
             properties[output_name] = property_def
 
-        schema = {"type": "object"}
+        schema: Schema = {"type": "object"}
         if len(properties) > 0:
             schema["properties"] = typing.cast(JsonType, properties)
             schema["additionalProperties"] = False
@@ -506,6 +542,10 @@ class JsonSchemaGenerator:
         :returns: The JSON schema associated with the type.
         """
 
+        if data_type not in JsonSchemaGenerator.type_catalog:
+            # recursive class that is not registered
+            return self.type_to_schema(data_type, force_expand=True)
+
         entry = JsonSchemaGenerator.type_catalog.get(data_type)
         if entry.schema is None:
             type_schema = self.type_to_schema(data_type, force_expand=True)
-- 
2.43.0


From c99df7a5aea45efb6a4a61d9a05613942ebac3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:17 +0000
Subject: [PATCH 23/63] fix: keep references of extra dependencies and exclude
 internal root in type topological sort

---
 strong_typing/topological.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..cfc68e7 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -65,6 +65,7 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
@@ -73,12 +74,17 @@ def type_topological_sort(
     graph = collector.graph
 
     if dependency_fn:
-        new_types: set[type] = set()
-        for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
-            references.update(dependent_types)
-            new_types.update(dependent_types)
-        for new_type in new_types:
-            graph[new_type] = set()
+        extra_edges: dict[type, list[type]] = {}
+        while pending := [typ for typ in graph if typ is not _ROOT and typ not in extra_edges]:
+            for typ in pending:
+                extra_edges[typ] = list(dependency_fn(typ))
+                collector.traverse_all(extra_edges[typ])
+        for source_type, dependent_types in extra_edges.items():
+            graph[source_type].update(dependent_types)
+            for dependent_type in dependent_types:
+                graph.setdefault(dependent_type, set())
+
+    # exclude artificial root node
+    graph.pop(_ROOT)
 
     return topological_sort(graph)
-- 
2.43.0


From 50d61ed49d29ac518bf99c1f4e2925380d7fdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:37 +0000
Subject: [PATCH 24/63] fix: collect nested references of inherited fields in
 the module that declares the field

---
 strong_typing/inspection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 1b7ba5c..3232dea 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -716,11 +716,13 @@ class TypeCollector:
 
         # type is a regular type
         if is_dataclass_type(typ) or is_type_enum(typ) or isinstance(typ, type):
-            context = sys.modules[typ.__module__]
             if is_dataclass_type(typ):
                 for field in dataclass_fields(typ):
+                    # evaluate nested references in the module in which the field is declared
+                    context = sys.modules[get_declaring_class(typ, field.name).__module__]
                     self.run(field.type, typ, context)
             else:
+                context = sys.modules[typ.__module__]
                 for _, field_type in get_resolved_hints(typ).items():
                     self.run(field_type, typ, context)
             return
-- 
2.43.0


From a075f141370352c46a403c1a2518a5bde54872c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 25/63] fix: collect types referenced by a type alias that
 refers to itself

---
 strong_typing/inspection.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 3232dea..76e6efd 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -626,6 +626,8 @@ class TypeCollector:
 
     graph: dict[type, set[type]]
 
+    _evaluating: set[tuple[str, str, type]]
+
     @property
     def references(self) -> set[type]:
         "Types collected by the type collector."
@@ -637,6 +639,7 @@ class TypeCollector:
 
     def __init__(self) -> None:
         self.graph = {_ROOT: set()}
+        self._evaluating = set()
 
     def traverse(self, typ: type) -> None:
         "Finds all dependent types of a type."
@@ -691,8 +694,18 @@ class TypeCollector:
             if module is None:
                 raise ValueError("missing context for evaluating types")
 
-            evaluated_type = evaluate_type(typ, module)
-            return self.run(evaluated_type, cls, module)
+            # stop at a type alias that refers to itself
+            name = typ if isinstance(typ, str) else typ.__forward_arg__
+            reference = (module.__name__, name, cls)
+            if reference in self._evaluating:
+                return
+
+            self._evaluating.add(reference)
+            try:
+                evaluated_type = evaluate_type(typ, module)
+                return self.run(evaluated_type, cls, module)
+            finally:
+                self._evaluating.remove(reference)
 
         # type is a special form
         if origin in [list, dict, frozenset, set, tuple, Union]:
-- 
2.43.0


From 2ff1f07d5b5aad6ceaaa8b0085b9096da1abcfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 26/63] fix: recognize annotated named tuple types

---
 strong_typing/inspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 76e6efd..1d769d1 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -189,11 +189,11 @@ def is_named_tuple_type(typ: Any) -> TypeGuard[type[NamedTuple]]:
     with a member named `_fields` that is a tuple whose items are all strings.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if not isinstance(typ, type):
         return False
 
-    typ = unwrap_annotated_type(typ)
-
     b = getattr(typ, "__bases__", None)
     if b is None:
         return False
-- 
2.43.0


From 18344be87d9ee7b433ed85494e999850b0e9e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 27/63] fix: unwrap annotated union types

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 1d769d1..5810356 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -343,7 +343,7 @@ def unwrap_union_types(typ: object) -> tuple[object, ...]:
     :returns: The inner types `T1`, `T2`, etc.
     """
 
-    return _unwrap_union_types(typ)
+    return _unwrap_union_types(unwrap_annotated_type(typ))
 
 
 def _unwrap_union_types(typ: object) -> tuple[object, ...]:
-- 
2.43.0


From e0c1aac40aa9cb9408bd86e9d3b567e2ab2b6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 28/63] fix: compare number of items in instance-of-generic
 check for tuples

---
 strong_typing/inspection.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 5810356..65ab82d 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -898,12 +898,11 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     elif origin_type is tuple:
         if not isinstance(obj, tuple):
             return False
-        return all(
-            is_generic_instance(item, tuple_item_type)
-            for tuple_item_type, item in zip(
-                (tuple_item_type for tuple_item_type in typing.get_args(typ)),
-                (item for item in obj),
-            )
+        tuple_item_types = typing.get_args(typ)
+        if len(tuple_item_types) == 2 and tuple_item_types[1] is Ellipsis:
+            return all(is_generic_instance(item, tuple_item_types[0]) for item in obj)
+        return len(obj) == len(tuple_item_types) and all(
+            is_generic_instance(item, tuple_item_type) for tuple_item_type, item in zip(tuple_item_types, obj)
         )
     elif origin_type is Union:
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
-- 
2.43.0


From 6c9b223ab9bd6af9f344154a1c63dc67ee729f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 29/63] fix: support annotated, literal and new-style union
 types in instance-of-generic check

---
 strong_typing/inspection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 65ab82d..77ee956 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -872,6 +872,12 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         else:
             return False
 
+    if is_type_annotated(typ):
+        return is_generic_instance(obj, unwrap_annotated_type(typ))
+
+    if typ is Any:
+        return True
+
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
@@ -904,8 +910,10 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         return len(obj) == len(tuple_item_types) and all(
             is_generic_instance(item, tuple_item_type) for tuple_item_type, item in zip(tuple_item_types, obj)
         )
-    elif origin_type is Union:
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
+    elif origin_type is Literal:
+        return any(type(obj) is type(value) and obj == value for value in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
     else:
-- 
2.43.0


From 75bbcbf0831e887f63b52a108d3107a34da83ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 30/63] fix: check members of annotated, literal, new-style
 union and well-known types recursively

---
 strong_typing/inspection.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 77ee956..20b3841 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -8,11 +8,13 @@ Type-safe data interchange for Python data classes.
 
 import dataclasses
 import datetime
+import decimal
 import enum
 import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -947,6 +949,9 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        if is_type_annotated(typ):
+            return self.check(unwrap_annotated_type(typ), obj)
+
         # check for well-known types
         if (
             typ is type(None)
@@ -959,7 +964,11 @@ class RecursiveChecker:
             or typ is datetime.date
             or typ is datetime.time
             or typ is datetime.timedelta
+            or typ is decimal.Decimal
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
+            or typ is Any
         ):
             return self.pred(typing.cast(type, typ), obj)
 
@@ -993,7 +1002,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif origin_type is Union:
+        elif _is_union_like(typ) or origin_type is Literal:
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 076486c13692a955f407594ab831d7031e1a221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 31/63] fix: keep enumeration values whose member names would
 clash

---
 strong_typing/classdef.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..6abfa63 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -147,6 +147,18 @@ def enum_safe_name(name: str) -> str:
     return name
 
 
+def enum_safe_names(values: list[str]) -> dict[str, str]:
+    "Maps unique enumeration member names to enumeration values."
+
+    names: dict[str, str] = {}
+    for value in values:
+        name = enum_safe_name(value)
+        while name in names:
+            name = f"{name}_v"
+        names[name] = value
+    return names
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -297,7 +309,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_safe_names(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From d4da325cfb02af89488a56ea921786496002334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 32/63] fix: permit definitions in a schema to refer to each
 other in any order and to define simple types

---
 strong_typing/classdef.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 6abfa63..330d920 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -187,12 +187,16 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
 
     top_node = json_to_object(JsonSchemaTopLevelObject, schema)
     if top_node.definitions is not None:
+        # references to a type that is yet to be defined must not resolve to a former type with the same name
+        for type_name in top_node.definitions:
+            if hasattr(module, type_name):
+                delattr(module, type_name)
+
         for type_name, type_node in top_node.definitions.items():
             type_def = node_to_typedef(module, type_name, type_node)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
@@ -218,7 +222,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             raise ValueError(f"invalid reference: {node.ref}")
 
         type_name = match_obj.group(1)
-        return TypeDef(getattr(module, type_name), dataclasses.MISSING)
+        return TypeDef(getattr(module, type_name, typing.ForwardRef(type_name)), dataclasses.MISSING)
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-- 
2.43.0


From b36f028a91858ebd7df320eb6d5bd068144cf396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 33/63] fix: create types from schema with properties that are
 Python keywords

---
 strong_typing/classdef.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 330d920..c447c6e 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -4,6 +4,7 @@ import datetime
 import decimal
 import enum
 import ipaddress
+import keyword
 import math
 import re
 import sys
@@ -353,10 +354,12 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
                 prop_type = type_def.type
             else:
                 prop_type = Union[(None, type_def.type)]
-            fields.append((prop_name, prop_type, dataclasses.field(default=type_def.default)))
+            # append an underscore to a property name that is a Python keyword
+            field_name = f"{prop_name}_" if keyword.iskeyword(prop_name) else prop_name
+            fields.append((field_name, prop_type, dataclasses.field(default=type_def.default)))
             prop_desc = prop_node.title or prop_node.description
             if prop_desc is not None:
-                params[prop_name] = DocstringParam(prop_name, prop_desc)
+                params[field_name] = DocstringParam(field_name, prop_desc)
 
         fields.sort(key=lambda t: t[2].default is not dataclasses.MISSING)
         if sys.version_info >= (3, 12):
-- 
2.43.0


From f6c2fe31bda7e4154035461d63fd7bb3e8d957bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 34/63] fix: keep objects without listed properties when
 flattening a schema

---
 strong_typing/classdef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index c447c6e..2bfea5f 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -416,7 +416,7 @@ class SchemaFlattener:
         target_reqs: list[str] = []
 
         for name, prop in source_props.items():
-            if not isinstance(prop, JsonSchemaObject):
+            if not isinstance(prop, JsonSchemaObject) or prop.properties is None:
                 target_props[name] = prop
                 if name in source_reqs:
                     target_reqs.append(name)
-- 
2.43.0


From 5250d4b92ae229b7c032972eaf494f3b3cae18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 35/63] fix: ignore docstring lines that start with a colon but
 are not a field

---
 strong_typing/docstring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 8871b93..667d5a0 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -278,7 +278,10 @@ def parse_text(text: str) -> Docstring:
         if not chunk:
             continue
 
-        args_chunk, desc_chunk = chunk.lstrip(":").split(":", 1)
+        args_chunk, separator, desc_chunk = chunk.lstrip(":").partition(":")
+        if not separator:
+            continue  # not a field
+
         args = args_chunk.split()
         desc = re.sub(r"\s+", " ", desc_chunk.strip())
 
-- 
2.43.0


From 1e99e1860ae56badc33357fb4d50d8ca8f1bd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 36/63] fix: print enumeration members in literal types as
 Python expressions

---
 strong_typing/name.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..f01b9c1 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -4,6 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
+import enum
 import sys
 import typing
 from types import ModuleType
@@ -64,6 +65,8 @@ class TypeFormatter:
 
         if self.value_transform is not None:
             return self.value_transform(value)
+        elif isinstance(value, enum.Enum):
+            return f"{type(value).__name__}.{value.name}"
         else:
             return repr(value)
 
-- 
2.43.0


From 2a6cff3439b6345e993c7412f513b713e4b1b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 37/63] fix: print empty tuple type as a Python expression

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index f01b9c1..b400650 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -155,7 +155,7 @@ class TypeFormatter:
             else:
                 origin_name = origin.__name__
 
-            args = ", ".join(self.python_type_to_str(t) for t in data_type_args)
+            args = ", ".join(self.python_type_to_str(t) for t in data_type_args) or "()"
             return f"{origin_name}[{args}]"
 
         if not isinstance(data_type, type):
-- 
2.43.0


From 510b0e52389cc9c92b729ed04421789018e867e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 38/63] fix: print all annotations of an annotated type in
 their original order

---
 strong_typing/name.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index b400650..f5ebe30 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -191,7 +191,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -201,14 +200,14 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
+                if metatuple[: len(auxiliary_metatuple)] == auxiliary_metatuple:
                     # type is an auxiliary type with extra annotations
-                    auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                    auxiliary_args = ", ".join(repr(m) for m in metatuple[len(auxiliary_metatuple) :])
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
             args = ", ".join(repr(m) for m in metatuple)
-            return f"Annotated[{self.plain_type_to_str(arg)}, {args}]"
+            return f"Annotated[{self.python_type_to_str(arg)}, {args}]"
         else:
             # type is a regular type
             return self.plain_type_to_str(data_type)
-- 
2.43.0


From 4ccdd6fe54eb68c89953358a0b3146d29a1e108f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:00 +0000
Subject: [PATCH 39/63] fix: create enumeration types with values that are not
 permitted as member names

---
 strong_typing/classdef.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 2bfea5f..99b8a48 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -143,7 +143,8 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    is_reserved = not name or name == "mro"
+    if is_dunder or is_sunder or is_reserved:  # provide an alternative for dunder, sunder and reserved names
         name = f"v{name}"
     return name
 
-- 
2.43.0


From 7d50abd3ce65f1c0e729182a34093425dea3efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 40/63] fix: read classes with a member called self

---
 strong_typing/deserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index e3781e9..ed85cee 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -716,7 +716,7 @@ class ClassDeserializer(RecursiveDeserializer[T]):
 
         return self.create(**field_values)
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         obj: T = create_object(self.class_type)
@@ -753,7 +753,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
 
         super().assign(property_parsers)
 
-    def create(self, **field_values: Any) -> NamedTuple:
+    def create(self, /, **field_values: Any) -> NamedTuple:
         return typing.cast(NamedTuple, self.class_type(**field_values))
 
 
@@ -803,7 +803,7 @@ class DataclassDeserializer(ClassDeserializer[T]):
 class FrozenDataclassDeserializer(DataclassDeserializer[T]):
     "De-serializes a frozen data class from a JSON `object`."
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, /, **field_values: Any) -> T:
         "Instantiates an object with a collection of property values."
 
         # create object instance without calling `__init__`
-- 
2.43.0


From 284e9b3a9f00255d7c7e5da61c78046a3d72c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:34 +0000
Subject: [PATCH 41/63] fix: keep the format of auxiliary types with further
 annotations in schema

---
 strong_typing/auxiliary.py | 21 +++++++++++++++++++++
 strong_typing/schema.py    |  8 +++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index f112c8e..6099127 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -212,3 +212,24 @@ def get_auxiliary_format(data_type: object) -> Optional[str]:
     "Returns the JSON format string corresponding to an auxiliary type."
 
     return _auxiliary_types.get(data_type)
+
+
+def split_auxiliary_type(data_type: object) -> tuple[Optional[str], tuple[object, ...]]:
+    """
+    Recognizes an auxiliary type that may have been extended with further annotations.
+
+    :param data_type: A type annotated with one or more annotations.
+    :returns: The JSON format string corresponding to the auxiliary type (if any), and any further annotations.
+    """
+
+    metadata: tuple[object, ...] = getattr(data_type, "__metadata__", ())
+    for auxiliary_type, auxiliary_name in _auxiliary_types.items():
+        if typing.get_args(auxiliary_type)[0] is not typing.get_args(data_type)[0]:
+            continue
+
+        auxiliary_metadata: tuple[object, ...] = getattr(auxiliary_type, "__metadata__", ())
+        count = len(auxiliary_metadata)
+        if metadata[:count] == auxiliary_metadata:
+            return auxiliary_name, metadata[count:]
+
+    return None, metadata
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 8b0fd3a..0fe4700 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -23,7 +23,7 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, split_auxiliary_type
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
@@ -346,12 +346,10 @@ class JsonSchemaGenerator:
             schema = self._simple_type_to_schema(typ)
             if schema is not None:
                 # recognize well-known auxiliary types
-                fmt = get_auxiliary_format(data_type)
+                fmt, extra_metadata = split_auxiliary_type(data_type)
                 if fmt is not None:
                     schema.update({"format": fmt})
-                    return schema
-                else:
-                    return self._with_metadata(schema, metadata)
+                return self._with_metadata(schema, extra_metadata)
 
         else:
             # type is a regular type
-- 
2.43.0


From 44bf88d31d7849cdf641d64b54fd6365e9d1dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:28 +0000
Subject: [PATCH 42/63] fix: resolve forward references in annotated types when
 de-serializing

---
 strong_typing/deserializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index ed85cee..cfb5dd3 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -36,7 +36,6 @@ from .inspection import (
     is_dataclass_instance,
     is_dataclass_type,
     is_named_tuple_type,
-    is_type_annotated,
     is_type_literal,
     is_type_optional,
     unwrap_annotated_type,
@@ -907,6 +906,7 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
     cache_key: Optional[tuple[Any, ...]] = None
 
+    typ = unwrap_annotated_type(typ)
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
@@ -915,7 +915,7 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
         cache_key = (context.__name__, name, dataclasses.astuple(options))
         typ = evaluate_type(typ, context)
 
-    typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
+        typ = unwrap_annotated_type(typ)
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
         cache_key = (typ, dataclasses.astuple(options))
-- 
2.43.0


From b1ff87dddb18316d427a8a742f5505451cabbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:31 +0000
Subject: [PATCH 43/63] fix: generate valid schema for tuple types without
 items

An empty list of items is not permitted by the meta-schema, such that no schema could be generated for a type that
has a member of type `tuple[()]`.
---
 strong_typing/schema.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 0fe4700..1a4fb15 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -435,12 +435,15 @@ class JsonSchemaGenerator:
             }
         elif origin_type is tuple:
             args = typing.get_args(typ)
-            return {
+            tuple_schema: Schema = {
                 "type": "array",
                 "minItems": len(args),
                 "maxItems": len(args),
-                "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
+            if args:
+                # meta-schema does not permit an empty list of items
+                tuple_schema["prefixItems"] = [self.type_to_schema(member_type) for member_type in args]
+            return tuple_schema
         elif origin_type is Literal:
             literal_values = [object_to_json(value) for value in typing.get_args(typ)]  # unpack values of literal type
             literal_types = list(dict.fromkeys(type(value) for value in literal_values))
-- 
2.43.0


From 83e7d7651afa6209e42ccd6f3bab4b641c494e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:35 +0000
Subject: [PATCH 44/63] fix: reference registered types that are annotated in
 schema

A registered type that was annotated, e.g. as a member with an alias name, was written out in place, and its custom
schema was lost.
---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 1a4fb15..d1dde9f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -351,6 +351,10 @@ class JsonSchemaGenerator:
                     schema.update({"format": fmt})
                 return self._with_metadata(schema, extra_metadata)
 
+            if not force_expand and typ in type_catalog:
+                # annotations do not affect how a user-defined type is referenced
+                return self.type_to_schema(typ)
+
         else:
             # type is a regular type
             typ = data_type
-- 
2.43.0


From 1c16a54bbc5fae911ae9e44bfcee94ccd2e79dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 45/63] fix: refuse timestamps whose time zone does not know
 its offset

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index f5936da..0826be9 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -83,7 +83,7 @@ class BytesSerializer(Serializer[bytes]):
 
 class DateTimeSerializer(Serializer[datetime.datetime]):
     def generate(self, obj: datetime.datetime) -> str:
-        if obj.tzinfo is None:
+        if obj.utcoffset() is None:
             raise JsonValueError(f"timestamp lacks explicit time zone designator: {obj}")
         fmt = obj.isoformat()
         if fmt.endswith("+00:00"):
-- 
2.43.0


From ad60a8a9940d12d506b7932558e82dd353ab9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 46/63] fix: use from_json method of named tuples and
 enumerations

---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index cfb5dd3..ac905c0 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -1022,17 +1022,17 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # check if object has custom serialization method
+    convert_func = getattr(typ, "from_json", None)
+    if callable(convert_func):
+        return CustomDeserializer(convert_func)
+
     if issubclass(typ, enum.Enum):
         return EnumDeserializer(typ)
 
     if is_named_tuple_type(typ):
         return NamedTupleDeserializer(typ, options)
 
-    # check if object has custom serialization method
-    convert_func = getattr(typ, "from_json", None)
-    if callable(convert_func):
-        return CustomDeserializer(convert_func)
-
     if is_dataclass_type(typ):
         dataclass_params = getattr(typ, "__dataclass_params__", None)
         if dataclass_params is not None and dataclass_params.frozen:
-- 
2.43.0


From 684c7139becaac6d59b2633e81541e1f85616a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:26 +0000
Subject: [PATCH 47/63] fix: keep defaults of constants when creating types
 from schema

---
 strong_typing/classdef.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 99b8a48..3294286 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -228,14 +228,14 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(bool, node.default))
 
         default = json_to_value(bool, node.default)
         return TypeDef(bool, default)
 
     elif isinstance(node, JsonSchemaInteger):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(int, node.default))
 
         integer_type: TypeLike
         if node.format == "int16":
@@ -257,7 +257,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaNumber):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(float, node.default))
 
         number_type: TypeLike
         if node.format == "float32":
@@ -293,7 +293,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaString):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(str, node.default))
 
         string_type: TypeLike
         if node.format == "date-time":
-- 
2.43.0


From 6ba1d4b77714b48f7cb6c4a969ffa8d7c49ca1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 48/63] fix: keep enumeration values whose member names would
 be private

---
 strong_typing/classdef.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 3294286..05def7a 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -143,8 +143,9 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
+    is_private = re.match(r"_\w+__\w", name) is not None
     is_reserved = not name or name == "mro"
-    if is_dunder or is_sunder or is_reserved:  # provide an alternative for dunder, sunder and reserved names
+    if is_dunder or is_sunder or is_private or is_reserved:  # provide an alternative for special names
         name = f"v{name}"
     return name
 
-- 
2.43.0


From 38b84c2025db36f8c3034f0d6fd216cd1fb5b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:56 +0000
Subject: [PATCH 49/63] fix: sort graphs with long paths

---
 strong_typing/topological.py | 38 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index cfc68e7..8834fae 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -27,21 +27,29 @@ def topological_sort(graph: dict[T, set[T]]) -> list[T]:
 
     seen: dict[T, bool] = {}
 
-    def _visit(n: T) -> None:
-        status = seen.get(n)
-        if status is not None:
-            if status:  # node has a permanent mark
-                return
-            else:  # node has a temporary mark
-                raise RuntimeError(f"cycle detected in graph for node {n}")
-
-        seen[n] = False  # apply temporary mark
-        for m in graph[n]:  # visit all adjacent nodes
-            if m != n:  # ignore self-referencing nodes
-                _visit(m)
-
-        seen[n] = True  # apply permanent mark
-        ordered.append(n)
+    def _visit(root: T) -> None:
+        if root in seen:
+            return
+
+        seen[root] = False  # apply temporary mark
+        path = [(root, iter(graph[root]))]
+        while path:
+            n, adjacent = path[-1]
+            for m in adjacent:  # visit all adjacent nodes
+                if m == n:  # ignore self-referencing nodes
+                    continue
+
+                status = seen.get(m)
+                if status is None:
+                    seen[m] = False  # apply temporary mark
+                    path.append((m, iter(graph[m])))
+                    break
+                elif not status:  # node has a temporary mark
+                    raise RuntimeError(f"cycle detected in graph for node {m}")
+            else:
+                seen[n] = True  # apply permanent mark
+                ordered.append(n)
+                path.pop()
 
     for n in graph.keys():
         _visit(n)
-- 
2.43.0


From 3c32b7580384eaf48a2c942d8662503713c61a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 50/63] fix: generate schema for types with annotations that
 are not hashable

---
 strong_typing/schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index d1dde9f..d605cfd 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -131,8 +131,12 @@ class TypeCatalog:
             fwd: typing.ForwardRef = data_type
             name = fwd.__forward_arg__
             return name in self._by_name
-        else:
+
+        try:
             return data_type in self._by_type
+        except TypeError:
+            # type has an annotation that is not hashable, and cannot have been registered
+            return False
 
     def add(
         self,
-- 
2.43.0


From 43575b56355c4d0af182394cee830247f281ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:16 +0000
Subject: [PATCH 51/63] fix: print types with annotations that are not hashable

---
 strong_typing/auxiliary.py | 6 +++++-
 strong_typing/name.py      | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index 6099127..b1e0dce 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -211,7 +211,11 @@ for var in dir(module):
 def get_auxiliary_format(data_type: object) -> Optional[str]:
     "Returns the JSON format string corresponding to an auxiliary type."
 
-    return _auxiliary_types.get(data_type)
+    try:
+        return _auxiliary_types.get(data_type)
+    except TypeError:
+        # type has an annotation that is not hashable, unlike annotations of auxiliary types
+        return None
 
 
 def split_auxiliary_type(data_type: object) -> tuple[Optional[str], tuple[object, ...]]:
diff --git a/strong_typing/name.py b/strong_typing/name.py
index f5ebe30..ef51c23 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -10,7 +10,7 @@ import typing
 from types import ModuleType
 from typing import Any, Callable, Literal, Optional
 
-from .auxiliary import ParamSpec, _auxiliary_types
+from .auxiliary import ParamSpec, _auxiliary_types, get_auxiliary_format
 from .inspection import (
     TypeLike,
     evaluate_type,
@@ -180,7 +180,7 @@ class TypeFormatter:
             return f"[{items}]"
 
         # use compact name for alias types
-        name = _auxiliary_types.get(data_type)
+        name = get_auxiliary_format(data_type)
         if name is not None:
             return name
 
@@ -233,7 +233,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     """
 
     # use compact name for alias types
-    name = _auxiliary_types.get(data_type)
+    name = get_auxiliary_format(data_type)
     if name is not None:
         return name
 
-- 
2.43.0


From da88a355fccf68b833aeb8aa38b372545021e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:40 +0000
Subject: [PATCH 52/63] fix: name annotated composite types

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index ef51c23..c3a0140 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -242,7 +242,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     if metadata is not None:
         # type is Annotated[T, ...]
         arg = typing.get_args(data_type)[0]
-        return python_type_to_name(arg)
+        return python_type_to_name(arg, force=force)
 
     if force:
         # generic types
-- 
2.43.0


From 052900f93c137681ec430347d0e4cda96fa34b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 53/63] fix: transform types referenced by name in a generic
 type

---
 strong_typing/name.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c3a0140..49fe542 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -122,6 +122,10 @@ class TypeFormatter:
 
             if data_type.isidentifier() and data_type in self.context.__dict__:
                 # simple type name that is defined in the current context
+                named_type = self.context.__dict__[data_type]
+                if isinstance(named_type, type) and self.type_transform is not None:
+                    return self.type_transform(named_type)
+
                 return data_type
 
             return self.python_type_to_str(evaluate_type(data_type, self.context))
-- 
2.43.0


From 20b7aaf00127e7d84238028a16c3c9df481659e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:29 +0000
Subject: [PATCH 54/63] fix: recurse into homogeneous tuples of arbitrary
 length

---
 strong_typing/inspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 20b3841..afe6915 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -995,10 +995,13 @@ class RecursiveChecker:
         elif origin_type is tuple:
             if not isinstance(obj, tuple):
                 raise TypeError(f"expected `tuple` but got: {obj}")
+            tuple_item_types = typing.get_args(typ)
+            if len(tuple_item_types) == 2 and tuple_item_types[1] is Ellipsis:
+                return all(self.check(tuple_item_types[0], item) for item in obj)
             return all(
                 self.check(tuple_item_type, item)
                 for tuple_item_type, item in zip(
-                    (tuple_item_type for tuple_item_type in typing.get_args(typ)),
+                    (tuple_item_type for tuple_item_type in tuple_item_types),
                     (item for item in obj),
                 )
             )
-- 
2.43.0


From 502b5da6ea8cde79c70aae52e0a57487bc83984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 55/63] fix: the auto-generated docstring of a named tuple is
 not a description of the type

---
 strong_typing/docstring.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 667d5a0..61b0414 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -26,6 +26,7 @@ from .inspection import (
     get_class_properties,
     get_signature,
     is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
 )
 
@@ -316,7 +317,7 @@ def parse_text(text: str) -> Docstring:
 
 
 def has_default_docstring(typ: SupportsDoc) -> bool:
-    "Check if class has the auto-generated string assigned by @dataclass."
+    "Check if class has the auto-generated string assigned by @dataclass or named tuple."
 
     if not isinstance(typ, type):
         return False
@@ -324,6 +325,11 @@ def has_default_docstring(typ: SupportsDoc) -> bool:
     if is_dataclass_type(typ):
         return typ.__doc__ is not None and re.match(f"^{re.escape(typ.__name__)}[(].*[)]$", typ.__doc__) is not None
 
+    if is_named_tuple_type(typ):
+        # a trailing comma follows the name of a single field
+        params = ", ".join(typ._fields) + ("," if len(typ._fields) == 1 else "")
+        return typ.__doc__ is not None and typ.__doc__ == f"{typ.__name__}({params})"
+
     if is_type_enum(typ):
         return typ.__doc__ is not None and typ.__doc__ == "An enumeration."
 
-- 
2.43.0


From b3e0c1af1e25a0d3c889d1ebe3f05fbcd4e20656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:57 +0000
Subject: [PATCH 56/63] fix: names of types are evaluated in the module of the
 type only, not among local variables of the library

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index afe6915..583b6d6 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -108,21 +108,21 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
 
     if isinstance(typ, str):
         # evaluate data-class field whose type annotation is a string
-        return eval(typ, module.__dict__, locals())
+        return eval(typ, module.__dict__)
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
         elif sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},  # a reference that may be shared between modules is evaluated anew
                 type_params=(),
                 recursive_guard=frozenset(),
             )
         else:
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},  # a reference that may be shared between modules is evaluated anew
                 recursive_guard=frozenset(),
             )
     else:
-- 
2.43.0


From 92ae74c5f320dcfd14d595791301cbadaae7f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:04 +0000
Subject: [PATCH 57/63] fix: a data-class field that is looked up by name
 retains its default value

---
 strong_typing/inspection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 583b6d6..c3f3e1f 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -172,7 +172,8 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, get_declaring_class(cls, field.name)))
+            field_type = evaluate_member_type(field.type, get_declaring_class(cls, field.name))
+            return DataclassField(field.name, field_type, field.default)
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 1942862b92c76aa4e3354ea7f2401b8644ff253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 58/63] fix: data-class members may refer to a class that is
 nested in the class

---
 strong_typing/inspection.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index c3f3e1f..658bf76 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -159,12 +159,22 @@ class DataclassField:
         self.default = default
 
 
+def _get_dataclass_field(
+    cls: type[DataclassInstance], field: dataclasses.Field, resolved_types: dict[str, type]
+) -> DataclassField:
+    if field.name in resolved_types:
+        field_type = resolved_types[field.name]
+    else:
+        field_type = evaluate_member_type(field.type, get_declaring_class(cls, field.name))
+    return DataclassField(field.name, field_type, field.default)
+
+
 def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
+    resolved_types = _get_resolved_field_types(cls)
     for field in dataclasses.fields(cls):
-        field_type = evaluate_member_type(field.type, get_declaring_class(cls, field.name))
-        yield DataclassField(field.name, field_type, field.default)
+        yield _get_dataclass_field(cls, field, resolved_types)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
@@ -172,8 +182,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            field_type = evaluate_member_type(field.type, get_declaring_class(cls, field.name))
-            return DataclassField(field.name, field_type, field.default)
+            return _get_dataclass_field(cls, field, _get_resolved_field_types(cls))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
@@ -568,6 +577,19 @@ def get_declaring_class(typ: type, name: str) -> type:
     return typ
 
 
+def _get_resolved_field_types(typ: type) -> dict[str, type]:
+    """
+    Returns the types of data-class fields, evaluated in the scope of the class that declares the field.
+
+    :returns: Types by field name, or an empty dictionary if there is a name that is not available at run time.
+    """
+
+    try:
+        return get_resolved_hints(unwrap_annotated_type(typ))
+    except NameError:
+        return {}
+
+
 def _get_field_type(typ: type, field: dataclasses.Field) -> TypeLike:
     "Returns the type of a data-class field, evaluating postponed annotations in the module that declares the field."
 
@@ -583,7 +605,11 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
     if is_dataclass_type(typ):
-        return ((field.name, _get_field_type(typ, field)) for field in dataclasses.fields(typ))
+        resolved_types = _get_resolved_field_types(typ)
+        return (
+            (field.name, resolved_types[field.name] if field.name in resolved_types else _get_field_type(typ, field))
+            for field in dataclasses.fields(typ)
+        )
     else:
         resolved_hints = get_resolved_hints(typ)
         return resolved_hints.items()
-- 
2.43.0


From 161dfddd734d4639a0a6f9445f3f190e0a82fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 59/63] fix: a member that a data class declares anew may be
 documented anew

---
 strong_typing/docstring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 61b0414..70dcb5d 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -393,8 +393,11 @@ def check_dataclass_docstring(typ: type[DataclassInstance], docstring: Docstring
 
     class_name = typ.__name__
 
+    # members of a base class that are declared anew may be documented anew
+    redeclared = typ.__dict__.get("__annotations__", {})
+
     for name in docstring.params:
-        if name not in properties:
+        if name not in properties and not (name in base_props and name in redeclared):
             raise TypeError(f"doc-string parameter `{name}` is not a member of the data-class `{class_name}`")
 
     if not strict:
-- 
2.43.0


From bcb0b651ac138f20f38d00ce5068e0a5506b20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:07 +0000
Subject: [PATCH 60/63] fix: types that share an identifier have schema
 definitions of their own

---
 strong_typing/schema.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index d605cfd..6f4dea8 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -315,6 +315,16 @@ class JsonSchemaGenerator:
             raise NameError(f"name {identifier!r} is not defined")
         return true_type
 
+    def _type_to_reference(self, data_type: TypeLike, identifier: str) -> Schema:
+        "Returns a reference to the definition of a type. Types that share an identifier have definitions of their own."
+
+        name = identifier
+        count = 1
+        while self.types_used.setdefault(name, data_type) != data_type:
+            count += 1
+            name = f"{identifier}{count}"
+        return {"$ref": f"{self.options.definitions_path}{name}"}
+
     def type_to_schema(self, data_type: TypeLike, force_expand: bool = False) -> Schema:
         """
         Returns the JSON schema associated with a type.
@@ -337,9 +347,7 @@ class JsonSchemaGenerator:
         type_catalog = JsonSchemaGenerator.type_catalog
         if not force_expand and data_type in type_catalog:
             # user-defined type
-            identifier = type_catalog.get(data_type).identifier
-            self.types_used.setdefault(identifier, data_type)
-            return {"$ref": f"{self.options.definitions_path}{identifier}"}
+            return self._type_to_reference(data_type, type_catalog.get(data_type).identifier)
 
         # unwrap annotated types
         metadata = getattr(data_type, "__metadata__", None)
@@ -470,8 +478,7 @@ class JsonSchemaGenerator:
 
         if typ in self._classes:
             # recursive class that is not registered
-            self.types_used.setdefault(typ.__name__, typ)
-            return {"$ref": f"{self.options.definitions_path}{typ.__name__}"}
+            return self._type_to_reference(typ, typ.__name__)
 
         context = self._context
         self._classes.append(typ)
-- 
2.43.0


From 8a8d1fa3adf0a751b5a84962b902682b0845b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:05 +0000
Subject: [PATCH 61/63] fix: escape identifiers in schema references

---
 strong_typing/schema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 6f4dea8..466f1f6 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -323,7 +323,10 @@ class JsonSchemaGenerator:
         while self.types_used.setdefault(name, data_type) != data_type:
             count += 1
             name = f"{identifier}{count}"
-        return {"$ref": f"{self.options.definitions_path}{name}"}
+
+        # escape characters that have a special meaning in a JSON pointer or URI fragment
+        pointer = name.replace("~", "~0").replace("/", "~1").replace("%", "%25")
+        return {"$ref": f"{self.options.definitions_path}{pointer}"}
 
     def type_to_schema(self, data_type: TypeLike, force_expand: bool = False) -> Schema:
         """
-- 
2.43.0


From 1f8655c24b23732892ca83ab3e424a553cf742b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:52 +0000
Subject: [PATCH 62/63] fix: class variables are not members of objects

---
 strong_typing/inspection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 658bf76..27373cf 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -565,7 +565,13 @@ def get_module_functions(module: types.ModuleType) -> list[types.FunctionType]:
 
 
 def get_resolved_hints(typ: type) -> dict[str, type]:
-    return typing.get_type_hints(typ, include_extras=True)
+    "Returns type annotations of object members, with class variables omitted."
+
+    return {
+        name: hint
+        for name, hint in typing.get_type_hints(typ, include_extras=True).items()
+        if hint is not typing.ClassVar and typing.get_origin(hint) is not typing.ClassVar
+    }
 
 
 def get_declaring_class(typ: type, name: str) -> type:
-- 
2.43.0


From 0315c8bbcd33c8048cc93316c2ae10660861057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:52 +0000
Subject: [PATCH 63/63] fix: leave out internal attributes of protocol classes
 when serializing

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27373cf..1fde339 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -801,7 +801,7 @@ def is_reserved_property(name: str) -> bool:
         return True
 
     # filter built-in special names
-    if name in ["_abc_impl"]:
+    if name in ["_abc_impl", "_is_protocol", "_is_runtime_protocol"]:
         return True
 
     return False
-- 
2.43.0

