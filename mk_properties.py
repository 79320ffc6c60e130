#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to review and edit)."""
import json, pathlib

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": ["strong_typing/" + f for f in files],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop(
    "C01", "Serialize then deserialize returns an equal object",
    "For every object whose type is built from the supported types (the README conversion table: simple and date/time types, enumerations, "
    "literals, lists, sets, dictionaries, tuples, optionals, disjoint unions, data classes of every flavour, named tuples, annotated plain classes, "
    "recursive classes), converting it to JSON, writing and re-reading JSON text, and deserializing with the same type yields an equal object of exactly the same types. "
    "No component is lost, reordered (outside sets), rounded or changed in type.",
    ["inputs", "programs"],
    "all types of the conversion table composed to a bounded nesting depth, all values over boundary alphabets per leaf, all class flavours",
    "The tests round-trip a handful of fixed classes with one value each; the guarantee ranges over every composition of types and every boundary value.",
    ["serializer.py", "deserializer.py", "serialization.py", "inspection.py", "mapping.py"],
    [("per-type serializer engines", "serializer.py:_create_serializer"), ("per-type deserializer engines", "deserializer.py:_create_deserializer")],
    ["serialization.object_to_json", "serialization.json_to_object", "serialization.json_to_generic", "serialization.json_dump_string", "serialization.json_dump"],
)
prop(
    "C02", "Serialized form is pure JSON as the conversion table documents",
    "The serializer's output consists only of JSON values (null, booleans, numbers, strings, lists, string-keyed objects) and is exactly the documented representation: "
    "ISO 8601 strings for dates, times and durations (UTC timestamps end in Z), Base64 for bytes, canonical text for UUIDs and IP addresses, the member value for enumerations, "
    "element-wise arrays and objects for containers, and one property per non-null field for classes. Timestamps without a time zone are refused.",
    ["inputs", "programs"],
    "all supported types and boundary values within the bounds of the universe, typed and untyped container paths",
    "Tests pin the representation of single values; a different code path (typed vs. untyped container, field vs. top level) or boundary value can deviate unnoticed because encoder and decoder may agree on a wrong form.",
    ["serializer.py", "mapping.py"],
    [("serializer engines", "serializer.py"), ("dynamic dispatch for unions and untyped containers", "serializer.py:object_to_json")],
    ["serialization.object_to_json", "serializer.create_serializer"],
)
prop(
    "C03", "Deserialization is type-safe: the declared type or a documented error",
    "For every JSON document and every supported target type, deserialization either returns an object that conforms recursively to the declared type and represents exactly that document, "
    "or raises one of the documented errors (missing/unrecognized member, type mismatch, invalid value or another ValueError). JSON kinds are never confused: a boolean is never accepted as a number, nor a "
    "number or null as text, nor an array of the wrong length as a fixed-size tuple.",
    ["inputs", "programs"],
    "all small JSON documents and all single-point corruptions of valid documents, for all supported types within bounds",
    "Tests try a dozen mismatches against the simplest types; the set of malformed documents is unbounded and errors deep inside containers are not exercised.",
    ["deserializer.py", "serialization.py", "exception.py"],
    [("runtime kind checks in every engine", "deserializer.py"), ("length check", "deserializer.py:TupleDeserializer.parse")],
    ["serialization.json_to_object", "serialization.json_to_generic"],
)
prop(
    "C04", "Missing, null and present members follow the field's declaration",
    "When a class is read from a JSON object, a present member always determines the field's value; a missing required member is refused with a key error and a null one with a value error; a missing or null optional member "
    "without a default gives None; a missing member with a default or default factory gives exactly that default. This holds for every class flavour, inherited fields, every field order and every combination of present and absent members.",
    ["inputs", "configurations"],
    "all combinations of field declarations (required, optional, default, factory) and member states (missing, null, valid) for up to three fields, all class flavours",
    "Tests only cover all-present or all-missing objects of a few classes, not the cross product of declarations and member states.",
    ["deserializer.py"],
    [("field engines", "deserializer.py:RequiredFieldDeserializer, OptionalFieldDeserializer, DefaultFieldDeserializer, DefaultFactoryFieldDeserializer")],
    ["serialization.json_to_object"],
)
prop(
    "C05", "Unknown members are refused, or ignored when asked, at every depth",
    "Without options, a JSON object with a member that no field of the target class maps to is refused with a key error wherever that class occurs (nested fields, lists, dictionaries, tuples, unions). "
    "With unknown members skipped by option, the result equals that of the same document without those members, at every depth; the option never affects other calls and never hides any other error.",
    ["inputs", "configurations", "histories"],
    "all placements of unknown members in nested documents, both option settings, every class flavour and both orders of calls",
    "Tests check a single top-level unknown member with default options; the option itself is not tested at all.",
    ["deserializer.py"],
    [("comparison of member names with the field map", "deserializer.py:ClassDeserializer.parse"), ("option passed to nested engines", "deserializer.py:RecursiveDeserializer.get_deserializer")],
    ["serialization.json_to_object", "deserializer.DeserializerOptions", "deserializer.create_deserializer"],
)
prop(
    "C06", "Union values resolve to the first matching, or the tagged, member type",
    "Deserializing an untagged union yields the result of the first member type (in declaration order) that accepts the document, however the earlier members rejected it, and fails with a key error only if none accepts it. "
    "For unions whose member classes all carry literal-typed discriminating properties, the tag selects the class independently of declaration order, and unknown, missing or malformed tags are refused with a documented error.",
    ["inputs", "programs"],
    "all unions of two or three members over the type alphabet in every order, all documents valid for any member plus corruptions, all placements of the union",
    "Tests try five hand-picked unions; whether an earlier member's failure mode (malformed text, unknown enumeration value, wrong length, null member) blocks a later member is untested.",
    ["deserializer.py"],
    [("trial loop", "deserializer.py:UnionDeserializer.parse"), ("tag table", "deserializer.py:TaggedUnionDeserializer")],
    ["serialization.json_to_generic"],
)
prop(
    "C07", "One JSON name per field, in every service",
    "A field's JSON name - its alias if it has one, else its identifier with the trailing underscore removed if that leaves a Python keyword, else its identifier - is the same when serializing, deserializing, "
    "generating a schema and discriminating unions, for data classes of every flavour, named tuples and annotated plain classes. No other identifier is changed.",
    ["inputs", "programs", "configurations"],
    "all Python keywords, underscore variants and soft keywords, aliases under every annotation wrapping, for every class flavour, in all four services",
    "Tests call the name mapping on one identifier and one alias; no test compares the names the services use for the same class.",
    ["mapping.py", "serializer.py", "deserializer.py", "schema.py"],
    [("shared name mapping", "mapping.py:python_field_to_json_property")],
    ["mapping.python_field_to_json_property", "serialization.object_to_json", "serialization.json_to_object", "schema.classdef_to_schema"],
)
prop(
    "C08", "Equivalent spellings of a type annotation behave identically",
    "A class behaves the same in serialization, deserialization and schema generation however its member types are spelled: directly, as quoted strings, as forward references inside generics, under postponed evaluation of annotations, "
    "with Optional/Union or the | operator, wrapped in Annotated, or inherited from a class in another module. Names are resolved in the module that defines the class (or the caller's module for top-level expressions).",
    ["programs", "configurations"],
    "the cross product of spelling styles, class flavours, member types (including recursive and registered ones) and module layouts",
    "Each test class uses one spelling in one module; combinations of spelling, alias, inheritance and module are not exercised.",
    ["inspection.py", "serializer.py", "deserializer.py", "schema.py", "serialization.py"],
    [("forward reference evaluation", "inspection.py:evaluate_type, get_resolved_hints"), ("caller context", "serialization.py:json_to_generic")],
    ["serialization.object_to_json", "serialization.json_to_object", "schema.classdef_to_schema"],
)
prop(
    "C09", "What the serializer emits always validates against the generated schema",
    "For every supported type and every value of it (respecting its annotated constraints), the JSON produced by serialization is accepted by object validation against that type's generated schema.",
    ["inputs", "programs"],
    "all types within bounds for which a schema can be generated, all boundary values",
    "Tests validate four fixed objects; format keywords, name mangling, optional items, enumeration keys and addresses are never validated.",
    ["schema.py", "serializer.py"],
    [("schema generator", "schema.py:JsonSchemaGenerator.type_to_schema"), ("validation", "schema.py:validate_object")],
    ["schema.validate_object", "serialization.object_to_json"],
)
prop(
    "C10", "The generated schema admits exactly the documents the type describes",
    "A document is accepted by validation against a type's generated schema if and only if it has the documented shape: right JSON kind at every position, no unknown properties, all non-optional properties present, "
    "enumeration and literal values listed, tuple length exact, set items unique, dictionary keys from the enumeration, and annotated bounds (integer range, precision, minimum and maximum length) satisfied.",
    ["inputs", "programs"],
    "all small JSON documents and single-point corruptions of valid documents, for all schema-supported types within bounds and every boundary of each annotated constraint",
    "Tests compare generated schema text for a few types and never test that a bad document is rejected.",
    ["schema.py", "auxiliary.py"],
    [("schema generator", "schema.py:JsonSchemaGenerator.type_to_schema"), ("annotation constraints", "schema.py:JsonSchemaGenerator._metadata_to_schema")],
    ["schema.classdef_to_schema", "schema.validate_object"],
)
prop(
    "C11", "Generated schemas are closed, meta-valid and reference registered types",
    "Every generated schema validates against the meta-schema of each supported draft, every reference in it resolves to a definition contained in it, every definition is used, and each registered type occurs only as a reference to one definition "
    "holding its own (custom or derived) schema, whatever the types are named (types of the same name have definitions of their own) and whatever the reference structure among them, including cycles.",
    ["programs", "configurations"],
    "all reference graphs between up to three registered or unregistered classes (by direct, optional, container or forward references), all drafts",
    "Tests check one self-recursive type and one custom type; mutual recursion, references reached only through other definitions and forward references are not covered.",
    ["schema.py"],
    [("work list of used types", "schema.py:JsonSchemaGenerator.classdef_to_schema"), ("type catalog", "schema.py:TypeCatalog")],
    ["schema.classdef_to_schema", "schema.JsonSchemaGenerator.classdef_to_schema", "schema.register_schema"],
    state=[("type catalog", "maps registered types to schema, name and examples", "schema.py:TypeCatalog")],
)
prop(
    "C12", "Schema generation has no memory",
    "The schema generated for a type depends only on the type, the options and the registered types: repeating the call, generating other schemas before, failing in between, re-using one generator for several types, or modifying previously returned schemas never changes the result.",
    ["histories"],
    "all sequences of generate, mutate-result, fail and register operations up to a bounded length, on shared and separate generators",
    "Every test generates each schema once; no test modifies a returned schema or repeats a call after a failure.",
    ["schema.py"],
    [("defensive copies of catalog entries", "schema.py:JsonSchemaGenerator._type_to_schema_with_lookup"), ("reset of per-call state", "schema.py:JsonSchemaGenerator.classdef_to_schema")],
    ["schema.classdef_to_schema", "schema.JsonSchemaGenerator"],
    state=[("types in use", "types to be expanded into definitions by the current call", "schema.py:JsonSchemaGenerator.types_used")],
)
prop(
    "C13", "Serialization and deserialization have no memory",
    "The outcome of a serialization or deserialization call depends only on its type, data, context and options, never on which calls came before: same-named classes, redefined modules, different or later modified options, and earlier failures (including for types that cannot be handled) "
    "leave all later outcomes unchanged.",
    ["histories"],
    "all sequences up to a bounded length of operations over classes with colliding names, both option values, unsupported types, recursive types and reloaded modules, from a cold cache",
    "Tests run each call on distinct well-formed classes; order-dependent effects through the engine caches need specific multi-step histories.",
    ["deserializer.py", "serializer.py"],
    [("deserializer cache", "deserializer.py:_get_deserializer"), ("serializer cache", "serializer.py:_fetch_serializer")],
    ["serialization.object_to_json", "serialization.json_to_object", "deserializer.create_deserializer", "serializer.create_serializer"],
    state=[("engine caches", "engines created for classes, re-used by later calls", "deserializer.py, serializer.py")],
)
prop(
    "C14", "Concurrent use gives the same results as sequential use",
    "When several threads use the library at the same time, whether for types that it has not seen before (including mutually recursive types) or for types whose engines exist already, every call (reading, writing, generating schemas, making classes from schemas, parsing docstrings, naming and ordering types) returns what it would return alone, under every thread interleaving; no call observes a half-built engine, and no interleaving deadlocks.",
    ["schedules"],
    "all interleavings with a bounded number of preemptions of two or three threads performing operations on shared types, as first use and as later use",
    "No test starts a thread; a race needs a preemption between publishing and finishing an engine.",
    ["deserializer.py", "serializer.py", "schema.py"],
    [("cache fill for recursive types", "deserializer.py:_get_deserializer"), ("memoized serializers", "serializer.py:_fetch_serializer")],
    ["serialization.json_to_object", "serialization.object_to_json", "schema.classdef_to_schema"],
    state=[("engine caches", "shared between threads", "deserializer.py, serializer.py")],
)
prop(
    "C15", "Calls neither modify their input nor share mutable state with results",
    "Serialization and deserialization leave their arguments unchanged, and their results share no mutable container with the input, with library state or with the result of any other call, nor does a container occur twice within a result; in particular defaults produced by a default factory are fresh for every object. "
    "Modifying one result therefore never changes another result.",
    ["histories", "inputs"],
    "all supported types within bounds, with every mutable container in inputs and results mutated between calls",
    "Tests compare results once and never mutate them; sharing is invisible until a later mutation.",
    ["serializer.py", "deserializer.py"],
    [("fresh containers built by each engine", "serializer.py, deserializer.py"), ("factory called per object", "deserializer.py:DefaultFactoryFieldDeserializer.parse_field")],
    ["serialization.object_to_json", "serialization.json_to_object"],
)
prop(
    "C16", "Durations: exact values and exactly the documented text format",
    "Every time interval is written as an ISO 8601 duration (sign, days, hours, minutes, seconds, fractional seconds) that reads back to exactly the same interval. "
    "A duration text is accepted if and only if it follows the documented grammar (optional weeks, days, hours, minutes, seconds with up to nine fractional digits, microsecond precision, ASCII digits, this order) and denotes its arithmetic sum; any other text is refused with a value error.",
    ["inputs"],
    "all texts over the duration alphabet up to a bounded length; all second-of-day values and boundary days and microseconds",
    "Tests try about twenty texts and nine values out of an infinite language; carries, zero components and padding are sampled only.",
    ["serializer.py", "deserializer.py"],
    [("duration writer", "serializer.py:TimeDeltaSerializer"), ("duration parser", "deserializer.py:TimeDeltaDeserializer")],
    ["serialization.object_to_json", "serialization.json_to_object"],
)
prop(
    "C17", "Timestamps keep instant and zone; zone-less timestamps are refused",
    "Writing a zone-aware timestamp, date or time and reading it back preserves the instant, the UTC offset and every microsecond; a timestamp text denotes the same instant whether its zone is written Z or as a numeric offset. "
    "Zone-less timestamps are refused in both directions, and text that is not a valid date, time or timestamp is refused with a value error.",
    ["inputs"],
    "all combinations of boundary date, time, microsecond and offset components, and all single-character corruptions of valid texts",
    "Tests use two timestamps; offsets with minutes or seconds, negative offsets, microseconds and boundary years are not covered.",
    ["serializer.py", "deserializer.py"],
    [("timestamp writer", "serializer.py:DateTimeSerializer"), ("timestamp parser", "deserializer.py:DateTimeDeserializer")],
    ["serialization.object_to_json", "serialization.json_to_object"],
)
prop(
    "C18", "Custom conversion hooks are honoured wherever the class occurs",
    "If a class defines a to-JSON method or a from-JSON class method, every serialization or deserialization of it goes through that hook exactly once per object, and its result is used as is, whether the class appears at top level, as a field, in a list, set, dictionary, tuple, optional or union, or as a subclass.",
    ["inputs", "programs"],
    "all positions of hooked classes in types within the nesting bound, all class flavours, one hook or both",
    "Tests use one hooked class at top level only.",
    ["serializer.py", "deserializer.py"],
    [("hook lookup before structural handling", "serializer.py:_create_serializer, deserializer.py:_create_deserializer")],
    ["serialization.object_to_json", "serialization.json_to_object"],
)
prop(
    "C19", "Types reconstructed from a schema describe the same documents",
    "For every data class whose schema consists of supported keywords, creating a type from its generated schema succeeds and yields a class with the same JSON properties, optionality, defaults and member types; every document of the original class deserializes with the new class and serializes back to the same document, "
    "and the schema generated from the new class equals the original schema's constraints. Shared definitions may reference each other in any order.",
    ["programs", "inputs"],
    "all supported field types, optionality and defaults, nested objects, definitions with every acyclic reference graph and name order, enumeration value sets including colliding or irregular names",
    "Tests reconstruct three fixed schemas; order of definitions, colliding enumeration names and defaults after required fields are not covered.",
    ["classdef.py", "schema.py"],
    [("schema to type", "classdef.py:schema_to_type, node_to_typedef"), ("enumeration names", "classdef.py:enum_safe_name")],
    ["classdef.schema_to_type", "classdef.node_to_typedef"],
)
prop(
    "C20", "Flattening a schema keeps every leaf property exactly once",
    "Flattening an object schema replaces each nested object property by that object's own properties (at every level if recursive, only the first otherwise), under dotted names if requested, keeping every other property and all annotations unchanged, and lists a flattened property as required exactly if its innermost object does. "
    "The source schema is not modified and flattening a flat schema changes nothing.",
    ["inputs", "configurations"],
    "all nested object schemas up to a bounded depth and width, all required subsets, all four option settings",
    "Tests flatten one schema with two of the four option settings.",
    ["classdef.py"],
    [("flattener", "classdef.py:SchemaFlattener.flatten")],
    ["classdef.flatten_schema"],
)
prop(
    "C21", "Topological sort orders every acyclic graph and refuses every cyclic one",
    "For every finite directed graph, topological sorting returns each node exactly once with every node after all nodes it points to (self-references ignored), or raises an error if and only if the graph has a cycle through two or more nodes; the graph is not modified.",
    ["inputs"],
    "all directed graphs with up to four nodes (five nodes in the deep tier), all key orders for small ones",
    "Tests sort three graphs; the number of graphs with four labelled nodes alone is 65536.",
    ["topological.py"],
    [("depth-first visit with temporary and permanent marks", "topological.py:topological_sort")],
    ["topological.topological_sort"],
)
prop(
    "C22", "Type dependencies are collected completely and sorted consistently",
    "The types referenced by a type are exactly those occurring in it directly or through its class members, generics, optionals, unions, annotations and forward references, transitively. "
    "Sorting types lists exactly the given types, everything they reference and the declared extra dependencies, each once, every type after all types it depends on, whatever iterable is passed.",
    ["programs", "inputs"],
    "all dependency graphs among up to three classes with every reference form, all subsets as input, all single extra-dependency functions",
    "Tests check order relations for two fixed class hierarchies and one extra-dependency function.",
    ["topological.py", "inspection.py"],
    [("type collector", "inspection.py:TypeCollector"), ("extra dependencies", "topological.py:type_topological_sort")],
    ["inspection.get_referenced_types", "topological.type_topological_sort"],
)
prop(
    "C23", "Docstring components survive rendering and parsing",
    "Parsing a docstring made of a short description, an optional long description and parameter, returns, raises and see-also fields (in any order, with continuation lines and any common indentation) recovers exactly these components; rendering a parsed docstring and parsing it again yields the same components. "
    "Parsing text never fails.",
    ["inputs"],
    "all docstrings over an alphabet of line forms up to a bounded number of lines, in all indentation variants",
    "Tests parse about ten docstrings written in one style.",
    ["docstring.py"],
    [("docstring parser", "docstring.py:parse_text"), ("docstring printer", "docstring.py:Docstring.__str__")],
    ["docstring.parse_text", "docstring.Docstring"],
)
prop(
    "C24", "Docstrings are checked against the declaration they document",
    "Parsing the docstring of a data class or function succeeds exactly if every documented parameter is one of its own members (also one that it declares anew) or parameters (and a documented return value has a return annotation, and documented exceptions are known); then each parameter, return and exception entry carries the declared type. "
    "The strict check additionally fails exactly if some own member, parameter or annotated return value is undocumented.",
    ["inputs", "programs"],
    "all combinations of declared and documented names for up to three members or parameters, inherited members, functions, methods, strict and non-strict",
    "Tests cover one missing member and one missing return annotation; the strict mode is never called.",
    ["docstring.py"],
    [("checks", "docstring.py:check_dataclass_docstring, check_function_docstring"), ("type assignment", "docstring.py:parse_type")],
    ["docstring.parse_type", "docstring.check_docstring"],
)
prop(
    "C25", "A type's printed form denotes that type",
    "Evaluating the string printed for a type expression (simple, generic, optional, union, literal, annotated and auxiliary types, in both union notations) in a namespace with the usual names yields an equal type, so distinct types print differently. "
    "Short names for simple and singly nested types are identifiers, distinct for distinct types.",
    ["programs"],
    "all type expressions over the alphabet up to nesting depth three, both notations",
    "Tests compare about forty expressions with expected strings, most of depth one.",
    ["name.py", "auxiliary.py"],
    [("type formatter", "name.py:TypeFormatter"), ("auxiliary type names", "auxiliary.py:_auxiliary_types")],
    ["name.python_type_to_str", "name.TypeFormatter", "name.python_type_to_name"],
)
prop(
    "C26", "Type inspection is exact and unaffected by annotations",
    "Each type predicate (optional, union, enumeration, literal, list, set, dictionary, data class, named tuple) answers true exactly for types of that form, and each unwrapping function returns exactly the constituent types, in either union notation; wrapping a type in Annotated changes no answer, and the annotations themselves can be retrieved by class.",
    ["programs"],
    "all type expressions over the alphabet up to nesting depth two, with zero to two annotation layers",
    "Tests check each predicate on a few unannotated types and three annotated ones.",
    ["inspection.py"],
    [("predicates and unwrapping", "inspection.py:is_type_*, unwrap_*"), ("annotation handling", "inspection.py:unwrap_annotated_type, rewrap_annotated_type")],
    ["inspection.is_type_optional", "inspection.is_type_union", "inspection.unwrap_optional_type", "inspection.unwrap_union_types", "inspection.get_annotation"],
)
prop(
    "C27", "Instance-of-generic checks are exact for every value and type",
    "Checking whether a value is an instance of a (possibly nested, generic, optional, union, annotated or literal) type returns true exactly if the value has that structure recursively: every list item, dictionary key and value, set member and tuple item is checked, and tuples must have the declared length.",
    ["inputs", "programs"],
    "all type expressions within the nesting bound against all small values, conforming or not",
    "Tests check fifteen pairs and never a wrong item inside a container.",
    ["inspection.py"],
    [("recursive instance check", "inspection.py:is_generic_instance")],
    ["inspection.is_generic_instance"],
)
prop(
    "C28", "Recursive predicate checks visit every nested member",
    "Checking a predicate recursively returns true exactly if it holds for every nested member property (items of containers, fields of data classes, named tuples and plain classes, at any depth); restricting the check to certain member types or to values ignores exactly the other members. Invalid combinations of predicates are refused.",
    ["inputs", "programs"],
    "all objects of supported types within bounds, with the predicate failing at each single nested position in turn, all predicate combinations",
    "Tests only use predicates that hold everywhere, so a skipped member would go unnoticed.",
    ["inspection.py"],
    [("recursive checker", "inspection.py:RecursiveChecker.check")],
    ["inspection.check_recursive"],
)

prop(
    "C29", "JSON text is compact and faithful, and all entry points agree",
    "Writing JSON text, to a string or a file, yields compact text (no white space outside of strings, characters beyond ASCII as they are) that reads back as exactly the same document with members in the same order; "
    "writing to an open file appends the text and one newline, and leaves the file open. "
    "Serializing or deserializing through the convenience functions yields the same outcome as through a serializer or deserializer made for the same type, context and options, "
    "where names of types are looked up in the given context, or else in the module of the caller.",
    ["inputs", "programs"],
    "all documents up to a number of nodes, all short strings over an alphabet of special characters; all entry points with all combinations of optional arguments",
    "Tests write two documents as text; entry points are called with default arguments, from one module.",
    ["serialization.py", "serializer.py", "deserializer.py"],
    [("text output", "serialization.py:json_dump_string, json_dump"), ("entry points", "serialization.py:json_to_object, json_to_generic; deserializer.py:create_deserializer; serializer.py:create_serializer")],
    ["serialization.json_dump_string", "serialization.json_dump", "serialization.json_to_object", "serialization.json_to_generic", "serializer.create_serializer", "deserializer.create_deserializer"],
)
prop(
    "C30", "Schema annotations follow the documentation and change no validation",
    "In a generated schema, title and description of a class come from the short and long description of its own docstring (never from text made by Python itself), the description of a member from the class or else its nearest base class that documents the member, "
    "the default of a member of a simple type is its default value in serialized form, and examples are those registered for the type. "
    "The options that exclude descriptions or examples, or supply descriptions of members, have exactly this effect, at every depth. "
    "Documentation, defaults and examples never change which documents the schema accepts.",
    ["programs", "configurations"],
    "all arrangements of class kinds, docstrings, documented members, base classes and positions, under all settings of the options",
    "Tests compare the schema of two documented classes with the default options.",
    ["schema.py", "docstring.py"],
    [("class annotations", "schema.py:JsonSchemaGenerator.type_to_schema, _add_title_and_description"), ("options", "schema.py:SchemaOptions")],
    ["schema.classdef_to_schema", "schema.JsonSchemaGenerator", "schema.SchemaOptions"],
)
prop(
    "C31", "Annotation classes compare by value; auxiliary types carry exact metadata",
    "Each fixed-width auxiliary type carries exactly its signedness, storage size and (for integers) range of values, is described in schemas by its base type, format and range, and a type is recognised under the name of an auxiliary type exactly if it has the base type and the annotations of that auxiliary type. "
    "Classes made with the annotation decorator have immutable objects that are equal, hashed and (if requested) ordered by their members, and that print as the class name with all members as positional arguments, an expression which evaluates to an equal object; a class that is a data class already keeps its own settings.",
    ["inputs", "programs"],
    "all sequences of annotations over an alphabet on several base types; all declarations of annotation classes up to four members with all settings",
    "Tests name some auxiliary types and never compare or print objects of annotation classes.",
    ["auxiliary.py", "core.py", "name.py"],
    [("auxiliary types", "auxiliary.py:int8 ... float64"), ("annotation decorator", "auxiliary.py:typeannotation"), ("compact representation", "auxiliary.py:_compact_dataclass_repr, CompactDataClass")],
    ["auxiliary", "name.python_type_to_str", "schema.classdef_to_schema"],
)
prop(
    "C32", "Types made or enumerated at run time match their specification",
    "Enumerations, modules, data classes and objects made at run time have exactly the specified names, types, values and defaults, in the specified order, and leave what they were made from unchanged; "
    "extending an enumeration yields the members of the source followed by those of the extension, and refuses values that occur in both. "
    "Looking up classes, functions, signatures, fields and documentation yields exactly those a module, function or class itself defines, with types resolved and defaults kept.",
    ["inputs", "programs"],
    "all specifications of enumerations, modules, data classes and objects up to a size; all sets of kinds of module members",
    "Tests make one enumeration, one module and one data class.",
    ["inspection.py", "docstring.py", "serializer.py"],
    [
        ("construction", "inspection.py:extend_enum, create_module, create_data_type, create_object"),
        ("enumeration", "inspection.py:get_module_classes, get_module_functions, get_signature, dataclass_fields, dataclass_field_by_name, enum_value_types"),
        ("documentation", "docstring.py:has_docstring, get_docstring, has_default_docstring"),
    ],
    ["inspection.extend_enum", "inspection.create_module", "inspection.create_data_type", "inspection.create_object", "inspection.get_module_classes", "inspection.dataclass_fields"],
)

path = pathlib.Path(__file__).with_name("properties.jsonl")
path.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
