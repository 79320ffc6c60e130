"Notes for DESIGN.md: per property the oracle, why the check reaches what tests cannot, and its cost."

MISSED: list[str] = [
    "`c04-optional-default`: C04 had no optional members with a default value or default factory other than None -> field modes "
    "`optval`, `optfac`, `optfacnone`, redeclared fields with another default, two base classes",
    "`c11-definitions-once`: C11 had at most three classes -> stars, chains, cycles, trees and complete graphs of up to 24 classes",
    "`c17-utc-suffix`: all zones of an offset had one name -> eight names of zones x six offsets",
    "`c19-int-range`: ranges of integers were not at the boundaries -> all pairs of 63 boundary values; decimal digits; string "
    "lengths; up to 100 properties, values, definitions and union members",
    "`c22-literal-frozenset`, `c22-traversal-any`: no type with more than three arguments, no `A | B` without None -> both",
    "`c23-raise-kw`: only five unknown keywords -> every word that is similar to a keyword; up to 100 fields",
    "`c24-base-props`: base classes were in the module of the class -> in one, two or three modules; up to 100 members",
    "`c28-tuple-zip`, `c28-named-tuple`: no container of more than 16 items, no empty key of a dictionary -> sizes up to 50, keys "
    "that are empty or blank, values that are zero or empty; the same sizes in C26 and C27",
    "`c29-keys-ascii`: the check itself failed when it reported a difference (name of a parameter) -> repaired",
    "`c30-base-shadow`: functions for descriptions did not depend on the text, and no data class declared a member anew (which found "
    "a defect: such a member could not be documented) -> both, in C24, too",
    "`c31-order-eq`: members of annotation classes were integers only -> values of any type, hashable or not",
    "`c32-module-functions`, `c32-enum-types`: modules had unrelated names, names of members were the names of classes -> all pairs of "
    "modules of ten similar names, different classes and functions of the same name",
    "`c10-enum-keys-values`: values of dictionaries with keys of a wide enumeration were strings, numbers and a class -> every container",
    "`c13-hints-by-name`: no two classes of the same name in one module -> two local classes with the same members",
    "`c18-custom-optional`: no hook returned null or a value that is false -> two more forms",
    "`c28-dict-first`: data classes had only members that take part in everything that is generated -> options of `field`",
    "`c15-repeat-item`: sharing was sought between results, not within one -> no container twice in a result; equal parts of an object "
    "are the same object",
    "`c02-list-first-item`: items of an untyped collection had unrelated types -> all pairs and triples of 26 values of related types",
    "`c05-pipe-tagged-options`: only C08 wrote unions with `|` -> C01 to C05, C09 and C10 do so, too",
    "`c12-docstring-memo`: no two generators had different functions for descriptions -> two more operations",
    "`c09-literal-sorted`: enumerations had ordinary member names -> three enumerations with unusual names, second names, methods",
    "`c11-drop-self-ref`: registered names were ordinary -> 41 names x 4 schemas, and types of the same name side by side (which "
    "also led to two repairs)",
    "`c04-default-none-required`: defaults were values of the type of the member -> defaults that are no values of it (6 x 5 types, as "
    "default and from a factory)",
    "`c26-trailing-underscore`: members were named m0, m1, ... -> all classes of up to 3 members with names that are easily mistaken",
    "`c27-key-types`: dictionaries had keys of type `str` -> key types x values, and items of types that look alike",
    "`c29-encoding`: text went to memory and UTF-8 files -> text files of 12 kinds (encoding x newline)",
    "C20, an object whose title is its name (not kept, as it changed a line of a fix): titles and descriptions were distinct -> three nested "
    "objects with all triples of 12 sets of annotations, which also equal names, and names with a meaning in schemas",
    "C30, a long description that begins with the short one (not kept): descriptions were distinct texts -> descriptions that repeat",
    "`c01-exception-class` and a class derived from `abc.ABC` (not kept, as its line was repaired): classes had no base classes other "
    "than classes of the same kind -> all kinds of classes x 17 base classes x 10 features, in C01, C02, C03 and C10 (which also led "
    "to two repairs)",
    "`c23-long-newlines`, `c23-raises-first`: descriptions had blanks and newlines only, and what is documented twice was left open -> "
    "16 kinds of white space in 17 places; of what is documented twice, the last applies",
    "`c30-signature-doc`: no documentation string resembled those made by Python -> 18 that do, for all kinds of classes and positions",
    "C28, a value predicate called for values of all types (not kept, as a test fails with it): predicates ignored what they are not "
    "asked about -> the values that the predicate sees are recorded",
    "`c25-forward-context`: forward references named a class by its own name -> names of aliases of classes and of type expressions",
    "`c26-tuple-bases`: few classes resembled named tuples -> all classes of 35 base classes x 20 bodies x 5 decorators that resemble "
    "named tuples, data classes and enumerations",
    "C14, found when its task sizes were measured: the preemption at the level of byte codes explored nothing, as the tracing function "
    "is not called for them in generators and comprehensions -> `sys.monitoring`, and a task without preemption points fails",
]

NOTES = {
    "C01": (
        "the object itself: the result must be `same` as the abstract value it was built from, by exact types of all components",
        "interaction of a leaf value with each position (nested container, optional, default, class kind), and sizes",
        "22 s",
    ),
    "C02": (
        "the reference encoder `enc`, written from the README table; exact JSON types (no subclass of str or int)",
        "every value form in every position, through the run-time and the declared type",
        "14 s",
    ),
    "C03": (
        "the reference decoder `dec` with the set of permitted error kinds",
        "wrong kinds at every position of a document, for every type; tests use a few wrong documents",
        "35 s",
    ),
    "C04": (
        "the reference decoder on classes: a table over {absent, null, valid, falsy, wrong} for each field mode",
        "combinations of field kinds, orders and member states (including falsy values) that a test never lists in full",
        "20 s",
    ),
    "C05": ("the reference decoder, on the document with and without the extra members", "every depth and kind of nesting, both orders of option use", "30 s"),
    "C06": (
        "untagged: what the library yields for each member type alone (metamorphic) and the reference model; tagged: the model",
        "all orders of members and all documents, such that any confusion of two member types is a state",
        "40 s",
    ),
    "C07": ("the naming rule, written down independently (keyword list of the interpreter)", "every keyword and near-keyword in every service and class kind", "10 s"),
    "C08": ("the reference model (same for all spellings), and equality of schemas across spellings", "spelling × module layout × service products", "25 s"),
    "C09": ("acceptance of the emitted document by the generated schema, by two validators", "every type and value, not the sampled ones", "38 s"),
    "C10": ("the acceptance model `acc`", "documents just outside the type, in every position", "56 s"),
    "C11": ("meta-schemas, closure and reachability computed on the schema as a graph, and `acc`", "all reference graphs and registrations", "60 s"),
    "C12": ("the same operation in a new process", "all histories of calls up to the depth", "60 s"),
    "C13": ("the same operation in a new process, and the outcome written down", "all histories, among them failures and redefinitions", "63 s"),
    "C14": ("the outcome of each call alone", "all interleavings within the preemption bound, at the level of lines and byte codes (`sys.monitoring` events; a task without preemption points is an error), for first use and for later use", "160 s"),
    "C15": ("identity of containers; later outcomes after changing each container", "every container of every result", "30 s"),
    "C16": ("an automaton for the grammar and integer arithmetic", "all texts up to a length; every microsecond", "30 s"),
    "C17": ("own parser of the ISO 8601 extended forms, integer arithmetic for instants", "every offset, microsecond, day; every near-miss text", "35 s"),
    "C18": ("recorded calls of the hooks and the identity of their results", "every position × class kind × form", "18 s"),
    "C19": ("the model of the original class, and equality of schemas", "all classes, definition graphs and orders", "50 s"),
    "C20": ("flattening defined on trees of properties", "all trees and subsets of required properties", "15 s"),
    "C21": ("transitive closure", "all graphs up to 4 (5) nodes; tests use a handful", "10 s"),
    "C22": ("reachability in the generated graph of types", "all graphs × forms of references", "40 s"),
    "C23": ("an automaton over lines", "all sequences of line forms, all indentations", "25 s"),
    "C24": ("set comparison of documented and declared names", "all assignments of names", "15 s"),
    "C25": ("evaluation of the text and structural comparison", "all expressions up to the depth", "19 s"),
    "C26": ("answers computed from the syntax tree of the type", "all trees with annotations in any layer", "20 s"),
    "C27": ("recursion over the syntax tree of the type and the value", "all pairs of type and value", "15 s"),
    "C28": ("the list of nested members built along with the object", "a failing member in every position", "17 s"),
    "C29": ("an independent tokenizer of JSON text; a second module in which the same name means another type", "all tree shapes and special characters", "3 s"),
    "C30": ("a reference model of docstring parts, defaults and examples; the schema of the same classes without documentation", "all arrangements", "90 s"),
    "C31": ("a table of auxiliary types; equality, order and hash of tuples of members; evaluation of the text", "all sequences of annotations", "1 s"),
    "C32": ("the specification from which the type was made", "all specifications up to a size", "11 s"),
}
