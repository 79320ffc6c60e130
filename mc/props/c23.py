"""
C23: docstring components survive rendering and parsing.

All docstrings that consist of up to a number of lines over an alphabet of line forms, in all ways in which a docstring is
indented in source code. The reference is an automaton that reads lines (the library reads the text as a whole). Whatever
has been parsed is rendered and parsed again.
"""

from __future__ import annotations

import dataclasses
import itertools
from typing import Any, Iterator, Optional

from strong_typing.docstring import (
    Docstring,
    DocstringParam,
    DocstringRaises,
    DocstringReturns,
    DocstringSeeAlso,
    parse_text,
)

LEVEL = "model_checking"
LENGTH = {"quick": 4, "thorough": 5}
BOUNDS = {
    "quick": "all sequences of up to 4 out of 20 forms of lines, of 5 and 6 out of 8 forms; 6 ways to indent a docstring (all ways for up "
    "to 3 lines); all sets of up to 4 fields out of 12 in all orders x 5 descriptions x continuation lines; all texts of up "
    "to 7 characters over 7 characters; all components over 14 texts rendered; all words similar to a "
    "keyword x 8 forms of names; up to 100 fields, lines and words",
    "thorough": "as quick, all sequences of up to 5 lines, of 7 out of 8 forms, all texts of up to 8 characters",
}

# lines of descriptions, lines of fields, lines that continue
TEXT = ["Alpha.", "Beta gamma: delta :x:", "* item", "    indented"]
BLANK = [""]
FIELDS = [
    ":param a: Aaa",
    ":param b2: Bbb: ccc",
    ":param _c:",
    ":returns: Rrr",
    ":return: Rr r",
    ":raises ValueError: Vvv",
    ":raise KeyError: K",
    ":see: https://example.com/a?b=c",
    ":seealso: S",
]
OTHER = [":type a: int", ":custom: text", ":no field", ":", "::"]
MORE = ["    continued", "  :class:`X`  twice"]
ALPHABET = TEXT + BLANK + FIELDS + OTHER + MORE
SMALL = ["Alpha.", "    indented", "", ":param a: Aaa", ":returns: Rrr", ":raises E: Eee", ":see: S", "    continued"]

INDENT = ["first", "own line", "tab", "flat", "deep", "loose"]


def layout(lines: list[str], how: str) -> Optional[str]:
    "Text of a docstring in source code."
    if how == "first":
        # opening quotes followed by text
        if lines and lines[0].startswith(" "):
            return None
        return "\n".join(lines[:1] + [("    " + ln if ln else ln) for ln in lines[1:]])
    if how == "own line":
        return "\n" + "\n".join("    " + ln if ln else ln for ln in lines) + "\n    "
    if how == "tab":
        return "\n" + "\n".join("\t" + ln for ln in lines) + "\n\t"
    if how == "flat":
        return "\n" + "\n".join(lines) + "\n"
    if how == "deep":
        return "\n" + "\n".join(" " * 12 + ln if ln else "  " for ln in lines) + "\n" + " " * 12
    return "\n\n" + "\n".join("  " + ln if ln else ln for ln in lines) + "\n\n\n"


@dataclasses.dataclass
class Parts:
    short: Optional[str] = None
    long: Optional[str] = None
    params: list[tuple[str, str]] = dataclasses.field(default_factory=list)
    returns: Optional[str] = None
    raises: list[tuple[str, str]] = dataclasses.field(default_factory=list)
    see: list[str] = dataclasses.field(default_factory=list)


def normal(text: str) -> str:
    return " ".join(text.split())


def margin(lines: list[str], how: str) -> list[str]:
    "Lines without the indentation that all of them have in common."
    rest = lines if how != "first" else lines[1:]
    common = min((len(ln) - len(ln.lstrip(" ")) for ln in rest if ln), default=0)
    out = [ln[common:] for ln in rest]
    return out if how != "first" else lines[:1] + out


def reference(lines: list[str]) -> Optional[Parts]:
    "Components of a docstring, or nothing if the documentation does not tell."
    lines = list(lines)
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    out = Parts()
    short: list[str] = []
    long: list[str] = []
    state = "short"
    field: Optional[list[Any]] = None
    fields: list[list[Any]] = []
    for ln in lines:
        if ln.startswith(":"):
            state = "fields"
            head, colon, text = ln[1:].partition(":")
            field = [head.split(), text] if colon else [[], ""]
            if not head:
                return None
            fields.append(field)
        elif state == "fields":
            assert field is not None
            if ln and not ln.startswith(" "):
                return None  # text that follows the fields
            field[1] += " " + ln
        elif state == "short":
            if ln:
                short.append(ln)
            else:
                state = "long"
        else:
            long.append(ln)
    out.short = " ".join(short).strip() or None
    out.long = "\n".join(long).strip() or None
    for words, text in fields:
        text = normal(text)
        if len(words) == 2 and words[0] == "param":
            out.params.append((words[1], text))
        elif len(words) == 2 and words[0] in ("raise", "raises"):
            out.raises.append((words[1], text))
        elif words in (["return"], ["returns"]):
            out.returns = text
        elif words in (["see"], ["seealso"]):
            out.see.append(text)
    # of what is documented twice, the last applies
    out.params = list(dict(out.params).items())
    out.raises = list(dict(out.raises).items())
    return out


def parts(d: Docstring) -> Parts:
    for name, p in d.params.items():
        if p.name != name:
            raise ValueError("name of parameter differs from its key")
    for name, r in d.raises.items():
        if r.typename != name:
            raise ValueError("name of exception differs from its key")
    return Parts(
        d.short_description,
        d.long_description,
        [(n, p.description) for n, p in d.params.items()],
        d.returns.description if d.returns is not None else None,
        [(n, r.description) for n, r in d.raises.items()],
        [s.text for s in d.see_also],
    )


def check(text: str, expected: Optional[Parts], ctx: Any, round_trip: bool = True) -> None:
    ctx.step()
    try:
        d = parse_text(text)
        found = parts(d)
    except Exception as ex:
        ctx.violation(f"parsing fails with {type(ex).__name__}: {ex}", text=text)
        return
    if expected is not None:
        ctx.trace()
        if found != expected:
            ctx.violation("other components are parsed", text=text, expected=repr(expected), found=repr(found))
            return
        full = "\n\n".join(t for t in (expected.short, expected.long) if t) or None
        if d.full_description != full:
            ctx.violation("other full description", text=text, expected=repr(full), found=repr(d.full_description))
            return
        ctx.outcome("recovered")
    else:
        ctx.outcome("open")
    if not round_trip or any(t is not None and t.startswith(":") for t in (found.short, found.long)):
        # rendered text drops the indentation, with which it is not a field
        return
    ctx.step()
    try:
        again = parts(parse_text(str(d)))
    except Exception as ex:
        ctx.violation(f"rendering fails with {type(ex).__name__}: {ex}", text=text)
        return
    if again != found:
        ctx.violation("rendered docstring has other components", text=text, rendered=str(d), found=repr(found), again=repr(again))


def sequences(n: int, alphabet: list[str]) -> Iterator[tuple[str, ...]]:
    return itertools.product(alphabet, repeat=n)


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["lines", n, None] for n in range(0, 3)] + [["lines", 3, i] for i in range(len(ALPHABET))]
    for n in range(4, LENGTH[tier] + 1):
        out += [["lines", n, i] for i in range(len(ALPHABET))]
    for n in (5, 6, 7) if tier == "thorough" else (5, 6):
        out += [["small", n, i] for i in range(len(SMALL))]
    out += [["fields", i] for i in range(len(WORDS))]
    out += [["texts", i] for i in range(len(CHARS))]
    return out + [["spaces"]] + [["objects", i] for i in range(len(TEXTS))] + [["keywords", i] for i in range(8)] + [["many", i] for i in range(len(INDENT))]


WORDS: list[tuple[str, str]] = [
    ("param", "a"),
    ("param", "b"),
    ("param", "\u00e9_1"),
    ("param", "x-y"),
    ("param", "param"),
    ("param", "returns"),
    ("returns", ""),
    ("raises", "ValueError"),
    ("raises", "a"),
    ("raises", "json.Error"),
    ("see", ""),
    ("see", " "),
]
DESCRIPTIONS = ["D", "", "d: e :param x: f", ":class:`X`", "\u00e9\u5b57 \U0001f600 `a`  b"]
CHARS = ":a \n\tpr"
TEXTS = ["", "D", "d e", "d: e", ":class:`X` f", "see: x", "\u00e9", "a. b, c; d-e", "* x", "(a)", "#", "param a: b", "`:p:`", "\\n"]


KEYWORDS = ["param", "raise", "raises", "return", "returns", "see", "seealso"]


def keywords() -> list[str]:
    "All words that are similar to a keyword: other case, one letter left out, added, doubled or replaced."
    out = {"", "type", "rtype", "arg", "except", "yields", "deprecated", "meta", "ivar", "key", "parameter", "raised", "returned", "note"}
    for kw in KEYWORDS:
        out |= {kw, kw.upper(), kw.capitalize(), kw + kw, kw + "s", kw + "es", kw + ".", kw + "-", "_" + kw, kw + "1", "-" + kw}
        out |= {kw[:i] + kw[i + 1 :] for i in range(len(kw))} | {kw[:i] for i in range(len(kw))} | {kw[i:] for i in range(len(kw))}
        out |= {kw[:i] + c + kw[i:] for i in range(len(kw) + 1) for c in "sxe"} | {kw[:i] + c + kw[i + 1 :] for i in range(len(kw)) for c in "sx"}
    return sorted(out)


def similar(part: int, ctx: Any) -> None:
    "Words in place of a keyword x number of names x other fields."
    around = [([], []), ([":param p: P"], [":returns: R"]), ([":returns: R", ":see: S"], [":raises E: X", ":param q: Q"]), ([":raises a: X"], [":see: T"])]
    for word in keywords()[part::8]:
        for names in ("", " ", " a", " a b", "  a ", "\ta", " a:b", " a-b"):
            for before, after in around:
                for more in ([], ["    more: of it"]):
                    lines = ["Short.", "", *before, f":{word}{names}: Text", *more, *after]
                    ctx.count_states(1)
                    expected = reference(lines)
                    check("\n".join(lines), expected, ctx)


def many(how: str, ctx: Any) -> None:
    "Many fields, long texts."
    for n in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100]:
        params = [f":param p{i}: {'text ' * (i % 5)}{i}" for i in range(n)]
        raises = [f":raises E{i}: reason {i}" for i in range(n)]
        sees = [f":see: https://example.com/{i}" for i in range(n)]
        wrapped = [x for i in range(n) for x in (f":param w{i}:", *[f"    line {k} of {i}" for k in range(i % 4)])]
        long = [f"Line {i}." if i % 3 else "" for i in range(n)]
        words = ["word " * n + "end"]
        for lines in (
            ["Short.", "", *params],
            ["Short.", "", *raises, ":returns: R"],
            ["Short.", "", *sees],
            ["Short.", "", *params, ":returns: R", *raises, *sees],
            ["Short.", "", *wrapped],
            ["Short.", "", "Long.", *long, "", *params],
            ["Short.", "", *[x for x in params for x in (x, *["    more"] * n)]] if n < 20 else ["Short."],
            [*words, "", *words, "", ":param p: " + words[0], ":returns: " + words[0], ":see: " + words[0], ":raises E: " + words[0]],
            [f"Part {i} of it" for i in range(n)],
        ):
            text = layout(lines, how)
            if text is not None:
                ctx.count_states(1)
                check(text, reference(margin(lines, how)), ctx)


# white space other than a single blank or newline, and characters that resemble it
SPACES = ["  ", "\t", " \t ", "\f", "\v", "\x1c", "\x1f", "\x85", "\u00a0", "\u2003", "\u2028", "\u3000", "\u200b", "\ufeff", "\\n", "\u00ad"]
# texts in which # stands for white space; components that are expected
PLACES: list[tuple[str, Parts]] = [
    ("One#two.", Parts(short="One#two.")),
    ("One.\n\nLong#text.", Parts(short="One.", long="Long#text.")),
    ("One.\n\nLong,\n    indented#text\nend", Parts(short="One.", long="Long,\n    indented#text\nend")),
    ("One.#", Parts(short="One.|")),
    ("#One.", Parts(short="|One.")),
    ("One.\n\nLong.#", Parts(short="One.", long="Long.|")),
    ("One.\n\nLong.#\n\n:param a: A", Parts(short="One.", long="Long.|", params=[("a", "A")])),
    ("One.\n\nLong.\n\n#\n\n:param a: A", Parts(short="One.", long="Long.\n\n|", params=[("a", "A")])),
    ("One.#\n\nLong.", Parts(short="One.|", long="Long.")),
    ("One.\n\n#Long.", Parts(short="One.", long="|Long.")),
    ("One.\n\n:param a: x#y", Parts(short="One.", params=[("a", "x~y")])),
    ("One.\n\n:param a:#x", Parts(short="One.", params=[("a", "|x")])),
    ("One.\n\n:param a: x#\n:returns: y#\n    z", Parts(short="One.", params=[("a", "x|")], returns="y~z")),
    ("One.\n\n:param#a: x", Parts(short="One.", params=[("a", "x")])),
    ("One.\n\n:raises E: x#\n#y", Parts(short="One.", raises=[("E", "x~y")])),
    ("One.\n\n:see: x#y#z#", Parts(short="One.", see=["x~y~z|"])),
    ("One.\n\n:returns: #", Parts(short="One.", returns="|")),
]


def spaces(ctx: Any) -> None:
    """
    White space of all kinds within and around components: retained in descriptions, removed at their ends, replaced by
    a single blank in fields (tabs are expanded, see PEP 257). Characters that only resemble white space are retained.
    """
    for gap in SPACES:
        space = gap.isspace()

        def fill(text: Optional[str]) -> Optional[str]:
            if text is None:
                return None
            # "|" is an end, "~" within a field
            text = text.replace("#", gap).replace("|", "" if space else gap)
            text = text.replace("~", " " if space else gap)
            return text

        for text, parts_ in PLACES:
            if not space and (":param#a" in text or "\n#y" in text or ":returns: y#\n    z" in text or "x#\n" in text):
                continue
            expected = Parts(
                (fill(parts_.short) or "").expandtabs().strip() or None if space else fill(parts_.short),
                (fill(parts_.long) or "").expandtabs().strip() or None if space else fill(parts_.long),
                [(n, fill(t) or "") for n, t in parts_.params],
                fill(parts_.returns),
                [(n, fill(t) or "") for n, t in parts_.raises],
                [fill(t) or "" for t in parts_.see],
            )
            for tail in ("", "\n    "):
                ctx.count_states(1)
                check(text.replace("#", gap) + tail, expected, ctx, round_trip=False)


def run(task: Any, ctx: Any) -> None:
    if task[0] in ("lines", "small"):
        alphabet = ALPHABET if task[0] == "lines" else SMALL
        n = task[1]
        firsts = alphabet if task[2] is None else [alphabet[task[2]]]
        for k, rest in enumerate(sequences(max(n - 1, 0), alphabet)):
            for f, first in enumerate(firsts if n else [""]):
                lines = [first, *rest] if n else []
                for i, how in enumerate(INDENT):
                    if n > 3 and (k + f) % len(INDENT) != i:
                        continue
                    text = layout(lines, how)
                    if text is None:
                        continue
                    ctx.count_states(1)
                    check(text, reference(margin(lines, how)), ctx)
            if n == 0:
                break
        ctx.sample({"text": text})
    elif task[0] == "fields":
        for size in range(1, 5):
            for k, chosen in enumerate(itertools.permutations([w for i, w in enumerate(WORDS) if i != task[1]], size - 1)):
                for d in range(len(DESCRIPTIONS)):
                    lines = ["Short.", ""]
                    for j, (kw, name) in enumerate([WORDS[task[1]], *chosen]):
                        text = DESCRIPTIONS[(d + j + k) % len(DESCRIPTIONS)]
                        lines.append(f":{kw} {name}: {text}" if name.strip() else f":{kw}: {text}")
                        if (d + j) % 3 == 1:
                            lines += ["    more", "        and :more:"]
                    ctx.count_states(1)
                    how = INDENT[(k + d) % len(INDENT)]
                    check(layout(lines, how) or "", reference(lines), ctx)
    elif task[0] == "texts":
        # parsing any text succeeds
        for n in range(0, 8 if ctx.thorough else 7):
            for chars in itertools.product(CHARS, repeat=n):
                ctx.count_states(1)
                check(CHARS[task[1]] + "".join(chars), None, ctx, round_trip=False)
        for text in (":" * 1000, "\n" * 1000, " :" * 1000, "\n:" * 1000, "a" * 10000, "\x00:\x0b:\x1c", "\u2028:param a: b", "\ud800"):
            ctx.count_states(1)
            check(text, None, ctx, round_trip=False)
    elif task[0] == "keywords":
        similar(task[1], ctx)
    elif task[0] == "spaces":
        spaces(ctx)
    elif task[0] == "many":
        many(INDENT[task[1]], ctx)
    else:
        objects(TEXTS[task[1]], ctx)


def objects(first: str, ctx: Any) -> None:
    "Components that are rendered, then parsed."
    texts = [t for t in TEXTS]
    for second, third in itertools.product(texts, repeat=2):
        for has in itertools.product((False, True), repeat=6):
            short, long, params, returns, raises, see = has
            if long and not short:
                continue
            if (short and (not first or first.startswith(":"))) or (long and (not second or second.startswith(":"))):
                continue
            d = Docstring(
                short_description=first if short else None,
                long_description=f"{second}\n\n    {third}\nend" if long else None,
                params={n: DocstringParam(n, t) for n, t in (("p", first), ("q", second), ("r", third))} if params else {},
                returns=DocstringReturns(second) if returns else None,
                raises={n: DocstringRaises(n, t) for n, t in (("E", third), ("p", first))} if raises else {},
                see_also=[DocstringSeeAlso(third), DocstringSeeAlso(second)] if see else [],
            )
            ctx.count_states(1)
            expected = parts(d)
            check(str(d), expected, ctx)
