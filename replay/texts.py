"""Texts that the verifier names, judged on the real code.

When an obligation about texts is not discharged, the decision procedure for words names texts for which it may fail.
Each is read here by an oracle of its own (the documented grammar, taken apart with re) and compared with what the real
code does.  A text that is outside of the documented language, or that the code treats as it should, says nothing.
"""
import itertools
import re

from contracts import grammar as G
from replay.props import canon

S = G.S
LONGEST = 300


def full(pattern, text):
    return re.fullmatch(re.sub(r"\?P<\w+>", "?:", pattern), text)


# ---------------------------------------------------------------- property maps
LIST_VALUE = re.compile(rf"""(?P<f>{G.FLOAT})|(?P<i>[0-9]+)|(?P<q>'[^']*'|"[^"]*")|(?P<w>true|false|null)""")
ENTRY = re.compile(rf"(?P<key>\w+){S}:{S}(?:(?P<f>{G.FLOAT})|(?P<i>{G.INT})|(?P<w>true|false|null)|(?P<q>{G.S1}|{G.S2})|(?P<l>{G.lst()}))(?={S}[,}}])")
WORDS = {"true": True, "false": False, "null": None}


def value(m):
    d = m.groupdict()
    if d["f"]:
        return float(d["f"])
    if d["i"]:
        return int(d["i"])
    if d["w"]:
        return WORDS[d["w"]]
    if d["q"]:
        return d["q"][1:-1]
    return [value(x) for x in LIST_VALUE.finditer(d["l"])]


def read_map(text):
    """{name: value} of a documented map, or None"""
    if not full(rf"\s*{G.props()}\s*", text):
        return None
    out, pos, end = {}, text.index("{") + 1, text.rindex("}")
    while True:
        pos = re.compile(r"[\s,]*").match(text, pos).end()
        if pos >= end:
            return out
        m = ENTRY.match(text, pos)
        if not m or m["key"] in out:
            return None
        out[m["key"]] = value(m)
        pos = m.end()


def c10(text, H):
    from wiggle_query_language.clauses.parsing_helpers.parse_properties import get_property_dict

    want = read_map(text)
    if want is None:
        return None
    got, e = H.call(get_property_dict, text)
    if e is not None:
        return f"the property map {text!r} raised {e!r}"
    if canon(got or {}) != canon(want):
        return f"the property map {text!r} was read as {got!r} instead of {want!r}"


E1 = G.entry()
BAD_VALUES = {
    "missing": "",
    "a reserved word": "(?:True|False|None|none|Null)",
    "a list in a list": rf"\[\s*(?:{G.VALUE}\s*,\s*)*{G.lst()}\s*(?:,\s*{G.VALUE}\s*)*\]",
    "a map": G.props(),
    "a map in a list": rf"\[\s*(?:{G.VALUE}\s*,\s*)*{G.props()}\s*(?:,\s*{G.VALUE}\s*)*\]",
}


def c11(text, H):
    from wiggle_query_language.clauses.parsing_helpers.parse_properties import get_property_dict

    for what, v in BAD_VALUES.items():
        if full(rf"\{{\s*(?:{E1}\s*,\s*)*\w+\s*:\s*{v}\s*(?:,\s*{E1}\s*)*\}}", text):
            got, e = H.call(get_property_dict, text)
            if e is None:
                return f"the property map {text!r}, of which one value is {what}, was read as {got!r}"
    want = read_map(text)
    if want is not None:
        got, e = H.call(get_property_dict, text)
        if e is None and canon(got or {}) != canon(want):
            return f"the property map {text!r} was read as {got!r} instead of {want!r}"


# ---------------------------------------------------------------- clauses
ONE = {"MAKE": G.statement("MAKE", p=G.COARSE), "FIND": G.statement("FIND", p=G.COARSE), "REPORT": rf"{G.keyword('REPORT')}\s[^;]+;"}


def c13(text, H):
    from models.wql import Clause
    from wiggle_query_language.clauses.parsing_helpers.extract_statements import extract_all_statements

    parts = text.split(";")
    if parts.pop().strip():
        return None
    clauses = [p.strip() + ";" for p in parts]
    kinds = [next((k for k, x in ONE.items() if full(x, c)), None) for c in clauses]
    if len(clauses) == 1 and kinds == [None]:
        m = re.match(r"\s*([A-Za-z]+)\s*\([^;]*\)\s*;\s*\Z", text)
        if m and sorted(m[1].upper()) in (sorted("MAKE"), sorted("FIND")) and m[1].upper() not in ("MAKE", "FIND"):
            f = H.db()
            try:
                _, e = H.query(text, f)
                return None if e is not None else f"misspelt clause accepted: {text!r}"
            finally:
                f.done()
    if None in kinds:
        return None
    for k in ONE:
        want = [c for c, x in zip(clauses, kinds) if x == k]
        got, e = H.call(extract_all_statements, text, getattr(Clause, k))
        if e is not None:
            return f"extracting {k} from {text!r} raised {e!r}"
        if [re.sub(r"\s+;\Z", ";", x.strip()) for x in got or []] != [re.sub(r"\s+;\Z", ";", x) for x in want]:
            return f"{k} statements of {text!r}: {got} instead of {want}"


# ---------------------------------------------------------------- what a REPORT names
ITEM = re.compile(r"(?:(?P<a>\w+)(?:\.\w+)?|\w+\(\s*(?P<b>\w+)(?:\.\w+)?\s*\)|\w+\(\s*\*\s*\)|\*)(?=\s*[,;])")


def c14(text, H):
    from wiggle_query_language.clauses.report.parse_report.parse_report_statement import check_find_report_handles

    m = re.match(G.keyword("REPORT") + r"\s+", text)
    if not m or text.count(";") != 1 or not text.endswith(";"):
        return None
    hs, pos = set(), m.end()
    while True:
        m = ITEM.match(text, pos)
        if not m:
            return None
        hs |= {x for x in m.groupdict().values() if x}
        pos = re.compile(r"\s*[,;]\s*").match(text, m.end()).end()
        if pos >= len(text):
            break
    _, e = H.call(check_find_report_handles, set(hs), text)
    if e is not None:
        return f"{text!r} names only handles of the FIND ({sorted(hs)}) and is rejected: {e!r}"
    for h in sorted(hs):
        _, e = H.call(check_find_report_handles, hs - {h} | {"q" + h + "q"}, text)
        if e is None:
            return f"{text!r} names {h}, which the FIND does not have, and is accepted"


# ---------------------------------------------------------------- patterns
SLOTS = ["left_node", "middle_node", "right_node", "left_middle_rel", "middle_right_rel"]
FIELDS = [x for s in SLOTS for x in (s, s + "_handle", s + "_label", s + "_props")]


def patterns(text, word):
    if not full(G.statement(word, p=G.COARSE), text):
        return None
    n = itertools.count()
    one = re.compile(re.sub(r"\?P<(\w+)>", lambda m: f"?P<{m[1]}__{next(n)}>", G.pattern(labels=True, p=G.COARSE)))
    pos, out = re.match(G.keyword(word) + S, text).end(), []
    while text[pos:].strip() not in ("", ";"):
        m = one.match(text, pos)
        if not m:
            return None
        said = {}
        for k, v in m.groupdict().items():
            if v:
                said[k.split("__")[0]] = v.strip()
        out.append({f: said.get(f, "") for f in FIELDS})
        pos = re.compile(rf"{S},?{S}").match(text, m.end()).end()
    return out


def c20(text, H):
    from wiggle_query_language.clauses.find.parse_find.parse_find_statement import build_parsed_find
    from wiggle_query_language.clauses.make.parse_make.parse_make_statement import build_parsed_make

    for word, fn in (("MAKE", build_parsed_make), ("FIND", build_parsed_find)):
        want = patterns(text, word)
        if want is None:
            continue
        for p in want:
            hs = [p[s + "_handle"] for s in SLOTS if p[s + "_handle"]]
            if len(hs) != len(set(hs)):
                return None
        got, e = H.call(fn, text)
        if e is not None:
            return f"{text!r} raised {e!r}"
        if word == "FIND":
            want, got = want[:1], [got.parsed_pattern]
        else:
            got = got.parsed_pattern_list
        if len(got) != len(want):
            return f"{len(want)} patterns written, {len(got)} read from {text!r}"
        for w, g in zip(want, got):
            for f in FIELDS:
                x = (getattr(g, f) or "").strip()
                if x != w[f]:
                    return f"{f} of {text!r} was read as {x!r} instead of {w[f]!r}"


# ---------------------------------------------------------------- arrows
def arrows(text, H):
    from wiggle_query_language.clauses.transform_helpers.relationships import relationship_is_left_to_right

    m = re.fullmatch(r"\s*(<?)-+\[[^<>\[\]]*(?:\[[^<>\[\]]*\][^<>\[\]]*)*\]-+(>?)\s*", text)
    if not m or not (m[1] or m[2]):
        return None
    got, e = H.call(relationship_is_left_to_right, text)
    if m[1] and m[2]:
        return None if e is not None else f"{text!r} has both heads and was accepted"
    if e is not None:
        return f"{text!r} raised {e!r}"
    if bool(got) != bool(m[2]):
        return f"{text!r} was taken to point to the {'right' if got else 'left'}"


# ---------------------------------------------------------------- statements
def c12(text, H):
    from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import validate_statement

    kw = "(?:" + G.keyword("MAKE") + "|" + G.keyword("FIND") + ")"
    if full(G.statement(kw), text):
        got, e = H.call(validate_statement, [text])
        if e is not None or not got:
            return f"the documented statement {text!r} is rejected: {e!r}"


ORACLES = {"C02": arrows, "C09": arrows, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C20": c20}


def check(prop, text, H):
    f = ORACLES.get(prop)
    if f is None or not isinstance(text, str) or len(text) > LONGEST:
        return None
    return f(text, H)
