"""C11: unsupported property values are rejected, never dropped or guessed.

get_property_dict on any text at all: if it returns, then every stored property is exactly what the part of the text says
that it was made from, and outside of these parts there is nothing but brackets, commas and whitespace.  That a map with a
value that is missing, reserved or nested is rejected follows for every such map.
"""
import re

from .maps import *

under(*FUNCTIONS)
ASSUMPTIONS = [CONVERSIONS]

ELEMENTS = {"lit": ["[0-9]+", r"[0-9]+\.[0-9]+", r"""'[^']*'|"[^"]*\""""], "true": ["true"], "false": ["false"], "null": ["null"]}
LABELLED = "|".join(rf"(?P<{n}__N>{x})" for n, xs in ELEMENTS.items() for x in xs)
LIST = lambda e: rf"\[\s*(?:(?:{e})\s*(?:,\s*(?=[^\s\]])|(?=\])))*\]"
PLAIN = LIST(re.sub(r"\?P<\w+>", "?:", LABELLED))
VALUES = {
    "int": r"(?P<int__N>[0-9]+)", "float": r"(?P<float__N>\d+\.\d+)", "true": r"(?P<true__N>true)", "false": r"(?P<false__N>false)", "null": r"(?P<null__N>null)",
    # quoted: what is between the quotes; otherwise all of it
    "str": r"""(?:'(?P<str__N>[^']*)'|"(?P<str__N>[^"]*)"|(?P<str__N>[\w+@.](?:[\w+@.\s'"]*[\w+@.'"])?))""",
    "list": rf"(?P<list__N>{PLAIN})",
}
for k, x in VALUES.items():
    language("kept " + k, rf"(?P<entry__N>(?P<key__N>\w+)\s*:\s*{x}\s*)", 20)
language("any list", LIST(LABELLED), 20)
language("between", r"[{}\s,]*", 5)

WORD = "|".join(rf"{w}|'{w}'|\"{w}\"" for w in ("True", "False", "None", "Null", "none")) + r"|'(?:true|false)'|\"(?:true|false)\""
language("reserved", rf"\w+\s*:\s*(?:{WORD})\s*", 20)
language("kept", rf"\w+\s*:\s*(?:{'|'.join(re.sub(r'P<[a-z]+__N>', ':', x) for x in VALUES.values())})\s*", 20)

ALL = "what no property was made from is brackets, commas and whitespace only"
OWN = "a property is stored under the name that was written, for the whole of what was written"
VALUE = {"int": "an integer is stored only for digits, and is theirs", "float": "a decimal is stored only for digits, a dot and digits, and is theirs", "true": "true is stored only for true",
         "false": "false is stored only for false", "null": "null is stored only for null", "str": "a string is stored only for the text between its quotes or the whole of what was written",
         "list": "a list is stored only for a list of documented values, and of these"}
RESERVED = "no reserved word is stored as a string"


def kept(s):
    """of get_property_dict on this path: (element, [(guard, key, value)]), or None"""
    tag, r = call(pp.get_property_dict, s)
    if tag == "exc":
        return None
    if r is None:
        settle(ALL, strterm(s), pieces(), strterm(s) == C.lit(""))
        return None
    got = entries(r)
    if got is None:
        settle(ALL, strterm(s), pieces(), lang("between", s))
        return None
    return got


@block("get_property_dict of any text", [ALL, OWN, RESERVED] + list(VALUE.values()))
def _():
    use_texts()
    s = any_str("s")
    S = strterm(s)
    got = kept(s)
    if got is None:
        return
    e, cases = got
    cond, _ = counted(e)
    rx_ = e.dom.fam.rxh[0]
    i = z3.Int("i*")
    C.register(e.dom.fam, e.dom.outer + (i,))
    rest = [p for p in pieces() if words.wordy(p)]
    settle(ALL, S, rest, lang("between", E.call(E.getattr(rx_, "sub"), ["", s], {})))
    whole = rx.group_value(*e.dom.fam.rxh, txt(s), i, 0)
    with supposing(e.dom.inr(i)):
        settle(ALL, S, rest, z3.Or(z3.substitute(cond, (RANKVAR, i)), lang("between", whole)))
    at = z3.substitute(cond, (RANKVAR, i))
    C.assume(z3.And(e.dom.inr(i), at))
    j = z3.Int("j*")
    for g, k, v in cases:
        g, k, v = simp(interp.sub_t(g, [(e.var, i)])), interp.subst(k, [(e.var, i)]), interp.subst(v, [(e.var, i)])
        if not C.feasible(g):
            continue
        with supposing(g):
            kind, text = conversion(v)
        here = [at, g] + of_every(e.dom, i)
        if not settle(OWN, S, here, lang("kept " + kind, whole), kind):
            continue
        sp = spec("kept " + kind, "entry")
        sdom = matches(sp, "iter", txt(whole))
        with supposing(sdom.inr(j)):
            part = lambda l: spec_group(sp, txt(whole), j, l)
            settle(OWN, S, here, strterm(k) == V.s(part("key").t))
            settle(VALUE[kind], S, here, truth(part(kind)) if kind != "str" else z3.Not(V.is_vnone(part(kind).t)), kind)
            if text is not None:
                w = V.s(part(kind).t)
                w = translated("any list", {"true": "True", "false": "False", "null": "None"}, w) if kind == "list" else w
                settle(VALUE[kind], S, here, text == w, kind)
            if kind == "str":
                settle(RESERVED, S, here, z3.And([text != C.lit(x) for x in G.RESERVED]))
        settle(RESERVED, S, here, z3.And(lang("kept", whole), z3.Not(lang("reserved", whole))))


# ---------------------------------------------------------------- whole maps of which one value is unsupported
E1 = G.entry()
BAD = {
    "a value that is missing": "",
    "a reserved word": f"(?:{WORD})",
    "a list in a list": rf"\[\s*(?:{G.VALUE}\s*,\s*)*{G.lst()}\s*(?:,\s*{G.VALUE}\s*)*\]",
    "a map": G.props(),
    "a map in a list": rf"\[\s*(?:{G.VALUE}\s*,\s*)*{G.props()}\s*(?:,\s*{G.VALUE}\s*)*\]",
}


def rejects(what, value):
    language(what, rf"\{{\s*(?:{E1}\s*,\s*)*\w+\s*:\s*{value}\s*(?:,\s*{E1}\s*)*\}}", 20)

    @block(f"get_property_dict of a map of which one value is {what}", ["is rejected"])
    def _():
        use_texts()
        s = any_str("s")
        tag, r = call(pp.get_property_dict, s)
        if tag == "exc":
            return reach("is rejected")
        bad = lang(what, s)
        got = entries(r) if r is not None else None
        if got is None:
            return reach("is rejected") if impossible(strterm(s), [bad]) else fail("is rejected", f"returned {r}")
        # from the contract above
        dom, cond = got[0].dom, counted(got[0])[0]
        v = C.new_index(dom)
        whole = rx.group_value(*dom.fam.rxh, txt(s), v, 0)
        was_kept = z3.And(lang("kept", whole), z3.Not(lang("reserved", whole)))
        other, _ = C.exists(dom, v, z3.And(z3.substitute(cond, (RANKVAR, v)), z3.Not(was_kept)))
        settle("is rejected", strterm(s), [bad, lang("between", E.call(E.getattr(dom.fam.rxh[0], "sub"), ["", s], {})), z3.Not(other)], FALSE, "rejection")


for what, value in BAD.items():
    rejects(what, value)
