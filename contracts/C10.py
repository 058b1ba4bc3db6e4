"""C10: property values keep the type and the value that was written.

get_property_dict on every documented property map: the matches that become properties are compared, one by one, with the
labelled parts of the documented notation; the value of each case of the code is the conversion of exactly the text written.
"""
from .maps import *

under(*FUNCTIONS)
ASSUMPTIONS = [CONVERSIONS, "names of one map are different (of properties with the same name the last is kept)"]

language("map", rf"\s*{G.props(labels=True)}\s*", 20)
language("list", G.lst(labels=True), 20)

TAKEN = "every documented property map is read"
MANY = "as many properties are read as are written"
KEY = "each under the name that was written for it"
KINDS = dict(int="integers", float="decimals", true="true", false="false", null="null", str="strings", list="lists")
VALUE = {k: f"what is stored as one of the {v} was written as one, and as this one" if k not in ("true", "false", "null") else f"what is stored as {v} was written as {v}" for k, v in KINDS.items()}


@block("get_property_dict", [TAKEN, MANY, KEY] + list(VALUE.values()))
def _():
    use_texts()
    s = any_str("s")
    tag, r = call(pp.get_property_dict, s)
    S, L = strterm(s), lang("map", s)
    if tag == "exc" or r is None:
        if not impossible(S, [L]):
            fail(TAKEN, f"raised {r}")
        return
    reach(TAKEN)
    sp = spec("map", "entry")
    sdom = matches(sp, "iter", txt(s))
    got = entries(r)
    if got is None:
        return settle(MANY, S, [L] + pieces(), sdom.hi == 0)
    e, cases = got
    cond, _ = counted(e)
    settle(MANY, S, [L], count_if(e.dom, cond, RANKVAR) == sdom.hi)
    i, j = z3.Int("i*"), z3.Int("j*")
    C.register(e.dom.fam, e.dom.outer + (i,))
    C.register(sdom.fam, sdom.outer + (j,))
    at = z3.substitute(cond, (RANKVAR, i))
    same = position(e.dom, i, cond, RANKVAR) == position(sdom, j)
    C.assume(z3.And(e.dom.inr(i), sdom.inr(j), at, same))
    part = lambda l: spec_group(sp, txt(s), j, l)
    for g, k, v in cases:
        g, k, v = simp(interp.sub_t(g, [(e.var, i)])), interp.subst(k, [(e.var, i)]), interp.subst(v, [(e.var, i)])
        if not C.feasible(g):
            continue
        with supposing(g):
            kind, text = conversion(v)
        here = [L, at, same, g]
        settle(KEY, S, here, strterm(k) == V.s(part("key").t))
        settle(VALUE[kind], S, here, truth(part(kind)) if kind != "str" else z3.Not(V.is_vnone(part(kind).t)), kind)
        if text is not None:
            w = V.s(part(kind).t)
            w = translated("list", {"true": "True", "false": "False", "null": "None"}, w) if kind == "list" else w
            settle(VALUE[kind], S, here, text == w, kind)


WITHOUT = "where no properties are written there are none"


@block("get_property_dict without a text", [WITHOUT])
def _():
    tag, r = call(pp.get_property_dict, None if C.decide(any_bool("none").t) else "")
    check(WITHOUT, tag == "ok" and (r is None or isinstance(r, Dyn) and C.valid(V.is_vnone(r.t))), f"{tag} {r}")
