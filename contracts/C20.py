"""C20: a well-formed pattern is read exactly as it is written.

The code's regular expression, as it is in /repo, against the documented grammar with labels on its parts: for every text
that is a statement, every match that counts is compared with the written part of the same rank.
"""
import importlib

from .query import feq, FIELDS, HANDLES, NODES, RELS, ParsedFind, ParsedMake, ParsedPattern
from .files import member
from .wordly import *
from exceptions.wql.make import MakeDuplicateHandlesError

P = "wiggle_query_language.clauses."
mk_ = importlib.import_module(P + "make.parse_make.parse_make_statement")
fd_ = importlib.import_module(P + "find.parse_find.parse_find_statement")
under(mk_.build_parsed_make, fd_.build_parsed_find)
ASSUMPTIONS = ["property maps are read as the texts they are; what they mean is C10"]

language("MAKE", G.statement("MAKE", labels=True, p=G.COARSE), 20)
language("FIND", G.statement("FIND", labels=True, p=G.COARSE), 20)
language("fine map", G.props(), 20)
language("coarse map", G.COARSE, 20)

READ = "every statement in which no two handles of a pattern are the same is read"
MANY = "as many patterns are read as are written"
ABSENT = "the parts that were not written are absent, the others are not"
HANDLE, LABEL, PROPS = "handles are the written ones", "labels and names are the written ones", "property texts are the written ones"
ARROW = "relationships are the written texts with their arrows"
PARTS = "nodes are the written texts"
KNOWN = "a pattern is as the other contracts expect it"
FIRST = "the first pattern is the one that is read"
HANDLES_OF = "the handles of the statement are the written ones"
FIELDS_OBS = [ABSENT, HANDLE, LABEL, PROPS, ARROW, PARTS, KNOWN]


def duplicates(t):
    """formula: a match of a pattern on t has two handles that are the same"""
    out = []
    for fam in list(C.families.values()):
        rxh = getattr(fam, "rxh", None)
        if rxh and rxh[1] == "iter" and hasattr(rxh[0], "groupindex") and all(h in rxh[0].groupindex for h in HANDLES):
            dom = Dom(fam, (t,))
            v = C.new_index(dom)
            hs = [rx.group_value(rxh[0], "iter", t, v, rxh[0].groupindex[h]) for h in HANDLES]
            two = [z3.And(truth(a), feq(a, b)) for i, a in enumerate(hs) for b in hs[:i]]
            out.append(C.exists(dom, v, z3.Or(two))[0])
    return z3.Or(out) if out else FALSE


def strip(v):
    """the text of a value without whitespace around it"""
    return Sym("str", C.uf("str.strip:[]", StrS, StrS)(V.s(v.t))) if isinstance(v, Dyn) else E.call(E.getattr(v, "strip"), [], {})


def compare(s, S, dom, i, cond, p, sp, j, premises):
    """the pattern read against the one written"""
    t = txt(s)
    got = {f: interp.subst(p.fields[f], []) for f in FIELDS}
    for f in FIELDS:
        g, w = got[f], spec_group(sp, t, j, f)
        both = z3.And(truth(g), truth(w))
        if f in NODES or f in RELS:
            settle(ABSENT, S, premises, truth(g) == truth(w), f)
            settle(ARROW if f in RELS else PARTS, S, premises, z3.Implies(both, strterm(strip(g)) == V.s(w.t)), f)
        else:
            name = HANDLE if f.endswith("_handle") else LABEL if f.endswith("_label") else PROPS
            settle(name, S, premises, truth(g) == truth(w), f)
            settle(name, S, premises, z3.Implies(both, (strterm(strip(g)) if name is PROPS else V.s(g.t)) == V.s(w.t)), f)
    # what the contracts of C01-C03, C08, C09 start from
    tr = lambda f: truth(got[f])
    has = lambda f, c: C.uf("substr_in", StrS, StrS, z3.BoolSort())(C.lit(c), V.s(got[f].t))
    facts = [tr("left_node"), tr("middle_node") == tr("left_middle_rel"), tr("right_node") == tr("middle_right_rel"), z3.Implies(tr("right_node"), tr("middle_node"))]
    facts += [z3.Implies(tr(n), tr(n + "_label")) for n in NODES]
    facts += [z3.Implies(tr(r), z3.Not(z3.And(has(r, "<"), has(r, ">")))) for r in RELS]
    for f in facts:
        settle(KNOWN, S, premises, f)


def start(fn, clause):
    s = any_str("s")
    tag, r = call(fn, s)
    S = strterm(s)
    L = lang(clause, s)
    if tag == "exc":
        if r is MakeDuplicateHandlesError and C.valid(duplicates(txt(s))):
            reach(READ)
        elif not impossible(S, [L]):
            fail(READ, f"raised {r}")
        return None
    reach(READ)
    return s, S, L, r


@block("build_parsed_make", [READ, MANY] + FIELDS_OBS)
def _():
    use_texts()
    st = start(mk_.build_parsed_make, "MAKE")
    if st is None:
        return
    s, S, L, r = st
    if not isinstance(r, ObjV) or r.cls is not ParsedMake:
        return fail(READ, f"returned {r}")
    l = r.fields["parsed_pattern_list"]
    segs = [x for x in l.segs if not (isinstance(x, Each) and not any(ss for _, ss in x.cases))]
    if len(segs) != 1:
        raise Unsupported("a list of several parts")
    e = segs[0]
    cond, pats = counted(e)
    sp = spec("MAKE", "pattern")
    sdom = matches(sp, "iter", txt(s))
    settle(MANY, S, [L], count_if(e.dom, cond, RANKVAR) == sdom.hi)
    i, j = z3.Int("i*"), z3.Int("j*")
    C.register(e.dom.fam, e.dom.outer + (i,))
    C.register(sdom.fam, sdom.outer + (j,))
    at = z3.substitute(cond, (RANKVAR, i))
    same = position(e.dom, i, cond, RANKVAR) == position(sdom, j)
    C.assume(z3.And(e.dom.inr(i), sdom.inr(j), at, same))
    done = []
    for p in pats:
        p = interp.subst(p, [(e.var, i)])
        if not any(all(p.fields[f].t.eq(q.fields[f].t) for f in FIELDS) for q in done):
            done.append(p)
            compare(s, S, e.dom, i, cond, p, sp, j, [L, at, same])


@block("build_parsed_find", [READ, FIRST, HANDLES_OF] + FIELDS_OBS)
def _():
    use_texts()
    st = start(fd_.build_parsed_find, "FIND")
    if st is None:
        return
    s, S, L, r = st
    if not isinstance(r, ObjV) or r.cls is not ParsedFind or not isinstance(r.fields["parsed_pattern"], ObjV):
        return fail(READ, f"returned {r}")
    p = r.fields["parsed_pattern"]
    x = any_dyn("x", ("none", "str"))
    check(HANDLES_OF, member(r.fields["parsed_pattern_handles"], x) == z3.Or([z3.And(truth(p.fields[h]), feq(p.fields[h], x)) for h in HANDLES]))
    dom, i = selected(p.fields["left_node"])
    cond = next((c for c in real_ones(dom) if is_first(dom, i, c)), None)
    if cond is None:
        return fail(FIRST, "another pattern than the first that counts")
    sp = spec("FIND", "pattern")
    sdom = matches(sp, "iter", txt(s))
    # the same for whichever match it is
    j, k = z3.Int("j*"), z3.Int("i*")
    p, i = interp.subst(p, [(i, k)]), k
    C.register(dom.fam, dom.outer + (i,))
    C.register(sdom.fam, sdom.outer + (j,))
    at = z3.substitute(cond, (RANKVAR, i))
    first = [position(dom, i, cond, RANKVAR) == 0, position(sdom, j) == 0]
    C.assume(z3.And([dom.inr(i), sdom.inr(j), at] + first))
    reach(FIRST)
    compare(s, S, dom, i, cond, p, sp, j, [L, at] + first)


@block("property maps", ["every documented property map is among the texts that are read as property texts"])
def _():
    use_texts()
    s = any_str("s")
    settle("every documented property map is among the texts that are read as property texts", strterm(s), [lang("fine map", s)], lang("coarse map", s))
