"""C14: at most one FIND and REPORT, and REPORT only names what FIND binds.

The handles a documented REPORT names are a labelled language; that the code looks at exactly these texts is decided by
automata, that it accepts the REPORT exactly if all of them are handles of the FIND follows from that on every path.
"""
import importlib

from .query import *
from .wordly import *
from .clauses import *
from . import base
from models.wql import ParsedQuery
from core.query import query as qmod

P = "wiggle_query_language.clauses."
mk_ = importlib.import_module(P + "make.parse_make.parse_make_statement")
fd_ = importlib.import_module(P + "find.parse_find.parse_find_statement")
rp_ = importlib.import_module(P + "report.parse_report.parse_report_statement")
ex = importlib.import_module(P + "parsing_helpers.extract_statements")
chk = importlib.import_module(P + "parsing_helpers.parse_statement_checks")
under(rp_.check_find_report_handles, rp_.parse_report_statement_from_query_string, fd_.parse_find_statement_from_query_string,
      mk_.parse_make_statement_from_query_string, qmod.parse_query_string, qmod.execute_query, ParsedPattern.pattern_handles.fget)
ASSUMPTIONS = ["contracts used: extract_all_statements (C13: None, or the texts of the clauses of the kind; may raise), validate_statement (C12: may raise, else True), "
               "build_parsed_make/find (C20: a function of the statement; may raise)"]

# ---------------------------------------------------------------- the handles that a REPORT names
H = G.lab("handle", r"\w+")
ITEM = rf"(?:{H}(?:\.\w+)?|\w+\(\s*{H}(?:\.\w+)?\s*\)|\w+\(\s*\*\s*\)|\*)"
language("report", rf"{G.keyword('REPORT')}\s\s*{ITEM}\s*(?:,\s*{ITEM}\s*)*;", 20)

HANDLES_ARE = "a REPORT is checked against what it names: all handles, nothing else"
ONLY_KNOWN = "a REPORT that names a handle the FIND does not have is rejected"
ALL_KNOWN = "a REPORT that only names handles of the FIND is accepted"


def agreeing(s, S, L, sdom, wanted):
    """a family of matches, and the group of them that are the labelled texts, one by one: [(dom, text of match i)]"""
    for key, fam in list(C.families.items()):
        r, how = getattr(fam, "rxh", (None, None))
        if how != "iter" or isinstance(r, rx.Spec):
            continue
        dom = matches(r, "iter", txt(s))
        for g in range(r.groups, -1, -1):
            names = [n for n in (f"{rx.key_of(r)}.all.g{g}", f"{rx.key_of(r)}.iter.g{g}", f"{rx.key_of(r)}.iter.g{g}?") if n in RXNAMES]
            for n in names:
                of = (lambda i, n=n: Dyn(C.uf(n, IntS, IntS, V)(txt(s), i), ("none", "str"))) if n.endswith("?") else (lambda i, n=n: Sym("str", C.uf(n, IntS, IntS, StrS)(txt(s), i)))
                for cond in (TRUE, truth(of(RANKVAR))):
                    yield dom, of, cond


@block("check_find_report_handles", [HANDLES_ARE, ONLY_KNOWN, ALL_KNOWN])
def _():
    use_texts()
    s, known = any_str("s"), str_set("handles")
    tag, r = call(rp_.check_find_report_handles, known, s)
    S, L = strterm(s), lang("report", s)
    if tag == "exc" and impossible(S, [L]):
        return
    sp = spec("report", "handle")
    sdom = matches(sp, "iter", txt(s))
    i, j = z3.Int("i*"), z3.Int("j*")
    C.register(sdom.fam, sdom.outer + (j,))
    w = spec_group(sp, txt(s), j, 0)
    for dom, of, cond in agreeing(s, S, L, sdom, w):
        at = z3.substitute(cond, (RANKVAR, i))
        same = position(dom, i, cond, RANKVAR) == position(sdom, j)
        g = of(i)
        gt = V.s(g.t) if isinstance(g, Dyn) else g.t
        C.register(dom.fam, dom.outer + (i,))
        many, text = count_if(dom, cond, RANKVAR) == sdom.hi, gt == V.s(w.t)
        with supposing(dom.inr(i), sdom.inr(j), at, same):
            tried = [prove(S, [L], many), prove(S, [L, at, same], text)]
            base.CUR.texts.extend(x for ok, x, _ in tried if not ok)
            if all(ok for ok, _, _ in tried):
                settle(HANDLES_ARE, S, [L], many)
                settle(HANDLES_ARE, S, [L, at, same], text)
                break
    else:
        return fail(HANDLES_ARE, "no texts are looked at that are the handles")
    # so what the code looks at and what is written correspond one to one, and are the same texts
    rank = lambda k: position(dom, k, cond, RANKVAR)
    wrote = lambda k: V.s(spec_group(sp, txt(s), k, 0).t)
    read = lambda k: (lambda v: V.s(v.t) if isinstance(v, Dyn) else v.t)(of(k))

    def looked_at(tup):
        k = tup[-1]
        C.register(sdom.fam, sdom.outer + (rank(k),))
        C.define(z3.Implies(z3.And(dom.inr(k), z3.substitute(cond, (RANKVAR, k))), z3.And(sdom.inr(rank(k)), read(k) == wrote(rank(k)))))

    C.add_schema(dom.fam, (), looked_at)
    C.assume(sdom.inr(j))
    C.fact(z3.And(dom.inr(i), at, read(i) == wrote(j)))
    v = C.new_index(sdom)
    unknown = C.exists(sdom, v, z3.Not(member(known, Sym("str", wrote(v)))))[0]
    if tag == "exc":
        check(ALL_KNOWN, unknown, f"raised {r}")
    else:
        reach(ALL_KNOWN)
        check(ONLY_KNOWN, z3.And(truth(r), member(known, Sym("str", wrote(j)))))


@block("check_find_report_handles of a REPORT without handles", [ALL_KNOWN])
def _():
    use_texts()
    s, known = any_str("s"), str_set("handles")
    tag, r = call(rp_.check_find_report_handles, known, s)
    S, L = strterm(s), lang("report", s)
    none = matches(spec("report", "handle"), "iter", txt(s)).hi == 0
    if tag == "exc":
        if not impossible(S, [L, none]):
            fail(ALL_KNOWN, f"raised {r}")
    else:
        check(ALL_KNOWN, truth(r))


# ---------------------------------------------------------------- the clauses of a query
MANY = "a query with several of them is rejected"
ONE = "the only one is checked, and what it says is read"
NO = "a query without one has none"


@block("parse_find_statement_from_query_string", [MANY, ONE, NO], contracts=[MODS])
def _():
    E.events = []
    q = any_str("q")
    tag, r = call(fd_.parse_find_statement_from_query_string, q)
    n, ev = counts("FIND"), E.events
    right = [e[1:] for e in ev if e[0] == "extract"] == [(q, Clause.FIND)]
    if any(e[0] == "raised" for e in ev):
        return check(ONE, tag == "exc")
    check(MANY, z3.Implies(n > 1, z3.BoolVal(tag == "exc")), f"returned {r}")
    check(NO, z3.Implies(n == 0, z3.BoolVal(right and tag == "ok" and r is None)), f"{tag} {r}")
    text = text_at("FIND", z3.IntVal(0))
    made = feq(r, Dyn(V.vobj(C.uf("find of", StrS, IntS)(text)), ("obj",))) if tag == "ok" and r is not None else FALSE
    check(ONE, z3.Implies(n == 1, z3.And(made, z3.Not(invalid(text)), z3.BoolVal(right))), f"{tag} {r}")


def c_handles(args, kwargs):
    """check_find_report_handles"""
    hs, text = (list(args) + [kwargs[k] for k in ("find_handles", "extracted_report") if k in kwargs])[:2]
    E.log("handles", hs, text)
    if C.decide(any_bool("unknown handle").t):
        E.log("raised", "handles")
        raise PyExc(Rejected)
    return True


@block("parse_report_statement_from_query_string", [MANY, ONE, NO], contracts=[{**MODS, P + "report.parse_report.parse_report_statement:check_find_report_handles": c_handles}])
def _():
    E.events = []
    use_texts()
    q = any_str("q")
    hs = str_set("handles") if C.decide(any_bool("has find").t) else None
    tag, r = call(rp_.parse_report_statement_from_query_string, q, hs)
    n, ev = counts("REPORT"), E.events
    right = [e[1:] for e in ev if e[0] == "extract"] == [(q, Clause.REPORT)]
    if any(e[0] == "raised" for e in ev):
        return check(ONE, tag == "exc")
    check(MANY, z3.Implies(n > 1, z3.BoolVal(tag == "exc")), f"returned {r}")
    check(NO, z3.Implies(n == 0, z3.BoolVal(right and tag == "ok" and r is None)), f"{tag} {r}")
    if not C.feasible(n == 1):
        return
    t = text_at("REPORT", z3.IntVal(0))
    if tag == "exc":
        # no documented REPORT is refused here
        if not impossible(t, [lang("report", Sym("str", t))]):
            check(ONE, n != 1, f"raised {r}")
        return
    looked = [e for e in ev if e[0] == "handles"]
    good = right and isinstance(r, ObjV) and r.cls is ParsedReport and len(looked) == (1 if hs is not None else len(looked)) and all(e[1] is hs for e in looked)
    check(ONE, z3.Implies(n == 1, z3.And([z3.BoolVal(good)] + [strterm(e[2]) == t for e in looked] + ([strterm(r.fields["extracted_report"]) == t] if good else []))))


def opt(name, obj):
    """a parser of the query's clauses of a kind"""
    def c(args, kwargs):
        E.log(name, *args, *[(k, kwargs[k]) for k in sorted(kwargs)])
        if C.decide(any_bool(name + " fails").t):
            E.log("raised", name)
            raise PyExc(Rejected)
        return obj() if C.decide(any_bool("has " + name).t) else None

    return c


def some_makes():
    m = parsed_makes(False)[2]
    assume(truth(m))
    E.log("made", m)
    return m


def some_find():
    f = any_find(pattern("find"))
    E.log("found", f)
    return f


def some_report():
    r = any_report()
    E.log("reported", r)
    return r


def same_obj(a, b):
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return a.cls is b.cls and set(a.fields) == set(b.fields) and all(same_obj(a.fields[k], b.fields[k]) for k in b.fields)
    if isinstance(a, (ListV, SetV)) and type(a) is type(b):
        return len(a.segs) == len(b.segs) and all(interp.same_seg(x, y) for x, y in zip(a.segs, b.segs))
    return interp.same(a, b)


PARSERS = {P + "make.parse_make.parse_make_statement:parse_make_statement_from_query_string": opt("make", some_makes),
           P + "find.parse_find.parse_find_statement:parse_find_statement_from_query_string": opt("find", some_find),
           P + "report.parse_report.parse_report_statement:parse_report_statement_from_query_string": opt("report", some_report)}
FAILS = "an error of a clause is an error of the query"
ALL = "what the clauses say is what the query says, each taken from the same text"
GIVEN = "the REPORT is checked against the handles of the nodes and relationships of the FIND, and against nothing without a FIND"


@block("parse_query_string", [FAILS, ALL, GIVEN], contracts=[PARSERS])
def _():
    E.events = []
    q = any_str("q")
    tag, r = call(qmod.parse_query_string, q)
    ev = E.events
    if any(e[0] == "raised" for e in ev):
        return check(FAILS, tag == "exc")
    last = lambda k: next((e[1] for e in ev if e[0] == k), None)
    asked = {k: [e[1:] for e in ev if e[0] == k] for k in ("make", "find", "report")}
    plain = {k: [dict([x for x in e if isinstance(x, tuple)]) for e in v] for k, v in asked.items()}
    takes_q = all(len(v) == 1 and (v[0] and v[0][0] is q or plain[k][0].get("query_string") is q) for k, v in asked.items())
    ok = tag == "ok" and isinstance(r, ObjV) and r.cls is ParsedQuery
    check(ALL, takes_q and ok and same_obj(r.fields["make_parsed"], last("made")) and same_obj(r.fields["find_parsed"], last("found")) and same_obj(r.fields["report_parsed"], last("reported")), f"{tag} {r} {ev}")
    if not ok or len(asked["report"]) != 1:
        return
    a = asked["report"][0]
    hs = plain["report"][0]["find_handles"] if "find_handles" in plain["report"][0] else ([x for x in a if not isinstance(x, tuple)] + [None, None])[1]
    f = last("found")
    if f is None:
        return check(GIVEN, hs is None or isinstance(hs, Dyn) and C.valid(V.is_vnone(hs.t)), f"{hs}")
    x = any_dyn("x", ("none", "str"))
    p = f.fields["parsed_pattern"]
    check(GIVEN, member(hs, x) == z3.Or([z3.And(truth(p.fields[h]), feq(p.fields[h], x)) for h in HANDLES]))


NOTHING = "a REPORT without a FIND is rejected, and nothing is done"


def c_act(name):
    def c(args, kwargs):
        E.log(name)
        return Opaque(name)

    return c


@block("execute_query of a REPORT without a FIND", [NOTHING], contracts=[{P + "make.make:make": c_act("make"), P + "find.find:find": c_act("find"), P + "report.report:report": c_act("report")}])
def _():
    E.events = []
    makes = some_makes() if C.decide(any_bool("has make").t) else None
    E.events = []
    pq = ObjV(ParsedQuery, {"make_parsed": makes, "find_parsed": None, "criteria_parsed": None, "report_parsed": any_report()})
    tag, r = call(qmod.execute_query, pq, paths_obj())
    check(NOTHING, tag == "exc" and not E.events, f"{tag} {E.events}")
