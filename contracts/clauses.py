"""The parts of a query, by the contracts of the functions that take it apart (C12, C13, C20); shared by C12, C13, C14."""
from .query import *

P = "wiggle_query_language.clauses."


class Rejected(Exception):
    """whatever a function with a contract raises"""


def counts(kind):
    return z3.Int(f"clauses of {kind}")


def c_extract(args, kwargs):
    """None without clauses of the kind, otherwise their texts; or an error"""
    text, clause = (list(args) + [kwargs[k] for k in ("query_string", "clause") if k in kwargs])[:2]
    E.log("extract", text, clause)
    n = counts(clause.name)
    C.fact(n >= 0)
    if C.decide(any_bool(f"{clause.name} cannot be extracted").t):
        E.log("raised", clause)
        raise PyExc(Rejected)
    if C.decide(n == 0):
        return None
    fam = family(clause.name, 1, lambda outer: n)
    C.fact(fam.length(()) >= 1)
    return ListV([each(fam, (), lambda i: Sym("str", C.uf(f"{clause.name} statement", IntS, StrS)(i)))])


def flagged(name):
    """contract of a check of statements: rejects the list exactly if it rejects one of them"""
    bad = lambda x: C.uf(name, StrS, z3.BoolSort())(strterm(x))

    def c(args, kwargs):
        l = args[0] if args else next(iter(kwargs.values()))
        E.log(name, l)
        if C.decide(segs_any(l.segs, bad)):
            E.log("raised", name)
            raise PyExc(Rejected)
        return True

    return c


def c_build(name):
    ok, ob = f"{name} reads", f"{name} of"

    def c(args, kwargs):
        s = args[0] if args else kwargs["statement"]
        t = strterm(s)
        if C.decide(z3.Not(C.uf(ok, StrS, z3.BoolSort())(t))):
            E.log("raised", name)
            raise PyExc(Rejected)
        return Dyn(V.vobj(C.uf(ob, StrS, IntS)(t)), ("obj",))

    return c


MODS = {P + "parsing_helpers.extract_statements:extract_all_statements": c_extract, P + "parsing_helpers.parse_statement_checks:validate_statement": flagged("invalid"),
        P + "make.parse_make.parse_make_statement:build_parsed_make": c_build("make"), P + "find.parse_find.parse_find_statement:build_parsed_find": c_build("find")}

def text_at(kind, i):
    return C.uf(f"{kind} statement", IntS, StrS)(i)


def invalid(t):
    return C.uf("invalid", StrS, z3.BoolSort())(t)
