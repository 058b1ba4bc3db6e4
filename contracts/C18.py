"""C18: the shell, line by line (the contract of an iteration of its loop, from any state), and what it does
with a query: execute_query over arbitrary parsed queries, with the contracts of make, find and report."""
import json

from .query import *
from models.wql import ParsedQuery, ParsedReport
from core.query import query as qmod
from core.select_gdbms.select_gdbms import select_gdbms
import wiggle_shell.wiggleshell as shell
from wiggle_query_language.clauses.find.find import find
from wiggle_query_language.clauses.make.make import make
from wiggle_query_language.clauses.report.report import report

TRUSTED = ["input and print (model): input gives any line, print cannot fail"]
ASSUMPTIONS = ["contracts used: query, select_gdbms, make, find, report, process_parsed_find (raise any exception, or return)"]
under(shell.start_wiggle_shell, qmod.execute_query, qmod.query)


class AnyError(Exception):
    """an exception of any class"""


ERRORS = [AnyError, ValueError, KeyError, FileNotFoundError, json.decoder.JSONDecodeError, TypeError, RecursionError, StopIteration]


def may_raise(name):
    """raise an error of any kind, or not"""
    for c in ERRORS:
        if C.decide(any_bool(f"{name} raises {c.__name__}").t):
            E.log("raised", c)
            raise PyExc(c)


def c_select(args, kwargs):
    p = paths_obj()
    E.log("select", p)
    return p


def c_query(args, kwargs):
    text = args[0] if args else kwargs["query_string"]
    where = args[1] if len(args) > 1 else kwargs["gdbms_file_path"]
    E.log("query", text, where)
    may_raise("query")
    return True


QUERY = {"core.query.query:query": c_query, "core.select_gdbms.select_gdbms:select_gdbms": c_select}
ONCE = "a line other than q and help is executed once, against the database that was selected"
SHOWN = "an error is shown, and the next line is asked for"
HELP = "help shows the help and executes nothing"
QUITS = "q ends the shell and executes nothing"
ASKED = "after every line but q the next one is asked for, and the shell ends only with q"


def const_text(ev):
    return " ".join(x for x in ev[1] if isinstance(x, str))


@block("start_wiggle_shell", [ONCE, SHOWN, HELP, QUITS, ASKED], contracts=[QUERY])
def _():
    E.events = []
    q, h = C.lit("q"), C.lit("help")
    plain = lambda t, how: strterm(E.call(E.getattr(E.call(E.getattr(Sym("str", t), "strip"), [], {}), how), [], {}))
    # strip and lower of the words themselves
    strip, lower = C.uf("str.strip:[]", StrS, StrS), C.uf("str.lower:[]", StrS, StrS)
    fold = C.uf("str.casefold:[]", StrS, StrS)
    for t in (q, h):
        for f in (strip, lower, fold):
            C.fact(f(t) == t)
    seen = []

    def iteration(events, how):
        lines = [e[1] for e in events if e[0] == "input"]
        if not lines:
            check(ASKED, not any(e[0] == "query" for e in events))
            return
        line = lines[0]
        seen.append(1)
        t = strterm(line)
        queries = [e for e in events if e[0] == "query"]
        raised = [i for i, e in enumerate(events) if e[0] == "raised"]
        is_q, is_help = t == q, t == h
        like_help = z3.Or(plain(t, "lower") == h, plain(t, "casefold") == h)
        check(ASKED, len(lines) == 1)
        check(ASKED, z3.Implies(is_q, z3.BoolVal(how in ("ends", "returns"))) if how != "continues" else z3.Not(is_q), f"ends with {how}")
        check(ASKED, TRUE if how == "continues" else is_q, f"ends with {how}")
        check(QUITS, z3.Implies(is_q, z3.BoolVal(not queries)))
        check(HELP, z3.Implies(is_help, z3.BoolVal(not queries and any(e[0] == "print" and "help" in const_text(e).lower() for e in events))))
        other = z3.And(z3.Not(is_q), z3.Not(like_help))
        sel = [e[1] for e in E.events if e[0] == "select"]
        good = len(queries) == 1 and len(sel) == 1 and queries[0][2] is sel[0]
        check(ONCE, z3.Implies(other, eq(queries[0][1], line) if good else FALSE))
        check(SHOWN, not raised or how == "continues" and any(e[0] == "print" and any(isinstance(x, Opaque) for x in e[1]) for e in events[raised[0]:]), f"ends with {how}")

    E.iteration = iteration
    tag, r = call(shell.start_wiggle_shell)
    check(ASKED, tag == "ok", f"raised {r}")


# ---------------------------------------------------------------- what is done with a query
def c_log(name):
    def c(args, kwargs):
        E.log(name, *[kwargs[k] for k in sorted(kwargs)], *args)
        may_raise(name)
        return Opaque(name)

    return c


P = "wiggle_query_language.clauses."
DOES = {P + "make.make:make": c_log("make"), P + "find.find:find": c_log("find"), P + "report.report:report": c_log("report"),
        P + "find.transform.find_pre:process_parsed_find": c_log("interpret")}
NEITHER = "a query with neither MAKE nor FIND is rejected"
ONLY_MAKE = "a query with a MAKE only executes that MAKE once, against the given database"
BOTH_ = "a query with a MAKE and a FIND executes both, once each, in that order"
ERR = "an error of a clause is an error of the query, and ends it"


@block("execute_query", [NEITHER, ONLY_MAKE, BOTH_, ERR], contracts=[DOES])
def _():
    E.events = []
    _, _, makes = parsed_makes(False)
    f = any_find(pattern("find")) if C.decide(any_bool("has find").t) else None
    r = any_report() if C.decide(any_bool("has report").t) else None
    m = makes if C.decide(any_bool("has make").t) else None
    if m is not None:
        # what parsing gives is never an empty list
        assume(truth(m))
    where = paths_obj()
    pq = ObjV(ParsedQuery, {"make_parsed": m, "find_parsed": f, "criteria_parsed": None, "report_parsed": r})
    tag, res = call(qmod.execute_query, pq, where)
    ev = [e for e in E.events]
    made, found, raised = [e for e in ev if e[0] == "make"], [e for e in ev if e[0] == "find"], [e for e in ev if e[0] == "raised"]
    right = all(m in e and where in e for e in made) and all(f in e and where in e for e in found)
    if raised:
        check(ERR, tag == "exc" and ev[-1] is raised[0], f"{ev}")
        return
    if m is None and f is None:
        check(NEITHER, tag == "exc" and not made and not found)
    elif f is None and r is None:
        check(ONLY_MAKE, tag == "ok" and right and len(made) == 1 and not found, f"{tag} {ev}")
    elif f is not None:
        check(BOTH_, tag == "ok" and right and len(made) == (m is not None) and len(found) == 1
              and (not made or ev.index(made[0]) < ev.index(found[0])), f"{tag} {ev}")


PARSED = Opaque("parsed query")


def c_parse(args, kwargs):
    E.log("parse", args[0] if args else kwargs["query_string"])
    may_raise("parse")
    return PARSED


PASSES = "a text is parsed, and what it says is executed once against the given database"
REFUSES = "an error in parsing or execution is an error of the query"


@block("query", [PASSES, REFUSES], contracts=[{"core.query.query:parse_query_string": c_parse, "core.query.query:execute_query": c_log("execute")}])
def _():
    E.events = []
    t, where = any_str("text"), paths_obj()
    tag, r = call(qmod.query, t, where)
    ev = E.events
    if any(e[0] == "raised" for e in ev):
        check(REFUSES, tag == "exc")
        return
    done = [e for e in ev if e[0] == "execute"]
    check(PASSES, tag == "ok" and len(done) == 1 and PARSED in done[0] and where in done[0] and [e for e in ev if e[0] == "parse"][-1][1] is t, f"{tag} {ev}")
