"""C13: clauses are told apart by their semicolons, not by line, case or content.

extract_all_statements on every text that is a sequence of clauses: what it returns for a kind of clause are the clauses of
that kind, in the order in which they are written.
"""
import importlib

from .wordly import *
from models.wql import Clause

P = "wiggle_query_language.clauses."
ex = importlib.import_module(P + "parsing_helpers.extract_statements")
chk = importlib.import_module(P + "parsing_helpers.parse_statement_checks")
under(ex.extract_all_statements, chk.check_clause_spelling)

REPORT = rf"{G.keyword('REPORT')}\s[^;]+;"
ONE = {"MAKE": G.statement("MAKE", p=G.COARSE), "FIND": G.statement("FIND", p=G.COARSE), "REPORT": REPORT}
CLAUSES = (Clause.MAKE, Clause.FIND, Clause.REPORT)


def query(kind):
    """any sequence of clauses; those of one kind are labelled"""
    return r"\s*(?:(?:" + "|".join(G.lab(k, x, k == kind) for k, x in ONE.items()) + r")\s*)*"


def other_word(words_, cs="[a-zA-Z]"):
    """a word of letters that is none of the given ones, in whatever case"""
    firsts = sorted({w[0] for w in words_ if w})
    cls = lambda f: f"[{f.lower()}{f.upper()}]"
    alts = [f"{cls(f)}{other_word([w[1:] for w in words_ if w and w[0] == f])}" for f in firsts]
    rest = "[" + "".join(c for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ" if c.upper() not in firsts) + "]"
    alts.append(f"{rest}{cs}*")
    return "(?:" + "|".join(alts) + ")" + ("" if "" in words_ else "?")


for k in ONE:
    language("query:" + k, query(k), 20)
language("misspelt", rf"\s*{other_word(['MAKE', 'FIND'])}\s*\([^;]*\)\s*;\s*", 20)

TAKEN = "every query of documented clauses is taken apart"
ALL = "as many clauses of the kind are found as there are"
NONE = "nothing is found only if there is none"
TEXT = "they are the texts that were written, in the order in which they were written"

for clause in CLAUSES:
    kind = clause.name

    @block(f"extract_all_statements({kind})", [TAKEN, ALL, NONE, TEXT])
    def _():
        use_texts()
        s = any_str("s")
        S, L = strterm(s), lang("query:" + kind, s)
        tag, r = call(ex.extract_all_statements, s, clause)
        if tag == "exc":
            if not impossible(S, [L]):
                fail(TAKEN, f"raised {r}")
            return
        reach(TAKEN)
        sp = spec("query:" + kind, kind)
        sdom = matches(sp, "iter", txt(s))
        if r is None or isinstance(r, Dyn) and resolve(r) is None:
            settle(NONE, S, [L] + pieces(), sdom.hi == 0)
            return
        segs = [x for x in r.segs if not (isinstance(x, Each) and not any(ss for _, ss in x.cases))]
        if len(segs) != 1:
            raise Unsupported("a list of several parts")
        e = segs[0]
        cond, got = counted(e)
        settle(ALL, S, [L], count_if(e.dom, cond, RANKVAR) == sdom.hi)
        i, j = z3.Int("i*"), z3.Int("j*")
        C.register(e.dom.fam, e.dom.outer + (i,))
        C.register(sdom.fam, sdom.outer + (j,))
        at = z3.substitute(cond, (RANKVAR, i))
        same = position(e.dom, i, cond, RANKVAR) == position(sdom, j)
        C.assume(z3.And(e.dom.inr(i), sdom.inr(j), at, same))
        w = spec_group(sp, txt(s), j, 0)
        for g in got:
            g = interp.subst(g, [(e.var, i)])
            settle(TEXT, S, [L, at, same], strterm(g) == V.s(w.t) if isinstance(g, Sym) else V.s(g.t) == V.s(w.t))


for clause in (Clause.MAKE, Clause.FIND):
    @block(f"extract_all_statements({clause.name}) of a misspelt clause", ["nothing is taken for the clause"])
    def _():
        use_texts()
        s = any_str("s")
        S, L = strterm(s), lang("misspelt", s)
        tag, r = call(ex.extract_all_statements, s, clause)
        if tag == "exc" or r is None or impossible(S, [L]):
            reach("nothing is taken for the clause")
        else:
            fail("nothing is taken for the clause", f"returned {r}")
