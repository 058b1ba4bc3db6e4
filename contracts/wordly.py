"""Contracts that speak of the content of texts: languages and the theory of words."""
import time

from .base import *  # noqa
from . import base, grammar as G
from pyvc import words
from pyvc.words import lang, define_lang


def use_words(limit=5000000):
    words.reset()
    words.LIMIT[0] = limit
    C.words = words.conflict


SUPER = {}


def language(name, pattern, cost=100, within=()):
    """within: larger languages that are simpler"""
    define_lang(name, G.number(pattern))
    words.COST[name] = cost
    SUPER[name] = tuple(within)


def word(name, of):
    """an arbitrary word of a language"""
    s = any_str(name)
    for l in SUPER[of]:
        C.assume(lang(l, s))
    C.assume(lang(of, s))
    return s


def in_lang(of, s):
    """that s is a word of the language, and of the simpler ones around it"""
    return [lang(l, s) for l in SUPER[of]] + [lang(of, s)]


def statements():
    """the documented MAKE and FIND statements, loosely and exactly"""
    kw = "(?:" + G.keyword("MAKE") + "|" + G.keyword("FIND") + ")"
    language("loose statement", G.statement(kw, p=G.COARSE), 20)
    language("statement", G.statement(kw), 100, ["loose statement"])


# ------------------------------------------------------------------ agreement with what is written
from pyvc.rx import NAMES as RXNAMES, spec, spec_group, position, count_if, txt, translated  # noqa: E402,F401
from pyvc.rx import family as matches  # noqa: E402,F401

PROVED = {}


def use_texts(limit=5000000):
    """texts are decided by automata where the contract says so"""
    if PROVED.get("block") is not base.CUR:
        words.reset()
        PROVED.clear()
        PROVED["block"] = base.CUR
    words.LIMIT[0] = limit


def prove(s, premises, goal):
    """words.prove on the current path, the same question only once"""
    key = tuple(f.get_id() for f in premises) + (goal.get_id(), s.get_id())
    if key not in PROVED and words.refute(s, premises + [z3.Not(goal)])[0]:
        gone, text = words.refute(s, premises)
        PROVED[key] = ((True, None, None if gone else text or ""), premises, goal, s)
    if key not in PROVED:
        PROVED[key] = (words.prove(s, premises, goal), premises, goal, s)
    return PROVED[key][0]


def settle(name, s, premises, goal, detail=""):
    """the obligation `name`: goal holds of all texts s that satisfy the premises (decided by automata)"""
    goal, t0 = simp(goal), time.time()
    ok, text, sat = (True, None, "") if z3.is_true(goal) else prove(s, [simp(p) for p in premises], goal)
    if ok and sat is not None and C.feasible():
        base.CUR.live.add(name)
    base.CUR.time[name] = base.CUR.time.get(name, 0) + time.time() - t0
    base.CUR.automata.add(name)
    base.CUR.res.setdefault(name, []).append((ok, "" if ok else f"{detail} does not follow for the text {text!r}"))
    if not ok:
        base.CUR.texts.append(text)
    return ok


def impossible(s, premises):
    """is the current path impossible for a text with the premises (by automata)"""
    try:
        gone, text = words.refute(s, premises + pieces())
        if not gone and isinstance(text, str):
            base.CUR.texts.append(text)
        return gone
    except (words.TooBig, Unsupported):
        return False


def selected(v):
    """(domain, index term) of the match that a value is a group of"""
    t = v.t if isinstance(v, Dyn) else strterm(v)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_ACCESSOR:
        t = t.arg(0)
    n = words.name_of(t)
    k = RXNAMES.get(n)
    if k is None or k[0] != "group" or k[2] not in ("iter", "all"):
        raise Unsupported(f"{t} is not a group of a match")
    return matches(k[1], "iter", t.arg(0)), t.arg(1)


RANKVAR = z3.Int("!rank")


def match_text(dom, v):
    """the whole text of a match, as a value"""
    rx_, how = dom.fam.rxh
    return models_group(rx_, how, dom.outer[0], v)


def models_group(rx_, how, t, v):
    return rx.group_value(rx_, how, t, v, 0)


def real_ones(dom):
    """conditions on a match under which it may count: not empty; any"""
    return [truth(match_text(dom, RANKVAR)), TRUE]


def counted(e):
    """of an element Each over the matches of a pattern: (condition on RANKVAR for an element, the elements)"""
    if not isinstance(e, Each) or e.dom is None or not hasattr(e.dom.fam, "rxh") or not e.dom.full():
        raise Unsupported("a list that is not made from the matches of one pattern")
    full = [(g, ss) for g, ss in e.cases if ss]
    if any(len(ss) != 1 or not isinstance(ss[0], Item) for _, ss in full):
        raise Unsupported("a list with several elements per match")
    yes = z3.Or([z3.And(g) if g else TRUE for g, _ in full])
    v = C.fresh("v", IntS)
    C.register(e.dom.fam, e.dom.outer + (v,))
    for cond in real_ones(e.dom):
        if C.valid(z3.Implies(e.dom.inr(v), z3.substitute(cond, (RANKVAR, v)) == z3.substitute(yes, (e.var, v)))):
            return cond, [ss[0].v for _, ss in full]
    return z3.substitute(yes, (e.var, RANKVAR)), [ss[0].v for _, ss in full]


def is_first(dom, i, cond):
    """is match i the first that satisfies cond (on the current path)"""
    k = C.fresh("k", IntS)
    C.register(dom.fam, dom.outer + (k,))
    at = lambda x: z3.substitute(cond, (RANKVAR, x))
    return C.valid(z3.And(dom.inr(i), at(i))) and C.valid(z3.Implies(z3.And(k >= 0, k < i), z3.Not(at(k))))


def pieces():
    """what is known on the path, as the texts see it"""
    out = []
    for p in C.pc:
        out.extend(p.children() if z3.is_and(p) else [p])
    return out


def of_every(dom, i):
    """what is known on the path of every match of the domain, said of match i"""
    out = []
    for p in pieces():
        n = words.name_of(p.arg(0)) if z3.is_not(p) else None
        if n in C.exdef:
            d, var, body, args = C.exdef[n]
            if d.fam is dom.fam and all(a.eq(b) for a, b in zip(d.outer, dom.outer)) and not args:
                out.append(simp(z3.Not(z3.substitute(body, (var, i)))))
    return out


class supposing:
    """for the time being, the path has these facts too"""

    def __init__(self, *facts):
        self.facts = facts

    def __enter__(self):
        self.was = C.pc
        C.pc = C.pc + list(self.facts)

    def __exit__(self, *a):
        C.pc = self.was
