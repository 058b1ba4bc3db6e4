"""Regular expressions, and text taken apart character by character.

A pattern applied to a constant text is run.  Applied to a word of a language (pyvc/words) it is decided
there.  Applied to any other text it is uninterpreted: whether it matches, how often, and what the groups
are, are functions of the pattern and the text, about which only this is known: a group that takes part in
every match is a string, others are a string or None.
"""
import ast as _ast
import re

try:
    from re import _parser as sre_parse, _constants as sre_constants
except ImportError:
    import sre_parse
    import sre_constants

import z3

from .core import (C, BoolS, DictV, Dom, Dyn, Each, Family, IntS, Item, ListV, Obj, Opaque, SetV, StrS, Sym, Unsupported, V, Val)
from .interp import ANYTEXT, BoundM, E, FuncV, PyExc, is_const, lift, mk, resolve, strlike, strterm, tag_test
from .models import all_items, bound, exc, model

COMPILED = {}
NAMES = {}  # function symbol -> what it is: ('group', rx, how, g) ('part', rx) ('sub', rx, cases) ('test', rx, how) ('len', rx, how) ('wsum', weights)
SUBTXT, SUBIDX = z3.Int("!sub.txt"), z3.Int("!sub.idx")


class Spec:
    """the parts with a label, of the words of a language, in place of a pattern"""

    flags = 0

    def __init__(self, lang, label):
        self.lang, self.label, self.pattern = lang, label, f"spec {lang} {label}"


SPECS = {}


def spec(lang, label):
    return SPECS.setdefault((lang, label), Spec(lang, label))


def spec_group(sp, t, i, g):
    """the text with label g (None if there is none) in the i-th part"""
    name = f"{key_of(sp)}.iter.g{g}?"
    NAMES[name] = ("group", sp, "iter", g)
    v = C.uf(name, IntS, IntS, V)(t, i)
    C.fact(z3.Or(tag_test(v, "none"), tag_test(v, "str")))
    return Dyn(v, ("none", "str"))


def translated(lang, d, x):
    """the text x, a word of the language, with the parts that have these labels replaced"""
    name = f"translate:{lang}:{sorted(d.items())}"
    NAMES[name] = ("translate", lang, d)
    return C.uf(name, StrS, StrS)(x)


CONDS = []  # conditions, each once


def number_of(cond):
    for k, c in enumerate(CONDS):
        if c.eq(cond):
            return k
    CONDS.append(cond)
    return len(CONDS) - 1


RANKS = {}  # index term -> (the term, condition, variable): which matches count as earlier ones


def position(dom, i, cond=None, var=None):
    """how many matches before the i-th satisfy the condition (on var)"""
    r, how = dom.fam.rxh
    if cond is None:
        var, cond = z3.Int("!rank"), z3.BoolVal(True)
    RANKS[i.get_id()] = (i, cond, var)
    name = f"pos:{key_of(r)}:{number_of(cond)}"
    NAMES[name] = ("pos", r, how)
    p = C.uf(name, IntS, IntS, IntS)(*dom.outer, i)
    C.fact(p >= 0)
    return p


def count_if(dom, cond, var):
    r, how = dom.fam.rxh
    name = f"countif:{key_of(r)}:{number_of(cond)}"
    NAMES[name] = ("countif", r, how, cond, var, dom.outer)
    n = C.uf(name, IntS, IntS)(*dom.outer)
    C.fact(n >= 0)
    return n


def compiled(p, flags=0):
    if isinstance(p, re.Pattern):
        return p
    if not isinstance(p, str):
        raise Unsupported("a pattern that is not a constant")
    k = (p, int(flags))
    if k not in COMPILED:
        try:
            COMPILED[k] = re.compile(p, flags)
        except re.error:
            exc(re.error)
    return COMPILED[k]


def group_sure(rx):
    """group number -> does it take part in every match"""
    sure = {0: True}

    def go(items, must):
        for op, av in items:
            op = str(op)
            if op == "SUBPATTERN":
                g, _, _, sub = av
                if g is not None:
                    sure[g] = must
                go(sub, must)
            elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                go(av[2], must and av[0] > 0)
            elif op == "BRANCH":
                for b in av[1]:
                    go(b, must and len(av[1]) == 1)
            elif op in ("ASSERT", "ASSERT_NOT"):
                go(av[1], must and op == "ASSERT")
            elif op == "GROUPREF_EXISTS":
                for b in av[1:]:
                    if b:
                        go(b, False)
            elif op == "ATOMIC_GROUP":
                go(av, must)

    go(sre_parse.parse(rx.pattern, rx.flags), True)
    return sure


class Match:
    """of a text about which nothing is known"""


def gnum(rx, g):
    if isinstance(g, int):
        if not 0 <= g <= rx.groups:
            exc(IndexError)
        return g
    if isinstance(g, str):
        if g not in rx.groupindex:
            exc(IndexError)
        return rx.groupindex[g]
    raise Unsupported("group")


KEYS = {}


def key_of(rx):
    k = (rx.pattern, int(rx.flags))
    if k not in KEYS:
        KEYS[k] = f"re{len(KEYS)}:{re.sub(r'[^a-zA-Z]+', '', rx.pattern)[:12]}"
    return KEYS[k]


def txt(s):
    t = strterm(s)
    if t is None:
        raise Unsupported(f"regular expression on {s!r}")
    return C.uf("txt_id", StrS, IntS)(t)


def group_value(rx, how, t, i, g, empty=None):
    sure = group_sure(rx)
    name = f"{key_of(rx)}.{how}.g{g}"
    NAMES[name] = NAMES[name + "?"] = ("group", rx, how, g)
    if sure.get(g) or empty is not None:
        return Sym("str", C.uf(name, IntS, IntS, StrS)(t, i))
    v = C.uf(name + "?", IntS, IntS, V)(t, i)
    C.fact(z3.Or(tag_test(v, "none"), tag_test(v, "str")))
    return Dyn(v, ("none", "str"))


def any_match(rx, how, t, i):
    return Opaque("match", rx=rx, grp=lambda g: group_value(rx, how, t, i, g), subst_of=(rx, how, t, i))


class MatchV(Val):
    """a match found in a text about which nothing is known; i may be an index term"""

    def __init__(self, rx, how, t, i):
        self.rx, self.how, self.t, self.i = rx, how, t, i

    def rx_group(self, g):
        return group_value(self.rx, self.how, self.t, self.i, g)

    def gsub(self, f):
        return MatchV(self.rx, self.how, f(self.t), f(self.i))

    def gsame(self, o):
        return isinstance(o, MatchV) and o.rx is self.rx and o.how == self.how and o.t.eq(self.t) and o.i.eq(self.i)


def attr_match(o, name):
    if not hasattr(o, "rx_group"):
        return NotImplemented
    rx = o.rx
    if name == "group":
        def group(a, k):
            if not a:
                return o.rx_group(0)
            r = tuple(o.rx_group(gnum(rx, g)) for g in a)
            return r[0] if len(r) == 1 else r
        return bound(name, group)
    if name == "groups":
        return bound(name, lambda a, k: tuple(o.rx_group(g) for g in range(1, rx.groups + 1)))
    if name == "groupdict":
        if_none = lambda a, k: DictV([Item((n, o.rx_group(g))) for n, g in rx.groupindex.items()])
        return bound(name, if_none)
    if name == "re":
        return rx
    if name == "string" and hasattr(o, "rx_string"):
        return o.rx_string()
    if name in ("start", "end", "span") and hasattr(o, "rx_pos"):
        return bound(name, lambda a, k: o.rx_pos(name, gnum(rx, a[0]) if a else 0))
    raise Unsupported(f"match.{name}")


def item_match(o, i):
    if hasattr(o, "rx_group"):
        return o.rx_group(gnum(o.rx, i))
    return NotImplemented


E.attr_models.append(attr_match)
E.item_models.append(item_match)


def const_match(m):
    return ConstMatch(m)


class ConstMatch(Val):
    def __init__(self, m):
        self.m, self.rx = m, m.re

    def rx_group(self, g):
        return self.m.group(g)

    def rx_pos(self, name, g):
        return lift(getattr(self.m, name)(g))

    def gsub(self, f):
        return self

    def gsame(self, o):
        return o is self


def family(rx, how, t):
    key = f"{key_of(rx)}.{how}"
    fam = C.families.get(key)
    if fam is None:
        lenf = C.uf(key + ".len", IntS, IntS)
        NAMES[key + ".len"] = ("len", rx, how)
        fam = C.families[key] = Family(key, 2, lambda outer: lenf(*outer), None)
        fam.rxh = (rx, how)
    dom = Dom(fam, (t,))
    C.fact(dom.hi >= 0)
    return dom


def len_term(rx, how, t):
    return family(rx, how, t).hi


def apply_rx(rx, name, a, k):
    """rx.<name>(*a)"""
    a = list(a)
    if name == "sub" or name == "subn":
        repl, s = a[0], a[1] if len(a) > 1 else k.get("string")
        extra = a[2:] or [v for n, v in k.items() if n not in ("string", "repl")]
    else:
        s = a[0] if a else k.get("string")
        extra = a[1:] or [v for n, v in k.items() if n != "string"]
    s = resolve(s)
    if s is None or isinstance(s, (int, float, ListV, DictV, SetV)):
        exc(TypeError)
    if extra:
        raise Unsupported("optional arguments of a regular expression")
    if hasattr(s, "gstr_re"):
        return s.gstr_re(rx, name, a)
    if isinstance(s, str) and name not in ("sub", "subn"):
        r = getattr(rx, name)(s)
        if name in ("search", "match", "fullmatch"):
            return None if r is None else ConstMatch(r)
        if name == "finditer":
            return ListV([Item(ConstMatch(m)) for m in r])
        return ListV([Item(lift(x)) for x in r])
    if isinstance(s, str) and isinstance(repl, str):
        return rx.sub(repl, s)
    if isinstance(s, str) and isinstance(repl, (FuncV, BoundM)):
        parts, pos = [], 0
        for m in rx.finditer(s):
            parts += [s[pos:m.start()], E.call(repl, [ConstMatch(m)], {})]
            pos = m.end()
        return E.concat([p for p in parts + [s[pos:]]])
    if not strlike(s):
        raise Unsupported(f"regular expression on {s!r}")
    t = txt(s)
    if name in ("search", "match", "fullmatch"):
        NAMES[f"{key_of(rx)}.{name}"] = ("test", rx, name)
        if C.decide(C.uf(f"{key_of(rx)}.{name}", IntS, BoolS)(t)):
            return MatchV(rx, name, t, z3.IntVal(0))
        return None
    if name in ("finditer", "findall"):
        dom = family(rx, "iter", t)
        v = C.new_index(dom)
        if name == "finditer":
            x = MatchV(rx, "iter", t, v)
        else:
            # groups that take no part are empty strings
            def g(n):
                NAMES[f"{key_of(rx)}.all.g{n}"] = ("group", rx, "iter", n)
                return Sym("str", C.uf(f"{key_of(rx)}.all.g{n}", IntS, IntS, StrS)(t, v))
            x = g(0) if rx.groups == 0 else g(1) if rx.groups == 1 else tuple(g(n) for n in range(1, rx.groups + 1))
        return ListV([Each(dom, v, [([], [Item(x)])])])
    if name == "split":
        if rx.groups:
            raise Unsupported("split with groups")
        dom = family(rx, "split", t)
        C.fact(dom.hi >= 1)
        v = C.new_index(dom)
        NAMES[f"{key_of(rx)}.part"] = ("part", rx)
        return ListV([Each(dom, v, [([], [Item(Sym("str", C.uf(f"{key_of(rx)}.part", IntS, IntS, StrS)(t, v)))])])])
    if name == "sub":
        if isinstance(repl, str):
            n = f"{key_of(rx)}.sub.{repl!r}"
            if "\\" not in repl:
                NAMES[n] = ("sub", rx, [([], [repl])])
            return Sym("str", C.uf(n, StrS, StrS)(strterm(s)))
        # what the replacement does is seen once, on an arbitrary match
        dom = family(rx, "iter", t)
        v = C.new_index(dom)
        E.loop(ListV([Each(dom, v, [([], [Item(MatchV(rx, "iter", t, v))])])]), lambda m: E.call(repl, [m], {}), None, ([], []))
        cases = replacement(rx, repl)
        if cases is not None:
            n = f"{key_of(rx)}.sub.{cases!r}"
            NAMES[n] = ("sub", rx, cases)
            return Sym("str", C.uf(n, StrS, StrS)(strterm(s)))
        return Sym("str", C.fresh("replaced", StrS))
    raise Unsupported(f"pattern.{name}")


def replacement(rx, repl):
    """what a match is replaced by: [(conditions, parts)], or None if that is not known"""
    dom = family(rx, "iter", SUBTXT)
    C.idx_consts[SUBIDX.decl().name()] = (dom.fam, dom.outer)
    C.idx_stack.append((dom, SUBIDX))
    try:
        def one():
            r = resolve(E.call(repl, [MatchV(rx, "iter", SUBTXT, SUBIDX)], {}))
            if isinstance(r, str):
                return [r]
            if isinstance(r, Sym) and r.k == "str":
                return [r.t]
            raise Unsupported("replacement")
        base = len(C.pc)
        return [([c for c in conds], r) for conds, r in C.explore(one)]
    except (Unsupported, PyExc):
        return None
    finally:
        C.idx_stack.pop()


METHODS = ("search", "match", "fullmatch", "finditer", "findall", "split", "sub", "subn")


def attr_pattern(o, name):
    if isinstance(o, re.Pattern):
        if name in METHODS:
            return bound(name, lambda a, k: apply_rx(o, name, a, k))
        if name in ("pattern", "flags", "groups"):
            return getattr(o, name)
        raise Unsupported(f"pattern.{name}")
    return NotImplemented


E.attr_models.append(attr_pattern)


def module_fn(name):
    f = getattr(re, name)

    def h(a, k):
        a = list(a)
        flags = k.pop("flags", 0) if k else 0
        pat = a.pop(0) if a else k.pop("pattern")
        n = 2 if name in ("sub", "subn") else 1
        if len(a) > n:
            raise Unsupported(f"re.{name} with further arguments")
        return apply_rx(compiled(pat, flags), name, a, k)

    E.models[f] = h


for _n in METHODS:
    module_fn(_n)


@model(re.compile)
def _(a, k):
    return compiled(a[0] if a else k["pattern"], a[1] if len(a) > 1 else k.get("flags", 0))


@model(re.escape)
def _(a, k):
    if isinstance(a[0], str):
        return re.escape(a[0])
    raise Unsupported("re.escape")


# ------------------------------------------------------------------ literal_eval
@model(_ast.literal_eval)
def _(a, k):
    s = resolve(a[0])
    if isinstance(s, str):
        try:
            return lift(_ast.literal_eval(s))
        except (ValueError, SyntaxError) as e:
            exc(type(e))
    if hasattr(s, "gstr_literal"):
        return s.gstr_literal()
    t = txt(s)
    if C.decide(C.uf("literal.syntax", IntS, BoolS)(t)):
        exc(SyntaxError)
    if C.decide(C.uf("literal.value", IntS, BoolS)(t)):
        exc(ValueError)
    return Opaque("literal", term=C.uf("literal", IntS, IntS)(t))


# ------------------------------------------------------------------ the characters of a text
_segs_of = E.segs_of


def segs_of(it):
    if isinstance(it, Dyn):
        it = resolve(it)
    if hasattr(it, "gstr_chars"):
        return it.gstr_chars()
    if strlike(it) and not isinstance(it, str):
        t = txt(it)
        fam = C.families.get("chars")
        if fam is None:
            lenf = C.uf("chars.len", IntS, IntS)
            fam = C.families["chars"] = Family("chars", 2, lambda outer: lenf(*outer), None)
            NAMES["chars.len"] = ("chars",)
        dom = Dom(fam, (t,))
        C.fact(dom.hi >= 0)
        v = C.new_index(dom)
        return [Each(dom, v, [([], [Item(Sym("str", C.uf("char", IntS, IntS, StrS)(t, v)))])])]
    return _segs_of(it)


E.segs_of = segs_of

_sum = E.models[sum]


def m_sum(a, k):
    segs = E.segs_of(a[0])
    if hasattr(a[0], "gstr_sum"):
        return a[0].gstr_sum()
    if all_items(segs) is None:
        if len(a) > 1 or k:
            raise Unsupported("sum with a start")
        n = weighted(segs)
        if n is None:
            n = weighted_matches(segs)
        if n is None:
            n = C.fresh("sum", IntS)
        if all(ints(s) for s in segs):
            C.fact(n >= 0)
        return Sym("int", n)
    return _sum(a, k)


def weighted(segs, of=None):
    """a sum over the characters of a text of numbers that depend on the character only: a term; with of, every item counts that much"""
    if len(segs) != 1 or not isinstance(segs[0], Each) or segs[0].dom is None or segs[0].dom.fam is not C.families.get("chars") or not segs[0].dom.full():
        return None
    s = segs[0]
    t = s.dom.outer[0]
    ch = C.uf("char", IntS, IntS, StrS)(t, s.var)
    import numpy as np
    from . import autom
    lits = {}
    weights = []

    def literals(f):
        # the guard speaks of the character only by comparing it with given ones, or asking whether it is in a given text
        for sub in subterms(f):
            for x in sub.children() if z3.is_eq(sub) or sub.decl().name() == "substr_in" else ():
                for k, u in C.lits.items():
                    if u.eq(x):
                        lits[k] = u
                        break

    for guard, ss in s.cases:
        g = z3.And(guard) if guard else z3.BoolVal(True)
        w = 0
        literals(g)
        for x in ss:
            if not isinstance(x, Item):
                return None
            if of is not None:
                w += of
            elif isinstance(x.v, Sym) and x.v.k == "bool" and len(ss) == 1:
                literals(x.v.t)
                g, w = z3.And(g, x.v.t), 1
            elif isinstance(x.v, int):
                w += x.v
            else:
                return None
        weights.append((g, w))
    IN = C.uf("substr_in", StrS, StrS, z3.BoolSort())
    chars = sorted({x for c in lits for x in c})
    out = []
    for c in chars + [None]:
        w = None
        for g, x in weights:
            f = g
            for k, u in lits.items():
                for e in (ch == u, u == ch):
                    f = z3.substitute(f, (e, z3.BoolVal(k == c)))
                f = z3.substitute(f, (IN(ch, u), z3.BoolVal(c is not None and c in k)))
            f = z3.simplify(f)
            if z3.is_true(f):
                w = x
                break
            if not z3.is_false(f):
                return None
        w = w or 0
        if w:
            out.append((autom.A.literal(c) if c is not None else autom.A.regex(r"(?s:.)"), w))
        elif c is not None:
            out.append((autom.A.literal(c), 0))
    name = f"wsum:{sorted((str(k), w) for k, w in out)}"
    NAMES[name] = ("wsum", out)
    return C.uf(name, IntS, IntS)(t)


RANKVAR = z3.Int("!rank")


def weighted_matches(segs, of=None):
    """a sum over the matches of a pattern of numbers that depend on the match only: a term; with of, every item counts that much"""
    if len(segs) != 1 or not isinstance(segs[0], Each) or segs[0].dom is None or not segs[0].dom.full() or not hasattr(segs[0].dom.fam, "rxh"):
        return None
    s = segs[0]
    known = {s.var.get_id()} | {x.get_id() for o in s.dom.outer for x in subterms(o)} | {u.get_id() for u in C.lits.values()}
    out = []
    for guard, ss in s.cases:
        g = z3.simplify(z3.And(guard)) if guard else z3.BoolVal(True)
        w = 0
        for x in ss:
            if not isinstance(x, Item) or of is None and not isinstance(x.v, int):
                return None
            w += x.v if of is None else of
        if w:
            if any(z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in known for x in subterms(g)):
                return None
            out.append(w * (s.dom.hi if z3.is_true(g) else count_if(s.dom, z3.substitute(g, (s.var, RANKVAR)), RANKVAR)))
    return z3.Sum(out) if out else z3.IntVal(0)


def subterms(t, acc=None):
    acc = [] if acc is None else acc
    acc.append(t)
    for c in t.children():
        subterms(c, acc)
    return acc


def ints(s):
    if isinstance(s, Item):
        return isinstance(s.v, int) and s.v >= 0
    if isinstance(s, Each):
        return all(ints(x) for _, ss in s.cases for x in ss)
    return False


E.models[sum] = m_sum
E.weighted = lambda segs, of: (lambda n: weighted_matches(segs, of) if n is None else n)(weighted(segs, of))
