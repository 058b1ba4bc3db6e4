"""A theory of words for the solver: facts about texts decided by automata.

Regular expressions, str methods and the documented grammars are uninterpreted functions for z3.  When z3
finds a model, the literals about texts in it are translated, text by text, into a network of automata
(autom.Net); if no text at all has these properties, their conjunction is refuted by a lemma and z3 tries
again.  Literals that are not understood are left out, which can only make fewer conjunctions refutable.
"""
import re
import time

import z3

from . import autom, core, interp, models, rx
from .autom import A, END, Net, TooBig, prog, prog_of
from .core import C, BoolS, IntS, Item, Each, StrS, Unsupported, V, Family

LANGS = {}  # name -> pattern of the labelled language
AGREE = {}  # id -> builder of the disagreement automaton
STATS = dict(checks=0, empty=0, lemmas=0, time=0.0, states=0, big=0)
CACHE = {}
LIMIT = [60000]
DEBUG = []


def lang(name, s):
    """the text is a word of the language"""
    return C.uf(f"lang:{name}", StrS, BoolS)(interp.strterm(s))


def define_lang(name, pattern, flags=0):
    LANGS[name] = prog(pattern, flags, spec=True)


def name_of(t):
    return t.decl().name() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None


def litval(t):
    """the text a literal stands for"""
    n = name_of(t)
    if n is not None and n.startswith("lit:"):
        for s, u in C.lits.items():
            if u.eq(t):
                return s
    return None


def is_index_term(t):
    return z3.is_int(t)


PYWS = r"[ \t\n\r\f]*"
PYLIST_VALUE = r"(?:'[^'\\\n\r\x00\ud800-\udfff]*'|\"[^\"\\\n\r\x00\ud800-\udfff]*\"|(?:0|[1-9][0-9]*)(?:\.[0-9]+)?|0+|0[0-9]*\.[0-9]+|True|False|None)"
PYLIST = rf"\[{PYWS}(?:{PYLIST_VALUE}(?:{PYWS},{PYWS}{PYLIST_VALUE})*{PYWS})?\]"


class NotWord(Exception):
    """not about texts, or not understood"""


UNARY = ("str.strip:", "str.lstrip:", "str.rstrip:", "str.replace:", "slice:", "char_at")


def bases(t, acc=None):
    """the texts that a term or formula speaks of"""
    acc = {} if acc is None else acc
    seen = set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        n = name_of(t)
        if z3.is_app(t) and t.sort() == StrS:
            if litval(t) is not None:
                return
            if n is not None and t.num_args() and (n in rx.NAMES or n.startswith(UNARY)):
                go(t.arg(0))
                return
            if t.decl().kind() == z3.Z3_OP_DT_ACCESSOR:
                go(t.arg(0))
                return
            acc[t.get_id()] = t
            return
        if n == "txt_id":
            go(t.arg(0))
            return
        if n is not None and n in rx.NAMES:
            go(t.arg(0))
            return
        if z3.is_app(t) and n is not None and t.sort() == V:
            acc[t.get_id()] = t
            return
        for c in t.children():
            go(c)

    go(t)
    return acc


class Builder:
    """translates terms about one base text (or about the match `bound`) into components of a net"""

    def __init__(self, base=None, bound=None, depth=0):
        self.net, self.base, self.bound, self.depth = Net(), base, bound, depth
        self.sel = {}
        self.ranges = []
        self.keep = []  # terms whose numbers are in use

    # ---- streams
    def stream(self, t):
        """where the letters of the text come from"""
        if self.base is not None and t.eq(self.base):
            return "root"
        n = name_of(t)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_ACCESSOR and t.decl().name() == "s":
            x = t.arg(0)
            m = name_of(x)
            if m in rx.NAMES and rx.NAMES[m][0] == "group":
                return self.group(rx.NAMES[m], x)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and x.num_args():
                return self.stream(x.arg(0))
            raise NotWord(str(t)[:80])
        if n in rx.NAMES:
            k = rx.NAMES[n]
            if k[0] == "group":
                return self.group(k, t)
            if k[0] == "part":
                m = self.match(k[1], "split", t.arg(0), t.arg(1))
                return self.net.add(("grp", m, 0), autom.Group(0), m)
            if k[0] == "translate":
                s = self.stream(t.arg(0))
                nfa = self.net.add(("nfa", k[1], s), autom.NFA(LANGS[k[1]]), s)
                return self.net.add((n, s), autom.Translate(k[2]), nfa)
            if k[0] == "sub":
                s = self.stream(t.arg(0))
                tr = self.track(k[1], s)
                return self.net.add(("sub", n, tr), autom.Sub(self.cases(k[1], k[2])), tr)
        if n is not None:
            for f in ("strip", "lstrip", "rstrip"):
                if n.startswith(f"str.{f}:"):
                    a = eval(n.split(":", 1)[1])
                    s = self.stream(t.arg(0))
                    if not a or a == [None]:
                        key = autom.space_key()
                    elif a[0] == "":
                        return s
                    else:
                        key = A.regex("[" + "".join(autom.esc(ord(c)) for c in a[0]) + "]")
                    return self.net.add((n, s), autom.Strip(key, f != "rstrip", f != "lstrip"), s)
            if n.startswith("str.replace:"):
                a = eval(n.split(":", 1)[1])
                if len(a) == 2 and a[0]:
                    s = self.stream(t.arg(0))
                    tr = self.track(re.compile(re.escape(a[0])), s)
                    net = Net()
                    return self.net.add((n, s), autom.Sub([(net, ("const", True), [("text", a[1])])]), tr)
            if n.startswith("slice:"):
                a, b, c = (eval(x) for x in n.split(":")[1:])
                a = a or 0
                if c in (None, 1) and -5 < a < 0 and b is None:
                    s = self.stream(t.arg(0))
                    return self.net.add((n, s), autom.Tail(-a), s)
                if c in (None, 1) and a >= 0 and (b is None or b >= 0 or b == -1):
                    s = self.stream(t.arg(0))
                    return self.net.add((n, s), autom.Slice(a, b), s)
            if n == "char_at" and z3.is_int_value(t.arg(1)):
                i = t.arg(1).as_long()
                s = self.stream(t.arg(0))
                if i >= 0:
                    return self.net.add((n, i, s), autom.Slice(i, i + 1), s)
                if i == -1:
                    return self.net.add((n, i, s), autom.Last(), s)
        raise NotWord(str(t)[:80])

    def txt(self, t):
        if name_of(t) == "txt_id":
            return self.stream(t.arg(0))
        raise NotWord(str(t)[:80])

    def track(self, r, s, how="iter"):
        if isinstance(r, rx.Spec):
            nfa = self.net.add(("nfa", r.lang, s), autom.NFA(LANGS[r.lang]), s)
            return self.net.add(("spec", nfa, r.label), autom.SpecTrack(r.label), nfa)
        p = prog_of(r)
        if how == "split":
            tr = self.track(r, s)
            return self.net.add(("pieces", tr), autom.Pieces(), tr)
        if how == "fullmatch":
            p, how = prog(rf"(?:{r.pattern})\Z", r.flags), "match"
        return self.net.add(("track", r.pattern, int(r.flags), how, s), autom.Track(p, once=None if how == "iter" else how), s)

    def match(self, r, how, txt, i):
        """the events of one match"""
        if how == "all":
            how = "iter"
        if self.bound is not None:
            brx, bhow, btxt, bvar = self.bound
            if i.eq(bvar) and brx is r and bhow == how and txt.eq(btxt):
                return "root"
            if self.base is None and not any(x.eq(bvar) for x in consts(txt)):
                raise NotWord("a match outside")
        s = self.txt(txt)
        tr = self.track(r, s, how)
        if self.bound is not None and not (how not in ("iter", "split")):
            raise NotWord("a particular match within a match")
        if how in ("iter", "split"):
            self.ranges.append((r, how, txt, i))
        rank = rx.RANKS.get(i.get_id())
        if rank is not None and how == "iter":
            net, phi = self.cond(r, how, txt, rank[1], rank[2])
            return self.net.add(("sel", tr, i.get_id()), autom.Ranked(net, phi), tr)
        return self.net.add(("sel", tr, i.get_id()), autom.Selected(), tr)

    def cond(self, r, how, txt, cond, var):
        """a condition on a match"""
        b = Builder(None, (r, how, txt, var), self.depth + 1)
        return b.net, b.formula(cond)

    def same(self, x, y):
        return ("atom", self.net.add(("same", x, y), autom.Same(), x, y))

    def group(self, k, t):
        _, r, how, g = k
        m = self.match(r, how, t.arg(0), t.arg(1))
        return self.net.add(("grp", m, g), autom.Group(g), m)

    def cases(self, r, cases):
        """of a replacement: [(conditions, parts)] over the match (rx.SUBVAR)"""
        out = []
        for conds, parts in cases:
            b = Builder(None, (r, "iter", rx.SUBTXT, rx.SUBIDX), self.depth + 1)
            phi = ("and",) + tuple(b.formula(c) for c in conds)
            ps = []
            for q in parts:
                if isinstance(q, str):
                    ps.append(("text", q))
                else:
                    ps.append(("stream", b.stream(q)))
            out.append((b.net, phi, ps))
        return out

    # ---- atoms
    def pred(self, pattern, flags, how, s):
        return ("atom", self.net.add(("pred", pattern, flags, how, s), autom.Pred(prog(pattern, flags), how), s))

    def formula(self, f):
        try:
            q = letter_in(f)
            return self.formula_(f) if q is None else self.by_letter(f, q)
        except (NotWord, Unsupported) as e:
            if DEBUG and DEBUG[0] > 1:
                print("   not understood:", str(f)[:150].replace("\n", " "), "--", e)
            return ("?",)

    def by_letter(self, f, q):
        """of a formula about a letter of a text: which letter it is"""
        s = self.stream(q)
        out, other = [], []
        for c in sorted(x for x in C.lits if len(x) == 1):
            is_c = self.pred(re.escape(c), 0, "fullmatch", s)
            out.append(("and", is_c, self.formula(z3.substitute(f, (q, C.lit(c))))))
            other.append(("not", is_c))
        return ("or",) + tuple(out) + (("and",) + tuple(other) + (("?",),),)

    def formula_(self, f):
        if z3.is_true(f):
            return ("const", True)
        if z3.is_false(f):
            return ("const", False)
        if z3.is_and(f):
            return ("and",) + tuple(self.formula(x) for x in f.children())
        if z3.is_or(f):
            return ("or",) + tuple(self.formula(x) for x in f.children())
        if z3.is_not(f):
            return ("not", self.formula(f.arg(0)))
        if z3.is_implies(f):
            return ("or", ("not", self.formula(f.arg(0))), self.formula(f.arg(1)))
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            c, a, b = (self.formula(x) for x in f.children())
            return ("or", ("and", c, a), ("and", ("not", c), b))
        k = f.decl().kind()
        if z3.is_eq(f) and f.arg(0).sort() == BoolS:
            a, b = self.formula(f.arg(0)), self.formula(f.arg(1))
            return ("or", ("and", a, b), ("and", ("not", a), ("not", b)))
        if z3.is_eq(f) and f.arg(0).sort() == StrS:
            for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                v = litval(y)
                if v is not None:
                    return self.pred(re.escape(v), 0, "fullmatch", self.stream(x))
            x, y = self.stream(f.arg(0)), self.stream(f.arg(1))
            return ("const", True) if x == y else self.same(x, y)
        if z3.is_eq(f) and f.arg(0).sort() == V:
            for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if not (z3.is_app(y) and y.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR):
                    continue
                c = y.decl().name()
                if c == "vnone":
                    return ("not", self.part(x))
                if c == "vstr":
                    v = litval(y.arg(0))
                    if v is not None:
                        return ("and", self.part(x), self.pred(re.escape(v), 0, "fullmatch", self.stream(V.s(x))))
                else:
                    self.part(x)
                    return ("const", False)
            x, y = f.arg(0), f.arg(1)
            if all(z3.is_app(z) and z.decl().kind() != z3.Z3_OP_DT_CONSTRUCTOR for z in (x, y)):
                px, py = self.part(x), self.part(y)
                return ("or", ("and", ("not", px), ("not", py)), ("and", px, py, self.same(self.stream(V.s(x)), self.stream(V.s(y)))))
            for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and y.decl().name() == "vstr":
                    return ("and", self.part(x), self.same(self.stream(V.s(x)), self.stream(y.arg(0))))
            raise NotWord("equality of values")
        if k in (z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS):
            x = f.arg(0)
            c = f.decl().params()[0].name() if k == z3.Z3_OP_DT_IS else f.decl().name()
            if "vnone" in c:
                return ("not", self.part(x))
            if "vstr" in c:
                return self.part(x)
            self.part(x)
            return ("const", False)
        if z3.is_app(f) and f.num_args() == 2 and f.arg(0).sort() == IntS and (z3.is_eq(f) or z3.is_le(f) or z3.is_ge(f) or z3.is_lt(f) or z3.is_gt(f)):
            return self.linear(f)
        n = name_of(f)
        if n is None:
            raise NotWord(str(f)[:60])
        if n in rx.NAMES and rx.NAMES[n][0] == "test":
            _, r, how = rx.NAMES[n]
            return self.pred(r.pattern, int(r.flags), how, self.txt(f.arg(0)))
        if n.startswith("lang:"):
            s = self.stream(f.arg(0))
            p = LANGS[n[5:]]
            return ("atom", self.net.add(("lang", n, s), autom.Pred(p, "fullmatch"), s))
        if n == "substr_in":
            v = litval(f.arg(0))
            if v is not None:
                return self.pred(re.escape(v), 0, "search", self.stream(f.arg(1)))
        if n == "str.isupper":
            s = self.stream(f.arg(0))
            return ("atom", self.net.add(("upper", s), autom.UpperPred(), s))
        if n in ("str.startswith", "str.endswith"):
            v = litval(f.arg(1))
            if v is not None:
                s = self.stream(f.arg(0))
                return self.pred(re.escape(v), 0, "match", s) if n == "str.startswith" else self.pred(re.escape(v) + r"\Z", 0, "search", s)
        if n in ("str.isdigit", "str.isdecimal", "str.isspace", "str.isalpha", "str.isalnum", "str.isnumeric"):
            m = n[4:]
            s = self.stream(f.arg(0))
            A.test(m, getattr(str, m))
            return ("atom", self.net.add((n, s), autom.AllOf(("test", m)), s))
        if n == "is_num":  # int() takes it
            s = self.stream(f.arg(0))
            return ("or", self.pred(r"\s*\d+\s*", 0, "fullmatch", s), ("and", self.pred(r"\s*[-+]?\d(?:_?\d)*\s*", 0, "fullmatch", s), ("?",)))
        if n == "is_float":
            s = self.stream(f.arg(0))
            return ("or", self.pred(r"\s*[0-9]+\.[0-9]+\s*", 0, "fullmatch", s), ("and", self.pred(r"[0-9]", 0, "search", s), ("?",)), ("and", self.pred(r"[a-zA-Z]", 0, "search", s), ("?",)), ("and", self.pred(r"\d", 0, "search", s), ("?",)))
        if n in ("literal.syntax", "literal.value"):
            s = self.txt(f.arg(0))
            return ("and", ("not", self.pred(PYLIST, 0, "fullmatch", s)), ("?",))
        if n in C.exdef:
            return self.exists(f)
        raise NotWord(n)

    def part(self, x):
        n = name_of(x)
        if n in rx.NAMES and rx.NAMES[n][0] == "group":
            _, r, how, g = rx.NAMES[n]
            m = self.match(r, how, x.arg(0), x.arg(1))
            return ("atom", self.net.add(("part", m, g), autom.Part(g), m))
        raise NotWord(str(x)[:60])

    def exists(self, f):
        dom, var, body, args = C.exdef[name_of(f)]
        if args:
            body = z3.substitute(body, *zip(args, f.children()))
        outer = [z3.substitute(o, *zip(args, f.children())) if args else o for o in dom.outer]
        rxh = getattr(dom.fam, "rxh", None)
        if rxh is None:
            raise NotWord("not about matches")
        r, how = rxh
        txt = outer[0]
        s = self.txt(txt)
        tr = self.track(r, s, "split" if how == "split" else "iter")
        b = Builder(None, (r, how, txt, var), self.depth + 1)
        b.dom = dom
        self.keep.append(body)
        phi = b.formula(strip_range(body, var))
        return ("atom", self.net.add(("ex", tr, body.get_id()), autom.ExMatch(b.net, phi), tr))

    # ---- counting
    def linear(self, f):
        coefs, const = {}, 0
        terms = {}

        def lin(t, c):
            nonlocal const
            if z3.is_int_value(t):
                const += c * t.as_long()
            elif z3.is_add(t):
                for x in t.children():
                    lin(x, c)
            elif z3.is_sub(t):
                lin(t.arg(0), c)
                for x in t.children()[1:]:
                    lin(x, -c)
            elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
                lin(t.arg(0), -c)
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.num_args() == 2:
                lin(t.arg(1), c * t.arg(0).as_long())
            else:
                ref = self.count(t)
                coefs[ref] = coefs.get(ref, 0) + c

        a, b = f.arg(0), f.arg(1)
        if z3.is_eq(f):
            for x, y in ((a, b), (b, a)):
                if z3.is_app_of(x, z3.Z3_OP_MOD) and z3.is_int_value(x.arg(1)) and z3.is_int_value(y):
                    m, r = x.arg(1).as_long(), y.as_long()
                    lin(x.arg(0), 1)
                    if m <= 0:
                        raise NotWord("modulus")
                    return self.lin_atom(coefs, const, ("mod", m, r))
            lin(a, 1)
            lin(b, -1)
            return self.lin_atom(coefs, const, "==")
        if z3.is_ge(f) or z3.is_gt(f):
            a, b = b, a
        strict = z3.is_lt(f) or z3.is_gt(f)
        lin(a, 1)
        lin(b, -1)
        return self.lin_atom(coefs, const + (1 if strict else 0), "<=")

    def lin_atom(self, coefs, const, rel):
        if not coefs:
            raise NotWord("numbers")
        refs = sorted(coefs)
        key = ("lin", tuple((r, coefs[r]) for r in refs), const, rel)
        up = all(isinstance(self.net.comps[r], (autom.Ranked, autom.CountIf, autom.CountMatches)) or isinstance(self.net.comps[r], autom.Counter) and all(w >= 0 for _, w in self.net.comps[r].w)
                 for r in refs)
        return ("atom", self.net.add(key, autom.Linear([coefs[r] for r in refs], const, rel, up), *refs))

    def count(self, t):
        n = name_of(t)
        if n == "str.count":
            v = litval(t.arg(1))
            if v is not None and len(v) == 1:
                s = self.stream(t.arg(0))
                return self.net.add(("count", v, s), autom.Counter([(A.literal(v), 1)]), s)
            if v:
                s = self.stream(t.arg(0))
                tr = self.track(re.compile(re.escape(v)), s)
                return self.net.add(("countm", tr), autom.CountMatches(), tr)
        if n in rx.NAMES and rx.NAMES[n][0] == "pos":
            _, r, how = rx.NAMES[n]
            if t.arg(1).get_id() not in rx.RANKS:
                raise NotWord("a position")
            return self.match(r, how, t.arg(0), t.arg(1))
        if n in rx.NAMES and rx.NAMES[n][0] == "countif":
            _, r, how, cond, var, outer = rx.NAMES[n]
            tr = self.track(r, self.txt(t.arg(0)), how)
            net, phi = self.cond(r, how, t.arg(0), z3.substitute(cond, (outer[0], t.arg(0))), var)
            return self.net.add((n, tr), autom.CountIf(net, phi), tr)
        if n in rx.NAMES and rx.NAMES[n][0] == "wsum":
            s = self.txt(t.arg(0))
            return self.net.add((n, s), autom.Counter(rx.NAMES[n][1]), s)
        if n in rx.NAMES and rx.NAMES[n][0] == "len":
            _, r, how = rx.NAMES[n]
            tr = self.track(r, self.txt(t.arg(0)), how)
            return self.net.add(("countm", tr), autom.CountMatches(), tr)
        if n == "len" and t.num_args() == 1 and t.arg(0).sort() == StrS:
            s = self.stream(t.arg(0))
            return self.net.add(("len", s), autom.Counter([(A.regex(r"(?s:.)"), 1)]), s)
        raise NotWord(str(t)[:60])


def letter_in(f):
    """a letter of a text that is counted or looked for in this atom"""
    if z3.is_and(f) or z3.is_or(f) or z3.is_not(f) or z3.is_implies(f) or z3.is_app_of(f, z3.Z3_OP_ITE) or z3.is_eq(f) and f.arg(0).sort() == BoolS:
        return None
    todo = [f]
    while todo:
        t = todo.pop()
        n = name_of(t)
        k = {"str.count": 1, "str.endswith": 1, "str.startswith": 1, "substr_in": 0}.get(n)
        if k is not None and t.num_args() == 2 and name_of(t.arg(k)) == "char_at":
            return t.arg(k)
        if t.sort() != StrS:
            todo.extend(t.children())
    return None


def letters_in(f):
    """the letters of texts that are counted or looked for anywhere in a formula"""
    hit = _LI.get(f.get_id())
    if hit is not None and hit[0].eq(f):
        return hit[1]
    q = letter_in(f)
    if q is not None:
        out = [q]
    elif f.sort() == BoolS:
        out = []
        for x in f.children():
            out.extend(q for q in letters_in(x) if not any(q.eq(y) for y in out))
    else:
        out = []
    _LI[f.get_id()] = (f, out)
    return out


_LI = {}


def is_letter(f, q):
    """the letter c if f says that q is c (q: the letter of a text at a place)"""
    if not z3.is_eq(f) or f.arg(0).sort() != StrS:
        return None
    for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
        v = litval(y)
        if v is None or len(v) != 1:
            continue
        if x.eq(q) or name_of(x) in ("slice:None:1:None", "slice:0:1:None") and x.arg(0).eq(q.arg(0)) and z3.is_int_value(q.arg(1)) and q.arg(1).as_long() == 0:
            return v
    return None


def letters_known(lits):
    """(the literals, with the letters that are known written in; a disjunction that says which letter one is, or None)"""
    qs = []
    for f, w in lits:
        qs.extend(q for q in letters_in(f) if not any(q.eq(y) for y in qs))
    which = None
    for q in qs:
        c = next((c for c in (is_letter(f, q) for f, w in lits if w) if c is not None), None)
        if c is not None:
            lits = [(z3.substitute(f, (q, C.lit(c))) if any(q.eq(y) for y in letters_in(f)) else f, w) for f, w in lits]
        elif which is None:
            which = next(((f, w) for f, w in lits if branches(f, w) is not None and all(v and is_letter(g, q) is not None for g, v in branches(f, w))), None)
    return lits, which


def consts(t, acc=None):
    acc = [] if acc is None else acc
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc.append(t)
    for c in t.children():
        consts(c, acc)
    return acc


def strip_range(body, var):
    """without 0 <= var < length, which holds of every match"""
    if not z3.is_and(body):
        return body
    out = []
    for x in body.children():
        if is_range(x, var):
            continue
        out.append(x)
    return z3.And(out) if out else core.TRUE


def is_range(x, var):
    y = x.arg(0) if z3.is_not(x) else x
    if z3.is_app(y) and y.num_args() == 2 and y.arg(0).sort() == IntS:
        for a, b in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
            if a.eq(var) and (z3.is_int_value(b) or name_of(b) in rx.NAMES and rx.NAMES[name_of(b)][0] == "len"):
                return True
    return False


# ------------------------------------------------------------------ the solver's side
WORDY = ("lang:", "substr_in", "str.", "is_num", "is_float", "literal.", "agree:", "len")


def wordy(t):
    """a leaf that may be understood"""
    n = name_of(t)
    if n is not None and (n in rx.NAMES or n.startswith(WORDY) or n in C.exdef):
        return True
    if n is not None and t.sort() == BoolS:
        return False
    return bool(bases(t))


def implicant(m, formulas):
    """literals of the model that make the formulas true, as few about texts as is easy"""
    out = {}
    memo = {}

    def val(f):
        k = f.get_id()
        if k not in memo:
            memo[k] = (f, z3.is_true(m.eval(f, model_completion=True)))
        return memo[k][1]

    seen = set()

    def need(f, want):
        if (f.get_id(), want) in seen:
            return
        seen.add((f.get_id(), want))
        if z3.is_not(f):
            return need(f.arg(0), not want)
        if z3.is_implies(f):
            a, b = f.children()
            if not want:
                need(a, True)
                need(b, False)
            elif not val(a):
                need(a, False) if cost(a, False) <= cost(b, True) or not val(b) else need(b, True)
            else:
                need(b, True)
            return
        if z3.is_and(f) or z3.is_or(f):
            if z3.is_and(f) == want:
                for x in f.children():
                    need(x, want)
            else:
                ok = [x for x in f.children() if val(x) == want]
                need(min(ok, key=lambda x: cost(x, want)), want)
            return
        if z3.is_app_of(f, z3.Z3_OP_ITE):
            c, a, b = f.children()
            need(c, val(c))
            return need(a if val(c) else b, want)
        if z3.is_eq(f) and f.arg(0).sort() == BoolS:
            need(f.arg(0), val(f.arg(0)))
            need(f.arg(1), val(f.arg(1)))
            return
        if z3.is_true(f) or z3.is_false(f):
            return
        out[(f.get_id(), want)] = (f, want)

    def cost(f, want):
        if (f.get_id(), want) in out or (f.get_id(), want) in seen:
            return 0
        return size_wordy(f)

    for f in formulas:
        need(f, True)
    return list(out.values())


_SW = {}


def size_wordy(f):
    k = f.get_id()
    hit = _SW.get(k)
    if hit is not None and hit[0].eq(f):
        return hit[1]
    if z3.is_not(f) or z3.is_and(f) or z3.is_or(f) or z3.is_implies(f):
        r = sum(size_wordy(x) for x in f.children())
    else:
        r = 1 if wordy(f) else 0
    _SW[k] = (f, r)
    return r


class Lit:
    """a literal about one text, understood"""

    def __init__(self, base, f, w):
        self.f, self.w = f, w
        b = Builder(base)
        q = b.formula(f)
        self.ok = q != ("?",)
        self.ranges = b.ranges
        n = name_of(f)
        self.cost = (COST.get(n[5:], 100) if n is not None and n.startswith("lang:") and w else 10 + complexity(b.net))
        self.key = (f.get_id(), w)
        self.sels = {(r.pattern, how, txt.get_id(), i.get_id()) for r, how, txt, i in b.ranges}


def complexity(net):
    return sum(1 + sum(complexity(x) for x in ([c.net] if hasattr(c, "net") else [y[0] for y in c.cases] if hasattr(c, "cases") else [])) for c in net.comps)


COST = {}  # language -> cost; cheap ones are tried first
LITS, EVALS = {}, {}


def literal(base, f, w):
    k = (base.get_id(), f.get_id(), w)
    if k not in LITS:
        LITS[k] = (Lit(base, f, w), base)
    return LITS[k][0]


def network(base, lits):
    b = Builder(base)
    return b.net, [(b.formula(l.f), l.w) for l in lits]


def holds_on(base, lits, text):
    """can all the literals hold of this very text"""
    k = (base.get_id(), frozenset(l.key for l in lits), text)
    if k not in EVALS:
        net, wants = network(base, lits)
        EVALS[k] = net.can(text, wants)
    return EVALS[k]


def search(base, lits):
    """('empty', core) if no text has these properties, otherwise ('word', text) or ('unknown', None).  Literals are only
    taken into account when a text that has the properties so far lacks them."""
    core, text = [], ""
    for _ in range(40):
        bad = None
        for l in sorted((l for l in lits if l not in core), key=lambda l: l.cost):
            if not holds_on(base, [l], text):
                bad = l
                break
        if bad is None:
            # together, about the same match
            for l in sorted((l for l in lits if l not in core), key=lambda l: l.cost):
                if not l.sels:
                    continue
                same = [c for c in lits if c is not l and c.sels & l.sels]
                if not same or holds_on(base, [l] + same, text):
                    continue
                have = [c for c in core if c.sels & l.sels]
                rest = [c for c in [l] + same if c not in have]
                for c in rest:
                    have.append(c)
                    if not holds_on(base, have, text):
                        bad = c
                        # (what the others are needed for shows in the next rounds)
                        for d in rest[:rest.index(c)]:
                            if d not in core and holds_on(base, [x for x in have if x is not d], text):
                                core.append(d)
                        break
                if bad is not None:
                    break
        if bad is None:
            return "word", text
        core.append(bad)
        t0 = time.time()
        text = None
        try:
            # what the text is, if it is known, may make a search that is too large a small one
            more = [l for l in lits if l not in core and l.w and is_lang(l.f)]
            for some in ([core, core + more] if more else [core]):
                net, wants = network(base, some)
                try:
                    text = net.witness(wants, LIMIT[0] // (10 if some is core and more else 1))
                except TooBig:
                    if some is core and more:
                        continue
                    raise
                core = list(some)
                break
        except (TooBig, Unsupported) as e:
            STATS["big"] += 1
            if DEBUG:
                print(f"   {type(e).__name__} {e} after {time.time()-t0:.1f}s with", [(str(l.f)[:100], l.w) for l in core])
            return "unknown", None
        STATS["states"] += getattr(net, "explored", 0)
        if DEBUG and time.time() - t0 > 1:
            print(f"   {time.time()-t0:.1f}s {len(core)} literals {len(net.comps)} comps -> {text!r}")
        if text is None:
            return "empty", core
    return "unknown", None


def is_lang(f):
    n = name_of(f)
    return n is not None and n.startswith("lang:")


def decide(base, lits):
    key = (base.get_id(), frozenset(l.key for l in lits))
    hit = CACHE.get(key)
    if hit is None:
        # a core that is known
        for k, r in CORES:
            if k[0] == key[0] and k[1] <= key[1]:
                return "empty", [l for l in lits if l.key in k[1]]
        t0 = time.time()
        STATS["checks"] += 1
        hit = CACHE[key] = search(base, lits)
        if hit[0] == "empty":
            CORES.append(((base.get_id(), frozenset(l.key for l in hit[1])), hit))
        STATS["time"] += time.time() - t0
        if DEBUG:
            print(f"   word check {time.time()-t0:.2f}s {len(lits)} literals -> {hit[0]} {hit[1]!r}"[:100])
    return hit


def prove(base, premises, goal, seconds=600):
    """does the goal follow from the premises, for every text and every match they speak of: (yes?, a text for which that is
    not known, a text that has the premises)"""
    b = Builder(base)
    wants = [(b.formula(p), True) for p in premises]
    net = b.net
    sat = net.witness(wants, LIMIT[0], seconds)
    wants.append((b.formula(goal), False))
    for x in b.ranges:
        if not C.valid(in_range(x)):
            raise Unsupported("a match that may not be there")
    STATS["checks"] += 1
    t = net.witness(wants, LIMIT[0], seconds)
    STATS["states"] += getattr(net, "explored", 0)
    return t is None, t, sat


def flat(f, w=True):
    """literals of a conjunction"""
    if z3.is_not(f):
        return flat(f.arg(0), not w)
    if w and z3.is_and(f) or not w and z3.is_or(f):
        return [l for x in f.children() for l in flat(x, w)]
    if not w and z3.is_implies(f):
        return flat(f.arg(0)) + flat(f.arg(1), False)
    return [(f, w)]


def branches(f, w):
    """of a literal that is a disjunction: its parts, or None"""
    if w and z3.is_or(f) or not w and z3.is_and(f):
        return [(x, w) for x in f.children()]
    if w and z3.is_implies(f):
        return [(f.arg(0), False), (f.arg(1), True)]
    return None


def at_witness(f):
    """what an existential statement says of its witness"""
    n = name_of(f)
    dom, var, body, args = C.exdef[n]
    sk = z3.Function(n + ".sk", *[a.sort() for a in args], IntS)(*f.children()) if args else z3.Int(n + ".sk")
    return z3.substitute(z3.And(dom.inr(var), dom.hi >= 1, body), (var, sk), *zip(args, f.children()))


def refute(base, fs, there=None):
    """has no text all of these properties (of matches that are there)?  (yes?, a text that may have them)"""
    top, there = there is None, {} if there is None else there

    def is_there(x):
        f = in_range(x)
        if f.get_id() not in there:
            known = {g.get_id() for p in C.pc for g in ([p] + (p.children() if z3.is_and(p) else []))} | {g.get_id() for g, v in lits if v}
            there[f.get_id()] = (all(g.get_id() in known for g in f.children()) or C.valid(f), f)
        return there[f.get_id()][0]

    lits = [l for f in fs for l in flat(*(f if isinstance(f, tuple) else (f, True)))]
    for f, w in lits if top else ():  # (of a match that there is, the rest of the list is that of the one in question)
        if w and name_of(f) in C.exdef:
            lits.extend(flat(at_witness(f)))
    lits, which = letters_known(lits)
    ors = [l for l in lits if branches(*l) is not None and size_wordy(l[0]) > 3]
    # what is known to be impossible
    have = {(f.get_id(), w): f for f, w in lits}
    for k, (_, core) in CORES:
        if k[0] == base.get_id() and all(x in have and have[x].eq(l.f) for x, l in ((l.key, l) for l in core)) and all(is_there(x) for l in core for x in l.ranges):
            return True, None
    ls = []
    for f, w in lits:
        if z3.is_true(f) and w or z3.is_false(f) and not w:
            continue
        if z3.is_true(f) or z3.is_false(f):
            return True, None
        if branches(f, w) is not None and size_wordy(f) > 3 or w and name_of(f) in C.exdef:
            continue
        l = literal(base, f, w)
        if l.ok and all(is_there(x) for x in l.ranges):
            ls.append(l)
    r, x = decide(base, ls) if ls and which is None else ("word", "")
    if r == "empty":
        return True, None
    best = which
    ors = [] if which is not None else ors
    for f, w in ors:
        l = literal(base, f, w)
        if x is None or l.ok and not holds_on(base, [l], x) or l.sels and not holds_on(base, [l] + [c for c in ls if c.sels & l.sels], x):
            if best is None or len(branches(f, w)) < len(branches(*best)):
                best = f, w
    if best is None:
        return False, x
    rest = [l for l in lits if l is not best and not (l[0].eq(best[0]) and l[1] == best[1])]
    for b in branches(*best):
        ok, x = refute(base, rest + [b], there)
        if not ok:
            return False, x
    return True, None


CORES = []


def reset():
    rx.RANKS.clear()
    for x in (CACHE, LITS, EVALS, CORES):
        x.clear()


def anchors(f):
    """the texts of matches that are all that a literal speaks of"""
    n = name_of(f)
    if n in C.exdef:
        dom, var, body, args = C.exdef[n]
        ts = [z3.substitute(o, *zip(args, f.children())) if args else o for o in dom.outer]
    else:
        ts = [f]
    memo = {}

    def through(t):
        """the texts that lie on every way from t to a base, or None if there is no way"""
        k = t.get_id()
        if k in memo:
            return memo[k]
        n = name_of(t)
        out = None
        if litval(t) is not None:
            out = None
        elif n is not None and (n in rx.NAMES or n == "txt_id" or n.startswith(UNARY)):
            out = through(t.arg(0))
        elif n is not None and t.sort() in (StrS, V):
            out = {}
        else:
            for c in t.children():
                x = through(c)
                if x is not None:
                    out = x if out is None else {i: y for i, y in out.items() if i in x}
        if t.sort() == StrS and out is not None and group_of(t) is not None:
            out = dict(out)
            out[k] = t
        memo[k] = out
        return out

    out = None
    for t in ts:
        x = through(t)
        if x is not None:
            out = x if out is None else {i: y for i, y in out.items() if i in x}
    return out or {}


def group_of(t):
    """of the text of a match: (regex, how, text, index)"""
    x = t.arg(0) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_ACCESSOR and t.decl().name() == "s" else t
    n = name_of(x)
    return rx.NAMES[n] if n in rx.NAMES and rx.NAMES[n][0] == "group" else None


def lemma(b, ls, m):
    """refute some of the literals about the text b"""
    ls = [literal(b, f, w) for f, w in ls]
    # only matches that are there
    ls = [l for l in ls if l.ok and all(z3.is_true(m.eval(in_range(x), model_completion=True)) for x in l.ranges)]
    if not ls:
        return None
    r, core = decide(b, ls)
    if r != "empty":
        return None
    STATS["lemmas"] += 1
    if DEBUG:
        print("   LEMMA", [(str(l.f)[:140].replace("\n", " "), l.w) for l in core])
    conds = [in_range(x) for l in core for x in l.ranges]
    return z3.Not(z3.And(conds + [l.f if l.w else z3.Not(l.f) for l in core]))


def conflict_within(m, formulas):
    """the same, only about the texts of matches"""
    return conflict(m, formulas, False)


def conflict(m, formulas, whole=True):
    """a lemma that the model contradicts, or None"""
    lits = implicant(m, formulas)
    groups, inner = {}, {}
    for f, w in lits:
        if not wordy(f):
            continue
        for a in anchors(f).values():
            inner.setdefault(a.get_id(), (a, []))[1].append((f, w))
        bs = bases(f)
        n = name_of(f)
        if n in C.exdef:
            bs = {}
            dom, var, body, args = C.exdef[n]
            for o in dom.outer:
                bases(z3.substitute(o, *zip(args, f.children())) if args else o, bs)
        if len(bs) != 1:
            continue
        b = next(iter(bs.values()))
        if b.sort() == StrS:
            groups.setdefault(b.get_id(), (b, []))[1].append((f, w))
    for b, ls in list(inner.values()) + (list(groups.values()) if whole else []):
        x = lemma(b, ls, m)
        if x is not None:
            return x
    return None


def in_range(x):
    r, how, txt, i = x
    n = rx.len_term(r, how, txt)
    return z3.And(i >= 0, i < n)
