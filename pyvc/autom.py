"""Automata over all texts: regular expressions with Python's matching semantics.

A text of any length over all 0x110000 characters is read letter by letter; a letter is a class of
characters that none of the character sets in use tells apart.  Compiled patterns become programs of
prioritised alternatives; `Track` follows, nondeterministically but unambiguously, what finditer finds
in a text: it guesses where a match starts and which alternative is taken, and dies as soon as an
alternative that Python would have preferred turns out to match.
"""
import re
import unicodedata

import numpy as np

try:
    from re import _parser as sre_parse, _constants as sre_constants
except ImportError:
    import sre_parse
    import sre_constants

from .core import Unsupported

END = -1
ALLCHARS = "".join(map(chr, range(0x110000)))


# ------------------------------------------------------------------ alphabet
class Alphabet:
    """partition of all characters by the character sets in use"""

    def __init__(self):
        self.ids = np.zeros(0x110000, dtype=np.int64)
        self.n = 1
        self.masks = {}  # key -> bool array
        self.sets = {}
        self.version = 0

    def add(self, key, mask):
        if key in self.masks:
            return key
        self.masks[key] = mask
        comb = self.ids * 2 + mask
        u, inv = np.unique(comb, return_inverse=True)
        if len(u) != self.n:
            self.ids, self.n = inv.astype(np.int64), len(u)
            self.version += 1
            self.sets = {}
        return key

    def chars(self, key):
        """the letters of a set"""
        r = self.sets.get(key)
        if r is None:
            r = self.sets[key] = frozenset(int(x) for x in np.unique(self.ids[self.masks[key]]))
        return r

    def regex(self, src, flags=0):
        """a set given as a pattern of one character"""
        key = ("re", src, int(flags) & int(re.I | re.A | re.S | re.X))
        if key not in self.masks:
            m = np.zeros(0x110000, dtype=bool)
            for x in re.compile(src, flags & (re.I | re.A | re.S)).finditer(ALLCHARS):
                m[x.start()] = True
            self.add(key, m)
        return key

    def literal(self, c):
        key = ("lit", c)
        if key not in self.masks:
            m = np.zeros(0x110000, dtype=bool)
            m[ord(c)] = True
            self.add(key, m)
        return key

    def test(self, name, f):
        key = ("test", name)
        if key not in self.masks:
            self.add(key, np.fromiter((bool(f(c)) for c in ALLCHARS), dtype=bool, count=0x110000))
        return key

    def representative(self, k):
        i = np.flatnonzero(self.ids == k)
        ascii_ = [x for x in i[:200] if 32 <= x < 127]
        return chr(int(ascii_[0] if ascii_ else i[0]))

    def of_char(self, c):
        return int(self.ids[ord(c)])


A = Alphabet()


def space_key():
    return A.test("isspace", str.isspace)


def upper_key():
    return A.test("isupper", str.isupper)


def lower_key():
    return A.test("islower", lambda c: c.islower() or unicodedata.category(c) == "Lt")


# ------------------------------------------------------------------ programs
class Prog:
    """instructions: ('char', setkey) ('split', targets) ('mark', what) ('assert', kind, setkey) ('match',)"""

    def __init__(self):
        self.ins = []
        self.keys = set()
        self.groupindex = {}
        self.cache, self.version = {}, -1
        self.prevkeys = set()  # sets that assertions test on the previous letter

    def emit(self, *i):
        self.ins.append(i)
        return len(self.ins) - 1

    def fresh(self):
        if self.version != A.version:
            self.cache, self.version = {}, A.version
            self.prevsets = [A.chars(k) for k in sorted(self.prevkeys, key=repr)]

    def prevsig(self, letter):
        """what assertions can see of the previous letter (None: start of the text)"""
        self.fresh()
        if not self.prevkeys and not self.atstart:
            return 0
        if letter is None:
            return -1
        return sum(1 << i for i, s in enumerate(self.prevsets) if letter in s)

    atstart = False

    def closure(self, pc, prev, nxt):
        """the leaves from pc when the letter nxt (or END) comes next, most preferred first:
        [(marks, target)], target 'M' or where the run continues after nxt"""
        self.fresh()
        key = (pc, prev, nxt)
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        out, seen, done = [], set(), set()
        stack = [(pc, ())]
        keys = sorted(self.prevkeys, key=repr)
        while stack:
            p, marks = stack.pop()
            if p in seen:
                continue
            seen.add(p)
            i = self.ins[p]
            op = i[0]
            if op == "char":
                t = self.nxt[p]
                if nxt != END and t not in done and nxt in A.chars(i[1]):
                    done.add(t)
                    out.append((marks, t))
            elif op == "match":
                out.append((marks, "M"))
            elif op == "split":
                for t in reversed(i[1]):
                    stack.append((t, marks))
            elif op == "mark":
                stack.append((self.nxt[p], marks + (i[1],)))
            elif op == "assert":
                kind, k = i[1], i[2]
                if kind == "start":
                    ok = prev == -1
                elif kind == "end":
                    ok = nxt == END
                elif kind in ("behind", "notbehind"):
                    ok = (prev != -1 and bool(prev >> keys.index(k) & 1)) == (kind == "behind")
                elif kind in ("ahead", "notahead"):
                    ok = (nxt != END and nxt in A.chars(k)) == (kind == "ahead")
                elif kind in ("boundary", "notboundary"):
                    a = prev != -1 and bool(prev >> keys.index(k) & 1)
                    b = nxt != END and nxt in A.chars(k)
                    ok = (a != b) == (kind == "boundary")
                else:
                    raise Unsupported(kind)
                if ok:
                    stack.append((self.nxt[p], marks))
        self.cache[key] = out
        return out


def nullable(items):
    return sre_width(items) == 0


def sre_width(items):
    w = 0
    for op, av in items:
        op = str(op)
        if op in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            w += 1
        elif op in ("MAX_REPEAT", "MIN_REPEAT"):
            w += av[0] * sre_width(av[2])
        elif op == "BRANCH":
            w += min(sre_width(b) for b in av[1])
        elif op == "SUBPATTERN":
            w += sre_width(av[3])
        elif op in ("AT", "ASSERT", "ASSERT_NOT"):
            pass
        else:
            raise Unsupported(f"{op} in a regular expression")
    return w


def has_group(items):
    for op, av in items:
        op = str(op)
        if op == "SUBPATTERN" and (av[0] is not None or has_group(av[3])):
            return True
        if op in ("MAX_REPEAT", "MIN_REPEAT") and has_group(av[2]):
            return True
        if op == "BRANCH" and any(has_group(b) for b in av[1]):
            return True
    return False


CATS = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S", "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}


def esc(c):
    return f"\\U{c:08x}"


def one_char(op, av, flags):
    op = str(op)
    if op == "LITERAL":
        return A.regex(esc(av), flags) if flags & re.I else A.literal(chr(av))
    if op == "NOT_LITERAL":
        return A.regex(f"[^{esc(av)}]", flags)
    if op == "ANY":
        return A.regex(".", flags)
    if op == "IN":
        s, neg = "", ""
        for o, v in av:
            o = str(o)
            if o == "NEGATE":
                neg = "^"
            elif o == "LITERAL":
                s += esc(v)
            elif o == "RANGE":
                s += f"{esc(v[0])}-{esc(v[1])}"
            elif o == "CATEGORY":
                s += CATS[str(v)]
            else:
                raise Unsupported(f"{o} in a character set")
        return A.regex(f"[{neg}{s}]", flags)
    return None


def compile_prog(pattern, flags=0, spec=False):
    """spec: named groups become labels (and may be repeated), priorities do not matter"""
    tree = sre_parse.parse(pattern, flags)
    flags = tree.state.flags
    if flags & (re.M | re.L):
        raise Unsupported("flags of a regular expression")
    names = {v: k for k, v in tree.state.groupdict.items()}
    P = Prog()
    P.groupindex = dict(tree.state.groupdict)

    def key(k):
        P.keys.add(k)
        return k

    def seq(items, flags):
        for op, av in items:
            name = str(op)
            if name in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
                P.emit("char", key(one_char(op, av, flags)))
            elif name == "BRANCH":
                s = P.emit("split", None)
                ends, starts = [], []
                for b in av[1]:
                    starts.append(len(P.ins))
                    seq(b, flags)
                    ends.append(P.emit("split", None))
                P.ins[s] = ("split", tuple(starts))
                for e in ends:
                    P.ins[e] = ("split", (len(P.ins),))
                if not av[1]:
                    raise Unsupported("empty alternative")
            elif name == "SUBPATTERN":
                g, add, dele, sub = av
                f2 = (flags | add) & ~dele
                if g is None:
                    seq(sub, f2)
                else:
                    lab = g
                    if spec:
                        lab = names.get(g)
                        lab = re.sub(r"__\d+$", "", lab) if lab else None
                    if lab is not None:
                        P.emit("mark", ("(", lab))
                    seq(sub, f2)
                    if lab is not None:
                        P.emit("mark", (")", lab))
            elif name in ("MAX_REPEAT", "MIN_REPEAT"):
                lo, hi, sub = av
                greedy = name == "MAX_REPEAT"
                inf = hi == sre_constants.MAXREPEAT
                if (inf or hi > 1) and has_group(sub) and not spec:
                    raise Unsupported("a group that is repeated")
                if inf and nullable(sub):
                    raise Unsupported("a repeated part that can be empty")
                if not inf and hi > 1 and nullable(sub) and not spec:
                    raise Unsupported("a repeated part that can be empty")
                if lo > 300 or not inf and hi > 300:
                    raise Unsupported("a long repetition")
                for _ in range(lo):
                    seq(sub, flags)
                if inf:
                    s = P.emit("split", None)
                    seq(sub, flags)
                    P.emit("split", (s,))
                    t = (s + 1, len(P.ins))
                    P.ins[s] = ("split", t if greedy else t[::-1])
                else:
                    outs = []
                    for _ in range(hi - lo):
                        outs.append(P.emit("split", None))
                        seq(sub, flags)
                    for s in outs:
                        t = (s + 1, len(P.ins))
                        P.ins[s] = ("split", t if greedy else t[::-1])
            elif name == "AT":
                w = str(av)
                if w in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                    P.emit("assert", "start", None)
                    P.atstart = True
                elif w == "AT_END_STRING":
                    P.emit("assert", "end", None)
                elif w in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
                    k = key(A.regex(r"\w", flags))
                    P.prevkeys.add(k)
                    P.emit("assert", "boundary" if w == "AT_BOUNDARY" else "notboundary", k)
                else:
                    raise Unsupported(f"{w} in a regular expression")
            elif name in ("ASSERT", "ASSERT_NOT"):
                d, sub = av
                sub = list(sub)
                if len(sub) != 1 or one_char(*sub[0], flags) is None:
                    raise Unsupported("a look-around of more than one character")
                k = key(one_char(*sub[0], flags))
                kind = ("behind" if d < 0 else "ahead")
                if d < 0:
                    P.prevkeys.add(k)
                P.emit("assert", kind if name == "ASSERT" else "not" + kind, k)
            else:
                raise Unsupported(f"{name} in a regular expression")

    seq(tree, flags)
    P.emit("match")
    P.label = pattern[:40]
    P.nxt = list(range(1, len(P.ins) + 1))
    P.start = 0
    return reduce_prog(P)


def reduce_prog(P):
    """merge instructions that behave alike"""
    n = len(P.ins)
    # a jump is where it leads to
    def real(p):
        seen = set()
        while P.ins[p][0] == "split" and len(P.ins[p][1]) == 1 and p not in seen:
            seen.add(p)
            p = P.ins[p][1][0]
        return p
    tgt = [real(p) for p in range(n)]
    succ = []
    for p, i in enumerate(P.ins):
        if i[0] == "split":
            succ.append(tuple(tgt[t] for t in i[1]))
        elif i[0] == "match":
            succ.append(())
        else:
            succ.append((tgt[P.nxt[p]],))
    ids, cls = {}, []
    for i in P.ins:
        cls.append(ids.setdefault(i[:1] + (len(i[1]),) if i[0] == "split" else i, len(ids)))
    num = len(ids)
    while True:
        ids = {}
        new = [ids.setdefault((cls[p],) + tuple(cls[t] for t in succ[p]), len(ids)) for p in range(n)]
        cls = new
        if len(ids) == num:
            break
        num = len(ids)
    # number the classes that can be reached
    order, first = {}, {}
    for p in range(n):
        first.setdefault(cls[p], p)
    todo = [cls[tgt[P.start]]]
    order[todo[0]] = 0
    while todo:
        c = todo.pop()
        for t in succ[first[c]]:
            if cls[t] not in order:
                order[cls[t]] = len(order)
                todo.append(cls[t])
    ins, nxt = [None] * len(order), [None] * len(order)
    for c, k in order.items():
        p = first[c]
        i = P.ins[p]
        if i[0] == "split":
            ins[k] = ("split", tuple(order[cls[t]] for t in succ[p]))
        else:
            ins[k] = i
            nxt[k] = order[cls[succ[p][0]]] if succ[p] else None
    P.ins, P.nxt, P.start = ins, nxt, 0
    return P


PROGS = {}


def prog_of(rx):
    """of a compiled pattern"""
    k = (rx.pattern, int(rx.flags))
    if k not in PROGS:
        PROGS[k] = compile_prog(rx.pattern, rx.flags)
    return PROGS[k]


def prog(pattern, flags=0, spec=False):
    k = (pattern, int(flags), spec)
    if k not in PROGS:
        PROGS[k] = compile_prog(pattern, flags, spec)
    return PROGS[k]


# ------------------------------------------------------------------ components
# A component reads tokens and gives, for every guess, a new state and the tokens it passes on.
# Tokens: a letter k >= 0, END, '<' '>' around a match, ('(', g) (')', g) where a group starts and ends,
# ('=', text): these letters instead.
class Comp:
    """step(state, token) -> iterable of (state', tokens)"""

    keys = ()
    letters = False  # only letters and END are of interest

    def init(self):
        return 0

    def prepare(self):
        """after the alphabet is final"""

    def value(self, state):
        """of an atom at the end of the text: True, False, or None for unknown"""
        return None

    def doomed(self, state, want):
        """the value can no longer be `want`"""
        return False


class Track(Comp):
    """all matches of a pattern in a text, as finditer finds them"""
    letters = True

    def __init__(self, prg, split=False, once=None):
        self.p, self.split, self.once = prg, split, once
        self.keys = prg.keys

    # state: (core or None, adv, U, prev)    core None: searching
    def init(self):
        return (None, False, frozenset(), self.p.prevsig(None), True)

    def advance(self, U, prev, x):
        """the attempts that must fail read x; None if one of them matches"""
        out = set()
        for u in U:
            for _, t in self.p.closure(u, prev, x):
                if t == "M":
                    return None
                out.add(t)
        return frozenset(out)

    def step(self, state, x):
        core, adv, U, prev, first = state
        if self.once and core is None and not first:
            U2 = self.advance(U, prev, x)
            if U2 is None:
                return ()
            return [((None, False, U2, 0 if x == END else self.p.prevsig(x), False), (x,))]
        res = []
        U2 = self.advance(U, prev, x)
        if U2 is None:
            return ()
        # each entry: position before x is read: (core, adv, U2, tokens so far, marks of group)
        todo = [("run", core, adv, U2, ()) if core is not None else ("search", None, adv, U2, ())]
        nprev = 0 if x == END else self.p.prevsig(x)
        while todo:
            mode, c, adv, UU, toks = todo.pop()
            if mode == "run" or mode == "search":
                if mode == "search":
                    start = 0
                    leaves = self.p.closure(start, prev, x)
                    if adv:
                        leaves = [l for l in leaves if l[1] != "M"]
                    # no match starts here
                    if not any(t == "M" for _, t in leaves):
                        u3 = UU | frozenset(t for _, t in leaves)
                        if self.once == "match":
                            pass
                        elif x == END:
                            res.append(((None, False, frozenset(), 0, True), toks + (END,)))
                        else:
                            res.append(((None, False, u3, nprev, True), toks + (x,)))
                    if self.once == "match" and not leaves:
                        pass
                else:
                    leaves = self.p.closure(c, prev, x)
                pre = ("<",) if mode == "search" else ()
                more = set()
                for marks, t in leaves:
                    if t == "M":
                        u3 = UU | more
                        tk = toks + pre + marks + (">",)
                        if self.once:
                            if x == END:
                                res.append(((None, False, frozenset(), 0, False), tk + (END,)))
                            else:
                                res.append(((None, False, u3, nprev, False), tk + (x,)))
                        elif mode == "search":  # an empty match; the next one must not be empty here
                            todo.append(("search", None, True, u3, tk))
                        else:
                            todo.append(("search", None, False, u3, tk))
                        break  # a less preferred way is not taken when this one matches
                    u3 = UU | more
                    if t not in u3:
                        res.append(((t, False, u3, nprev, False), toks + pre + marks + (x,)))
                    more.add(t)
        out = []
        for st, toks in res:
            if st[0] is not None and st[0] in st[2]:
                continue
            out.append((st, toks))
        return out


class Pred(Comp):
    """does a pattern match: the whole text, a start of it, or anywhere"""
    letters = True

    def __init__(self, prg, how):
        self.p, self.how, self.keys = prg, how, prg.keys

    # state: (set of cores, prev, found)
    def init(self):
        return (frozenset([0]), self.p.prevsig(None), False)

    def step(self, state, x):
        S, prev, found = state
        if found:
            return ((state, ()),)
        out = set()
        for c in S:
            for _, t in self.p.closure(c, prev, x):
                if t == "M":
                    if self.how != "fullmatch" or x == END:
                        return (((frozenset(), 0, True), ()),)
                else:
                    out.add(t)
        if self.how == "search" and x != END:
            out.add(0)
        return (((frozenset(out), 0 if x == END else self.p.prevsig(x), False), ()),)

    def value(self, state):
        return state[2]

    def doomed(self, state, want):
        if state[2]:
            return want is False
        return not state[0] and want is True


class NFA(Comp):
    """some run of a labelled language over the text: labels are tokens; the text must be in the language"""
    letters = True

    def __init__(self, prg):
        self.p, self.keys = prg, prg.keys

    def init(self):
        return (0, self.p.prevsig(None))

    def step(self, state, x):
        c, prev = state
        out = []
        for marks, t in self.p.closure(c, prev, x):
            if x == END:
                if t == "M":
                    out.append((("done", 0), marks + (END,)))
            elif t != "M":
                out.append(((t, self.p.prevsig(x)), marks + (x,)))
        return out


class Selected(Comp):
    """one match of those tracked"""

    def step(self, state, x):
        # 0 before, 1 inside, 2 after
        if state == 0:
            if x == "<":
                return ((0, ()), (1, ()))
            return () if x == END else ((0, ()),)
        if state == 1:
            if x == ">":
                return ((2, (END,)),)
            return ((1, (x,)),)
        return ((2, ()),)


FIN = ("fin",)  # nothing is counted any more


class Ranked(Comp):
    """one match of those tracked; those before it that satisfy a formula are counted"""

    def __init__(self, net, phi):
        self.net, self.phi, self.keys = net, phi, net.keys
        net.nested = True

    def prepare(self):
        self.net.prepare()

    def init(self):
        return (0, None)

    def step(self, state, x):
        k, st = state
        if k == 0:
            if st is None:
                if x == "<":
                    return (((0, self.net.init()), ()), ((1, None), (FIN,)))
                return () if x == END else ((state, ()),)
            if x == ">":
                res = set()
                for st2, _ in self.net.step(st, (END,)):
                    r = self.net.eval(self.phi, st2)
                    res |= {True, False} if r is None else {r}
                return [((0, None), (("+", 1),) if r else ()) for r in res]
            if x == END:
                return ()
            return [((0, st2), ()) for st2, _ in self.net.step(st, (x,))]
        if k == 1:
            if x == ">":
                return (((2, None), (END,)),)
            return ((state, (x,)),)
        return ((state, ()),)


class CountIf(Comp):
    """the matches that satisfy a formula"""

    def __init__(self, net, phi):
        self.net, self.phi, self.keys = net, phi, net.keys
        net.nested = True

    def prepare(self):
        self.net.prepare()

    def init(self):
        return None

    def step(self, st, x):
        if st is None:
            return ((self.net.init() if x == "<" else None, ()),)
        if x == ">":
            res = set()
            for st2, _ in self.net.step(st, (END,)):
                r = self.net.eval(self.phi, st2)
                res |= {True, False} if r is None else {r}
            return [(None, (("+", 1),) if r else ()) for r in res]
        return [(st2, ()) for st2, _ in self.net.step(st, (x,))]


class SpecTrack(Comp):
    """the parts of a text that have a label, as matches"""

    def __init__(self, label):
        self.label = label

    def step(self, state, x):
        if x == END:
            return ((0, (END,)),)
        if x == ("(", self.label):
            return ((1, ("<",)),)
        if x == (")", self.label):
            return ((0, (">",)),)
        return ((state, (x,)),) if state else ((0, (x,) if isinstance(x, int) else ()),)


class Translate(Comp):
    """parts with certain labels replaced: {label: text}"""

    def __init__(self, d):
        self.d = d
        self.keys = tuple(A.literal(c) for t in d.values() for c in t)

    def step(self, state, x):
        if isinstance(x, tuple) and x[0] == "(" and x[1] in self.d:
            t = self.d[x[1]]
            return ((x[1], (("=", t),) + tuple(A.of_char(c) for c in t)),)
        if state:
            return ((0, ()),) if x == (")", state) else ((state, ()),)
        return ((0, (x,)),)


class Same(Comp):
    """an atom: two streams are the same letters at the same places (otherwise unknown)"""

    def init(self):
        return True

    def multi(self, s, ins):
        if not s:
            return s
        a, b = ([t for t in x if t != END and (isinstance(t, int) or t[0] == "=")] for x in ins)
        return a == b

    def value(self, s):
        return True if s else None


class Group(Comp):
    """the text of a group of a match (0: of the match)"""

    def __init__(self, g):
        self.g = g

    def init(self):
        return self.g == 0

    def step(self, state, x):
        if x == END:
            return ((False, (END,)),)
        if x == ("(", self.g):
            return ((True, ()),)
        if x == (")", self.g):
            return ((False, ()),)
        if state and (isinstance(x, int) or x[0] == "="):
            return ((state, (x,)),)
        return ((state, ()),)


class Part(Comp):
    """an atom: does the group take part in the match"""

    def __init__(self, g):
        self.g = g

    def init(self):
        return self.g == 0

    def step(self, state, x):
        return ((state or x == ("(", self.g), ()),)

    def value(self, state):
        return state

    def doomed(self, state, want):
        return state and want is False


class Pieces(Comp):
    """what is between matches, as matches: split"""

    def step(self, state, x):
        # 0: at the start, 1: in a piece, 2: in a match
        pre = ("<",) if state == 0 else ()
        if state == 0:
            state = 1
        if state == 1:
            if x == "<":
                return ((2, pre + (">",)),)
            if x == END:
                return ((1, pre + (">", END)),)
            return ((1, pre + (x,)),) if isinstance(x, int) else ((1, pre),)
        if x == ">":
            return ((1, ("<",)),)
        return ((2, ()),)


class Strip(Comp):
    letters = True
    def __init__(self, key, left=True, right=True):
        self.key, self.keys, self.left, self.right = key, (key,), left, right

    def prepare(self):
        self.set = A.chars(self.key)

    def init(self):
        return 0 if self.left else 1

    # 0 leading, 1 inside, 2 inside but must see one more that stays, 3 trailing
    def step(self, s, x):
        if x == END:
            return () if s == 2 else ((s, (END,)),)
        ws = x in self.set
        if s == 0:
            return ((0, ()),) if ws else ((1, (x,)),)
        if s == 3:
            return ((3, ()),) if ws else ()
        if not ws:
            return ((1, (x,)),)
        if not self.right:
            return ((1, (x,)),)
        return ((2, (x,)), (3, ())) if s == 1 else ((2, (x,)),)


class Slice(Comp):
    """[a:b] with a >= 0 and b None, >= 0 or -1"""
    letters = True

    def __init__(self, a, b):
        self.a, self.b = a, b

    # (position up to max, 'last seen')
    def init(self):
        return (0, False)

    def step(self, s, x):
        n, last = s
        if x == END:
            if self.b == -1 and not last and n > 0:
                return ()
            return ((s, (END,)),)
        if last:
            return ()
        m = max(self.a, self.b or 0) + 1
        n2 = min(n + 1, m)
        if self.b == -1:
            keep = (x,) if n >= self.a else ()
            return (((n2, False), keep), ((n2, True), ()))
        keep = n >= self.a and (self.b is None or n < self.b)
        return (((n2, False), (x,) if keep else ()),)


class Last(Comp):
    """the last letter"""
    letters = True

    def step(self, s, x):
        if x == END:
            return ((s, (END,)),) if s else ()
        if s:
            return ()
        return ((0, ()), (1, (x,)))


class Tail(Comp):
    """the last k letters, or the whole text if it has fewer: 0 at the beginning, -1 before them, 1 + how many are left,
    -1 - how many of too few"""
    letters = True

    def __init__(self, k):
        self.k = k

    def step(self, s, x):
        if x == END:
            return ((s, (END,)),) if s in (0, 1) or s < -1 else ()
        if s > 1:
            return ((s - 1, (x,)),)
        if s == 1:
            return ()
        if s < -1:
            return ((s - 1, (x,)),) if s > -self.k else ()
        out = [(-1, ()), (self.k, (x,))]
        if s == 0 and self.k > 1:
            out.append((-2, (x,)))
        return tuple(out)


class Sub(Comp):
    """the text with the matches replaced.  cases: [(subnet, formula, parts)]: one whose formula holds of the match
    applies; parts: ('text', t) letters, or ('stream', ref) of the subnet.  ('=', t) goes before replaced text."""

    def __init__(self, cases):
        self.cases = cases
        for n, _, _ in cases:
            n.nested = True
        self.keys = tuple(k for n, _, _ in cases for k in n.keys) + tuple(A.literal(c) for _, _, ps in cases for q in ps if q[0] == "text" for c in q[1])

    def prepare(self):
        for n, _, _ in self.cases:
            n.prepare()
        self.head = []
        for _, _, parts in self.cases:
            if not parts:
                self.head.append((("=", ""),))
            elif parts[0][0] == "stream":
                if len(parts) > 1:
                    raise Unsupported("a replacement of several parts")
                self.head.append(())
            else:
                if any(q[0] != "text" for q in parts):
                    raise Unsupported("a replacement of several parts")
                t = "".join(q[1] for q in parts)
                self.head.append((("=", t),) + tuple(A.of_char(c) for c in t))

    def init(self):
        return None

    def step(self, s, x):
        if s is None:
            if x == "<":
                return [((i, n.init()), self.head[i]) for i, (n, _, _) in enumerate(self.cases)]
            return ((None, (x,) if isinstance(x, int) else ()),)
        i, st = s
        n, phi, parts = self.cases[i]
        if x == ">":
            for st2, outs in n.step(st, (END,)):
                if n.eval(phi, st2) is not False:
                    return ((None, ()),)
            return ()
        res = []
        for st2, outs in n.step(st, (x,)):
            tk = ()
            if parts and parts[0][0] == "stream":
                tk = tuple(y for y in n.out(outs, (x,), parts[0][1]) if y != END)
            res.append(((i, st2), tk))
        return res


class Counter(Comp):
    """letters of a stream counted with weights: [(key, weight)]; the first set a letter is in counts"""
    letters = True

    def __init__(self, weights):
        self.w = weights
        self.keys = tuple(k for k, _ in weights)

    def prepare(self):
        self.sets = [(A.chars(k), w) for k, w in self.w]

    def weight(self, x):
        if x == END:
            return 0
        for s, w in self.sets:
            if x in s:
                return w
        return 0

    def step(self, s, x):
        return ((0, (("+", self.weight(x)),)),)


class CountMatches(Comp):
    def step(self, s, x):
        return ((0, (("+", 1 if x == "<" else 0),)),)


class Linear(Comp):
    """a linear atom over counters: sum of coefficient * count + const  rel  0;  rel: '==' '<=' or ('mod', m, r)"""

    def __init__(self, coefs, const, rel, up=False):
        """up: every counter only counts up"""
        self.coefs, self.const, self.rel, self.up = coefs, const, rel, up

    LIM = 40

    def init(self):
        if isinstance(self.rel, tuple):
            return self.const % self.rel[1]
        return self.const

    def multi(self, s, ins):
        """ins: tokens of each counter in this step"""
        if s is None or s == "no" or s == "yes":
            return s
        s, fin = s if isinstance(s, tuple) else (s, 0)
        for i, (c, toks) in enumerate(zip(self.coefs, ins)):
            for t in toks:
                if isinstance(t, tuple) and t[0] == "+":
                    s += c * t[1]
                elif t == FIN:
                    fin |= 1 << i
        if isinstance(self.rel, tuple):
            return s % self.rel[1]
        if self.up and s and self.rel == "==":
            # nothing that may still be counted brings it back to 0
            left = [c for i, c in enumerate(self.coefs) if not fin >> i & 1]
            if all((c > 0) == (s > 0) for c in left):
                return "no"
        if self.up and self.rel == "<=" and (s > 0 and all(c > 0 for c in self.coefs) or s <= 0 and all(c < 0 for c in self.coefs)):
            return "no" if s > 0 else "yes"
        if abs(s) > self.LIM:
            return None
        return (s, fin) if fin else s

    def value(self, s):
        if s is None:
            return None
        if s == "no" or s == "yes":
            return s == "yes"
        if isinstance(s, tuple):
            s = s[0]
        if isinstance(self.rel, tuple):
            return s == self.rel[2]
        return s == 0 if self.rel == "==" else s <= 0

    def doomed(self, s, want):
        return s == "no" and want is True or s == "yes" and want is False


class UpperPred(Comp):
    letters = True
    def __init__(self):
        self.keys = (upper_key(), lower_key())

    def prepare(self):
        self.u, self.l = A.chars(self.keys[0]), A.chars(self.keys[1])

    def step(self, s, x):
        if s == 2 or not isinstance(x, int) or x == END:
            return ((s, ()),)
        if x in self.l:
            return ((2, ()),)
        return ((1 if x in self.u else s, ()),)

    def value(self, s):
        return s == 1

    def doomed(self, s, want):
        return s == 2 and want is True


class ExMatch(Comp):
    """an atom: some match (tokens '<' .. '>') satisfies a formula, three-valued"""

    def __init__(self, net, phi):
        self.net, self.phi, self.keys = net, phi, net.keys
        net.nested = True

    def prepare(self):
        self.net.prepare()

    # (value so far: False / None / True, state of the inner net or None)
    def init(self):
        return (False, None)

    def step(self, s, x):
        v, st = s
        if v is True and st is None:
            return ((s, ()),)
        if st is None:
            return (((v, self.net.init()), ()),) if x == "<" else ((s, ()),)
        if x == ">":
            res = set()
            for st2, _ in self.net.step(st, (END,)):
                r = self.net.eval(self.phi, st2)
                res.add(True if r is True or v is True else None if r is None or v is None else False)
            return [((r, None), ()) for r in res]
        return [((v, st2), ()) for st2, _ in self.net.step(st, (x,))]

    def value(self, s):
        return s[0]

    def doomed(self, s, want):
        return s[0] is True and want is False


class Const3(Comp):
    """an atom whose value is only known one way"""

    def __init__(self, inner, when, then):
        self.i, self.when, self.then, self.keys = inner, when, then, inner.keys

    def prepare(self):
        self.i.prepare()

    def init(self):
        return self.i.init()

    def step(self, s, x):
        return self.i.step(s, x)

    def value(self, s):
        return self.then if self.i.value(s) is self.when else None


class Net:
    """components fed by a text (or by the tokens of one match); atoms are components too"""

    def __init__(self):
        self.comps, self.ins, self.by_key = [], [], {}
        self.nested = False

    def add(self, key, comp, *ins):
        i = self.by_key.get(key)
        if i is None:
            i = self.by_key[key] = len(self.comps)
            self.comps.append(comp)
            self.ins.append(ins)
        return i

    @property
    def keys(self):
        return tuple(k for c in self.comps for k in c.keys)

    def prepare(self):
        self.memo = [{} for _ in self.comps]
        self.hist = {}
        for c in self.comps:
            c.prepare()

    def init(self):
        return tuple(c.init() for c in self.comps)

    def out(self, outs, root, ref):
        return root if ref == "root" else outs[ref]

    def run1(self, i, s, toks):
        m = self.memo[i]
        k = (s, toks)
        hit = m.get(k)
        if hit is not None:
            return hit
        c = self.comps[i]
        states = [(s, ())]
        for x in toks:
            if c.letters and not isinstance(x, int):
                continue
            nxt = []
            for st, o in states:
                for s2, t in c.step(st, x):
                    nxt.append((s2, o + tuple(t)))
            states = nxt if len(nxt) < 2 else list(dict.fromkeys(nxt))
        m[k] = states
        return states

    def step(self, state, root):
        """[(state', outputs of the components)]"""
        key = (state, root)
        hit = self.hist.get(key)
        if hit is not None:
            return hit
        parts = [((), ())]
        for i, c in enumerate(self.comps):
            nxt = []
            for st, outs in parts:
                ins = self.ins[i]
                if hasattr(c, "multi"):
                    nxt.append((st + (c.multi(state[i], [self.out(outs, root, r) for r in ins]),), outs + ((),)))
                    continue
                for s2, o in self.run1(i, state[i], self.out(outs, root, ins[0]) if ins else root):
                    nxt.append((st + (s2,), outs + (o,)))
            parts = nxt
            if not parts:
                break
        if self.nested:
            self.hist[key] = parts
        return parts

    def eval(self, phi, state):
        """three-valued"""
        k = phi[0]
        if k == "atom":
            return self.comps[phi[1]].value(state[phi[1]])
        if k == "const":
            return phi[1]
        if k == "not":
            v = self.eval(phi[1], state)
            return None if v is None else not v
        if k in ("and", "or"):
            stop = k == "or"
            unknown = False
            for q in phi[1:]:
                v = self.eval(q, state)
                if v is stop:
                    return stop
                unknown |= v is None
            return None if unknown else not stop
        return None

    def doomed(self, phi, want, state):
        """phi can no longer become `want`"""
        k = phi[0]
        if k == "atom":
            return self.comps[phi[1]].doomed(state[phi[1]], want)
        if k == "const":
            return phi[1] is not want
        if k == "not":
            return self.doomed(phi[1], not want, state)
        if k in ("and", "or"):
            hard = (k == "and") == want  # all parts must be `want`
            it = (self.doomed(q, want, state) for q in phi[1:])
            return any(it) if hard else all(it)
        return False

    def representatives(self):
        keys = sorted(set(self.keys), key=repr)
        sets = [A.chars(k) for k in keys]
        reps = {}
        for l in range(A.n):
            reps.setdefault(tuple(l in s for s in sets), l)
        return list(reps.values())

    def witness(self, wants, limit=200000, seconds=60, native=True):
        """a text on which every (formula, value) of wants can be so; None if there is none; raises TooBig"""
        for k in self.keys:
            A.chars(k)  # (all sets exist before letters are numbered)
        self.prepare()
        reps = self.representatives()
        if native and self.comps:
            from . import native as nat

            if nat.lib() is not None:
                try:
                    w = nat.search(self, wants, reps, END, limit, seconds)
                except OverflowError as e:
                    raise TooBig(str(e))
                return None if w is None else "".join(A.representative(x) for x in w)
        start = self.init()
        seen = {start: None}
        todo = [start]
        while todo:
            nxt = []
            for st in todo:
                for s2, _ in self.step(st, (END,)):
                    if all(self.eval(p, s2) in (w, None) for p, w in wants):
                        return self.trace(seen, st)
                for x in reps:
                    for s2, _ in self.step(st, (x,)):
                        if s2 in seen:
                            continue
                        seen[s2] = (st, x)
                        if any(self.doomed(p, w, s2) for p, w in wants):
                            continue
                        nxt.append(s2)
                if len(seen) > limit:
                    raise TooBig(f"more than {limit} states")
            todo = nxt
        self.explored = len(seen)
        return None

    def can(self, text, wants):
        """can the formulas have these values on this text"""
        for k in self.keys:
            A.chars(k)
        self.prepare()
        states = {self.init()}
        for c in text:
            x = A.of_char(c)
            states = {s2 for st in states for s2, _ in self.step(st, (x,))}
        return any(all(self.eval(p, s2) in (w, None) for p, w in wants) for st in states for s2, _ in self.step(st, (END,)))

    def trace(self, seen, st):
        out = []
        while seen[st] is not None:
            st, x = seen[st]
            out.append(A.representative(x))
        return "".join(reversed(out))


class TooBig(Exception):
    pass


class AllOf(Comp):
    """every letter is in a set, and there is one (str.isdigit and the like)"""

    letters = True

    def __init__(self, key):
        self.key, self.keys = key, (key,)

    def prepare(self):
        self.set = A.chars(self.key)

    def step(self, s, x):
        if x == END or s == 2:
            return ((s, ()),)
        return ((1 if x in self.set else 2, ()),)

    def value(self, s):
        return s == 1

    def doomed(self, s, want):
        return s == 2 and want is True
