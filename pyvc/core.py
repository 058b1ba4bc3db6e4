"""Core of the verifier: terms, facts, values, path exploration.

Everything symbolic lives in EUF + linear integer arithmetic:

  sort Str    uninterpreted; literals are pairwise distinct constants
  datatype V  dynamic scalars: none | bool | int | str | obj(id)

Sequences of unknown length are indexed families (Family); a list, set or dict
is a sequence of segments Item | Each | Base, where Each ranges over a family.
Facts about families are *schemas* (universally quantified over indices) that
are instantiated at every index term the proof mentions.
"""
import itertools
import time
import z3


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is not discharged."""


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ sorts
StrS = z3.DeclareSort("Str")
_V = z3.Datatype("V")
_V.declare("vnone")
_V.declare("vbool", ("b", z3.BoolSort()))
_V.declare("vint", ("i", z3.IntSort()))
_V.declare("vstr", ("s", StrS))
_V.declare("vobj", ("o", z3.IntSort()))
V = _V.create()
IntS, BoolS = z3.IntSort(), z3.BoolSort()

EMPTY = frozenset()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def simp(t):
    return z3.simplify(t)


# ------------------------------------------------------------------ values
class Val:
    __slots__ = ()


class Sym(Val):
    """Scalar of statically known kind: 'int' | 'bool' | 'str' (term of matching sort)."""

    __slots__ = ("k", "t", "meta")

    def __init__(self, k, t, meta=None):
        self.k, self.t, self.meta = k, t, meta

    def __repr__(self):
        return f"<{self.k} {self.t}>"


class Dyn(Val):
    """Scalar of dynamic kind: term of sort V, tags = kinds it can have."""

    __slots__ = ("t", "tags", "dct")

    def __init__(self, t, tags=("none", "bool", "int", "str", "obj"), dct=False):
        self.t, self.tags = t, frozenset(tags)
        self.dct = dct  # objects are dicts with string keys, determined by the term

    def __repr__(self):
        return f"<dyn {self.t}>"


class StrCat(Val):
    """A concatenation of str literals and symbolic parts (normalised)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"<cat {self.parts}>"


class Opaque(Val):
    """A host object the engine only passes around (clock values, handles...)."""

    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<opaque {self.name}>"


class Obj(Val):
    """Mutable object base; birth orders objects relative to loop entries."""

    def __init__(self):
        self.birth = next(C.births)
        self.frozen = False


class Item:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Item({self.v!r})"


class Each:
    """for var in 0..hi of dom: first case whose guard holds contributes its segs."""

    __slots__ = ("dom", "var", "cases")

    def __init__(self, dom, var, cases):
        self.dom, self.var, self.cases = dom, var, cases

    def __repr__(self):
        return f"Each({self.dom}, {self.var}, {[(g, s) for g, s in self.cases]})"


class Base:
    """Unknown initial content of a set/dict: token with has(k) / get(k)."""

    __slots__ = ("tok",)

    def __init__(self, tok):
        self.tok = tok

    def __repr__(self):
        return f"Base({self.tok.name})"


class SetSeg:
    """list(set): all elements of the set, once each, in unspecified order."""

    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = segs

    def __repr__(self):
        return f"SetSeg({self.segs})"


class Prefix:
    """Unknown content accumulated by the iterations before the current one."""

    __slots__ = ("tok", "read")

    def __init__(self, tok):
        self.tok = tok
        self.read = False

    def __repr__(self):
        return f"Prefix({self.tok})"


class ListV(Obj):
    def __init__(self, segs=(), tup=False):
        super().__init__()
        self.segs = list(segs)

    def __repr__(self):
        return f"List{self.segs}"


class SetV(Obj):
    def __init__(self, segs=()):
        super().__init__()
        self.segs = list(segs)

    def __repr__(self):
        return f"Set{self.segs}"


class DictV(Obj):
    """Ordered stores, last wins: Item((k, v)) | Each(... Item((k, v))) | Base."""

    def __init__(self, segs=()):
        super().__init__()
        self.segs = list(segs)

    def __repr__(self):
        return f"Dict{self.segs}"


class ObjV(Obj):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.fields = dict(fields or {})

    def __repr__(self):
        return f"{getattr(self.cls, '__name__', self.cls)}{self.fields}"


class Cell(Obj):
    """A mutable cell (ghost state)."""

    def __init__(self, v):
        super().__init__()
        self.v = v


# ------------------------------------------------------------------ families
class Family:
    def __init__(self, name, arity, length, elem=None):
        self.name, self.arity = name, arity
        self._len, self.elem = length, elem  # length(outer) -> term ; elem(outer, idx) -> value
        self.by_owner = {}  # owner -> [(binder consts tuple, formula)]
        self.pairs = []  # (binders1, binders2, formula)
        self.indices = []  # tuples of terms, len == arity
        self.keys = set()
        self.seen = {}  # schemas that are there already
        self.tupsyms, self.pairinst = {}, set()
        self.count = {}  # (owner, tuple) -> number of schemas instantiated

    def length(self, outer):
        return self._len(tuple(outer))

    def __repr__(self):
        return self.name


class Dom:
    """Indices 0..hi of a family below given outer indices."""

    __slots__ = ("fam", "outer", "hi")

    def __init__(self, fam, outer=(), hi=None):
        self.fam, self.outer = fam, tuple(outer)
        self.hi = hi if hi is not None else fam.length(self.outer)

    def full(self):
        return self.hi.eq(self.fam.length(self.outer))

    def inr(self, v):
        return z3.And(v >= 0, v < self.hi)

    def __repr__(self):
        return f"{self.fam.name}{list(self.outer)}<{self.hi}"


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.births = itertools.count(1)
        self.lengths = {}  # terms -> domains of that length
        self.tag, self.tags, self.name_pos = 0, {}, {}
        self.defined = set()
        self.keep = []
        self.owner = None  # the exists-atom that is being defined
        self.groups, self.by_owner, self.symmemo, self.interned, self.exnames, self.fams = {}, {}, {}, {}, set(), {}
        self.solvers = {}
        self.version, self.slices, self.full_time = 0, {}, 0
        self.ndefs = 0
        self.pc = []
        self.trail = []
        self.lits = {}
        self.idx_consts = {}  # const name -> (family, outer)
        self.idx_stack = []
        self.atoms = {}
        self.sums = []
        self.ufs = {}
        self.frames = []  # exploration frames
        self.stats = dict(checks=0, time=0.0, unknown=0, paths=0, insts=0, loops=0)
        self.families = {}
        self.notes = []
        self.runid = 0
        self.used = set()
        self.want_model, self.model = False, None
        self.deadline = None
        self.words, self.exdef = None, {}

    # ---- terms
    def uf(self, name, *sorts):
        key = (name,) + tuple(s.name() for s in sorts)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function(name, *sorts)
        return f

    def fname(self, base):
        """A name that is the same whenever the same path is executed again, and differs
        between paths: decisions taken so far + position since the last one."""
        d = self.name_pos.setdefault(self.tag, {})
        k = d.get(base, 0)
        d[base] = k + 1
        return f"{base}!{self.tag}.{k}" if self.tag else f"{base}!{k}"

    def set_tag(self, t):
        self.tag = t
        self.name_pos[t] = {}

    def tag_of(self, parent, bit):
        k = (parent, bit)
        if k not in self.tags:
            self.tags[k] = len(self.tags) + 1
        return self.tags[k]

    def fact(self, f):
        """f holds for every value of the index constants in it."""
        self.schema_over(self.idx_args(f), f)

    def lit(self, s):
        t = self.lits.get(s)
        if t is None:
            t = z3.Const(f"lit:{s!r}", StrS)
            self.lits[s] = t
            self.define(self.uf("lit_id", StrS, IntS)(t) == len(self.lits))
            if not any(c.isdigit() for c in s):
                self.define(z3.Not(self.uf("is_num", StrS, BoolS)(t)))
        return t

    def idx_args(self, *terms):
        """Index constants (pattern variables) that occur in the terms, outer first."""
        seen = {}
        visited = set()

        def go(t):
            i = t.get_id()
            if i in visited:
                return
            visited.add(i)
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                if n in self.idx_consts:
                    seen[n] = t
            for c in t.children():
                go(c)

        for t in terms:
            go(t)
        # close under the outer indices of the families
        changed = True
        while changed:
            changed = False
            for n in list(seen):
                fam, outer = self.idx_consts[n]
                for o in outer:
                    before = len(seen)
                    visited.clear()
                    go(o)
                    changed |= len(seen) != before
        order = list(self.idx_consts)
        return [seen[n] for n in sorted(seen, key=order.index)]

    def fresh(self, name, sort, extra=()):
        """Fresh symbol, a function of the indices it is created under."""
        args = [t for (_, t) in self.idx_stack] + list(extra)
        n = self.fname(name)
        if not args:
            return z3.Const(n, sort)
        return z3.Function(n, *[a.sort() for a in args], sort)(*args)

    # ---- facts
    def define(self, f):
        if f.get_id() in self.defined:
            return
        self.defined.add(f.get_id())
        self.keep.append(f)
        self.ndefs += 1
        self.version += 1
        idx, atoms = self.symbols(f)
        g = self.groups.get((self.owner, idx))
        if g is None:
            g = self.groups[(self.owner, idx)] = [[], set()]
            self.by_owner.setdefault(self.owner, []).append((idx, g))
        g[0].append(f)
        g[1] |= atoms

    def is_idx(self, n):
        return n in self.idx_consts or n.endswith(".sk") or n.endswith("*")

    def symbols(self, t):
        """(names of index symbols, names of exists-atoms) in the term"""
        memo = self.symmemo
        hit = memo.get(t.get_id())
        if hit is not None:
            return hit[1]
        todo = [t]
        while todo:
            x = todo[-1]
            if x.get_id() in memo:
                todo.pop()
                continue
            ch = x.children()
            missing = [c for c in ch if c.get_id() not in memo]
            if missing:
                todo.extend(missing)
                continue
            todo.pop()
            idx = atoms = EMPTY
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if n in self.exnames:
                    atoms = frozenset([n])
                elif self.is_idx(n):
                    idx = frozenset([n])
            for c in ch:
                i, a = memo[c.get_id()][1]
                if i and not i <= idx:
                    idx = idx | i if idx else i
                if a and not a <= atoms:
                    atoms = atoms | a if atoms else a
            idx, atoms = self.interned.setdefault(idx, idx), self.interned.setdefault(atoms, atoms)
            memo[x.get_id()] = (x, (idx, atoms))
        return memo[t.get_id()][1]

    def slice(self, terms):
        """The definitions that bear on the terms: those that only speak of indices in the terms (or of
        witnesses of exists-atoms that occur), and define atoms that occur.  Quantified facts are
        instantiated here, for the indices that bear on the terms."""
        R, A = EMPTY, EMPTY
        for t in terms:
            i, a = self.symbols(t)
            R |= i
            A |= a
        key = (R, A)
        hit = self.slices.get(key)
        if hit is not None and hit[0] == self.version:
            return hit[1]
        R, A = set(R), set(A)
        R |= {a + ".sk" for a in A}
        done, picked = set(), []
        while True:
            grown = False
            for o in [None] + list(A):
                for idx, g in self.by_owner.get(o, ()):
                    if id(g) in done:
                        if g[1] <= A:
                            continue
                    elif idx <= R:
                        done.add(id(g))
                        picked.append(g)
                    else:
                        continue
                    if not g[1] <= A:
                        A |= g[1]
                        R |= {a + ".sk" for a in g[1]}
                        grown = True
            if not grown and not self.instantiate(R, A):
                break
        self.slices[key] = (self.version, picked)
        return picked

    def relevant(self, fam, R):
        rel = []
        for t in fam.indices:
            s = fam.tupsyms.get(id(t))
            if s is None:
                u = EMPTY
                for x in t:
                    u |= self.symbols(x)[0]
                s = fam.tupsyms[id(t)] = self.interned.setdefault(u, u)
            if R is None or s <= R:
                rel.append(t)
        return rel

    def instantiate(self, R, A, limit=None):
        """instances of the quantified facts for all indices within R, and atoms within A
        (None: all of them); True if there were new ones"""
        v0 = self.version
        for fam in list(self.fams.values()):
            rel = self.relevant(fam, R)
            if not rel:
                continue
            owners = list(fam.by_owner) if A is None else [o for o in fam.by_owner if o is None or o in A]
            for o in owners:
                todo = fam.by_owner[o]
                for t in rel:
                    k = fam.count.get((o, id(t)), 0)
                    if k >= len(todo):
                        continue
                    save, self.owner = self.owner, o
                    try:
                        while k < len(todo):
                            bs, f = todo[k]
                            k += 1
                            fam.count[(o, id(t))] = k
                            self._inst(bs, t, f)
                    finally:
                        self.owner = save
            for b1, b2, f, more in list(fam.pairs):
                for s in rel:
                    for t in rel:
                        k = (f.get_id(), id(s), id(t))
                        if k in fam.pairinst:
                            continue
                        fam.pairinst.add(k)
                        if more:
                            self.fact(z3.substitute(f, *zip(b1 + b2, s + t)))
                        else:
                            self._inst(b1 + b2, s + t, f)
            if limit is not None and self.stats["insts"] > limit:
                return False
        return self.version != v0

    def new_index(self, dom, hint="i"):
        c = z3.Int(self.fname(hint))
        self.idx_consts[c.decl().name()] = (dom.fam, dom.outer)
        return c

    def register(self, fam, tup):
        tup = tuple(tup)
        key = tuple(t.get_id() for t in tup)
        if key in fam.keys:
            return
        fam.keys.add(key)
        fam.indices.append(tup)
        self.fams[id(fam)] = fam
        self.version += 1

    def pair_schema(self, fam, b1, b2, f, open=False):
        """open: f speaks of further indices, for all values of which it holds"""
        k = ("pair", tuple(x.get_id() for x in tuple(b1) + tuple(b2)), f.get_id())
        if k in fam.seen:
            return
        # (instantiated when a query needs it, see slice())
        fam.seen[k] = (b1, b2, f)
        fam.pairs.append((tuple(b1), tuple(b2), f, open))
        self.version += 1

    def _inst(self, bs, tup, f):
        self.stats["insts"] += 1
        if self.stats["insts"] > 200000:
            raise Unsupported("too many instances")
        if callable(f):
            f(tup)
        else:
            self.define(z3.substitute(f, *list(zip(bs, tup))) if bs else f)

    def schema(self, fam, bs, f):
        bs = tuple(bs)
        k = (tuple(x.get_id() for x in bs), f.get_id())
        if k in fam.seen:
            return
        fam.seen[k] = (bs, f)
        self.add_schema(fam, bs, f)

    def add_schema(self, fam, bs, f):
        """(instantiated when a query needs it, see slice())"""
        fam.by_owner.setdefault(self.owner, []).append((bs, f))
        self.version += 1

    def schema_over(self, args, f):
        """f universally quantified over index constants args (closed under outer ones)."""
        if not args:
            self.define(f)
            return
        # chain: the last constant's family tuple must cover all the others
        covered, rest = None, list(args)
        for a in reversed(rest):
            fam, outer = self.idx_consts[a.decl().name()]
            tup = list(outer) + [a]
            if all(any(x.eq(y) for y in tup) for x in rest):
                covered = (fam, tup)
                break
        if covered:
            fam, tup = covered
            consts = [t for t in tup]
            if all(z3.is_const(t) and t.decl().name() in self.idx_consts for t in consts):
                self.schema(fam, consts, f)
                return
            # an outer index is itself a term: pattern variables only for the constants
            ks = [k for k, t in enumerate(tup) if z3.is_const(t) and t.decl().name() in self.idx_consts]
            fixed = [(k, t) for k, t in enumerate(tup) if k not in ks]
            bs = [tup[k] for k in ks]

            k = ("part", tuple(t.get_id() for t in tup), f.get_id())
            if k in fam.seen:
                return
            fam.seen[k] = (tup, f)

            def go(inst, f=f, ks=ks, bs=bs, fixed=fixed):
                g = z3.substitute(f, *[(b, inst[k]) for b, k in zip(bs, ks)])
                cond = [t == inst[k] for k, t in fixed]
                self.define(z3.Implies(z3.And(cond), g) if cond else g)

            self.add_schema(fam, (), go)
            return
        # independent binders: nest
        a = rest[-1]
        fam, outer = self.idx_consts[a.decl().name()]
        tup = list(outer) + [a]
        inner = [x for x in rest if any(x.eq(t) for t in tup)]
        others = [x for x in rest if not any(x.eq(t) for t in tup)]

        k = ("nest", tuple(t.get_id() for t in tup), f.get_id())
        if k in fam.seen:
            return
        fam.seen[k] = (tup, f)

        def cb(inst, f=f, tup=tup, others=others):
            g = z3.substitute(f, *list(zip(tup, inst)))
            self.schema_over(others, g)

        self.add_schema(fam, (), cb)

    def exists(self, dom, var, phi, want=None):
        """Bool term equivalent to: exists var in dom. phi(var).  want: None|'first'|'last'."""
        body = simp(z3.And(dom.inr(var), phi))
        if z3.is_false(body):
            return FALSE, None
        canon = z3.substitute(body, (var, z3.Int("!bound")))
        key = (dom.fam.name, canon.get_id(), want)
        hit = self.atoms.get(key)
        if hit is not None and hit[2].eq(canon):
            return hit[0], hit[1]
        args = [a for a in self.idx_args(body, *dom.outer) if not a.eq(var)]
        n = self.fname("ex")
        self.exnames.add(n)
        save_owner, self.owner = self.owner, n
        try:
            return self._exists(dom, var, body, canon, key, args, n, want)
        finally:
            self.owner = save_owner

    def _exists(self, dom, var, body, canon, key, args, n, want):
        if args:
            sorts = [a.sort() for a in args]
            e = z3.Function(n, *sorts, BoolS)(*args)
            sk = z3.Function(n + ".sk", *sorts, IntS)(*args)
        else:
            e, sk = z3.Bool(n), z3.Int(n + ".sk")
        self.atoms[key] = (e, sk, canon)
        self.exdef[n] = (dom, var, body, args)
        # e -> body(sk)
        pos = z3.Implies(e, z3.substitute(body, (var, sk)))
        fam, outer = dom.fam, dom.outer

        self.schema_over(args, pos)
        # body(v) -> e, for every index tuple of the family whose outer part agrees
        neg = z3.Implies(body, e)
        if want == "first":
            neg = z3.And(neg, z3.Implies(body, sk <= var))
        if want == "last":
            neg = z3.And(neg, z3.Implies(body, sk >= var))

        def inst(tup, neg=neg, outer=outer, var=var, args=args):
            subs, conds = [], []
            for o, t in zip(outer, tup[:-1]):
                if any(o.eq(a) for a in args):
                    subs.append((o, t))
                elif not o.eq(t):
                    conds.append(o == t)
            subs.append((var, tup[-1]))
            g = z3.substitute(neg, *subs)
            if conds:
                conds = [z3.substitute(c, *subs) for c in conds]
                g = z3.Implies(z3.And(conds), g)
            rest = [a for a in args if not any(a.eq(s[0]) for s in subs)]
            self.schema_over(rest, g)

        self.add_schema(fam, (), inst)
        # the skolem is an index of the family, for every instance of args
        self._register_for(args, fam, list(outer) + [sk])
        return e, sk

    def _register_for(self, args, fam, tup):
        """register fam index tup for every instantiation of args."""
        if not args:
            self.register(fam, tup)
            return
        a = args[-1]
        afam, aouter = self.idx_consts[a.decl().name()]
        atup = list(aouter) + [a]

        def cb(inst):
            subs = [(x, y) for x, y in zip(atup, inst) if z3.is_const(x)]
            # a skolem of a skolem would go on for ever: only one level
            if any(".sk" in str(y) and str(y).count(".sk") > 2 for y in inst):
                return
            t2 = [z3.substitute(t, *subs) for t in tup]
            rest = [x for x in args if not any(x.eq(s[0]) for s in subs)]
            self._register_for(rest, fam, t2)

        self.add_schema(afam, (), cb)

    # ---- solver
    def check(self, *extra, full=False, timeout=3000):
        self.stats["checks"] += 1
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported("time limit of the block")
        terms = list(self.pc) + list(extra)
        if full:
            limit = self.stats["insts"] + 5000
            while self.instantiate(None, None, limit) and self.stats["insts"] < limit:
                pass
            picked = [g for gs in self.by_owner.values() for _, g in gs]
        else:
            picked = self.slice(terms)
        key = frozenset(id(g) for g in picked)
        hit = self.solvers.pop(key, None)
        if hit is None:
            s = z3.Solver()
            hit = [s, {}]
            if len(self.solvers) > 40:
                self.solvers.pop(next(iter(self.solvers)))
        self.solvers[key] = hit
        s, have = hit
        for g in picked:
            k = have.get(id(g), 0)
            if k < len(g[0]):
                s.add(*g[0][k:])
                have[id(g)] = len(g[0])
        s.set("timeout", timeout)
        s.push()
        s.add(*terms)
        r = s.check()
        rounds = 0
        while r == z3.sat and self.words is not None and rounds < 60:
            # what z3 takes for possible may not be so for texts
            lemma = self.words(s.model(), terms + [f for g in picked for f in g[0]])
            if lemma is None:
                break
            rounds += 1
            s.add(lemma)
            self.fact(lemma)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit of the block")
            r = s.check()
        if r == z3.sat and self.want_model:
            self.model = s.model()
        s.pop()
        self.stats["time"] += time.time() - t0
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def feasible(self, *extra):
        """False only if the path (with extra) is impossible"""
        return self.check(*extra) != z3.unsat

    def valid(self, f):
        f = simp(f)
        if z3.is_true(f):
            return True
        if self.check(z3.Not(f), timeout=10000) == z3.unsat:
            return True
        # again with everything that is known, as long as that is affordable
        if self.full_time > 15:
            return False
        t0 = time.time()
        try:
            return self.check(z3.Not(f), full=True, timeout=10000) == z3.unsat
        finally:
            self.full_time += time.time() - t0

    # ---- trail
    def save(self, undo):
        self.trail.append(undo)

    def rollback(self, mark):
        while len(self.trail) > mark:
            self.trail.pop()()

    # ---- decisions
    def assume(self, f):
        f = simp(f)
        if z3.is_true(f):
            return
        if z3.is_false(f) or not self.feasible(f):
            raise Infeasible()
        self.pc.append(f)

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if not self.frames:
            raise Unsupported("decision outside of exploration")
        fr = self.frames[-1]
        neg = z3.is_not(cond)
        base = cond.arg(0) if neg else cond
        if fr.pos < len(fr.prefix):
            b, both = fr.prefix[fr.pos]
        else:
            t = self.feasible(base)
            f = self.feasible(z3.Not(base)) if t else True
            if not t and not self.feasible():
                raise Infeasible()
            b, both = t, (True if t and f else None)
            fr.prefix.append((b, both))
        fr.pos += 1
        if both is not None:
            self.pc.append(base if b else z3.Not(base))
            self.set_tag(self.tag_of(self.tag, b))
        return b != neg

    def explore(self, fn, limit=4000):
        """Run fn on every feasible path; returns [(conds, result)]; state is rolled back
        after each path, so results must be frozen by fn."""
        out = []
        base_pc = list(self.pc)
        mark = len(self.trail)
        stack = list(self.idx_stack)
        fr = Frame()
        n = 0
        tag0 = self.tag
        d = self.name_pos.setdefault(tag0, {})
        start = self.tag_of(tag0, ("x", d.get("#x", 0)))
        d["#x"] = d.get("#x", 0) + 1
        while True:
            n += 1
            self.stats["paths"] += 1
            if n > limit:
                raise Unsupported("too many paths")
            fr.pos = 0
            self.set_tag(start)
            self.frames.append(fr)
            try:
                try:
                    r = fn()
                    out.append((self.pc[len(base_pc):], r))
                except Infeasible:
                    pass
            finally:
                self.frames.pop()
                self.rollback(mark)
                self.pc = list(base_pc)
                self.idx_stack = list(stack)
                self.tag = tag0
            p = fr.prefix
            while p and not (p[-1][1] is True):
                p.pop()
            if not p:
                return out
            p[-1] = (False, False)


class Frame:
    __slots__ = ("prefix", "pos")

    def __init__(self):
        self.prefix, self.pos = [], 0


C = Ctx()


def dict_family():
    """entries of the dicts that are only known by a term"""
    f = C.families.get("dicts")
    if f is None:
        f = C.families["dicts"] = Family("dicts", 2, lambda outer: C.uf("dict_len", IntS, IntS)(outer[0]))
        a, b, t, t2 = z3.Int("!da"), z3.Int("!db"), z3.Int("!dt"), z3.Int("!dt2")
        k = C.uf("dict_key", IntS, IntS, StrS)
        C.pair_schema(f, (t, a), (t2, b), z3.Implies(z3.And(t == t2, a != b), k(t, a) != k(t2, b)))
    return f


def setslot(o, name, v):
    """Trailed attribute write on an engine object."""
    if getattr(o, "frozen", False):
        raise Unsupported(f"write to a shared or summarised {type(o).__name__}")
    old = getattr(o, name)
    C.save(lambda: setattr(o, name, old))
    TOUCH.append((o, name, old))
    setattr(o, name, v)


def setkey(d_owner, dct, k, v):
    """Trailed write dct[k] = v (dct: python dict owned by engine object)."""
    if getattr(d_owner, "frozen", False):
        raise Unsupported("write to a shared or summarised object")
    had = k in dct
    old = dct.get(k)

    def undo():
        if had:
            dct[k] = old
        else:
            dct.pop(k, None)

    C.save(undo)
    TOUCH.append((d_owner, ("key", k), old))
    dct[k] = v


TOUCH = []  # log of touched locations (owner, slot, old)
