"""Symbolic execution of the real functions' syntax trees, with loops summarised.

The subset is stated in DESIGN.md; anything else raises Unsupported, which makes
the obligation undischarged (never silently skipped).
"""
import ast
import builtins
import enum
import inspect
import types

import z3

from .core import (C, BoolS, Cell, Dom, DictV, Dyn, Each, FALSE, Infeasible, IntS, Item, ListV, Obj, ObjV, Opaque,
                   Prefix, SetSeg, SetV, StrCat, StrS, Sym, TOUCH, TRUE, Unsupported, V, Val, dict_family, setkey, setslot, simp)


DEBUG = False


class PyExc(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, cls, args=(), why=""):
        super().__init__(getattr(cls, "__name__", str(cls)), why)
        self.cls, self.pyargs = cls, args


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Restart(Exception):
    pass


class Poison(Val):
    """A variable whose value comes from an earlier iteration: must not be read."""

    def __init__(self, name):
        self.name = name


class BoundM(Val):
    """Bound method / model function: call(args, kwargs)."""

    def __init__(self, name, call):
        self.name, self.call = name, call


class FuncV(Val):
    """Function or lambda defined by interpreted code."""

    def __init__(self, node, env, name, glob, defaults=()):
        self.node, self.env, self.name, self.glob, self.defaults = node, env, name, glob, defaults


class Env(Obj):
    def __init__(self, glob, parent=None, cells=None):
        super().__init__()
        self.vars, self.glob, self.parent, self.cells = {}, glob, parent, cells or {}
        self.nonlocals = set()

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


ANYTEXT = Opaque("text")
HOSTCONST = (int, float, str, bool, bytes, type(None), enum.Enum)


def is_const(v):
    return v is None or isinstance(v, HOSTCONST)


# ------------------------------------------------------------------ terms of values
def strterm(v):
    if isinstance(v, str):
        return C.lit(v)
    if isinstance(v, Sym) and v.k == "str":
        return v.t
    if isinstance(v, StrCat):
        parts = [strterm(p) for p in v.parts]
        t = parts[-1]
        cat = C.uf("cat", StrS, StrS, StrS)
        for p in reversed(parts[:-1]):
            t = cat(p, t)
        return t
    if isinstance(v, Opaque) and v.name == "text":
        return C.fresh("text", StrS)
    return None


def intterm(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    if isinstance(v, Sym) and v.k == "int":
        return v.t
    if isinstance(v, Sym) and v.k == "bool":
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return None


def to_V(v):
    if v is None:
        return V.vnone
    if isinstance(v, bool):
        return V.vbool(z3.BoolVal(v))
    if isinstance(v, int):
        return V.vint(z3.IntVal(int(v)))
    if isinstance(v, Dyn):
        return v.t
    if isinstance(v, Sym):
        return {"int": V.vint, "bool": V.vbool, "str": V.vstr}[v.k](v.t)
    s = strterm(v)
    if s is not None:
        return V.vstr(s)
    if isinstance(v, Opaque) and getattr(v, "term", None) is not None:
        return V.vobj(v.term)
    return None


def tag_test(t, tag):
    return {"none": V.is_vnone, "bool": V.is_vbool, "int": V.is_vint, "str": V.is_vstr, "obj": V.is_vobj}[tag](t)


def resolve(v):
    """Decide the kind of a Dyn."""
    if not isinstance(v, Dyn):
        return v
    tags = sorted(v.tags)
    for k, tag in enumerate(tags):
        if k == len(tags) - 1:
            break
        if C.decide(tag_test(v.t, tag)):
            break
    if tag == "none":
        return None
    if tag == "int":
        return Sym("int", simp(V.i(v.t)))
    if tag == "bool":
        return Sym("bool", simp(V.b(v.t)))
    if tag == "str":
        return Sym("str", simp(V.s(v.t)))
    if v.dct:
        return term_dict(simp(V.o(v.t)))
    return Opaque("obj", term=simp(V.o(v.t)))


def term_dict(o):
    fam = dict_family()
    dom = Dom(fam, (o,))
    C.fact(dom.hi >= 0)
    i = z3.Int(C.fname("e"))
    C.idx_consts[i.decl().name()] = (fam, (o,))
    d = DictV([Each(dom, i, [([], [Item((Sym("str", C.uf("dict_key", IntS, IntS, StrS)(o, i)), Dyn(C.uf("dict_val", IntS, IntS, V)(o, i))))])])])
    d.distinct = True
    d.term = o
    return d


def mk(kind, t):
    t = simp(t)
    if kind == "int" and z3.is_int_value(t):
        return t.as_long()
    if kind == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    return Sym(kind, t)


def f_of(v):
    """formula of a bool-ish engine value"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, Sym) and v.k == "bool":
        return v.t
    if z3.is_expr(v):
        return v
    raise Unsupported(f"formula of {v!r}")


# ------------------------------------------------------------------ conversion of host values
def lift(v):
    """Host constants from module globals become engine values."""
    if isinstance(v, list):
        o = ListV([Item(lift(x)) for x in v])
        o.frozen = True
        return o
    if isinstance(v, (set, frozenset)):
        o = SetV([Item(lift(x)) for x in sorted(v, key=repr)])
        o.frozen = True
        return o
    if isinstance(v, dict):
        o = DictV([Item((lift(k), lift(x))) for k, x in v.items()])
        o.frozen = True
        return o
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    return v


# ------------------------------------------------------------------ equality, truth
def eq(a, b):
    """formula: a == b"""
    if a is b:
        return TRUE
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("value of an earlier iteration")
    if is_const(a) and is_const(b):
        if isinstance(a, float) or isinstance(b, float):
            return z3.BoolVal(a == b)
        return z3.BoolVal(a == b)
    if isinstance(a, StrCat) and isinstance(b, StrCat):
        if len(a.parts) == len(b.parts) and all(same(x, y) for x, y in zip(a.parts, b.parts)):
            return TRUE
    for x, y in ((a, b), (b, a)):
        if hasattr(x, "gstr_eq"):
            return x.gstr_eq(y)
    if isinstance(a, (Sym, Dyn, str, int, type(None), StrCat)) and isinstance(b, (Sym, Dyn, str, int, type(None), StrCat)):
        ia, ib = intterm(a), intterm(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(x.meta, tuple) and x.meta[:1] == ("nonempty",) and y == 0 and isinstance(y, int):
                return simp(z3.Not(x.meta[1]))
        if ia is not None and ib is not None:
            return simp(ia == ib)
        sa, sb = strterm(a), strterm(b)
        if sa is not None and sb is not None:
            return simp(sa == sb)
        if isinstance(a, Dyn) or isinstance(b, Dyn):
            return simp(to_V(a) == to_V(b))
        return FALSE
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        return z3.And([eq(x, y) for x, y in zip(a, b)]) if a else TRUE
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        ta, tb = getattr(a, "term", None), getattr(b, "term", None)
        if ta is not None and tb is not None:
            return simp(ta == tb)
        if ta is None and tb is None and a.name == "path" == b.name:
            return z3.BoolVal(a is b)
        raise Unsupported(f"equality of {a} and {b}")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and getattr(x, "term", None) is not None and isinstance(y, Dyn):
            return simp(y.t == V.vobj(x.term))
    if isinstance(a, (ListV, SetV, DictV, ObjV)) or isinstance(b, (ListV, SetV, DictV, ObjV)):
        if type(a) is not type(b):
            if a is None or b is None or is_const(a) or is_const(b):
                return FALSE
            raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        if isinstance(a, ObjV):
            if a.cls is not b.cls:
                return FALSE
            return z3.And([eq(a.fields[k], b.fields[k]) for k in a.fields] or [TRUE])
        if isinstance(a, ListV) and all(isinstance(s, Item) for s in a.segs + b.segs):
            if len(a.segs) != len(b.segs):
                return FALSE
            return z3.And([eq(x.v, y.v) for x, y in zip(a.segs, b.segs)] or [TRUE])
        if isinstance(a, (DictV, SetV)) and (not a.segs or not b.segs):
            return simp(z3.Not(truth(b if not a.segs else a)))
        if same(a, b):
            return TRUE
        raise Unsupported("equality of containers")
    if is_const(a) or is_const(b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o = a if isinstance(a, Opaque) else b
            c = b if o is a else a
            if c is None:
                return FALSE
            raise Unsupported(f"equality of {a!r} and {b!r}")
        return FALSE
    if not isinstance(a, Val) and not isinstance(b, Val):
        return z3.BoolVal(a == b)
    if isinstance(a, Val) != isinstance(b, Val):
        return FALSE
    raise Unsupported(f"equality of {a!r} and {b!r}")


def seg_nonempty(segs):
    fs = []
    for s in segs:
        if isinstance(s, Item):
            return TRUE
        if isinstance(s, SetSeg):
            fs.append(seg_nonempty(s.segs))
        elif isinstance(s, Each):
            fs.append(seg_any(s, lambda x: TRUE))
        elif isinstance(s, Prefix):
            raise Unsupported("emptiness of an accumulator read inside its loop")
        else:
            raise Unsupported(f"emptiness of {s!r}")
    return simp(z3.Or(fs)) if fs else FALSE


def case_formula(cases, leaf):
    """guarded disjunction over the cases: leaf(segs) is a formula"""
    return simp(z3.Or([z3.And(*(list(g) + [leaf(segs)])) for g, segs in cases])) if cases else FALSE


def segs_any(segs, pred):
    fs = []
    for s in segs:
        if isinstance(s, Item):
            fs.append(pred(s.v))
        elif isinstance(s, SetSeg):
            fs.append(segs_any(s.segs, pred))
        elif isinstance(s, Each):
            fs.append(seg_any(s, pred))
        elif isinstance(s, Prefix):
            fs.append(s.member(pred))
        else:
            raise Unsupported(f"membership in {s!r}")
    return simp(z3.Or(fs)) if fs else FALSE


def seg_any(s, pred):
    if s.dom is None:
        return case_formula(s.cases, lambda segs: segs_any(segs, pred))
    v = C.new_index(s.dom)
    C.idx_stack.append((s.dom, v))
    try:
        cases = subst_cases(s.cases, [(s.var, v)])
        phi = case_formula(cases, lambda segs: segs_any(segs, pred))
    finally:
        C.idx_stack.pop()
    e, _ = C.exists(s.dom, v, phi)
    return e


def truth(v):
    """formula: bool(v)"""
    if isinstance(v, Poison):
        raise Unsupported(f"{v.name} from an earlier iteration")
    if is_const(v):
        return z3.BoolVal(bool(v))
    if isinstance(v, Sym):
        if v.k == "bool":
            return v.t
        if v.k == "int":
            return v.meta[1] if isinstance(v.meta, tuple) and v.meta[:1] == ("nonempty",) else simp(v.t != 0)
        return simp(v.t != C.lit(""))
    if isinstance(v, Dyn):
        fs = []
        for tag in v.tags:
            if tag == "bool":
                fs.append(z3.And(V.is_vbool(v.t), V.b(v.t)))
            elif tag == "int":
                fs.append(z3.And(V.is_vint(v.t), V.i(v.t) != 0))
            elif tag == "str":
                fs.append(z3.And(V.is_vstr(v.t), V.s(v.t) != C.lit("")))
            elif tag == "obj" and v.dct:
                fs.append(z3.And(V.is_vobj(v.t), C.uf("dict_len", IntS, IntS)(simp(V.o(v.t))) > 0))
            elif tag == "obj":
                fs.append(z3.And(V.is_vobj(v.t), C.uf("obj_truth", IntS, BoolS)(V.o(v.t))))
        return simp(z3.Or(fs)) if fs else FALSE
    if isinstance(v, (ListV, SetV, DictV)):
        return seg_nonempty(v.segs)
    if isinstance(v, tuple):
        return z3.BoolVal(bool(v))
    if isinstance(v, StrCat):
        if any(isinstance(p, str) and p for p in v.parts):
            return TRUE
        return simp(z3.Or([truth(p) for p in v.parts]))
    if hasattr(v, "gstr_truth"):
        return v.gstr_truth()
    if hasattr(v, "rx_group"):
        return TRUE
    if isinstance(v, ObjV):
        ln = inspect.getattr_static(v.cls, "__len__", None) if isinstance(v.cls, type) else None
        if ln is not None:
            r = E.call(ln, [v], {})
            return truth(r)
        b = inspect.getattr_static(v.cls, "__bool__", None) if isinstance(v.cls, type) else None
        if b is not None:
            return truth(E.call(b, [v], {}))
        return TRUE
    if isinstance(v, Opaque):
        t = getattr(v, "truth", None)
        if t is not None:
            return t
        if getattr(v, "term", None) is not None:
            return C.uf("obj_truth", IntS, BoolS)(v.term)
        if v.name in ("text",):
            return C.fresh("texttruth", BoolS)
        return TRUE
    if isinstance(v, (FuncV, BoundM)) or not isinstance(v, Val):
        return z3.BoolVal(bool(v)) if not isinstance(v, Val) else TRUE
    raise Unsupported(f"truth of {v!r}")


# ------------------------------------------------------------------ substitution, freezing, sameness
def sub_t(t, pairs):
    return simp(z3.substitute(t, *pairs)) if pairs else t


def subst(v, pairs, memo=None):
    if not pairs or is_const(v) or v is None:
        return v
    memo = {} if memo is None else memo
    if isinstance(v, Sym):
        t = sub_t(v.t, pairs)
        return (Sym(v.k, t) if v.meta else v) if t.eq(v.t) else mk(v.k, t)
    if isinstance(v, Dyn):
        return Dyn(sub_t(v.t, pairs), v.tags, v.dct)
    if isinstance(v, StrCat):
        return StrCat([subst(p, pairs, memo) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, memo) for x in v)
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, (ListV, SetV, DictV)):
        n = type(v)()
        memo[id(v)] = (v, n)
        n.segs = [subst_seg(s, pairs, memo) for s in v.segs]
        n.frozen = True
        n.birth = v.birth
        return n
    if isinstance(v, ObjV):
        n = ObjV(v.cls)
        memo[id(v)] = (v, n)
        n.fields = {k: subst(x, pairs, memo) for k, x in v.fields.items()}
        n.frozen = True
        n.birth = v.birth
        return n
    if isinstance(v, Opaque):
        kw = {}
        ch = False
        for k, x in v.__dict__.items():
            if k == "name":
                continue
            if z3.is_expr(x):
                y = sub_t(x, pairs)
                ch |= not y.eq(x)
                kw[k] = y
            elif isinstance(x, (Val, tuple)):
                y = subst(x, pairs, memo)
                ch |= y is not x
                kw[k] = y
            else:
                kw[k] = x
        return Opaque(v.name, **kw) if ch else v
    if hasattr(v, "gstr_subst"):
        return v.gstr_subst(pairs)
    if hasattr(v, "gsub"):
        return v.gsub(lambda t: sub_t(t, pairs))
    return v


def subst_dom(d, pairs):
    if d is None:
        return None
    return Dom(d.fam, [sub_t(o, pairs) for o in d.outer], sub_t(d.hi, pairs))


def subst_seg(s, pairs, memo=None):
    if isinstance(s, Item):
        return Item(subst(s.v, pairs, memo))
    if isinstance(s, Each):
        return Each(subst_dom(s.dom, pairs), s.var, subst_cases(s.cases, pairs))
    if isinstance(s, SetSeg):
        return SetSeg([subst_seg(x, pairs, memo) for x in s.segs])
    return s


def subst_cases(cases, pairs):
    return [([sub_t(g, pairs) for g in gs], [subst_seg(s, pairs) for s in segs]) for gs, segs in cases]


def subst_pick(cases, pairs):
    """the case that holds once the substitution is made"""
    lazy = [([sub_t(g, pairs) for g in gs], segs) for gs, segs in cases]
    return [subst_seg(x, pairs) for x in E.pick(lazy)]


def freeze(v, birth, memo=None):
    """Copy of what was created after birth, so that it survives the path's rollback."""
    memo = {} if memo is None else memo
    if isinstance(v, tuple):
        return tuple(freeze(x, birth, memo) for x in v)
    if isinstance(v, (ListV, SetV, DictV)):
        if v.birth < birth:
            return v
        if id(v) in memo:
            return memo[id(v)][1]
        n = type(v)()
        memo[id(v)] = (v, n)
        n.segs = [freeze_seg(s, birth, memo) for s in v.segs]
        n.frozen = True
        return n
    if isinstance(v, ObjV):
        if v.birth < birth:
            return v
        if id(v) in memo:
            return memo[id(v)][1]
        n = ObjV(v.cls)
        memo[id(v)] = (v, n)
        n.fields = {k: freeze(x, birth, memo) for k, x in v.fields.items()}
        n.frozen = True
        return n
    return v


def freeze_seg(s, birth, memo=None):
    if isinstance(s, Item):
        return Item(freeze(s.v, birth, memo))
    if isinstance(s, Each):
        return Each(s.dom, s.var, [(list(g), [freeze_seg(x, birth, memo) for x in segs]) for g, segs in s.cases])
    if isinstance(s, SetSeg):
        return SetSeg([freeze_seg(x, birth, memo) for x in s.segs])
    return s


def same(a, b):
    """Structural identity (sufficient for equality)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if is_const(a):
        return type(a) is type(b) and a == b
    if isinstance(a, Sym):
        return a.k == b.k and a.t.eq(b.t)
    if isinstance(a, Dyn):
        return a.t.eq(b.t)
    if isinstance(a, StrCat):
        return len(a.parts) == len(b.parts) and all(same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (ListV, SetV, DictV)):
        return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, ObjV):
        return a.cls is b.cls and a.fields.keys() == b.fields.keys() and all(same(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, Opaque):
        if a.name != b.name or a.__dict__.keys() != b.__dict__.keys():
            return False
        for k, x in a.__dict__.items():
            y = b.__dict__[k]
            if z3.is_expr(x):
                if not (z3.is_expr(y) and x.eq(y)):
                    return False
            elif isinstance(x, (Val, tuple)):
                if not same(x, y):
                    return False
            elif x is not y and x != y:
                return False
        return True
    if not isinstance(a, Val):
        return a == b
    if hasattr(a, "gsame"):
        return a.gsame(b)
    return False


def same_seg(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Item):
        return same(a.v, b.v)
    if isinstance(a, SetSeg):
        return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, Each):
        if (a.dom is None) != (b.dom is None) or len(a.cases) != len(b.cases):
            return False
        if a.dom is not None:
            if a.dom.fam is not b.dom.fam or len(a.dom.outer) != len(b.dom.outer) or not a.dom.hi.eq(b.dom.hi):
                return False
            if not all(x.eq(y) for x, y in zip(a.dom.outer, b.dom.outer)):
                return False
        bc = b.cases
        if a.dom is not None and not a.var.eq(b.var):
            bc = subst_cases(b.cases, [(b.var, a.var)])
        for (g1, s1), (g2, s2) in zip(a.cases, bc):
            if len(g1) != len(g2) or not all(x.eq(y) for x, y in zip(g1, g2)):
                return False
            if len(s1) != len(s2) or not all(same_seg(x, y) for x, y in zip(s1, s2)):
                return False
        return True
    return a is b


def collapse(cases, eqf):
    """Merge sibling paths with the same content.  cases: [(conds, x)] in exploration order."""

    def build(items, depth):
        # items: list of (conds, x)
        if all(eqf(items[0][1], i[1]) for i in items[1:]):
            # common prefix may still hold unconditional assumptions; keep none beyond depth
            if len(items) == 1:
                return [(items[0][0][depth:], items[0][1])]
            if exhaustive(items, depth):
                return [([], items[0][1])]
        groups = []
        for it in items:
            c = it[0][depth] if len(it[0]) > depth else None
            if groups and ((c is None and groups[-1][0] is None) or (c is not None and groups[-1][0] is not None and groups[-1][0].eq(c))):
                groups[-1][1].append(it)
            else:
                groups.append((c, [it]))
        out = []
        subs = []
        for c, its in groups:
            if c is None:
                out += [([], i[1]) for i in its]
            else:
                subs.append((c, build(its, depth + 1)))
        if len(subs) == 2 and not out and complementary(subs[0][0], subs[1][0]) and len(subs[0][1]) == len(subs[1][1]) and all(
                len(g) == len(h) and all(a.eq(b) for a, b in zip(g, h)) and eqf(x, y) for (g, x), (h, y) in zip(subs[0][1], subs[1][1])):
            return subs[0][1]
        for c, sub in subs:
            out += [([c] + g, x) for g, x in sub]
        return out

    def complementary(a, b):
        return z3.is_not(b) and b.arg(0).eq(a) or z3.is_not(a) and a.arg(0).eq(b)

    def exhaustive(items, depth):
        """the decisions below cover everything (each decision has both outcomes)"""
        heads = []
        for it in items:
            c = it[0][depth] if len(it[0]) > depth else None
            if not heads or not ((c is None and heads[-1][0] is None) or (c is not None and heads[-1][0] is not None and heads[-1][0].eq(c))):
                heads.append((c, [it]))
            else:
                heads[-1][1].append(it)
        if len(heads) == 1:
            c, its = heads[0]
            if c is None:
                return len(its) == 1
            return False
        if len(heads) == 2:
            a, b = heads[0][0], heads[1][0]
            if a is None or b is None:
                return False
            if not (z3.is_not(b) and b.arg(0).eq(a) or z3.is_not(a) and a.arg(0).eq(b)):
                return False
            return all(len(i[1]) == 1 and len(i[1][0][0]) == depth + 1 or exhaustive(i[1], depth + 1) for i in heads)
        return False

    return build(cases, 0) if cases else []


def contains_decl(t, decl):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl):
            return True
        st.extend(x.children())
    return False


# ------------------------------------------------------------------ the interpreter
class Interp:
    def __init__(self):
        self.models = {}  # host callable -> handler(args, kwargs)
        self.attr_models = []  # f(value, name) -> value or NotImplemented
        self.contracts = {}  # qualified name -> function(args, kwargs)
        self.roots = ()  # directories whose functions are interpreted
        self.asts = {}
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.events = None  # ghost state: what has been done, in order
        self.printed = None  # ghost state: list of what has been printed
        self.iteration = None  # called at the end of each iteration of a while loop: f(events of it, how it ends)
        self.world = None
        self.no_contract = set()

    def log(self, *ev):
        if self.events is not None:
            ev_list = self.events
            n = len(ev_list)
            ev_list.append(ev)
            C.save(lambda: ev_list.__delitem__(slice(n, None)))

    # ---------------- sources
    def fn_node(self, fn):
        code = fn.__code__
        file = code.co_filename
        if file not in self.asts:
            with open(file) as fh:
                tree = ast.parse(fh.read(), file)
            by = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                    line = n.lineno
                    if getattr(n, "decorator_list", None):
                        line = min([line] + [d.lineno for d in n.decorator_list])
                    by.setdefault(line, []).append(n)
            self.asts[file] = by
        cands = self.asts[file].get(code.co_firstlineno, [])
        name = code.co_name
        cands = [n for n in cands if (isinstance(n, ast.Lambda) and name == "<lambda>") or getattr(n, "name", None) == name]
        if len(cands) != 1:
            raise Unsupported(f"source of {fn} not found uniquely")
        return cands[0]

    def is_repo(self, fn):
        code = getattr(fn, "__code__", None)
        return code is not None and any(code.co_filename.startswith(r) for r in self.roots)

    @staticmethod
    def qual(fn):
        return f"{fn.__module__}:{fn.__qualname__}"

    # ---------------- calls
    def call(self, fn, args, kwargs):
        if isinstance(fn, BoundM):
            return fn.call(args, kwargs)
        if isinstance(fn, FuncV):
            return self.call_node(fn.node, fn.glob, fn.env, fn.defaults, args, kwargs, fn.name)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs)
        try:
            h = self.models.get(fn)
        except TypeError:
            h = None
        if h is not None:
            self.used_models.add(getattr(fn, "__qualname__", repr(fn)))
            return h(args, kwargs)
        if isinstance(fn, types.FunctionType) and self.is_repo(fn):
            q = self.qual(fn)
            c = self.contracts.get(q)
            if c is not None and q not in self.no_contract:
                self.used_contracts.add(q)
                return c(args, kwargs)
            return self.inline(fn, args, kwargs)
        if isinstance(fn, type):
            for m in self.class_models:
                r = m(fn, args, kwargs)
                if r is not NotImplemented:
                    return r
        if isinstance(fn, (staticmethod, classmethod)):
            return self.call(fn.__func__, args, kwargs)
        raise Unsupported(f"call of {fn!r}")

    class_models = []

    def inline(self, fn, args, kwargs):
        node = self.fn_node(fn)
        self.inlined.add(self.qual(fn))
        cells = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        defaults = {}
        pos = [a.arg for a in node.args.posonlyargs + node.args.args]
        if fn.__defaults__:
            for n, d in zip(pos[-len(fn.__defaults__):], fn.__defaults__):
                defaults[n] = lift(d)
        for n, d in (fn.__kwdefaults__ or {}).items():
            defaults[n] = lift(d)
        parent = Env(fn.__globals__, None, cells)
        return self.call_node(node, fn.__globals__, parent, defaults, args, kwargs, fn.__qualname__)

    def call_node(self, node, glob, parent, defaults, args, kwargs, name):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            env = Env(glob, parent)
            self.bind(node.args, env, dict(defaults), list(args), dict(kwargs), name)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if is_generator(node):
                acc = ListV()
                env.vars["#yield"] = acc
                try:
                    self.block(node.body, env)
                except Ret:
                    pass
                return acc
            try:
                self.block(node.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, a, env, defaults, args, kwargs, name):
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n in pos:
            if args:
                env.vars[n] = args.pop(0)
                if n in kwargs:
                    raise PyExc(TypeError, (), f"{name}() got multiple values for {n}")
            elif n in kwargs:
                env.vars[n] = kwargs.pop(n)
            elif n in defaults:
                env.vars[n] = defaults[n]
            else:
                raise PyExc(TypeError, (), f"{name}() misses {n}")
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args)
            args = []
        if args:
            raise PyExc(TypeError, (), f"{name}() takes fewer arguments")
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env.vars[x.arg] = kwargs.pop(x.arg)
            elif x.arg in defaults:
                env.vars[x.arg] = defaults[x.arg]
            else:
                raise PyExc(TypeError, (), f"{name}() misses {x.arg}")
        if a.kwarg:
            env.vars[a.kwarg.arg] = DictV([Item((k, v)) for k, v in kwargs.items()])
        elif kwargs:
            raise PyExc(TypeError, (), f"{name}() got unexpected {sorted(kwargs)}")

    # ---------------- names
    def load(self, n, env):
        e = env.find(n)
        if e is not None:
            v = e.vars[n]
            if isinstance(v, Poison):
                raise Unsupported(f"{n} is read from an earlier iteration or after its loop")
            return v
        e = env
        while e is not None:
            if n in e.cells:
                return lift(e.cells[n])
            e = e.parent
        if n in env.glob:
            return lift(env.glob[n])
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyExc(NameError, (), n)

    def store(self, n, v, env):
        if n in env.nonlocals:
            e = env.parent
            while e is not None and n not in e.vars:
                e = e.parent
            if e is None:
                raise Unsupported(f"nonlocal {n}")
            env = e
        setkey(env, env.vars, n, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, ListV) and any(isinstance(s, Each) for s in v.segs) and isinstance(t.elts[-1], ast.Starred):
                m, k = intterm(E.call(len, [v], {})), len(t.elts) - 1
                if C.decide(m < k):
                    raise PyExc(ValueError, (), "unpack")
                for i, x in enumerate(t.elts[:k]):
                    self.assign(x, self.getitem(v, i), env)
                self.assign(t.elts[k].value, self.getslice(v, k, None, None), env)
                return
            items = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyExc(ValueError)
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, ListV([Item(y) for y in items[k:len(items) - after]]), env)
                for x, y in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(x, y, env)
                return
            if len(items) != len(t.elts):
                raise PyExc(ValueError, (), "unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, v, n, star=False):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV) and all(isinstance(s, Item) for s in v.segs):
            return [s.v for s in v.segs]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Dyn):
            return self.unpack(resolve(v), n, star)
        if isinstance(v, ListV):
            # as long as there are places for
            m = intterm(E.call(len, [v], {}))
            if C.decide(m < n - 1 if star else m != n):
                raise PyExc(ValueError, (), "unpack")
            if not star:
                return [self.getitem(v, i) for i in range(n)]
        raise Unsupported(f"unpacking {v!r}")

    # ---------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.line = getattr(s, "lineno", None)
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Assert(self, s, env):
        if not C.decide(truth(self.ev(s.test, env))):
            raise PyExc(AssertionError)

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.store((a.asname or a.name.split(".")[0]), m if a.asname else importlib.import_module(a.name.split(".")[0]), env)

    def s_ImportFrom(self, s, env):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            self.store(a.asname or a.name, lift(getattr(m, a.name)), env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
        else:
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            cur = self.getitem(o, i)
        val = self.ev(s.value, env)
        if isinstance(cur, ListV) and isinstance(s.op, ast.Add):
            self.list_extend(cur, val)
            new = cur
        elif isinstance(cur, SetV) and isinstance(s.op, ast.BitOr):
            self.set_update(cur, val)
            new = cur
        elif isinstance(cur, DictV) and isinstance(s.op, ast.BitOr):
            self.dict_update(cur, val)
            new = cur
        else:
            new = self.binop(s.op, cur, val)
        if isinstance(t, ast.Name):
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, i, new)

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        self.block(s.body if self.test(s.test, env) else s.orelse, env)

    def test(self, n, env):
        """bool(n), decided.  and/or over simple operands: the constant ones are looked at first."""
        if isinstance(n, ast.BoolOp) and all(simple(x) for x in n.values[:]):
            stop = isinstance(n.op, ast.Or)
            for x in n.values:
                if const_simple(x):
                    try:
                        f = simp(truth(self.ev(x, env)))
                    except (PyExc, Unsupported):
                        break
                    if (z3.is_true(f) and stop) or (z3.is_false(f) and not stop):
                        return stop
                if any(isinstance(y, (ast.In, ast.NotIn, ast.Call)) for y in ast.walk(x)):
                    break
            for k, x in enumerate(n.values):
                r = self.test(x, env)
                if r == stop:
                    return r
            return not stop
        return C.decide(truth(self.ev(n, env)))

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        self.store(s.name, FuncV(s, env, s.name, env.glob, self.arg_defaults(s.args, env)), env)

    def arg_defaults(self, a, env):
        d = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, x in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[n] = self.ev(x, env)
        for x, n in zip(a.kw_defaults, a.kwonlyargs):
            if x is not None:
                d[n.arg] = self.ev(x, env)
        return d

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, Poison(t.id), env)
            else:
                raise Unsupported("del of an element")

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, "handling", None)
            e = env
            while cur is None and e is not None:
                cur = getattr(e, "handling", None)
                e = e.parent
            if cur is None:
                raise Unsupported("bare raise")
            raise PyExc(cur.cls, cur.pyargs)
        v = self.ev(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = self.call(v, [], {})
        if isinstance(v, Opaque) and v.name == "exc":
            raise PyExc(v.cls, v.args)
        raise Unsupported(f"raise {v!r}")

    def exc_matches(self, h, e, env):
        if h.type is None:
            return True
        t = self.ev(h.type, env)
        ts = t if isinstance(t, tuple) else (t,)
        return any(isinstance(x, type) and issubclass(e.cls, x) for x in ts)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if self.exc_matches(h, e, env):
                        old = getattr(env, "handling", None)
                        env.handling = e
                        C.save(lambda: setattr(env, "handling", old))
                        if h.name:
                            self.store(h.name, Opaque("exc", cls=e.cls, args=e.pyargs), env)
                        self.block(h.body, env)
                        env.handling = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (PyExc, Ret, Brk, Cont):
            if s.finalbody:
                self.block(s.finalbody, env)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        self.with_items(list(s.items), s, env)

    def with_items(self, items, s, env):
        if not items:
            return self.block(s.body, env)
        it = items[0]
        cm = self.ev(it.context_expr, env)
        enter = getattr(cm, "enter", None)
        if enter is None:
            raise Unsupported(f"with {cm!r}")
        v = cm.enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_items(items[1:], s, env)
        except (PyExc, Ret, Brk, Cont) as e:
            if cm.exit(e if isinstance(e, PyExc) else None):
                return
            raise
        else:
            cm.exit(None)

    def s_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for case in s.cases:
            if self.match(case.pattern, subj, env):
                if case.guard is not None and not C.decide(truth(self.ev(case.guard, env))):
                    continue
                return self.block(case.body, env)

    def match(self, p, subj, env):
        if isinstance(p, ast.MatchValue):
            return C.decide(eq(subj, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return C.decide(self.is_(subj, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, subj, env):
                return False
            if p.name:
                self.store(p.name, subj, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, subj, env) for x in p.patterns)
        raise Unsupported(f"match pattern {type(p).__name__}")

    # ---------------- loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        guess = loop_guess(s.body, s.target)

        def body(x):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Cont:
                pass

        try:
            self.loop(it, body, env, guess)
        except Brk:
            return
        self.block(s.orelse, env)

    def s_While(self, s, env):
        """A loop whose continuing iterations change nothing that is observed: only the last
        iteration matters, and it starts from the state before the loop."""
        if s.orelse:
            raise Unsupported("while-else")
        start = next(C.births)

        def once():
            mark = len(TOUCH)
            ev0 = len(self.events) if self.events is not None else 0
            tell = lambda how: self.iteration(self.events[ev0:], how) if self.iteration is not None and self.events is not None else None
            try:
                if not C.decide(truth(self.ev(s.test, env))):
                    tell("ends")
                    return "done"
                self.block(s.body, env)
            except Cont:
                pass
            except Brk:
                tell("ends")
                return "done"
            except Ret:
                tell("returns")
                raise
            except PyExc as e:
                tell(e.cls)
                raise
            if kept:
                # the loop's own condition may have been switched off
                if not C.decide(truth(self.ev(s.test, env))):
                    tell("ends")
                    return "done"
                if any(not is_const(env.vars[n]) or type(env.vars[n]) is not type(x) or env.vars[n] != x for n, x in kept.items()):
                    raise Unsupported("a while loop whose condition depends on what an iteration leaves")
            # goes round again
            tell("continues")
            for owner, slot, _ in TOUCH[mark:]:
                if owner.birth < start and not (isinstance(owner, Env) and owner is env):
                    raise Unsupported("a while loop that changes state on iterations that continue")
            raise Infeasible()

        names = loop_guess(s.body, None)[0]
        kept = {}
        if not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(s.test)):
            kept = {x.id: env.vars[x.id] for x in ast.walk(s.test) if isinstance(x, ast.Name) and x.id in names and x.id in env.vars and is_const(env.vars[x.id])}
        for n in names:
            if n in env.vars and n not in kept:
                setkey(env, env.vars, n, Poison(n))
        once()

    def segs_of(self, it):
        """Segments of an iterable."""
        if isinstance(it, (ListV, SetV)):
            return list(it.segs)
        if isinstance(it, DictV):
            return self.dict_iter(it, lambda k, v: k)
        if isinstance(it, tuple):
            return [Item(x) for x in it]
        if isinstance(it, str):
            return [Item(x) for x in it]
        if isinstance(it, range):
            return [Item(x) for x in it]
        if isinstance(it, type) and issubclass(it, enum.Enum):
            return [Item(x) for x in it]
        if isinstance(it, Opaque) and hasattr(it, "segs"):
            return list(it.segs)
        if isinstance(it, Dyn):
            return self.segs_of(resolve(it))
        if it is None or isinstance(it, (int, Sym)):
            raise PyExc(TypeError, (), "not iterable")
        raise Unsupported(f"iteration over {it!r}")

    def loop(self, it, body, env, guess):
        self.run_segs(self.segs_of(it), body, env, guess)

    def run_segs(self, segs, body, env, guess):
        for s in segs:
            if isinstance(s, Item):
                body(s.v)
            elif isinstance(s, Each):
                if s.dom is None:
                    self.run_segs(self.pick(s.cases), body, env, guess)
                else:
                    self.summarise(s, body, env, guess)
            elif isinstance(s, SetSeg):
                # any order: summarised as if in the order of its segments; order-sensitive
                # results compare extensionally
                self.run_segs(s.segs, body, env, guess)
            else:
                raise Unsupported(f"iteration over {s!r}")

    def pick(self, cases):
        """Decide which case holds, along the decision tree of the guards."""
        live = list(cases)
        depth = 0
        while True:
            live = [c for c in live]
            if not live:
                return []
            heads = [c for c in live if len(c[0]) > depth]
            if not heads:
                return live[0][1]
            g = live[0][0]
            if len(g) <= depth:
                return live[0][1]
            c = g[depth]
            base = c.arg(0) if z3.is_not(c) else c
            r = C.decide(base)
            keep = []
            for x in live:
                if len(x[0]) <= depth:
                    keep.append((x, False))
                    continue
                d = x[0][depth]
                if d.eq(base):
                    if r:
                        keep.append((x, True))
                elif z3.is_not(d) and d.arg(0).eq(base):
                    if not r:
                        keep.append((x, True))
                else:
                    keep.append((x, False))
            if all(k for _, k in keep):
                live = [x for x, _ in keep]
                depth += 1
                continue
            # heterogeneous: decide case by case
            live = [x for x, _ in keep]
            for gs, segs in live:
                f = simp(z3.And(gs)) if gs else TRUE
                if C.decide(f):
                    return segs
            return []

    def summarise(self, seg, body, env, guess):
        C.stats["loops"] += 1
        dom, names, objs = seg.dom, guess[0], guess[1]
        birth = next(C.births)
        locs = {}  # key -> Loc

        def add_loc(owner, slot):
            key = (id(owner), slot)
            if key not in locs:
                locs[key] = Loc(owner, slot)
                return True
            return False

        for n in names:
            e = env.find(n)
            if e is not None:
                add_loc(e, ("key", n))
        for n in objs:
            e = env.find(n)
            if e is not None:
                o = e.vars[n]
                if isinstance(o, (ListV, SetV, DictV)) and not o.frozen:
                    add_loc(o, "segs")

        base_ctx = list(C.idx_stack)
        tagname = C.fname("loop")
        v = C.new_index(dom)
        C.register(dom.fam, dom.outer + (v,))
        pc0 = list(C.pc)
        prefixes = {}

        def setup():
            for k, loc in locs.items():
                loc.havoc(tagname, base_ctx, v, dom)

        while True:
            touched_new = []

            def path():
                mark = len(TOUCH)
                C.idx_stack.append((dom, v))
                setup()
                kind, val = "normal", None
                try:
                    try:
                        self.run_segs(subst_pick(seg.cases, [(seg.var, v)]), body, env, guess)
                    finally:
                        new = []
                        for owner, slot, _ in TOUCH[mark:]:
                            if owner.birth < birth and (id(owner), slot) not in locs:
                                # a variable first assigned in the loop is a temporary of the loop
                                new.append((owner, slot))
                        if new:
                            raise Restart(new)
                except Brk:
                    kind = "exit"
                except Ret:
                    kind = "exit"
                except PyExc as e:
                    if DEBUG: print("exit", e, C.pc, C.check(), C.check(full=True))
                    return "exit", e.cls
                res = {k: loc.delta(birth) for k, loc in locs.items()} if kind == "normal" else None
                return kind, res

            C.pc.append(dom.inr(v))
            try:
                paths = C.explore(path)
            except Restart as r:
                # (the state is the one before the loop again)
                for owner, slot in r.args[0]:
                    add_loc(owner, slot)
                continue
            finally:
                C.pc[:] = pc0
            # accumulators whose earlier content was read: only sound if provably not a member
            for loc in locs.values():
                if loc.prefix is not None and loc.prefix.queries:
                    self.settle_prefix(loc, paths, dom, v, pc0)
            break
        # --- exits
        exits = [list(c) for c, (k, _) in paths if k == "exit"]
        hi = dom.hi
        if exits:
            g = simp(z3.Or([z3.And(c) if c else TRUE for c in exits]))
            # P(u) facts are needed to know the state at the exit
            self.apply_sums(locs, paths, dom, v, pc0, tagname, base_ctx)
            e, sk = C.exists(dom, v, g, "first")
            if sk is not None and C.decide(e):
                C.register(dom.fam, dom.outer + (sk,))
                C.pc.append(dom.inr(sk))
                classes = {}
                for c, (k, r) in paths:
                    if k == "exit":
                        classes.setdefault(r, []).append(z3.And(c) if c else TRUE)
                if None not in classes:
                    # every exit is an exception: what the loop had changed is not known any more (Poison), only
                    # that it is raised
                    for loc in locs.values():
                        if loc.kind == "segs":
                            loc.put([Poison("segs")])
                        else:
                            loc.put(Poison(loc.slotname()))
                    todo = list(classes)
                    for cls in todo[:-1]:
                        if C.decide(simp(sub_t(z3.Or(classes[cls]), [(v, sk)]))):
                            raise PyExc(cls, (Poison("argument of the exception"),))
                    raise PyExc(todo[-1], (Poison("argument of the exception"),))
                self.apply(locs, paths, Dom(dom.fam, dom.outer, sk), v, birth)
                C.idx_stack.append((dom, sk))
                try:
                    self.run_segs(subst_pick(seg.cases, [(seg.var, sk)]), body, env, guess)
                finally:
                    C.idx_stack.pop()
                if not C.valid(FALSE):
                    raise Unsupported("loop exit that is not reproducible")
                raise Infeasible()
        else:
            self.apply_sums(locs, paths, dom, v, pc0, tagname, base_ctx)
        self.apply(locs, paths, dom, v, birth)

    def settle_prefix(self, loc, paths, dom, v, pc0):
        """What was asked for is shown not to be among what earlier iterations added
        (by induction: they too were explored under that assumption)."""
        u = C.new_index(dom, "u")
        C.register(dom.fam, dom.outer + (u,))
        keys = []
        for conds, (k, res) in paths:
            if k != "normal":
                continue
            d = res[(id(loc.owner), loc.slot)]
            if d == "replaced":
                raise Unsupported("an accumulator is rebuilt and read inside its loop")
            for s in d or []:
                keys += open_seg(subst_seg(s, [(v, u)]), [sub_t(c, [(v, u)]) for c in conds])
        for pred, pc in loc.prefix.queries:
            for key, conds, _ in keys:
                f = pred(key)
                save = C.pc
                C.pc = list(pc) + conds + [z3.And(u >= 0, u < v, dom.inr(v))]
                ok = C.valid(z3.Not(f))
                C.pc = save
                if not ok:
                    raise Unsupported("an accumulator is read inside its loop and may contain what is asked for")

    def apply_sums(self, locs, paths, dom, v, pc0, tagname, ctx):
        for k, loc in locs.items():
            if loc.kind != "int" or loc.P is None:
                continue
            ds = [(conds, res[k]) for conds, (kd, res) in paths if kd == "normal"]
            if all(d is None for _, d in ds):
                loc.unchanged = True
                continue
            ds = [(c, z3.IntVal(0) if d is None else d) for c, d in ds]
            for _, d in ds:
                if isinstance(d, str) or contains_decl(d, loc.P):
                    loc.bad = True
            if loc.bad:
                continue
            merged = collapse(ds, lambda a, b: a.eq(b))
            delta = z3.IntVal(0)
            for conds, d in reversed(merged):
                delta = z3.If(z3.And(conds), d, delta) if conds else d
            delta = simp(delta)
            loc.deltaterm = delta
            P = loc.Pterm
            inr = z3.And(v >= 0, v < dom.hi)
            C.fact(P(z3.IntVal(0)) == 0)
            C.fact(z3.Implies(inr, P(v + 1) == P(v) + delta))
            # monotonicity, by induction, if every step is >= 0
            C.pc.append(inr)
            mono = C.valid(delta >= 0)
            C.pc.pop()
            if mono:
                pcf = z3.And(pc0) if pc0 else TRUE
                hi = dom.hi
                C.fact(z3.Implies(z3.And(pcf, inr), z3.And(P(v) >= 0, P(v) + delta <= P(hi))))
                C.fact(z3.Implies(z3.And(pcf, hi >= 0), P(hi) >= 0))
                # pairs of indices below the same outer ones
                w = C.new_index(dom, "w")
                f = z3.Implies(z3.And(pcf, v >= 0, v < w, w <= hi), P(v) + delta <= P(w))
                self.pair_fact(dom, v, w, f)
                loc.mono = True
            else:
                C.fact(z3.Implies(dom.hi == 0, P(dom.hi) == 0))

    def pair_fact(self, dom, v, w, f):
        """f(v, w) for all v, w of the family below the same outer indices."""
        fam, outer = dom.fam, dom.outer
        oc = [o for o in outer if z3.is_const(o) and o.decl().name() in C.idx_consts]
        if len(oc) != len(outer):
            # outer indices are terms: for the tuples below exactly these
            o1, o2 = [z3.Int(f"!o{k}.1") for k in range(len(outer))], [z3.Int(f"!o{k}.2") for k in range(len(outer))]
            cond = [x == y for x, y in zip(outer, o1)] + [x == y for x, y in zip(outer, o2)]
            C.pair_schema(fam, tuple(o1) + (v,), tuple(o2) + (w,), z3.Implies(z3.And(cond), f), bool(C.idx_args(*outer)))
            return
        o2 = [z3.Int(f"{o}.2") for o in outer]
        g = z3.Implies(z3.And([a == b for a, b in zip(outer, o2)]), f) if outer else f
        C.pair_schema(fam, tuple(outer) + (v,), tuple(o2) + (w,), g)

    def apply(self, locs, paths, dom, v, birth):
        for k, loc in locs.items():
            ds = [(conds, res[k]) for conds, (kd, res) in paths if kd == "normal"]
            loc.apply(ds, dom, v)

    # ---------------- expressions
    def ev(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.load(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while getattr(e, "comp", False):
            e = e.parent
        self.store(n.target.id, v, e)
        return v

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.ev(x.value, env), None)
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, n, env):
        o = ListV()
        for x in n.elts:
            if isinstance(x, ast.Starred):
                o.segs += self.segs_of(self.ev(x.value, env))
            else:
                o.segs.append(Item(self.ev(x, env)))
        return o

    def e_Set(self, n, env):
        o = SetV()
        for x in n.elts:
            if isinstance(x, ast.Starred):
                o.segs += self.segs_of(self.ev(x.value, env))
            else:
                o.segs.append(Item(self.ev(x, env)))
        return o

    def e_Dict(self, n, env):
        o = DictV()
        for k, x in zip(n.keys, n.values):
            if k is None:
                d = self.ev(x, env)
                if isinstance(d, Dyn):
                    d = resolve(d)
                if not isinstance(d, DictV):
                    raise Unsupported(f"** of {d!r}")
                o.segs += list(d.segs)
            else:
                kv = self.ev(k, env)
                o.segs.append(Item((kv, self.ev(x, env))))
        return o

    def e_JoinedStr(self, n, env):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                if x.format_spec is not None or x.conversion not in (-1, None):
                    v = v if is_const(v) and x.format_spec is None else ANYTEXT
                    if is_const(v):
                        v = {115: str, 114: repr, 97: ascii}[x.conversion](v)
                parts.append(self.to_str(v))
        return self.concat(parts)

    def concat(self, parts):
        if parts and isinstance(parts[0], Opaque) and parts[0].name == "pathtext" and hasattr(parts[0], "join"):
            return parts[0].join(parts[0], self.concat(parts[1:]))
        if any(isinstance(p, Opaque) for p in parts):
            return ANYTEXT
        if any(hasattr(p, "gstr_subst") for p in parts):
            r = [p for p in parts if not (isinstance(p, str) and p == "")]
            if len(r) == 1:
                return r[0]
            return ANYTEXT
        out = []
        for p in parts:
            ps = p.parts if isinstance(p, StrCat) else [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif not (isinstance(q, str) and q == ""):
                    out.append(q)
        if not out:
            return ""
        if len(out) == 1:
            return out[0]
        return StrCat(out)

    def to_str(self, v):
        """str(v)"""
        if isinstance(v, Dyn):
            v = resolve(v)
        if isinstance(v, enum.Enum):
            return str(v)
        if is_const(v):
            return str(v)
        if isinstance(v, StrCat) or hasattr(v, "gstr_subst"):
            return v
        if isinstance(v, Sym):
            if v.k == "str":
                return v
            if v.k == "int":
                s = C.uf("str_of", IntS, StrS)(v.t)
                C.fact(C.uf("int_of", StrS, IntS)(s) == v.t)
                C.fact(C.uf("is_num", StrS, BoolS)(s))
                C.lit("")
                return Sym("str", s)
        if isinstance(v, Opaque) and hasattr(v, "astext"):
            return v.astext(v)
        return ANYTEXT

    def e_Lambda(self, n, env):
        return FuncV(n, env, "<lambda>", env.glob, self.arg_defaults(n.args, env))

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.test(n.test, env) else n.orelse, env)

    def e_BoolOp(self, n, env):
        for k, x in enumerate(n.values):
            v = self.ev(x, env)
            if k == len(n.values) - 1:
                return v
            t = C.decide(truth(v))
            if isinstance(n.op, ast.And) and not t:
                return self.narrow(v, False)
            if isinstance(n.op, ast.Or) and t:
                return self.narrow(v, True)

    def narrow(self, v, t):
        if isinstance(v, Sym) and v.k == "bool":
            return t
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return mk("bool", z3.Not(truth(v)))
        if isinstance(n.op, ast.USub):
            if is_const(v):
                return -v
            return mk("int", -intterm(v))
        raise Unsupported("unary operator")

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        if isinstance(a, Dyn):
            a = resolve(a)
        if isinstance(b, Dyn):
            b = resolve(b)
        if is_const(a) and is_const(b):
            import operator
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod,
                 ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv, ast.BitOr: operator.or_, ast.Pow: operator.pow}.get(type(op))
            if f is None:
                raise Unsupported("operator")
            try:
                return f(a, b)
            except Exception as e:
                raise PyExc(type(e))
        if isinstance(op, ast.Add):
            if isinstance(a, ListV) and isinstance(b, ListV):
                return ListV(list(a.segs) + list(b.segs))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if strlike(a) and strlike(b):
                return self.concat([a, b])
        ia, ib = intterm(a), intterm(b)
        if ia is not None and ib is not None:
            if isinstance(op, ast.Add):
                return mk("int", ia + ib)
            if isinstance(op, ast.Sub):
                return mk("int", ia - ib)
            if isinstance(op, ast.Mult) and (z3.is_int_value(ia) or z3.is_int_value(ib)):
                return mk("int", ia * ib)
            if isinstance(op, ast.Mod) and z3.is_int_value(ib) and ib.as_long() > 0:
                return mk("int", ia % ib)
            if isinstance(op, ast.FloorDiv) and z3.is_int_value(ib) and ib.as_long() > 0:
                return mk("int", ia / ib)
        if isinstance(a, ListV) and getattr(a, "view", False) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            a, b = SetV(list(a.segs)), b if isinstance(b, SetV) else SetV(self.segs_of(b))
        if isinstance(b, ListV) and getattr(b, "view", False) and isinstance(a, SetV):
            b = SetV(list(b.segs))
        if isinstance(a, SetV) and isinstance(b, SetV):
            if isinstance(op, ast.BitXor):
                return SetV(self.set_filter(a, b, False).segs + self.set_filter(b, a, False).segs)
            if isinstance(op, ast.BitOr):
                return SetV(list(a.segs) + list(b.segs))
            if isinstance(op, ast.BitAnd):
                return self.set_filter(a, b, True)
            if isinstance(op, ast.Sub):
                return self.set_filter(a, b, False)
        if isinstance(a, DictV) and isinstance(b, DictV) and isinstance(op, ast.BitOr):
            return DictV(list(a.segs) + list(b.segs))
        for m in self.binop_models:
            r = m(op, a, b)
            if r is not NotImplemented:
                return r
        raise Unsupported(f"operator {type(op).__name__} on {a!r}, {b!r}")

    binop_models = []

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        fs = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, env)
            fs.append(self.compare(op, left, right))
            left = right
            if len(n.ops) > 1 and not C.decide(fs[-1]):
                return False
        return mk("bool", fs[-1])

    def is_(self, a, b):
        if b is None or a is None:
            x = a if b is None else b
            if x is None:
                return TRUE
            if isinstance(x, Dyn):
                return simp(V.is_vnone(x.t)) if "none" in x.tags else FALSE
            if isinstance(x, Opaque) and hasattr(x, "is_none"):
                return x.is_none
            return FALSE
        if isinstance(a, bool) or isinstance(b, bool):
            c, x = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(x, Sym) and x.k == "bool":
                return x.t if c else simp(z3.Not(x.t))
            if isinstance(x, Dyn):
                return simp(z3.And(V.is_vbool(x.t), V.b(x.t) == c))
            return z3.BoolVal(x is c)
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            if isinstance(a, enum.Enum) and isinstance(b, enum.Enum):
                return z3.BoolVal(a is b)
            x = b if isinstance(a, enum.Enum) else a
            if isinstance(x, Opaque) and hasattr(x, "enum_is"):
                return x.enum_is(a if isinstance(a, enum.Enum) else b)
            return FALSE
        if isinstance(a, (ListV, SetV, DictV, ObjV)) or isinstance(b, (ListV, SetV, DictV, ObjV)):
            return z3.BoolVal(a is b)
        if isinstance(a, type) or isinstance(b, type):
            return z3.BoolVal(a is b)
        raise Unsupported(f"identity of {a!r} and {b!r}")

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return simp(z3.Not(self.is_(a, b)))
        if isinstance(op, ast.Eq):
            return eq(a, b)
        if isinstance(op, ast.NotEq):
            return simp(z3.Not(eq(a, b)))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return simp(z3.Not(self.contains(b, a)))
        if isinstance(a, Dyn):
            a = resolve(a)
        if isinstance(b, Dyn):
            b = resolve(b)
        if is_const(a) and is_const(b):
            import operator
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            try:
                return z3.BoolVal(f(a, b))
            except TypeError:
                raise PyExc(TypeError)
        if isinstance(a, SetV) and isinstance(b, SetV) and isinstance(op, (ast.LtE, ast.GtE)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            return self.subset(a, b)
        ia, ib = intterm(a), intterm(b)
        if ia is None or ib is None:
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        for x, y, ops in ((a, b, {(ast.Gt, 0): True, (ast.GtE, 1): True, (ast.LtE, 0): False, (ast.Lt, 1): False}), (b, a, {(ast.Lt, 0): True, (ast.LtE, 1): True, (ast.GtE, 0): False, (ast.Gt, 1): False})):
            # whether something of which only that is known is empty
            if isinstance(x, Sym) and isinstance(x.meta, tuple) and x.meta[:1] == ("nonempty",) and isinstance(y, int) and (type(op), y) in ops:
                return x.meta[1] if ops[type(op), y] else simp(z3.Not(x.meta[1]))
        return simp({ast.Lt: ia < ib, ast.LtE: ia <= ib, ast.Gt: ia > ib, ast.GtE: ia >= ib}[type(op)])

    def subset(self, a, b):
        return simp(z3.Not(segs_any(a.segs, lambda x: z3.Not(self.contains(b, x)))))

    def contains(self, c, x):
        if isinstance(c, Dyn):
            c = resolve(c)
        if isinstance(c, (ListV, SetV)):
            return segs_any(c.segs, lambda y: eq(x, y))
        if isinstance(c, DictV):
            return segs_any(c.segs, lambda kv: eq(x, kv[0]))
        if isinstance(c, tuple):
            return simp(z3.Or([eq(x, y) for y in c])) if c else FALSE
        if hasattr(c, "gstr_contains"):
            return c.gstr_contains(x)
        if strlike(c) and strlike(x):
            if isinstance(c, str) and isinstance(x, str):
                return z3.BoolVal(x in c)
            return C.uf("substr_in", StrS, StrS, BoolS)(strterm(x), strterm(c))
        if isinstance(c, Opaque) and hasattr(c, "segs"):
            return segs_any(c.segs, lambda y: eq(x, y))
        if c is None or isinstance(c, (int, Sym)):
            raise PyExc(TypeError)
        if isinstance(c, (range, bytes)) and is_const(x):
            return z3.BoolVal(x in c)
        raise Unsupported(f"membership in {c!r}")

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env)
            return self.getslice(o, g(n.slice.lower), g(n.slice.upper), g(n.slice.step))
        return self.getitem(o, self.ev(n.slice, env))

    def e_Slice(self, n, env):
        raise Unsupported("slice")

    def e_Starred(self, n, env):
        raise Unsupported("starred")

    def e_Yield(self, n, env):
        e = env.find("#yield")
        acc = e.vars["#yield"]
        self.list_append(acc, self.ev(n.value, env) if n.value else None)
        return None

    def e_YieldFrom(self, n, env):
        e = env.find("#yield")
        self.list_extend(e.vars["#yield"], self.ev(n.value, env))
        return None

    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.unpack(self.ev(a.value, env), None)
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, DictV) or not all(isinstance(s, Item) for s in d.segs):
                    raise Unsupported("** of an unknown dict")
                for s in d.segs:
                    if not isinstance(s.v[0], str):
                        raise Unsupported("** with symbolic names")
                    kw[s.v[0]] = s.v[1]
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    # comprehensions
    def comp(self, n, env, emit, guess_obj):
        inner = Env(env.glob, env)
        inner.comp = True
        inner.vars["#acc"] = guess_obj

        def gen(k):
            if k == len(n.generators):
                emit(inner)
                return
            g = n.generators[k]
            it = self.ev(g.iter, inner if k else env)

            def body(x):
                self.assign(g.target, x, inner)
                for c in g.ifs:
                    if not self.test(c, inner):
                        return
                gen(k + 1)

            self.loop(it, body, inner, ([], ["#acc"]))

        gen(0)

    def e_ListComp(self, n, env):
        acc = ListV()
        self.comp(n, env, lambda e: self.list_append(acc, self.ev(n.elt, e)), acc)
        return acc

    def e_GeneratorExp(self, n, env):
        return self.e_ListComp(n, env)

    def e_SetComp(self, n, env):
        acc = SetV()
        self.comp(n, env, lambda e: self.set_add(acc, self.ev(n.elt, e)), acc)
        return acc

    def e_DictComp(self, n, env):
        acc = DictV()
        self.comp(n, env, lambda e: self.setitem(acc, self.ev(n.key, e), self.ev(n.value, e)), acc)
        return acc

    # ---------------- containers
    def list_append(self, o, v):
        setslot(o, "segs", o.segs + [Item(v)])

    def list_extend(self, o, it):
        setslot(o, "segs", o.segs + self.segs_of(it))

    def set_add(self, o, v):
        setslot(o, "segs", o.segs + [Item(v)])

    def set_update(self, o, it):
        setslot(o, "segs", o.segs + self.segs_of(it))

    def set_filter(self, a, b, keep):
        out = []
        for s in a.segs:
            out.append(self.filter_seg(s, b, keep))
        return SetV(out)

    def filter_seg(self, s, b, keep):
        if isinstance(s, Item):
            m = self.contains(b, s.v)
            m = m if keep else simp(z3.Not(m))
            if z3.is_true(m):
                return s
            return Each(None, None, [([m], [s])])
        if isinstance(s, Each):
            if s.dom is None:
                return Each(None, None, [(g, [self.filter_seg(x, b, keep) for x in segs]) for g, segs in s.cases])
            v = C.new_index(s.dom)
            C.idx_stack.append((s.dom, v))
            try:
                cases = subst_cases(s.cases, [(s.var, v)])
                cases = [(g, [self.filter_seg(x, b, keep) for x in segs]) for g, segs in cases]
            finally:
                C.idx_stack.pop()
            return Each(s.dom, v, cases)
        if isinstance(s, SetSeg):
            return SetSeg([self.filter_seg(x, b, keep) for x in s.segs])
        raise Unsupported("filter of an accumulator")

    def dict_update(self, o, d):
        if isinstance(d, Dyn):
            d = resolve(d)
        if not isinstance(d, DictV):
            raise Unsupported(f"update with {d!r}")
        setslot(o, "segs", o.segs + list(d.segs))

    def dict_iter(self, d, f):
        """Segments of f(key, value); keys must be known to be pairwise different."""
        if not self.keys_distinct(d):
            raise Unsupported("iteration over a dict that may hold overwritten entries")

        def go(s):
            if isinstance(s, Item):
                return Item(f(*s.v))
            if isinstance(s, Each):
                return Each(s.dom, s.var, [(g, [go(x) for x in segs]) for g, segs in s.cases])
            raise Unsupported("iteration over an accumulator")

        return [go(s) for s in d.segs]

    def keys_distinct(self, d):
        if getattr(d, "distinct", False):
            return True
        return distinct_keys(d.segs)

    def dict_lookup(self, d, k, default=None, has_default=False):
        """value at key k; decides where it is."""
        for s in reversed(d.segs):
            r = self.seg_lookup(s, k)
            if r is not None:
                return r[0]
        if has_default:
            return default
        raise PyExc(KeyError, (k,))

    def seg_lookup(self, s, k):
        if isinstance(s, Item):
            if C.decide(eq(k, s.v[0])):
                return (s.v[1],)
            return None
        if isinstance(s, Each):
            if s.dom is None:
                for x in reversed(self.pick(s.cases)):
                    r = self.seg_lookup(x, k)
                    if r is not None:
                        return r
                return None
            v = C.new_index(s.dom)
            C.idx_stack.append((s.dom, v))
            try:
                cases = subst_cases(s.cases, [(s.var, v)])
                phi = case_formula(cases, lambda segs: segs_any(segs, lambda kv: eq(k, kv[0])))
            finally:
                C.idx_stack.pop()
            e, sk = C.exists(s.dom, v, phi, "last")
            if not C.decide(e):
                return None
            C.pc.append(s.dom.inr(sk))
            for x in reversed(subst_pick(s.cases, [(s.var, sk)])):
                r = self.seg_lookup(x, k)
                if r is not None:
                    return r
            raise Infeasible()
        if isinstance(s, Prefix):
            s.member(lambda kv: eq(k, kv[0]))
            return None
        raise Unsupported(f"lookup in {s!r}")

    def getitem(self, o, i):
        if isinstance(o, Dyn):
            o = resolve(o)
        if isinstance(o, DictV):
            return self.dict_lookup(o, i)
        if isinstance(o, tuple) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyExc(IndexError)
        if isinstance(o, ListV):
            return self.list_get(o, i)
        if isinstance(o, str) and isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                raise PyExc(IndexError)
        if hasattr(o, "gstr_index"):
            return o.gstr_index(i)
        if isinstance(o, type) and issubclass(o, enum.Enum):
            if isinstance(i, str):
                try:
                    return o[i]
                except KeyError:
                    raise PyExc(KeyError)
            raise Unsupported("enum lookup by a symbolic name")
        for m in self.item_models:
            r = m(o, i)
            if r is not NotImplemented:
                return r
        if isinstance(o, Sym) and o.k == "str":
            t = intterm(i)
            if t is not None:
                if C.decide(simp(o.t == C.lit(""))):
                    raise PyExc(IndexError)
                n = C.uf("len", StrS, IntS)(o.t)
                if not (isinstance(i, int) and i in (0, -1)) and C.decide(simp(z3.Or(t >= n, t < -n))):
                    raise PyExc(IndexError)
                return Sym("str", C.uf("char_at", StrS, IntS, StrS)(o.t, t))
        if o is None:
            raise PyExc(TypeError)
        raise Unsupported(f"item of {o!r}")

    item_models = []

    def list_get(self, o, i):
        if isinstance(i, int):
            segs = o.segs if i >= 0 else list(reversed(o.segs))
            n = i if i >= 0 else -i - 1
            k = 0
            for s in segs:
                if isinstance(s, Item):
                    if k == n:
                        return s.v
                    k += 1
                    continue
                if isinstance(s, Each) and s.dom is not None and k == n and one_item(s) and i >= 0:
                    if C.decide(s.dom.hi > 0):
                        z = z3.IntVal(0)
                        C.register(s.dom.fam, s.dom.outer + (z,))
                        segs0 = subst_pick(s.cases, [(s.var, z)])
                        return segs0[0].v
                    continue
                if isinstance(s, Each) and s.dom is not None and k == n and i >= 0 and all(not segs or len(segs) == 1 and isinstance(segs[0], Item) for _, segs in s.cases):
                    # the first one that is there
                    v = C.new_index(s.dom)
                    phi = case_formula(subst_cases(s.cases, [(s.var, v)]), lambda segs: TRUE if segs else FALSE)
                    e, sk = C.exists(s.dom, v, phi, "first")
                    if C.decide(e):
                        C.pc.append(s.dom.inr(sk))
                        segs0 = subst_pick(s.cases, [(s.var, sk)])
                        if not segs0:
                            raise Infeasible()
                        return segs0[0].v
                    continue
                if isinstance(s, Each) and s.dom is None:
                    sub = self.pick(s.cases)
                    if all(isinstance(x, Item) for x in sub):
                        if len(sub) > n - k:
                            return sub[n - k if i >= 0 else len(sub) - 1 - (n - k)].v
                        k += len(sub)
                        continue
                raise Unsupported("element of a list of unknown length")
            raise PyExc(IndexError)
        t = intterm(i)
        if t is not None and len(o.segs) == 1 and isinstance(o.segs[0], Each) and o.segs[0].dom is not None and one_item(o.segs[0]):
            s = o.segs[0]
            if not C.valid(z3.And(t >= 0, t < s.dom.hi)):
                raise Unsupported("index that may be out of range")
            C.register(s.dom.fam, s.dom.outer + (t,))
            return subst_pick(s.cases, [(s.var, t)])[0].v
        raise Unsupported("symbolic list index")

    def getslice(self, o, a, b, c):
        if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (a, b, c)):
            return o[slice(a, b, c)]
        if isinstance(o, ListV) and all(isinstance(s, Item) for s in o.segs):
            return ListV(o.segs[slice(a, b, c)])
        if isinstance(o, ListV) and (a, b, c) == (None, None, None):
            return ListV(list(o.segs))
        if hasattr(o, "gstr_slice"):
            return o.gstr_slice(a, b, c)
        if isinstance(o, ListV) and len(o.segs) == 1 and isinstance(o.segs[0], Each) and o.segs[0].dom is not None and c in (None, 1) \
                and all(one_item(s) for s in o.segs) and (len(o.segs[0].cases) == 1 and not o.segs[0].cases[0][0]):
            s = o.segs[0]
            n = s.dom.hi
            lo, hi = intterm(0 if a is None else a), n if b is None else intterm(b)
            if lo is not None and hi is not None:
                lo, hi = simp(z3.If(lo < 0, lo + n, lo)), simp(z3.If(hi < 0, hi + n, hi))
                C.register(s.dom.fam, s.dom.outer + (lo,))
                return ListV([Each(s.dom, s.var, [([simp(z3.And(s.var >= lo, s.var < hi))], s.cases[0][1])])])
        if isinstance(o, Sym) and o.k == "str":
            return Sym("str", C.uf(f"slice:{a}:{b}:{c}", StrS, StrS)(o.t))
        raise Unsupported(f"slice of {o!r}")

    def setitem(self, o, i, v):
        if isinstance(o, DictV):
            segs = list(o.segs)
            for k, s in enumerate(segs):
                if isinstance(s, Item) and same(s.v[0], i):
                    segs[k] = Item((i, v))
                    if all(isinstance(x, Item) and is_const(x.v[0]) for x in segs[k + 1:]) and is_const(i):
                        setslot(o, "segs", segs)
                        return
                    segs = list(o.segs)
                    break
            setslot(o, "segs", segs + [Item((i, v))])
            return
        if isinstance(o, ListV) and isinstance(i, int) and all(isinstance(s, Item) for s in o.segs):
            if not -len(o.segs) <= i < len(o.segs):
                raise PyExc(IndexError)
            segs = list(o.segs)
            segs[i] = Item(v)
            setslot(o, "segs", segs)
            return
        raise Unsupported(f"item assignment on {o!r}")

    def setattr(self, o, name, v):
        if isinstance(o, ObjV):
            if o.frozen:
                raise Unsupported("write to a summarised object")
            if name not in o.fields and getattr(o.cls, "__fields__", None) is not None:
                raise PyExc(ValueError, (), f"no field {name}")
            setkey(o, o.fields, name, v)
            return
        if o is None:
            raise PyExc(AttributeError)
        raise Unsupported(f"attribute assignment on {o!r}")

    def getattr(self, o, name):
        if isinstance(o, Poison):
            raise Unsupported(f"{o.name} from an earlier iteration")
        if isinstance(o, Dyn):
            o = resolve(o)
        for m in self.attr_models:
            r = m(o, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, ObjV):
            if name in o.fields:
                return o.fields[name]
            if isinstance(o.cls, type):
                a = inspect.getattr_static(o.cls, name, NotImplemented)
                if a is NotImplemented:
                    raise PyExc(AttributeError, (), name)
                if isinstance(a, property):
                    return self.call(a.fget, [o], {})
                if isinstance(a, types.FunctionType):
                    return BoundM(name, lambda args, kw: self.call(a, [o] + list(args), kw))
                if isinstance(a, classmethod):
                    return BoundM(name, lambda args, kw: self.call(a.__func__, [o.cls] + list(args), kw))
                if isinstance(a, staticmethod):
                    return a.__func__
                return lift(a)
        if o is None or isinstance(o, (bool, int, float)):
            if hasattr(o, name):
                return getattr(o, name)
            raise PyExc(AttributeError, (), f"{o!r}.{name}")
        if isinstance(o, types.ModuleType) or isinstance(o, type):
            a = getattr(o, name, NotImplemented)
            if a is NotImplemented:
                raise PyExc(AttributeError, (), name)
            return lift(a)
        if isinstance(o, enum.Enum):
            return getattr(o, name)
        if not isinstance(o, Val):
            a = getattr(o, name, NotImplemented)
            if a is NotImplemented:
                raise PyExc(AttributeError, (), name)
            return lift(a)
        raise Unsupported(f"attribute {name} of {o!r}")


def one_item(s):
    return all(len(segs) == 1 and isinstance(segs[0], Item) for _, segs in s.cases)


def simple(n):
    """evaluating it has no effect and cannot raise (names are bound, membership in strings)"""
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return simple(n.operand)
    if isinstance(n, ast.Compare):
        return simple(n.left) and all(simple(c) for c in n.comparators) and all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) for o in n.ops)
    if isinstance(n, ast.BoolOp):
        return all(simple(x) for x in n.values)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("endswith", "startswith") and not n.keywords:
        return simple(n.func.value) and all(simple(a) for a in n.args)
    return False


def const_simple(n):
    return isinstance(n, (ast.Compare, ast.Call, ast.UnaryOp))


def strlike(v):
    return isinstance(v, (str, StrCat)) or (isinstance(v, Sym) and v.k == "str") or hasattr(v, "gstr_subst") or (
        isinstance(v, Opaque) and v.name == "text")


def is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def loop_guess(body, target):
    """Names assigned in a loop body, and names of containers it calls mutators on."""
    names, objs = [], []
    nodes = list(body) + ([target] if target is not None else [])
    while nodes:
        n = nodes.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in names:
            names.append(n.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.attr in ("append", "extend", "add", "update", "setdefault", "insert"):
            objs.append(n.func.value.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            objs.append(n.value.id)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            objs.append("#yield")
        nodes.extend(ast.iter_child_nodes(n))
    return names, objs


def open_seg(s, conds=()):
    """The entries of a segment, at generic indices: [(value, conditions, [index])]"""
    if isinstance(s, Item):
        return [(s.v, list(conds), [])]
    if isinstance(s, SetSeg):
        return [x for t in s.segs for x in open_seg(t, conds)]
    if isinstance(s, Each):
        if s.dom is None:
            return [x for g, segs in s.cases for t in segs for x in open_seg(t, list(conds) + list(g))]
        u = C.new_index(s.dom, "u")
        C.register(s.dom.fam, s.dom.outer + (u,))
        out = []
        for g, segs in subst_cases(s.cases, [(s.var, u)]):
            for t in segs:
                for val, cs, ix in open_seg(t, list(conds) + [s.dom.inr(u)] + list(g)):
                    out.append((val, cs, [u] + ix))
        return out
    raise Unsupported(f"entries of {s!r}")


def grouped(entries, key):
    """entries (value, conditions, indices) whose key(value) is the same, with the conditions joined"""
    out = []
    for x, cs, ix in entries:
        k = key(x)
        for g in out:
            if g[2] == ix and type(g[0]) is type(k) and (same(g[0], k) if not is_const(k) else g[0] == k):
                g[1].append(cs)
                break
        else:
            out.append((k, [cs], ix))
    return [(k, css[0] if len(css) == 1 else [simp(z3.Or([z3.And(c) if c else TRUE for c in css]))], ix) for k, css, ix in out]


def distinct_keys(segs):
    """All keys of the segments provably pairwise different (at most one entry per key)."""
    try:
        one = [open_seg(s) for s in segs]
        two = [open_seg(s) for s in segs]
    except Unsupported:
        return False
    s1 = grouped([((x[0][0],),) + tuple(x[1:]) for o in one for x in o], lambda x: x)
    s2 = grouped([((x[0][0],),) + tuple(x[1:]) for o in two for x in o], lambda x: x)
    for i, (k1, c1, x1) in enumerate(s1):
        for j, (k2, c2, x2) in enumerate(s2):
            if j < i or (i == j and not x1):
                continue
            k, l = k1[0], k2[0]
            if is_const(k) and is_const(l):
                if k == l:
                    return False
                continue
            C.pc, save = list(C.pc), C.pc
            try:
                C.pc += c1 + c2
                if i == j:
                    C.pc.append(z3.Not(z3.And([a == b for a, b in zip(x1, x2)])))
                if not C.valid(z3.Not(eq(k, l))):
                    return False
            finally:
                C.pc = save
    return True


class Loc:
    """A location that a loop body changes: accumulator or temporary."""

    def __init__(self, owner, slot):
        self.owner, self.slot = owner, slot
        self.init = self.get()
        self.P = self.Pterm = None
        self.prefix = None
        self.settled = False
        self.bad = self.unchanged = self.mono = False
        self.deltaterm = None
        v = self.init
        if slot == "segs":
            self.kind = "segs"
        elif isinstance(v, (ListV, SetV, DictV)):
            self.kind = "container"
        elif isinstance(v, (int, Sym)) and not isinstance(v, bool) and intterm(v) is not None and not (isinstance(v, Sym) and v.k == "bool"):
            self.kind = "int"
        else:
            self.kind = "temp"
        self.start = None

    def get(self):
        if self.slot == "segs":
            return self.owner.segs
        if isinstance(self.slot, tuple):
            return self.slots().get(self.slot[1], MISSING)
        return getattr(self.owner, self.slot)

    def put(self, v):
        if self.slot == "segs":
            setslot(self.owner, "segs", v)
        elif isinstance(self.slot, tuple):
            if v is MISSING:
                return
            setkey(self.owner, self.slots(), self.slot[1], v)
        else:
            setslot(self.owner, self.slot, v)

    def slots(self):
        for n in ("vars", "fields", "files"):
            d = getattr(self.owner, n, None)
            if d is not None:
                return d
        raise Unsupported(f"{self.owner} changed in a loop")

    def havoc(self, name, ctx, v, dom):
        mark = len(TOUCH)
        if self.kind == "int":
            if self.P is None:
                sorts = [t.sort() for _, t in ctx]
                n = f"{name}.{self.slotname()}.{self.owner.birth if not isinstance(self.owner, Env) else ''}"
                self.P = z3.Function(n, *sorts, IntS, IntS)
                self.Pterm = lambda t, ctx=[t for _, t in ctx]: self.P(*ctx, t)
            self.start = intterm(self.init) + self.Pterm(v)
            self.put(Sym("int", self.start))
        elif self.kind in ("segs", "container"):
            if self.prefix is None:
                self.prefix = PrefixTok(self)
            if self.kind == "segs":
                # what was there before the loop stays in front
                self.put(list(self.init) + [self.prefix])
            else:
                o = type(self.init)(list(self.init.segs) + [self.prefix])
                self.put(o)
        else:
            self.put(Poison(self.slotname()))
        del TOUCH[mark:]

    def slotname(self):
        return self.slot[1] if isinstance(self.slot, tuple) else str(self.slot)

    def delta(self, birth):
        """What this path did to the location."""
        cur = self.get()
        if self.kind == "int":
            t = intterm(cur) if not isinstance(cur, Poison) else None
            if t is None:
                return "opaque"
            d = simp(t - self.start)
            return None if z3.is_int_value(d) and d.as_long() == 0 else d
        if self.kind in ("segs", "container"):
            segs = cur if self.kind == "segs" else getattr(cur, "segs", None)
            if segs is None or (self.kind == "container" and type(cur) is not type(self.init)):
                return "replaced"
            base = list(self.init) if self.kind == "segs" else list(self.init.segs)
            n = len(base)
            if len(segs) < n + 1 or segs[n] is not self.prefix or not all(a is b for a, b in zip(segs, base)):
                return "replaced"
            if any(s is self.prefix for s in segs[n + 1:]):
                return "replaced"
            return [freeze_seg(s, birth) for s in segs[n + 1:]]
        if isinstance(cur, Poison):
            return None
        return ("assigned", freeze(cur, birth))

    def apply(self, ds, dom, v):
        if self.kind == "int":
            if self.unchanged:
                self.put(self.init)
            elif self.bad:
                self.put(Poison(self.slotname()))
            else:
                self.put(mk("int", intterm(self.init) + self.Pterm(dom.hi)))
                C.fact_here(dom)
            return
        if self.kind in ("segs", "container"):
            if any(d == "replaced" for _, d in ds):
                if self.kind == "container":
                    self.put(Poison(self.slotname()))
                    return
                raise Unsupported("a container is rebuilt inside a loop")
            cases = collapse([(c, d or []) for c, d in ds], lambda a, b: len(a) == len(b) and all(same_seg(x, y) for x, y in zip(a, b)))
            base = list(self.init) if self.kind == "segs" else list(self.init.segs)
            if any(segs for _, segs in cases):
                new = base + [Each(dom, v, cases)]
            else:
                new = base
            if self.kind == "segs":
                self.put(new)
            else:
                self.put(type(self.init)(new))
            return
        # temporaries: constant flags are tracked, anything else must not be read
        vals = [(c, d[1]) for c, d in ds if d is not None]
        if not vals:
            self.put(self.init)
            return
        if all(is_const(x) for _, x in vals) and all(x is vals[0][1] for _, x in vals) and self.init is not MISSING:
            g = simp(z3.Or([z3.And(c) if c else TRUE for c, _ in vals]))
            e, _ = C.exists(dom, v, g)
            self.put(vals[0][1] if C.decide(e) else self.init)
            return
        self.put(Poison(self.slotname()))


MISSING = Poison("an unassigned variable")


class PrefixTok(Prefix):
    """Content added by the iterations before the current one."""

    __slots__ = ("loc", "queries")

    def __init__(self, loc):
        super().__init__(None)
        self.loc = loc
        self.queries = []

    def member(self, pred):
        self.queries.append((pred, list(C.pc)))
        return FALSE


def _fact_here(dom):
    pass


C.fact_here = _fact_here
E = Interp()
E.world = None
E_ = E
E_bind = None
E.class_models = []
E.binop_models = []
E.item_models = []
E_models = E.models
E.attr_models = []
E.loops = 0


def reset():
    C.reset()
    del TOUCH[:]
    E.depth = 0
    E.events = E.iteration = E.printed = None
    E.inlined, E.used_contracts, E.used_models = set(), set(), set()
    E.no_contract = set()
