"""Models of what the code under contract calls outside of /repo (the trusted base of the
structural proofs): builtins, pydantic v1 models, files, json, clock, logger, paths.

Every model is listed in the evidence when it was used.
"""
import ast
import builtins
import enum
import inspect
import itertools
import json
import json.decoder
import logging
import os
import pathlib
import types

import z3

from .core import (C, BoolS, Cell, Dom, DictV, Dyn, Each, FALSE, Family, Infeasible, IntS, Item, ListV, Obj, ObjV, Opaque,
                   Prefix, SetSeg, SetV, StrCat, StrS, Sym, TRUE, Unsupported, V, Val, setkey, setslot, simp)
from .interp import (ANYTEXT, BoundM, E, Env, FuncV, MISSING, Poison, PyExc, case_formula, distinct_keys, eq, f_of, intterm, is_const, lift, mk,
                     one_item, resolve, same, seg_any, seg_nonempty, segs_any, strlike, strterm, subst, subst_cases, truth)

import pydantic


def model(*fns):
    def deco(h):
        for f in fns:
            E.models[f] = h
        return h

    return deco


def bound(name, f):
    return BoundM(name, f)


def exc(cls, *args):
    raise PyExc(cls, args)


# ------------------------------------------------------------------ helpers on segments
def map_segs(segs, f):
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(Item(f(s.v)))
        elif isinstance(s, Each):
            if s.dom is None:
                out.append(Each(None, None, [(list(g), map_segs(x, f)) for g, x in s.cases]))
                continue
            v = C.new_index(s.dom)
            C.idx_stack.append((s.dom, v))
            try:
                cases = subst_cases(s.cases, [(s.var, v)])
                out.append(Each(s.dom, v, [(list(g), map_segs(x, f)) for g, x in cases]))
            finally:
                C.idx_stack.pop()
        elif isinstance(s, SetSeg):
            out.append(SetSeg(map_segs(s.segs, f)))
        else:
            raise Unsupported("mapping an accumulator")
    return out


def all_items(segs):
    """Items of a sequence whose length is known after deciding its conditional parts; None otherwise."""
    out = []
    for s in segs:
        if isinstance(s, Item):
            out.append(s.v)
        elif isinstance(s, Each) and s.dom is None:
            sub = all_items(E.pick(s.cases))
            if sub is None:
                return None
            out += sub
        elif isinstance(s, SetSeg):
            sub = all_items(s.segs)
            if sub is None:
                return None
            for x in sub:
                if not any(C.decide(eq(x, y)) for y in out):
                    out.append(x)
        else:
            return None
    return out


def distinct_items(vals):
    out = []
    for x in vals:
        if not any(C.decide(eq(x, y)) for y in out):
            out.append(x)
    return out


def length(v):
    if isinstance(v, Dyn):
        v = resolve(v)
    if isinstance(v, (str, tuple, bytes, range)):
        return len(v)
    if isinstance(v, (ListV, SetV, DictV)):
        items = all_items(v.segs)
        if items is not None:
            if isinstance(v, SetV):
                return len(distinct_items(items))
            if isinstance(v, DictV):
                return len(distinct_items([k for k, _ in items]))
            return len(items)
        if isinstance(v, ListV) and len(v.segs) == 1 and isinstance(v.segs[0], Each) and v.segs[0].dom is not None and one_item(v.segs[0]) and len(v.segs[0].cases) == 1 and not v.segs[0].cases[0][0]:
            hi = v.segs[0].dom.hi
            if not z3.is_int_value(hi):
                C.lengths[hi.get_id()] = (hi, v.segs[0].dom)
            return mk("int", hi)
        n = E.weighted(v.segs, 1) if isinstance(v, ListV) and hasattr(E, "weighted") else None
        if n is None:
            n = C.fresh("len", IntS)
        C.fact(n >= 0)
        full = seg_nonempty(v.segs)
        C.fact((n > 0) == full)
        return Sym("int", n, ("nonempty", full))
    if strlike(v):
        if hasattr(v, "gstr_len"):
            return v.gstr_len()
        if isinstance(v, Opaque):
            n = C.fresh("len", IntS)
            C.fact(n >= 0)
            return Sym("int", n)
        t = C.uf("len", StrS, IntS)(strterm(v))
        C.fact(t >= 0)
        C.fact((t == 0) == (strterm(v) == C.lit("")))
        return Sym("int", t)
    if isinstance(v, ObjV):
        ln = inspect.getattr_static(v.cls, "__len__", None)
        if ln is not None:
            return E.call(ln, [v], {})
    if isinstance(v, type) and issubclass(v, enum.Enum):
        return len(v)
    if v is None or is_const(v) or isinstance(v, Sym):
        exc(TypeError)
    raise Unsupported(f"len of {v!r}")


# ------------------------------------------------------------------ builtins
@model(len)
def _(a, k):
    return length(a[0])


@model(str)
def _(a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, Opaque) and v.name == "path":
        return v.astext(v) if hasattr(v, "astext") else Opaque("pathtext", path=v)
    return E.to_str(v)


@model(repr, ascii, format)
def _(a, k):
    return ANYTEXT


@model(int)
def _(a, k):
    if not a:
        return 0
    v = resolve(a[0])
    if isinstance(v, bool) or isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            exc(ValueError)
    if isinstance(v, Sym) and v.k == "int":
        return v
    if isinstance(v, Sym) and v.k == "bool":
        return mk("int", intterm(v))
    if hasattr(v, "gstr_int"):
        return v.gstr_int()
    if isinstance(v, Sym) and v.k == "str":
        if not C.decide(C.uf("is_num", StrS, BoolS)(v.t)):
            exc(ValueError)
        return Sym("int", C.uf("int_of", StrS, IntS)(v.t))
    if v is None or isinstance(v, (ListV, DictV, SetV)):
        exc(TypeError)
    raise Unsupported(f"int of {v!r}")


@model(float)
def _(a, k):
    v = resolve(a[0])
    if is_const(v):
        try:
            return float(v)
        except (ValueError, TypeError) as e:
            exc(type(e))
    if hasattr(v, "gstr_float"):
        return v.gstr_float()
    if isinstance(v, Sym) and v.k == "str":
        if not C.decide(C.uf("is_float", StrS, BoolS)(v.t)):
            exc(ValueError)
        return Opaque("float", term=C.uf("float_of", StrS, IntS)(v.t))
    raise Unsupported(f"float of {v!r}")


@model(bool)
def _(a, k):
    return mk("bool", truth(a[0])) if a else False


@model(list)
def _(a, k):
    if not a:
        return ListV()
    v = a[0]
    if isinstance(v, SetV):
        # one occurrence of each element, in an order that is not specified
        return ListV([SetSeg(list(v.segs))])
    return ListV(E.segs_of(v))


@model(tuple)
def _(a, k):
    if not a:
        return ()
    if isinstance(a[0], tuple):
        return a[0]
    segs = E.segs_of(a[0])
    items = all_items(segs)
    if items is None:
        return ListV(segs)
    return tuple(items)


@model(set, frozenset)
def _(a, k):
    if not a:
        return SetV()
    return SetV(E.segs_of(a[0]))


@model(dict)
def _(a, k):
    d = DictV()
    if a:
        v = resolve(a[0])
        if isinstance(v, DictV):
            d = DictV(list(v.segs))
            if getattr(v, "distinct", False):
                d.distinct = True
        else:
            segs = E.segs_of(v)

            def pair(x):
                if isinstance(x, tuple) and len(x) == 2:
                    return x
                if isinstance(x, ListV):
                    it = all_items(x.segs)
                    if it is not None and len(it) == 2:
                        return tuple(it)
                raise Unsupported("dict from something that is not pairs")

            d = DictV(map_segs(segs, pair))
    for n, v in k.items():
        E.setitem(d, n, v)
    return d


def dict_fromkeys(a, k):
    segs = E.segs_of(a[0])
    v = a[1] if len(a) > 1 else None
    return DictV(map_segs(segs, lambda x: (x, v)))


@model(sorted)
def _(a, k):
    v = a[0]
    items = None
    if isinstance(v, (ListV, SetV, tuple, DictV)) and not k.get("key"):
        segs = E.segs_of(v)
        if all(isinstance(s, Item) and is_const(s.v) for s in segs):
            vals = [s.v for s in segs]
            vals = list(set(vals)) if isinstance(v, SetV) else vals
            try:
                return ListV([Item(x) for x in sorted(vals, reverse=bool(k.get("reverse", False)))])
            except TypeError:
                exc(TypeError)
    o = ListV([SortedSeg(E.segs_of(v), k)] if False else [Perm(E.segs_of(v), ("sorted", k.get("key"), k.get("reverse", False)))])
    return o


class Perm(SetSeg):
    """The same elements in another order."""

    __slots__ = ("how",)

    def __init__(self, segs, how):
        super().__init__(segs)
        self.how = how


@model(reversed)
def _(a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return ListV([Item(x) for x in reversed(v)])
    return ListV([Perm(E.segs_of(v), ("reversed",))] if not all(isinstance(s, Item) for s in E.segs_of(v)) else list(reversed(E.segs_of(v))))


@model(range)
def _(a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    t = intterm(a[-1]) if len(a) == 1 or len(a) == 2 and isinstance(a[0], int) and a[0] >= 0 else None
    known = C.lengths.get(t.get_id()) if t is not None else None
    if known is not None and known[0].eq(t):  # the indices of a sequence whose length it is
        v = C.new_index(known[1])
        first = a[0] if len(a) == 2 else 0
        return ListV([Each(known[1], v, [([simp(v >= first)] if first else [], [Item(mk("int", v))])])])
    raise Unsupported("range of unknown length")


@model(enumerate)
def _(a, k):
    segs = E.segs_of(a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = all_items(segs)
    if items is not None and isinstance(start, int):
        return ListV([Item((start + i, x)) for i, x in enumerate(items)])
    if len(segs) == 1 and isinstance(segs[0], Each) and segs[0].dom is not None and one_item(segs[0]):
        s = segs[0]
        v = C.new_index(s.dom)
        cases = subst_cases(s.cases, [(s.var, v)])
        st = intterm(start)
        return ListV([Each(s.dom, v, [(g, [Item((mk("int", st + v), x[0].v))]) for g, x in cases])])
    env = Env({})
    env.vars["them"], env.vars["number"], env.vars["follow"] = ListV(segs), ObjV(Counting, {"next": start, "step": 1}), next
    return E.ev(NUMBERED, env)


NUMBERED = ast.parse("[(follow(number), x) for x in them]", mode="eval").body


@model(zip)
def _(a, k):
    segs = [E.segs_of(x) for x in a]
    its = [all_items(s) for s in segs]
    if all(i is not None for i in its):
        return ListV([Item(t) for t in zip(*its)])
    return zip_open(segs, its)


def zip_open(segs, its):
    """zip of sequences of which one has unknown length and the others are known texts or numbers, or of the same length"""
    opens = [s[0] for s, i in zip(segs, its) if i is None and len(s) == 1]
    if len(opens) != sum(i is None for i in its) or not all(isinstance(s, Each) and s.dom is not None and s.dom.full() and one_item(s) for s in opens):
        raise Unsupported("zip of sequences of unknown length")
    dom = opens[0].dom
    if not all(s.dom.fam is dom.fam and all(x.eq(y) for x, y in zip(s.dom.outer, dom.outer)) for s in opens):
        raise Unsupported("zip of sequences of different unknown lengths")
    hi = dom.hi
    for i in its:
        if i is not None:
            if not i or not all(isinstance(x, str) for x in i) and not all(type(x) is int for x in i):
                raise Unsupported("zip of sequences of unknown length")
            hi = z3.If(hi < len(i), hi, z3.IntVal(len(i)))
    dom = Dom(dom.fam, dom.outer, simp(hi))
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    try:
        cases = [([], ())]
        for seg, items in zip(segs, its):
            if items is not None:
                x = known_at(items, v, dom)
                cases = [(g, t + (x,)) for g, t in cases]
            else:
                cases = [(list(g) + list(h), t + (x[0].v,)) for g, t in cases for h, x in subst_cases(seg[0].cases, [(seg[0].var, v)])]
    finally:
        C.idx_stack.pop()
    return ListV([Each(dom, v, [(g, [Item(t)]) for g, t in cases])])


def known_at(items, v, dom):
    """element v of a list of known texts or numbers"""
    kind = "str" if isinstance(items[0], str) else "int"
    at = C.uf("at:" + repr(items), IntS, StrS if kind == "str" else IntS)
    lit = C.lit if kind == "str" else z3.IntVal
    C.fact(z3.Implies(dom.inr(v), z3.Or([z3.And(v == i, at(v) == lit(x)) for i, x in enumerate(items)])))
    return Sym(kind, at(v))


@model(map)
def _(a, k):
    acc = ListV()
    if len(a) != 2:
        raise Unsupported("map")
    E.loop(a[1], lambda x: E.list_append(acc, E.call(a[0], [x], {})), None, ([], []))
    return acc


@model(filter)
def _(a, k):
    acc = ListV()

    def body(x):
        if C.decide(truth(x if a[0] is None else E.call(a[0], [x], {}))):
            E.list_append(acc, x)

    E.loop(a[1], body, None, ([], []))
    return acc


@model(any)
def _(a, k):
    return mk("bool", segs_any(E.segs_of(a[0]), truth))


@model(all)
def _(a, k):
    return mk("bool", z3.Not(segs_any(E.segs_of(a[0]), lambda x: z3.Not(truth(x)))))


@model(sum)
def _(a, k):
    items = all_items(E.segs_of(a[0]))
    start = a[1] if len(a) > 1 else 0
    if items is None:
        raise Unsupported("sum over a sequence of unknown length")
    import ast
    r = start
    for x in items:
        r = E.binop(ast.Add(), r, x)
    return r


@model(max, min)
def _(a, k):
    raise Unsupported("max/min")


@model(isinstance)
def _(a, k):
    v, cls = a
    clss = cls if isinstance(cls, tuple) else (cls,)
    v = resolve(v)

    def one(c):
        if isinstance(c, types.UnionType):
            return any(one(x) for x in c.__args__)
        if isinstance(v, ObjV):
            return isinstance(v.cls, type) and issubclass(v.cls, c)
        if isinstance(v, ListV):
            return c in (list, object)
        if isinstance(v, SetV):
            return c in (set, object)
        if isinstance(v, DictV):
            return c in (dict, object)
        if isinstance(v, Sym):
            return {"int": int, "bool": bool, "str": str}[v.k] is c or (v.k == "bool" and c is int) or c is object
        if strlike(v):
            return c in (str, object)
        if isinstance(v, tuple) or is_const(v):
            return isinstance(v, c)
        if isinstance(v, Opaque) and v.name == "path":
            return c in (pathlib.Path, pathlib.PurePath, object)
        if isinstance(v, Opaque) and v.name == "exc":
            return issubclass(v.cls, c)
        if isinstance(v, Val):
            raise Unsupported(f"isinstance of {v!r}")
        return isinstance(v, c)

    return any(one(c) for c in clss)


@model(type)
def _(a, k):
    v = resolve(a[0])
    if isinstance(v, ObjV):
        return v.cls
    if is_const(v) or isinstance(v, tuple):
        return type(v)
    if isinstance(v, Sym):
        return {"int": int, "bool": bool, "str": str}[v.k]
    if isinstance(v, ListV):
        return list
    if isinstance(v, DictV):
        return dict
    if isinstance(v, SetV):
        return set
    if isinstance(v, Opaque) and v.name == "exc":
        return v.cls
    raise Unsupported("type()")


@model(print)
def _(a, k):
    E.log("print", tuple(a))
    if E.printed is not None:
        E.call(E.getattr(E.printed, "append"), [tuple(a)], {})


@model(input)
def _(a, k):
    line = Sym("str", C.fresh("line", StrS))
    E.log("input", line)
    return line


@model(getattr)
def _(a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return E.getattr(a[0], a[1])
    except PyExc as e:
        if len(a) > 2 and issubclass(e.cls, AttributeError):
            return a[2]
        raise


@model(setattr)
def _(a, k):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with a symbolic name")
    E.setattr(a[0], a[1], a[2])


@model(hasattr)
def _(a, k):
    try:
        E.getattr(a[0], a[1])
        return True
    except PyExc:
        return False


class Counting:
    """itertools.count: the next number is its state"""


@model(itertools.count)
def _(a, k):
    start = a[0] if a else k.get("start", 0)
    step = a[1] if len(a) > 1 else k.get("step", 1)
    if intterm(start) is None or not isinstance(step, int):
        raise Unsupported("count")
    return ObjV(Counting, {"next": start, "step": step})


@model(itertools.chain)
def _(a, k):
    return ListV([s for x in a for s in E.segs_of(x)])


@model(itertools.chain.from_iterable)
def _(a, k):
    env = Env({})
    env.vars["them"] = a[0]
    return E.ev(FLATTEN, env)


FLATTEN = ast.parse("[x for xs in them for x in xs]", mode="eval").body


@model(next)
def _(a, k):
    if isinstance(a[0], ObjV) and a[0].cls is Counting:
        n = a[0].fields["next"]
        setkey(a[0], a[0].fields, "next", E.binop(ast.Add(), n, a[0].fields["step"]))
        return n
    items = all_items(E.segs_of(a[0]))
    if items:
        return items[0]
    if items == []:
        if len(a) > 1:
            return a[1]
        exc(StopIteration)
    segs = E.segs_of(a[0])
    if not C.decide(seg_nonempty(segs)):
        if len(a) > 1:
            return a[1]
        exc(StopIteration)
    return E.list_get(ListV(segs), 0)


@model(iter)
def _(a, k):
    return ListV(E.segs_of(a[0]))


@model(callable)
def _(a, k):
    return isinstance(a[0], (FuncV, BoundM, type)) or callable(a[0])


@model(abs)
def _(a, k):
    t = intterm(a[0])
    return mk("int", z3.If(t < 0, -t, t))


@model(ord, chr, hash, id)
def _(a, k):
    if all(is_const(x) for x in a) and len(a) == 1:
        try:
            return ord(a[0]) if isinstance(a[0], str) else chr(a[0])
        except (TypeError, ValueError) as e:
            exc(type(e))
    raise Unsupported("ord/chr")


import copy as _copy


def deep(v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, (ListV, SetV, DictV)):
        n = type(v)()
        memo[id(v)] = n
        n.segs = map_segs(v.segs, lambda x: deep(x, memo))
        if getattr(v, "distinct", False):
            n.distinct = True
        return n
    if isinstance(v, ObjV):
        n = ObjV(v.cls)
        memo[id(v)] = n
        n.fields = {k: deep(x, memo) for k, x in v.fields.items()}
        return n
    if isinstance(v, tuple):
        return tuple(deep(x, memo) for x in v)
    return v


@model(_copy.deepcopy)
def _(a, k):
    return deep(a[0])


@model(_copy.copy)
def _(a, k):
    v = a[0]
    if isinstance(v, (ListV, SetV, DictV)):
        n = type(v)(list(v.segs))
        return n
    if isinstance(v, ObjV):
        return ObjV(v.cls, v.fields)
    return v


# ------------------------------------------------------------------ methods of containers and strings
def m_list(o, name):
    def append(a, k):
        E.list_append(o, a[0])

    def extend(a, k):
        E.list_extend(o, a[0])

    def copy(a, k):
        return ListV(list(o.segs))

    def clear(a, k):
        setslot(o, "segs", [])

    def insert(a, k):
        if isinstance(a[0], int) and a[0] == 0:
            setslot(o, "segs", [Item(a[1])] + o.segs)
        elif isinstance(a[0], int) and all(isinstance(s, Item) for s in o.segs):
            segs = list(o.segs)
            segs.insert(a[0], Item(a[1]))
            setslot(o, "segs", segs)
        else:
            raise Unsupported("insert")

    def pop(a, k):
        i = a[0] if a else -1
        if isinstance(i, int) and all(isinstance(s, Item) for s in o.segs):
            segs = list(o.segs)
            try:
                x = segs.pop(i)
            except IndexError:
                exc(IndexError)
            setslot(o, "segs", segs)
            return x.v
        raise Unsupported("pop from a list of unknown length")

    def reverse(a, k):
        if all(isinstance(s, Item) for s in o.segs):
            setslot(o, "segs", list(reversed(o.segs)))
        else:
            setslot(o, "segs", [Perm(list(o.segs), ("reversed",))])

    def sort(a, k):
        r = E.models[sorted]([o], k)
        setslot(o, "segs", r.segs)

    def count(a, k):
        items = all_items(o.segs)
        if items is None:
            raise Unsupported("count")
        return sum(1 for x in items if C.decide(eq(x, a[0])))

    def index(a, k):
        items = all_items(o.segs)
        if items is None:
            raise Unsupported("index")
        for i, x in enumerate(items):
            if C.decide(eq(x, a[0])):
                return i
        exc(ValueError)

    def remove(a, k):
        if not all(isinstance(s, Item) for s in o.segs):
            raise Unsupported("remove")
        for i, s in enumerate(o.segs):
            if C.decide(eq(s.v, a[0])):
                setslot(o, "segs", o.segs[:i] + o.segs[i + 1:])
                return None
        exc(ValueError)

    return locals().get(name)


def set_without(o, x):
    """segments of o without x"""
    return E.set_filter(o, SetV([Item(x)]), False).segs


def m_set(o, name):
    def add(a, k):
        E.set_add(o, a[0])

    def update(a, k):
        for x in a:
            E.set_update(o, x)

    def union(a, k):
        n = SetV(list(o.segs))
        for x in a:
            n.segs = n.segs + E.segs_of(x)
        return n

    def copy(a, k):
        return SetV(list(o.segs))

    def as_set(x):
        return x if isinstance(x, SetV) else SetV(E.segs_of(x))

    def intersection(a, k):
        r = o
        for x in a:
            r = E.set_filter(r, as_set(x), True)
        return r if a else SetV(list(o.segs))

    def difference(a, k):
        r = o
        for x in a:
            r = E.set_filter(r, as_set(x), False)
        return r if a else SetV(list(o.segs))

    def symmetric_difference(a, k):
        b = as_set(a[0])
        return SetV(E.set_filter(o, b, False).segs + E.set_filter(b, o, False).segs)

    def issubset(a, k):
        return mk("bool", E.subset(o, as_set(a[0])))

    def issuperset(a, k):
        return mk("bool", E.subset(as_set(a[0]), o))

    def isdisjoint(a, k):
        return mk("bool", z3.Not(seg_nonempty(E.set_filter(o, as_set(a[0]), True).segs)))

    def discard(a, k):
        setslot(o, "segs", set_without(o, a[0]))

    def remove(a, k):
        if not C.decide(E.contains(o, a[0])):
            exc(KeyError)
        setslot(o, "segs", set_without(o, a[0]))

    def clear(a, k):
        setslot(o, "segs", [])

    return locals().get(name)


def m_dict(o, name):
    def get(a, k):
        return E.dict_lookup(o, a[0], a[1] if len(a) > 1 else k.get("default"), True)

    def items(a, k):
        return ListV(E.dict_iter(o, lambda x, y: (x, y)))

    def keys(a, k):
        n = ListV(E.dict_iter(o, lambda x, y: x))
        n.view = True
        return n

    def values(a, k):
        return ListV(E.dict_iter(o, lambda x, y: y))

    def update(a, k):
        for x in a:
            if not isinstance(resolve(x), DictV):
                x = E.models[dict]([x], {})
            E.dict_update(o, x)
        for n, v in k.items():
            E.setitem(o, n, v)

    def copy(a, k):
        n = DictV(list(o.segs))
        if getattr(o, "distinct", False):
            n.distinct = True
        return n

    def setdefault(a, k):
        d = a[1] if len(a) > 1 else None
        miss = object()
        v = E.dict_lookup(o, a[0], miss, True)
        if v is miss:
            E.setitem(o, a[0], d)
            return d
        return v

    def pop(a, k):
        items_ = o.segs
        if all(isinstance(s, Item) for s in items_):
            miss = object()
            for i in range(len(items_) - 1, -1, -1):
                if C.decide(eq(items_[i].v[0], a[0])):
                    v = items_[i].v[1]
                    setslot(o, "segs", [s for j, s in enumerate(items_) if j != i])
                    return v
            if len(a) > 1:
                return a[1]
            exc(KeyError)
        raise Unsupported("dict.pop")

    def clear(a, k):
        setslot(o, "segs", [])

    fromkeys = dict_fromkeys
    return locals().get(name)


STR_UF = ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "swapcase")


def m_str(o, name):
    def uf(a, k):
        if all(isinstance(x, (str, int)) for x in a) and not k:
            return Sym("str", C.uf(f"str.{name}:{a!r}", StrS, StrS)(strterm(o)))
        return ANYTEXT

    def boolean(a, k):
        if len(a) == 1 and isinstance(a[0], tuple):
            return mk("bool", z3.Or([f_of(boolean([x], {})) for x in a[0]]))
        if all(strlike(x) for x in a):
            return Sym("bool", C.uf(f"str.{name}", *([StrS] * (1 + len(a))), BoolS)(strterm(o), *[strterm(x) for x in a]))
        raise Unsupported(f"str.{name}")

    def split(a, k):
        key = f"split:{a!r}"
        fam = C.families.get(key)
        if fam is None:
            idf = C.uf("txt_id", StrS, IntS)
            lenf = C.uf(key + ":len", IntS, IntS)
            elf = C.uf(key + ":el", IntS, IntS, StrS)
            fam = Family(key, 2, lambda outer: lenf(*outer), None)
            fam.el = elf
            fam.idf = idf
            C.families[key] = fam
        t = fam.idf(strterm(o))
        dom = Dom(fam, (t,))
        C.fact(dom.hi >= 0)
        v = C.new_index(dom)
        return ListV([Each(dom, v, [([], [Item(Sym("str", fam.el(t, v)))])])])

    def join(a, k):
        items = all_items(E.segs_of(a[0]))
        if items is None or not all(strlike(x) for x in items):
            return ANYTEXT
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(o)
            parts.append(x)
        return E.concat(parts)

    def format(a, k):
        return ANYTEXT

    def count(a, k):
        t = C.uf("str.count", StrS, StrS, IntS)(strterm(o), strterm(a[0]))
        C.fact(t >= 0)
        return Sym("int", t)

    if name in STR_UF or name in ("replace", "removeprefix", "removesuffix", "ljust", "rjust", "zfill", "expandtabs"):
        return uf
    if name in ("startswith", "endswith", "isupper", "islower", "isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isidentifier", "isnumeric"):
        return boolean
    if name in ("splitlines", "rsplit", "partition", "rpartition"):
        return None if name != "splitlines" else split
    if name == "find":
        return lambda a, k: Sym("int", C.uf("str.find", StrS, StrS, IntS)(strterm(o), strterm(a[0])))
    if name == "encode":
        return None
    return locals().get(name)


def const_method(o, name):
    f = getattr(o, name)

    def call(a, k):
        if all(is_const(x) or isinstance(x, tuple) and all(is_const(y) for y in x) for x in a) and not k:
            try:
                return lift(f(*a))
            except Exception as e:
                exc(type(e))
        if isinstance(o, str):
            if name == "join":
                items = all_items(E.segs_of(a[0]))
                if items is not None and all(isinstance(x, str) for x in items):
                    return o.join(items)
            m = m_str(o, name)
            if m is not None:
                return m(a, k)
        raise Unsupported(f"{type(o).__name__}.{name} with symbolic arguments")

    return call


def attr_builtin(o, name):
    if isinstance(o, ListV):
        if getattr(o, "view", False):
            if name == "isdisjoint":
                m = m_set(SetV(list(o.segs)), name)
            else:
                raise Unsupported(f"{name} of a view")
        else:
            m = m_list(o, name)
    elif isinstance(o, SetV):
        m = m_set(o, name)
    elif isinstance(o, DictV):
        m = m_dict(o, name)
    elif hasattr(o, "gstr_method"):
        m = o.gstr_method(name)
    elif isinstance(o, str) and callable(getattr(o, name, None)):
        m = const_method(o, name)
    elif isinstance(o, tuple) and name in ("count", "index"):
        m = m_list(ListV([Item(x) for x in o]), name)
    elif isinstance(o, (Sym, StrCat)) and strlike(o) or isinstance(o, Opaque) and o.name == "text":
        m = m_str(o, name)
        if m is None and hasattr("", name):
            raise Unsupported(f"str.{name}")
    else:
        return NotImplemented
    if m is None:
        if isinstance(o, (ListV, SetV, DictV)):
            host = {ListV: list, SetV: set, DictV: dict}[type(o)]
            if hasattr(host, name):
                raise Unsupported(f"{host.__name__}.{name}")
        raise PyExc(AttributeError, (), name)
    return bound(name, m)


E.attr_models.append(attr_builtin)


def type_attr(o, name):
    """str.upper, dict.fromkeys ... used as functions"""
    if o is dict and name == "fromkeys":
        return bound("dict.fromkeys", dict_fromkeys)
    if o in (str, list, set, dict) and callable(getattr(o, name, None)) and not name.startswith("__"):
        return bound(f"{o.__name__}.{name}", lambda a, k: E.call(E.getattr(a[0], name), a[1:], k))
    return NotImplemented


def _type_attr(o, name):
    if isinstance(o, type) and o in (str, list, set, dict):
        return type_attr(o, name)
    return NotImplemented


E.attr_models.append(_type_attr)


# ------------------------------------------------------------------ exceptions
def class_exc(cls, args, kwargs):
    if isinstance(cls, type) and issubclass(cls, BaseException):
        init = inspect.getattr_static(cls, "__init__", None)
        o = Opaque("exc", cls=cls, args=tuple(args))
        if isinstance(init, types.FunctionType) and E.is_repo(init):
            # the arguments must bind (a wrong call would raise TypeError instead)
            try:
                inspect.signature(init).bind(None, *args, **kwargs)
            except TypeError:
                exc(TypeError)
        return o
    return NotImplemented


E.class_models.append(class_exc)


def attr_exc(o, name):
    if isinstance(o, Opaque) and o.name == "exc":
        if name == "args":
            return o.args
        return ANYTEXT
    return NotImplemented


E.attr_models.append(attr_exc)


# ------------------------------------------------------------------ pydantic v1
from pydantic import BaseModel, ValidationError  # noqa: E402
from pydantic.fields import ModelField, SHAPE_DICT, SHAPE_LIST, SHAPE_MAPPING, SHAPE_SET, SHAPE_SINGLETON, SHAPE_TUPLE_ELLIPSIS  # noqa: E402



class Bad(Exception):
    """value does not validate"""


def plain_type(f):
    """the tags a value of the field's type may have without being changed by validation"""
    if f.shape != SHAPE_SINGLETON or f.sub_fields or getattr(f.field_info, "regex", None):
        return None
    return {str: "str", int: "int", bool: "bool"}.get(f.type_)


def pyd_field(f: ModelField, v):
    if isinstance(v, Dyn) and not f.class_validators:
        t = plain_type(f)
        if t is not None and (v.tags == {"none", t} and f.allow_none or v.tags == {t}):
            return v
    if isinstance(v, Dyn) and v.dct and v.tags <= {"none", "obj"} and not f.class_validators and f.shape in (SHAPE_DICT, SHAPE_MAPPING, SHAPE_SINGLETON) \
            and (f.allow_none or "none" not in v.tags):
        import typing
        if f.shape == SHAPE_SINGLETON and f.type_ is dict and not f.sub_fields:
            return v
        if f.shape != SHAPE_SINGLETON and (f.key_field is None or f.key_field.type_ is str) and f.type_ is typing.Any:
            return v
    if isinstance(v, Dyn):
        v = resolve(v)
    if f.validate_always and f.class_validators:
        raise Unsupported(f"field validators on {f.name}")
    if f.class_validators:
        raise Unsupported(f"field validators on {f.name}")
    if v is None:
        if f.allow_none:
            return None
        if f.type_ is __import__("typing").Any or f.outer_type_ is __import__("typing").Any:
            return None
        raise Bad(f.name)
    return pyd_value(f, v)


def pyd_value(f, v):
    import typing
    if isinstance(v, Dyn):
        v = resolve(v)
    if f.shape == SHAPE_SINGLETON:
        if f.sub_fields:
            # Union
            for sf in f.sub_fields:
                try:
                    return pyd_field(sf, v)
                except Bad:
                    continue
            raise Bad(f.name)
        return pyd_scalar(f, f.type_, v)
    sub = f.sub_fields[0] if f.sub_fields else None
    if sub is None:
        class _S:  # a homogeneous container keeps its item type in type_
            pass
    item = lambda x: pyd_field(sub, x) if sub is not None else pyd_scalar(f, f.type_, x)
    if f.shape == SHAPE_LIST or f.shape == SHAPE_SET:
        if isinstance(v, (str, StrCat, Sym, DictV, ObjV)) or is_const(v):
            raise Bad(f.name)
        if not isinstance(v, (ListV, SetV, tuple)):
            raise Unsupported(f"{v!r} for {f.name}")
        acc = ListV() if f.shape == SHAPE_LIST else SetV()
        put = E.list_append if f.shape == SHAPE_LIST else E.set_add

        def body(x):
            try:
                y = item(x)
            except Bad:
                raise PyExc(BadItem)
            put(acc, y)

        try:
            E.loop(v, body, None, ([], []))
        except PyExc as e:
            if e.cls is BadItem:
                raise Bad(f.name)
            raise
        return acc
    if f.shape in (SHAPE_DICT, SHAPE_MAPPING):
        if not isinstance(v, DictV):
            if is_const(v) or isinstance(v, (ListV, SetV, ObjV, Sym, StrCat)):
                raise Bad(f.name)
            raise Unsupported(f"{v!r} for {f.name}")
        kf = f.key_field
        if (sub is None or sub.type_ is typing.Any) and keys_are_str(v) and (kf is None or kf.type_ is str):
            n = DictV(list(v.segs))
            if getattr(v, "distinct", False):
                n.distinct = True
            return n
        acc = DictV()

        def body(kv):
            try:
                k2 = pyd_field(kf, kv[0]) if kf is not None else kv[0]
                v2 = item(kv[1])
            except Bad:
                raise PyExc(BadItem)
            E.setitem(acc, k2, v2)

        try:
            E.run_segs(E.dict_iter(v, lambda a, b: (a, b)), body, None, ([], []))
        except PyExc as e:
            if e.cls is BadItem:
                raise Bad(f.name)
            raise
        return acc
    raise Unsupported(f"pydantic shape of {f.name}")


class BadItem(Exception):
    pass


def keys_are_str(d):
    def go(s):
        if isinstance(s, Item):
            return strlike(s.v[0])
        if isinstance(s, Each):
            return all(go(x) for _, segs in s.cases for x in segs)
        return False

    return all(go(s) for s in d.segs)


def pyd_scalar(f, t, v):
    import typing
    if t is typing.Any or t is object:
        return v
    if isinstance(v, Dyn):
        v = resolve(v)
    if t is dict:
        if isinstance(v, DictV):
            return v
        raise Bad(f.name)
    if t is list:
        if isinstance(v, ListV):
            return v
        if isinstance(v, (tuple, SetV)):
            return ListV(E.segs_of(v))
        raise Bad(f.name)
    if t is set:
        if isinstance(v, SetV):
            return v
        if isinstance(v, (tuple, ListV)):
            return SetV(E.segs_of(v))
        raise Bad(f.name)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        if isinstance(v, t):
            return v
        if is_const(v):
            try:
                return t(v)
            except ValueError:
                raise Bad(f.name)
        raise Unsupported(f"enum field {f.name} from {v!r}")
    if isinstance(t, type) and issubclass(t, BaseModel):
        if isinstance(v, ObjV):
            if v.cls is t or (isinstance(v.cls, type) and issubclass(v.cls, t)):
                if t.__config__.copy_on_model_validation == "none":
                    return v
                if t.__config__.copy_on_model_validation == "deep":
                    return deep(v)
                return ObjV(v.cls, v.fields)
            raise Unsupported("a model of another class")
        if isinstance(v, DictV):
            kw = kwargs_of(v)
            return pyd_new(t, kw)
        if is_const(v) or isinstance(v, (ListV, SetV, Sym, StrCat)):
            raise Bad(f.name)
        raise Unsupported(f"{v!r} for {f.name}")
    if isinstance(t, type) and issubclass(t, bool):
        if isinstance(v, bool) or isinstance(v, Sym) and v.k == "bool":
            return v
        raise Unsupported("bool field")
    if isinstance(t, type) and issubclass(t, str):
        r = None
        if strlike(v):
            r = v
        elif isinstance(v, (bool, int, float)):
            r = str(v)
        elif isinstance(v, Sym):
            r = E.to_str(v)
        elif v is None or isinstance(v, (ListV, SetV, DictV, ObjV, tuple)):
            raise Bad(f.name)
        else:
            raise Unsupported(f"{v!r} for {f.name}")
        rx = getattr(t, "regex", None) or getattr(f.field_info, "regex", None)
        for con in ("min_length", "max_length", "curtail_length"):
            if getattr(t, con, None) is not None:
                raise Unsupported(f"{con} on {f.name}")
        if getattr(t, "strip_whitespace", False) or getattr(t, "to_lower", False) or getattr(t, "to_upper", False):
            raise Unsupported(f"constraint on {f.name}")
        if rx is not None:
            pat = rx if isinstance(rx, str) else rx.pattern
            if isinstance(r, str):
                import re
                if not re.match(pat, r):
                    raise Bad(f.name)
            else:
                from . import rx as rxs
                p = rxs.compiled(pat)
                rxs.NAMES[f"{rxs.key_of(p)}.match"] = ("test", p, "match")
                if not C.decide(C.uf(f"{rxs.key_of(p)}.match", IntS, z3.BoolSort())(rxs.txt(r))):
                    raise Bad(f.name)
        return r
    if isinstance(t, type) and issubclass(t, int):
        for con in ("gt", "ge", "lt", "le", "multiple_of"):
            if getattr(t, con, None) is not None:
                raise Unsupported(f"{con} on {f.name}")
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Sym) and v.k in ("int", "bool"):
            return v if v.k == "int" else mk("int", intterm(v))
        if isinstance(v, float):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise Bad(f.name)
        if strlike(v):
            s = strterm(v)
            if not C.decide(C.uf("is_num", StrS, BoolS)(s)):
                raise Bad(f.name)
            return Sym("int", C.uf("int_of", StrS, IntS)(s))
        if v is None or isinstance(v, (ListV, SetV, DictV, ObjV)):
            raise Bad(f.name)
        raise Unsupported(f"{v!r} for {f.name}")
    if t is float:
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v)
        if isinstance(v, Opaque) and v.name == "clock":
            return v
        if v is None or isinstance(v, (ListV, SetV, DictV, ObjV)):
            raise Bad(f.name)
        raise Unsupported(f"{v!r} for {f.name}")
    if isinstance(t, type) and issubclass(t, pathlib.PurePath):
        if isinstance(v, Opaque) and v.name == "path":
            return v
        if isinstance(v, Opaque) and v.name == "pathtext":
            return v.path
        if isinstance(v, pathlib.PurePath):
            return v
        if v is None or isinstance(v, (int, float, ListV, SetV, DictV, ObjV)):
            raise Bad(f.name)
        raise Unsupported(f"{v!r} for {f.name}")
    raise Unsupported(f"field {f.name} of type {t}")


def kwargs_of(d):
    kw = {}
    for s in d.segs:
        if not isinstance(s, Item):
            raise Unsupported("a model from a dict of unknown keys")
        if not isinstance(s.v[0], str):
            raise Unsupported("a model from a dict with symbolic keys")
        kw[s.v[0]] = s.v[1]
    return kw


def fresh_default(v):
    """pydantic copies the default of a field"""
    o = lift(v)

    def unfreeze(x):
        if isinstance(x, (ListV, SetV, DictV)):
            n = type(x)()
            n.segs = [Item(unfreeze(s.v) if not isinstance(s.v, tuple) else tuple(unfreeze(y) for y in s.v)) for s in x.segs]
            return n
        return x

    return unfreeze(o)


def pyd_new(cls, kw):
    if inspect.getattr_static(cls, "__init__") is not inspect.getattr_static(BaseModel, "__init__"):
        raise Unsupported(f"{cls.__name__}.__init__")
    if cls.__pre_root_validators__:
        raise Unsupported("pre root validators")
    cfg = cls.__config__
    if cfg.validate_all:
        raise Unsupported("validate_all")
    if cfg.extra == pydantic.Extra.forbid and set(kw) - {f.alias for f in cls.__fields__.values()}:
        raise PyExc(ValidationError)
    if cfg.extra == pydantic.Extra.allow:
        raise Unsupported("extra fields")
    vals, bad = {}, False
    for name, f in cls.__fields__.items():
        key = f.alias
        if key not in kw and cfg.allow_population_by_field_name and name in kw:
            key = name
        if key not in kw:
            if f.required:
                bad = True
                continue
            if f.default_factory is not None:
                vals[name] = E.call(f.default_factory, [], {})
            else:
                vals[name] = fresh_default(f.default)
            continue
        try:
            vals[name] = pyd_field(f, kw[key])
        except Bad:
            bad = True
    post = list(cls.__post_root_validators__)
    cur = vals
    for skip, val in post:
        if skip and bad:
            continue
        d = DictV([Item((k, v)) for k, v in cur.items()])
        try:
            r = E.call(getattr(val, "__func__", val), [cls, d], {})
        except PyExc as e:
            if issubclass(e.cls, (ValueError, TypeError, AssertionError)):
                bad = True
                continue
            raise
        if not isinstance(r, DictV):
            raise Unsupported("root validator result")
        cur = kwargs_of(r)
    if bad:
        raise PyExc(ValidationError)
    return ObjV(cls, {k: v for k, v in cur.items() if k in cls.__fields__})


def class_pyd(cls, args, kwargs):
    if isinstance(cls, type) and issubclass(cls, BaseModel):
        if args:
            exc(TypeError)
        E.used_models.add("pydantic.BaseModel")
        return pyd_new(cls, dict(kwargs))
    return NotImplemented


E.class_models.append(class_pyd)


def pyd_to_dict(v, kw):
    if isinstance(v, ObjV) and isinstance(v.cls, type) and issubclass(v.cls, BaseModel):
        return pyd_dict(v, kw)
    if isinstance(v, ListV):
        return ListV(map_segs(v.segs, lambda x: pyd_to_dict(x, kw)))
    if isinstance(v, tuple):
        return tuple(pyd_to_dict(x, kw) for x in v)
    if isinstance(v, SetV):
        return SetV(map_segs(v.segs, lambda x: pyd_to_dict(x, kw)))
    if isinstance(v, DictV):
        n = DictV(map_segs(v.segs, lambda kv: (kv[0], pyd_to_dict(kv[1], kw))))
        if getattr(v, "distinct", False):
            n.distinct = True
        return n
    return v


def pyd_dict(o, kw):
    d = DictV()
    inc, exl = kw.get("include"), kw.get("exclude")
    for b in ("exclude_unset", "exclude_defaults", "by_alias"):
        if kw.get(b):
            raise Unsupported(f"dict({b})")

    def names(x):
        if x is None:
            return None
        items = all_items(x.segs) if isinstance(x, (SetV, ListV)) else list(x) if isinstance(x, tuple) else None
        if items is None or not all(isinstance(i, str) for i in items):
            raise Unsupported("include/exclude")
        return items

    inc, exl = names(inc), names(exl)
    kw2 = {k: v for k, v in kw.items() if k == "exclude_none"}
    for k, v in o.fields.items():
        if inc is not None and k not in inc or exl is not None and k in exl:
            continue
        if kw.get("exclude_none"):
            v = resolve(v)
            if v is None:
                continue
        d.segs.append(Item((k, pyd_to_dict(v, kw2))))
    return d


def attr_pyd(o, name):
    if isinstance(o, ObjV) and isinstance(o.cls, type) and issubclass(o.cls, BaseModel) and name not in o.fields:
        if name == "dict" and getattr(o.cls, "dict") is BaseModel.dict:
            return bound("dict", lambda a, k: pyd_dict(o, k))
        if name == "copy" and getattr(o.cls, "copy") is BaseModel.copy:
            def cp(a, k):
                if set(k) - {"deep", "update"}:
                    raise Unsupported("copy()")
                n = deep(o) if k.get("deep") else ObjV(o.cls, o.fields)
                if k.get("update") is not None:
                    n.fields.update(kwargs_of(k["update"]))
                return n
            return bound("copy", cp)
        if name in ("json", "schema", "construct", "parse_obj", "__fields__", "__fields_set__"):
            raise Unsupported(f"model.{name}")
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return DictV([Item((k, v)) for k, v in o.fields.items()])
    if isinstance(o, type) and issubclass(o, BaseModel) and name in ("parse_obj", "construct"):
        if name == "parse_obj":
            return bound("parse_obj", lambda a, k: pyd_new(o, kwargs_of(a[0])))
        raise Unsupported(name)
    return NotImplemented


E.attr_models.append(attr_pyd)


# ------------------------------------------------------------------ clock, logger, misc
import datetime as _dt
import time as _time


def now_term():
    return Opaque("clock", term=C.uf("clock", IntS, IntS)(z3.IntVal(0)))


def attr_clock(o, name):
    if o is _dt.datetime and name in ("now", "utcnow"):
        return bound("now", lambda a, k: Opaque("datetime", at=now_term()))
    if isinstance(o, Opaque) and o.name == "datetime":
        if name == "timestamp":
            return bound("timestamp", lambda a, k: o.at)
        raise Unsupported(f"datetime.{name}")
    if isinstance(o, logging.Logger):
        return bound("log", lambda a, k: None)
    return NotImplemented


E.attr_models.append(attr_clock)


@model(_time.time)
def _(a, k):
    return now_term()


# ------------------------------------------------------------------ files and json (ghost state)
class World(Obj):
    """path key -> content.  Content: ('json', value) | ('text', str value) | ('empty',) | ('garbage', why)
    | ('over', new, old): new text written over the longer-lived old one, not truncated yet."""

    def __init__(self):
        super().__init__()
        self.files = {}
        self.dirs = None  # file system model (contracts/fs)

    def get(self, key):
        if key not in self.files:
            return None
        if isinstance(self.files[key], Poison):
            raise Unsupported("a file that was written in a loop")
        return self.files[key]

    def put(self, key, c):
        setkey(self, self.files, key, c)


def path_key(p):
    if isinstance(p, Opaque) and p.name == "path":
        return p.key
    if isinstance(p, Opaque) and p.name == "pathtext":
        return p.path.key
    raise Unsupported(f"file {p!r}")


class Handle(Obj):
    def __init__(self, key, mode):
        super().__init__()
        self.key, self.mode = key, mode
        self.pos = "start"
        self.closed = False

    def enter(self):
        return self

    def exit(self, e):
        setslot(self, "closed", True)
        c = E.world.get(self.key)
        return False

    def live(self):
        if self.closed:
            exc(ValueError)


def do_open(a, k):
    p = a[0] if a else k["file"]
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if not isinstance(mode, str):
        raise Unsupported("mode")
    mode = mode.replace("t", "")
    if "b" in mode:
        raise Unsupported("binary file")
    key = path_key(p)
    w = E.world
    if w is None:
        raise Unsupported("open without a world")
    h = Handle(key, mode)
    if mode in ("r", "r+"):
        if w.get(key) is None:
            exc(FileNotFoundError)
    elif mode in ("w", "w+"):
        w.put(key, ("empty",))
    elif mode in ("a", "a+"):
        if w.get(key) is None:
            w.put(key, ("empty",))
        h.pos = "end"
    elif mode == "x":
        if w.get(key) is not None:
            exc(FileExistsError)
        w.put(key, ("empty",))
    else:
        raise Unsupported(f"mode {mode}")
    return h


E.models[open] = do_open


def jsontext(v):
    return Opaque("jsontext", value=v)


def content_text(c):
    if c[0] == "json":
        return jsontext(c[1])
    if c[0] == "text":
        return c[1]
    if c[0] == "empty":
        return ""
    return ANYTEXT


def text_content(t):
    if isinstance(t, Opaque) and t.name == "jsontext":
        return ("json", t.value)
    if isinstance(t, str) and t == "":
        return ("empty",)
    if strlike(t) and not (isinstance(t, Opaque)):
        return ("text", t)
    return ("garbage", "unknown text")


def h_read(h):
    h.live()
    if h.mode in ("w", "a", "x"):
        import io
        exc(io.UnsupportedOperation)
    c = E.world.get(h.key)
    if h.pos == "start":
        r = content_text(c)
    elif h.pos == "end":
        r = ""
    else:
        r = ANYTEXT
    setslot(h, "pos", "end")
    return r


def h_write(h, t):
    h.live()
    if h.mode == "r":
        import io
        exc(io.UnsupportedOperation)
    if isinstance(t, (Sym, bool, int)) and not strlike(t) or t is None or isinstance(t, (DictV, ListV)):
        exc(TypeError)
    new = text_content(t)
    c = E.world.get(h.key)
    if h.mode in ("a", "a+"):
        pos = "end"
    else:
        pos = h.pos
    if new[0] == "empty":
        return 0
    if c[0] == "empty":
        if pos == "past":
            new = ("garbage", "padding")
        E.world.put(h.key, new)
        setslot(h, "pos", "end")
        return mk("int", C.fresh("written", IntS))
    if pos == "start":
        E.world.put(h.key, ("over", new, c))
        setslot(h, "pos", "mid")
    elif pos == "end":
        if c[0] == "text" and new[0] == "text":
            E.world.put(h.key, ("text", E.concat([c[1], new[1]])))
        elif c[0] == "over":
            E.world.put(h.key, ("garbage", "writes"))
        elif c[0] == "json" and new[0] == "text" and isinstance(new[1], str) and new[1].isspace():
            pass
        else:
            E.world.put(h.key, ("garbage", "text appended to a complete file"))
        setslot(h, "pos", "end")
    elif pos == "mid" and c[0] == "over":
        if c[1][0] == "text" and new[0] == "text":
            E.world.put(h.key, ("over", ("text", E.concat([c[1][1], new[1]])), c[2]))
        elif c[1][0] == "json" and new[0] == "text" and isinstance(new[1], str) and new[1].isspace():
            pass
        else:
            E.world.put(h.key, ("garbage", "writes"))
    else:
        E.world.put(h.key, ("garbage", "writes"))
    return mk("int", C.fresh("written", IntS))


def attr_file(o, name):
    if not isinstance(o, Handle):
        return NotImplemented
    h = o

    def read(a, k):
        if a and not (isinstance(a[0], int) and a[0] < 0):
            raise Unsupported("read(n)")
        return h_read(h)

    def write(a, k):
        return h_write(h, a[0])

    def seek(a, k):
        h.live()
        wh = a[1] if len(a) > 1 else 0
        if a[0] == 0 and wh == 0:
            setslot(h, "pos", "start")
        elif a[0] == 0 and wh == 2:
            c = E.world.get(h.key)
            setslot(h, "pos", "end" if c[0] != "over" else "unknown")
        else:
            raise Unsupported("seek")
        return 0

    def truncate(a, k):
        h.live()
        if h.mode == "r":
            import io
            exc(io.UnsupportedOperation)
        c = E.world.get(h.key)
        if a and a[0] is not None:
            if isinstance(a[0], int) and a[0] == 0:
                E.world.put(h.key, ("empty",))
                setslot(h, "pos", "start" if h.pos == "start" else "past")
                return 0
            if isinstance(a[0], Opaque) and a[0].name == "tell":
                pass
            else:
                raise Unsupported("truncate(n)")
        if h.pos == "start":
            E.world.put(h.key, ("empty",))
        elif h.pos == "mid" and c[0] == "over":
            E.world.put(h.key, c[1])
            setslot(h, "pos", "end")
        elif h.pos == "end":
            pass
        elif h.pos == "past":
            E.world.put(h.key, ("garbage", "padding"))
        else:
            raise Unsupported("truncate")
        return 0

    def tell(a, k):
        return Opaque("tell")

    def flush(a, k):
        return None

    def close(a, k):
        setslot(h, "closed", True)

    def readlines(a, k):
        raise Unsupported("readlines")

    m = locals().get(name)
    if m is None or name in ("o", "h", "name"):
        raise Unsupported(f"file.{name}")
    return bound(name, m)


E.attr_models.append(attr_file)

JSONABLE = lambda t: C.uf("jsonable", IntS, BoolS)(t)


def jsonable(v):
    """formula: json can serialise v"""
    if is_const(v):
        return z3.BoolVal(not isinstance(v, (bytes, enum.Enum)))
    if isinstance(v, (Sym, StrCat)) or strlike(v):
        return TRUE
    if isinstance(v, Dyn):
        if "obj" in v.tags:
            return simp(z3.Or(z3.Not(V.is_vobj(v.t)), JSONABLE(V.o(v.t))))
        return TRUE
    if isinstance(v, (ListV,)):
        return simp(z3.Not(segs_any(v.segs, lambda x: z3.Not(jsonable(x)))))
    if isinstance(v, tuple):
        return z3.And([jsonable(x) for x in v] or [TRUE])
    if isinstance(v, DictV):
        return simp(z3.Not(segs_any(v.segs, lambda kv: z3.Not(z3.And(jsonkey_ok(kv[0]), jsonable(kv[1]))))))
    if isinstance(v, Opaque) and v.name == "clock":
        return TRUE
    if isinstance(v, Opaque) and getattr(v, "term", None) is not None:
        return JSONABLE(v.term)
    return FALSE


def jsonkey_ok(k):
    if isinstance(k, (tuple, ListV, SetV, DictV, ObjV)) or isinstance(k, enum.Enum):
        return FALSE
    return TRUE


def jsonkey(k):
    if isinstance(k, Dyn):
        k = resolve(k)
    if isinstance(k, bool):
        return "true" if k else "false"
    if k is None:
        return "null"
    if isinstance(k, (int, float)):
        return str(k)
    if isinstance(k, Sym) and k.k == "int":
        return E.to_str(k)
    if strlike(k):
        return k
    raise Unsupported("json key")


def json_norm(v):
    """what reading the text of v back gives"""
    if isinstance(v, (ListV, tuple)):
        segs = v.segs if isinstance(v, ListV) else [Item(x) for x in v]
        n = ListV(map_segs(segs, json_norm))
        n.frozen = True
        return n
    if isinstance(v, DictV):
        n = DictV(map_segs(v.segs, lambda kv: (jsonkey(kv[0]), json_norm(kv[1]))))
        if getattr(v, "distinct", False):
            n.distinct = True
        n.frozen = True
        return n
    return v


def json_fresh(v):
    """a fresh copy, as load gives"""
    if isinstance(v, ListV):
        n = ListV([Item(json_fresh(s.v)) if isinstance(s, Item) else s for s in v.segs])
        return n
    if isinstance(v, DictV):
        n = DictV([Item((s.v[0], json_fresh(s.v[1]))) if isinstance(s, Item) else s for s in v.segs])
        if getattr(v, "distinct", False):
            n.distinct = True
        return n
    return v


def json_ok(v, kw):
    if set(kw) - {"indent", "sort_keys", "ensure_ascii", "separators", "fp", "obj", "skipkeys"} or kw.get("skipkeys"):
        raise Unsupported("json options")
    return C.decide(jsonable(v))


@model(json.dumps)
def _(a, k):
    v = a[0] if a else k["obj"]
    if not json_ok(v, k):
        exc(TypeError)
    return jsontext(json_norm(v))


@model(json.dump)
def _(a, k):
    v = a[0] if a else k["obj"]
    h = a[1] if len(a) > 1 else k["fp"]
    if not isinstance(h, Handle):
        raise Unsupported("json.dump to something else")
    h.live()
    if not json_ok(v, k):
        # part of the text has been written already
        E.world.put(h.key, ("garbage", "dump failed half way"))
        exc(TypeError)
    h_write(h, jsontext(json_norm(v)))


def loads(t):
    if isinstance(t, Opaque) and t.name == "jsontext":
        return json_fresh(t.value)
    if isinstance(t, str):
        try:
            return fresh_default(json.loads(t))
        except json.JSONDecodeError:
            exc(json.decoder.JSONDecodeError)
    raise Unsupported("json text that is not known to be valid")


@model(json.loads)
def _(a, k):
    if k:
        raise Unsupported("json options")
    return loads(a[0])


@model(json.load)
def _(a, k):
    if k or not isinstance(a[0], Handle):
        raise Unsupported("json.load")
    return loads(h_read(a[0]))


def attr_path(o, name):
    if isinstance(o, Opaque) and o.name == "path" and o.key is not None and not getattr(o, "fs", None):
        if name == "open":
            return bound("open", lambda a, k: do_open([o] + list(a), k))
        if name == "read_text":
            return bound("read_text", lambda a, k: h_read(do_open([o, "r"], {})))
        if name == "write_text":
            return bound("write_text", lambda a, k: h_write(do_open([o, "w"], {}), a[0]))
        if name in ("is_file", "exists"):
            return bound(name, lambda a, k: E.world.get(o.key) is not None)
        raise Unsupported(f"path.{name}")
    return NotImplemented


E.attr_models.append(attr_path)


def path(key):
    return Opaque("path", key=key)
