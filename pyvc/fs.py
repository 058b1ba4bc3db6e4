"""Ghost state of the file system below a folder, for the functions that create, select and delete databases.

A location is a term: child(parent, name).  Names of locations have no "/" and are not "", "." or "..":
joining a path with a text for which that is not known gives a path that can be anywhere, and every operation
on such a path is reported to the contract.  What was there at the start is unknown (uninterpreted predicates);
what has been done since is a dict from locations to entries.
"""
import os
import pathlib
import shutil

import z3

from .core import (C, BoolS, Cell, DictV, Dom, Dyn, Each, Family, IntS, Item, ListV, Opaque, SetV, StrS, Sym, StrCat, TRUE, Unsupported, setslot, simp)
from .interp import ANYTEXT, E, PyExc, eq, is_const, mk, resolve, strlike, strterm
from . import models
from .models import World, bound, do_open, exc, h_read, h_write, model

child = lambda p, s: C.uf("fs.child", IntS, StrS, IntS)(p, s)
is_file0 = lambda t: C.uf("fs.file0", IntS, BoolS)(t)
is_dir0 = lambda t: C.uf("fs.dir0", IntS, BoolS)(t)
HAS = lambda x, s: C.uf("substr_in", StrS, StrS, BoolS)(C.lit(x), s)


def loc(p, s):
    """the term of name s in folder p, with what is known of it"""
    t = child(p, s)
    C.fact(z3.And(C.uf("fs.parent", IntS, IntS)(t) == p, C.uf("fs.name", IntS, StrS)(t) == s,
                  C.uf("fs.depth", IntS, IntS)(t) == C.uf("fs.depth", IntS, IntS)(p) + 1))
    C.fact(z3.And(z3.Not(z3.And(is_file0(t), is_dir0(t))), z3.Implies(z3.Or(is_file0(t), is_dir0(t)), is_dir0(p))))
    return t


def fspath(term, name=None, parent=None):
    return Opaque("path", key=Opaque("loc", term=term), fs=True, term=term, last=name, up=parent, astext=pathtext)


def pathtext(p):
    return Opaque("pathtext", path=p, join=text_join, astext=lambda t: t)


def text_join(t, rest):
    """text of a path + more text"""
    if isinstance(rest, str) and rest in ("", "/"):
        return t
    first = rest.parts[0] if isinstance(rest, StrCat) else rest
    if not isinstance(first, str) or not first.startswith("/"):
        return ANYTEXT
    rest = first[1:] if isinstance(rest, str) else E.concat([first[1:], *rest.parts[1:]])
    return pathtext(join(t.path, rest))


ANYWHERE = "anywhere"


def anywhere():
    return Opaque("path", key=None, fs=True, term=None, last=None, up=None)


def plain(parts):
    """is the component (parts of a text without "/") certainly the name of something in a folder?"""
    syms = [p for p in parts if not isinstance(p, str)]
    for p in syms:
        if not C.valid(z3.Not(HAS("/", strterm(p)))):
            return False
    text = "".join(p for p in parts if isinstance(p, str))
    if text in ("", ".", ".."):
        whole = E.concat(list(parts))
        return C.valid(z3.And([strterm(whole) != C.lit(x) for x in ("", ".", "..")]))
    return True


def join(p, text):
    if isinstance(text, Opaque) and text.name == "path":
        return text
    if not strlike(text) or isinstance(text, Opaque):
        raise Unsupported(f"path joined with {text!r}")
    if p.term is None:
        return p
    comps, cur = [], []
    if isinstance(text, str) and text.startswith("/"):
        return anywhere()
    for part in text.parts if isinstance(text, StrCat) else [text]:
        if isinstance(part, str):
            bits = part.split("/")
            cur.append(bits[0])
            for b in bits[1:]:
                comps.append(cur)
                cur = [b]
        else:
            cur.append(part)
    comps.append(cur)
    comps = [[b for b in c if b != ""] for c in comps]
    if not comps[0] and len(comps) > 1:
        return anywhere()  # an absolute path
    for c in comps:
        if not c or c == ["."]:
            continue
        if len(c) == 1 and not isinstance(c[0], str):
            # a name of which it is not known that it is not empty: nothing, or that name
            pass
        if not plain(c):
            return anywhere()
        n = E.concat(list(c))
        p = fspath(loc(p.term, strterm(n)), n, p)
        tell_apart(n)
    return p


def affixes(n):
    if isinstance(n, str):
        return n, n
    if isinstance(n, StrCat):
        a, z = n.parts[0], n.parts[-1]
        return a if isinstance(a, str) else "", z if isinstance(z, str) else ""
    return "", ""


def tell_apart(n):
    """texts that begin or end differently are different"""
    names = E.world.names
    a, z = affixes(n)
    for m in names:
        if isinstance(m, str) and isinstance(n, str):
            continue
        b, y = affixes(m)
        i, j = min(len(a), len(b)), min(len(z), len(y))
        if a[:i] != b[:i] or z[len(z) - j:] != y[len(y) - j:]:
            C.fact(strterm(n) != strterm(m))
    names.append(n)


class FS(World):
    def __init__(self):
        super().__init__()
        self.over = DictV()
        self.names = []  # of components of paths so far
        self.on = lambda what, path, had: None  # called for everything that is changed

    def entry(self, key):
        """'file' | 'dir' | None, content"""
        r = E.dict_lookup(self.over, key, models.bound, True)
        if r is not models.bound:
            return (r.what, r.c)
        if C.decide(is_file0(key.term)):
            return ("file", ("garbage", "what it was"))
        if C.decide(is_dir0(key.term)):
            return ("dir", None)
        return (None, None)

    def need(self, key):
        if key is None:
            self.on("use", None, None)
            raise Unsupported("a path that can be anywhere")
        return key

    def get(self, key):
        what, c = self.entry(self.need(key))
        if what == "dir":
            exc(IsADirectoryError)
        return c

    def set(self, key, what, c, how):
        self.on(how, key, None)
        E.setitem(self.over, key, Opaque("entry", what=what, c=c))

    def put(self, key, c):
        what, old = self.entry(self.need(key))
        if what is None:
            self.parent_is_dir(key)
        self.set(key, "file", c, "write")

    def parent_is_dir(self, key):
        up = simp(C.uf("fs.parent", IntS, IntS)(key.term))
        t = key.term
        if z3.is_app(t) and t.decl().name() == "fs.child":
            up = t.arg(0)
        if self.entry(Opaque("loc", term=up))[0] != "dir":
            exc(FileNotFoundError)


def kids(t):
    """what was in folder t at the start"""
    fam = C.families.get("fs.kids")
    if fam is None:
        lenf = C.uf("fs.kids.len", IntS, IntS)
        fam = C.families["fs.kids"] = Family("fs.kids", 2, lambda outer: lenf(*outer), None)
        a, b, t1, t2 = z3.Int("!ka"), z3.Int("!kb"), z3.Int("!kt"), z3.Int("!kt2")
        k = C.uf("fs.kid", IntS, IntS, StrS)
        C.pair_schema(fam, (t1, a), (t2, b), z3.Implies(z3.And(t1 == t2, a != b), k(t1, a) != k(t2, b)))
    dom = Dom(fam, (t,))
    C.fact(dom.hi >= 0)
    return dom


def kid(t, i):
    n = C.uf("fs.kid", IntS, IntS, StrS)(t, i)
    l = loc(t, n)
    C.fact(z3.Implies(kids(t).inr(i), z3.Or(is_file0(l), is_dir0(l))))
    C.fact(z3.And(n != C.lit(""), n != C.lit("."), n != C.lit(".."), z3.Not(HAS("/", n))))
    return n, l


def holds(p, f):
    """(formula, witness): there was something at the start in folder p, of name n at location l, with f(n, l)"""
    dom = kids(p.term)
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    try:
        n, l = kid(p.term, v)
        phi = f(Sym("str", n), l)
    finally:
        C.idx_stack.pop()
    return C.exists(dom, v, simp(phi))


def list_dir(p, f):
    w = E.world
    what, _ = w.entry(w.need(p.key))
    if what is None:
        exc(FileNotFoundError)
    if what == "file":
        exc(NotADirectoryError)
    for s in w.over.segs:
        if not isinstance(s, Item) or not C.valid(C.uf("fs.parent", IntS, IntS)(s.v[0].term) != p.term):
            raise Unsupported("listing of a folder that was changed before")
    dom = kids(p.term)
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    try:
        n, l = kid(p.term, v)
        x = f(Sym("str", n), l)
    finally:
        C.idx_stack.pop()
    return ListV([Each(dom, v, [([], [Item(x)])])])


def mkdir(p, parents=False, exist_ok=False):
    w = E.world
    what, _ = w.entry(w.need(p.key))
    if what == "file" or what == "dir" and not exist_ok:
        exc(FileExistsError)
    if what == "dir":
        return
    if p.up is not None:
        up = w.entry(p.up.key)[0]
        if up == "file":
            exc(NotADirectoryError)
        if up is None:
            if not parents:
                exc(FileNotFoundError)
            mkdir(p.up, True, True)
    w.set(p.key, "dir", None, "mkdir")


def remove(p):
    w = E.world
    what, _ = w.entry(w.need(p.key))
    if what is None:
        exc(FileNotFoundError)
    if what == "dir":
        exc(IsADirectoryError)
    w.set(p.key, None, None, "remove")


def rmdir(p):
    w = E.world
    what, _ = w.entry(w.need(p.key))
    if what is None:
        exc(FileNotFoundError)
    if what == "file":
        exc(NotADirectoryError)
    if C.decide(holds_something(p)):
        exc(OSError)
    w.set(p.key, None, None, "remove")


def holds_something(p):
    """formula: the folder is not empty"""
    w = E.world
    dom = kids(p.term)
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    try:
        n, l = kid(p.term, v)
        f = z3.Not(E.contains(w.over, Opaque("loc", term=l)))
    finally:
        C.idx_stack.pop()
    e, sk = C.exists(dom, v, simp(f))
    made = []

    def go(s):
        if isinstance(s, Item):
            k, x = s.v
            if x.what is not None:
                made.append(C.uf("fs.parent", IntS, IntS)(k.term) == p.term)
        elif isinstance(s, Each):
            for _, ss in s.cases:
                for x in ss:
                    if not isinstance(x, Item) or x.v[1].what is not None:
                        raise Unsupported("what a folder holds")
        else:
            raise Unsupported("what a folder holds")

    for s in w.over.segs:
        go(s)
    return simp(z3.Or([e] + made))


def as_path(x):
    x = resolve(x)
    if isinstance(x, Opaque) and x.name == "path" and getattr(x, "fs", None):
        return x
    if isinstance(x, Opaque) and x.name == "pathtext":
        return x.path
    raise Unsupported(f"path from {x!r}")


def touch(p, exist_ok=True):
    w = E.world
    what, c = w.entry(w.need(p.key))
    if what is not None:
        if not exist_ok:
            exc(FileExistsError)
        w.on("touch", p.key, None)
        return
    w.parent_is_dir(p.key)
    w.set(p.key, "file", ("empty",), "write")


def rmtree(p):
    w = E.world
    what, _ = w.entry(w.need(p.key))
    if what is None:
        exc(FileNotFoundError)
    if what == "file":
        exc(NotADirectoryError)
    E.loop(list_dir(p, lambda n, l: fspath(l, n, p)), lambda x: w.set(x.key, None, None, "remove"), None, ([], []))
    w.set(p.key, None, None, "remove")


def size(p):
    """number of bytes: 0 exactly for an empty file"""
    w = E.world
    what, c = w.entry(w.need(p.key))
    if what is None:
        exc(FileNotFoundError)
    if c is not None and c[0] == "empty":
        return 0
    t = C.uf("fs.size0", IntS, IntS)(p.key.term) if c is None or c[0] == "garbage" else C.fresh("size", IntS)
    C.fact(t >= (0 if c is None or c[0] == "garbage" else 1))
    return Sym("int", t)


def glob(p, pat):
    if pat == "*":
        return list_dir(p, lambda n, l: fspath(l, n, p))
    match = C.uf("fs.glob", StrS, StrS, BoolS)
    t = strterm(pat)
    if t is None or isinstance(pat, str) and ("/" in pat or "**" in pat):
        raise Unsupported("glob")
    r = list_dir(p, lambda n, l: fspath(l, n, p)).segs[0]
    C.idx_stack.append((r.dom, r.var))
    x = r.cases[0][1][0].v
    C.idx_stack.pop()
    return ListV([Each(r.dom, r.var, [([match(t, strterm(x.last))], r.cases[0][1])])])


def attr_fspath(o, name):
    if not (isinstance(o, Opaque) and o.name == "path" and getattr(o, "fs", None)):
        return NotImplemented
    w = E.world
    if name == "name":
        if o.last is None:
            raise Unsupported("name of a path")
        return o.last
    if name == "path":  # of an entry of os.scandir
        return pathtext(o)
    if name == "parent":
        if o.up is None:
            raise Unsupported("parent of a path")
        return o.up
    if name in ("joinpath", "__truediv__"):
        def jp(a, k):
            p = o
            for x in a:
                p = join(p, resolve(x))
            return p
        return bound(name, jp)
    if name in ("is_file", "is_dir", "exists"):
        def test(a, k):
            if o.key is None:
                # it can be anything
                return Sym("bool", C.fresh("there", BoolS))
            what, _ = w.entry(o.key)
            return what is not None if name == "exists" else what == name[3:]
        return bound(name, test)
    table = dict(
        mkdir=lambda a, k: mkdir(o, k.get("parents", a[1] if len(a) > 1 else False), k.get("exist_ok", a[2] if len(a) > 2 else False)),
        touch=lambda a, k: touch(o, k.get("exist_ok", True)),
        iterdir=lambda a, k: list_dir(o, lambda n, l: fspath(l, n, o)),
        stat=lambda a, k: Opaque("stat", size=size(o)), glob=lambda a, k: glob(o, a[0]),
        unlink=lambda a, k: remove(o), rmdir=lambda a, k: rmdir(o),
        open=lambda a, k: do_open([o] + list(a), k),
        read_text=lambda a, k: h_read(do_open([o, "r"], {})),
        write_text=lambda a, k: h_write(do_open([o, "w"], {}), a[0] if a else k["data"]),
        resolve=lambda a, k: o, absolute=lambda a, k: o,
        as_posix=lambda a, k: pathtext(o), __str__=lambda a, k: pathtext(o),
    )
    if name in table:
        return bound(name, table[name])
    raise Unsupported(f"path.{name}")


E.attr_models.insert(0, attr_fspath)


def attr_stat(o, name):
    if isinstance(o, Opaque) and o.name == "stat" and name == "st_size":
        return o.size
    return NotImplemented


E.attr_models.insert(0, attr_stat)


def div(op, a, b):
    import ast
    if isinstance(op, ast.Div) and isinstance(a, Opaque) and a.name == "path" and getattr(a, "fs", None):
        return join(a, resolve(b))
    return NotImplemented


E.binop_models.append(div)


def class_path(cls, args, kwargs):
    if cls is pathlib.Path and not kwargs and args:
        p = as_path(args[0])
        for x in args[1:]:
            p = join(p, resolve(x))
        return p
    return NotImplemented


E.class_models.append(class_path)


@model(os.remove, os.unlink)
def _(a, k):
    remove(as_path(a[0]))


@model(os.rmdir)
def _(a, k):
    rmdir(as_path(a[0]))


@model(os.listdir)
def _(a, k):
    return list_dir(as_path(a[0]), lambda n, l: n)


@model(os.path.join)
def _(a, k):
    p = as_path(a[0])
    for x in a[1:]:
        p = join(p, resolve(x))
    return p


for _f, _n in ((os.path.isfile, "is_file"), (os.path.isdir, "is_dir"), (os.path.exists, "exists")):
    model(_f)(lambda a, k, n=_n: E.call(attr_fspath(as_path(a[0]), n), [], {}))


@model(os.path.basename)
def _(a, k):
    return attr_fspath(as_path(a[0]), "name")


@model(os.path.getsize)
def _(a, k):
    return size(as_path(a[0]))


@model(os.scandir)
def _(a, k):
    p = as_path(a[0])
    return list_dir(p, lambda n, l: fspath(l, n, p))


@model(os.mkdir)
def _(a, k):
    mkdir(as_path(a[0]))


@model(os.makedirs)
def _(a, k):
    mkdir(as_path(a[0]), True, k.get("exist_ok", False))


@model(shutil.rmtree)
def _(a, k):
    rmtree(as_path(a[0]))
