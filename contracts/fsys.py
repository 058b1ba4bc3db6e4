"""Ghost state of the folder for databases, shared by the contracts of the functions that create, select and delete."""
from .files import *
from pyvc import fs
from pyvc.fs import FS, fspath, is_dir0, is_file0

PARTS = [("database", "database_{}.json"), ("indexes", "indexes_{}.json"), ("wiggle_number", "wiggle_number_{}.txt")]


def folder_world(on):
    w = FS()
    w.on = on
    E.world = w
    t = z3.Int("dbms folder")
    C.fact(z3.Not(z3.And(is_file0(t), is_dir0(t))))
    return w, fspath(t)


def proper(name):
    """formula: the text can be the name of something in a folder"""
    return z3.And([name.t != C.lit(x) for x in ("", ".", "..")] + [z3.Not(fs.HAS("/", name.t))])


def folder_of(root, name):
    return fs.loc(root.term, name.t)


def file_of(root, name, pattern):
    n = E.concat([p if p else name for p in _split(pattern)])
    fs.tell_apart(n)
    return fs.loc(folder_of(root, name), strterm(n))


def _split(pattern):
    a, b = pattern.split("{}")
    return [a, None, b]


def key(t):
    return Opaque("loc", term=t)


def term_of(p):
    return p.term if isinstance(p, Opaque) and p.name == "path" and getattr(p, "term", None) is not None else None
