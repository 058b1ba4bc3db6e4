"""C17: listing, selecting and deleting databases, over every content of the folder for databases."""
import importlib

from .fsys import *
from models.wigish import GDBMSFilePath
from pyvc.interp import open_seg

sel = importlib.import_module("wiggle_shell.core.select_gdbms.select_gdbms")
TRUSTED = ["the file system (model: locations, folders, files, open modes)", "input and print (model): input gives any line, print cannot fail"]
ASSUMPTIONS = ["no links below the folder for databases; file operations do not fail for other reasons than the kind of what is there",
               "the folder of a database holds files only", "nobody else changes the folder while a function runs"]
under(sel.list_existing_dbms, sel.get_and_display_available_dbms, sel.get_existing_gdbms, sel.delete_gdbms, sel.select_gdbms)
P = "wiggle_shell.core.select_gdbms."
NOTHING = "nothing is changed"


def still(name):
    return lambda how, k, _: fail(name, how)


EVERY = "every folder of the asked folder that is not skipped is listed, and nothing else"
ONCE = "each is listed once"
SORTED = "the list is sorted"


def segs_flat(segs):
    for s in segs:
        if isinstance(s, interp.SetSeg):
            yield from segs_flat(s.segs)
        else:
            yield s


@block("list_existing_dbms", [EVERY, ONCE, SORTED, NOTHING])
def _():
    w, root = folder_world(still(NOTHING))
    skips = str_set("skips") if C.decide(any_bool("skips given").t) else None
    tag, r = call(sel.list_existing_dbms, skips, root)
    reach(NOTHING)
    if tag != "ok":
        check(EVERY, False, f"raised {r}")
        return
    if not isinstance(r, ListV):
        fail(EVERY, "not a list")
        return
    # an arbitrary name: it is listed exactly when there is such a folder
    k = any_str("k")
    inside = segs_any(r.segs, lambda x: eq(x, k))
    here = fs.holds(root, lambda n, l: z3.And(n.t == k.t, is_dir0(l), z3.Not(member(skips, n)) if skips is not None else TRUE))[0]
    check(EVERY, simp(inside == z3.And(is_dir0(root.term), here)))
    check(ONCE, interp.distinct_keys([x for x in models.map_segs(list(segs_flat(r.segs)), lambda x: (x, None))]))
    is_sorted = not r.segs or len(r.segs) == 1 and isinstance(r.segs[0], models.Perm) and r.segs[0].how == ("sorted", None, False)
    check(SORTED, is_sorted, f"{r.segs}")


# ---------------------------------------------------------------- what is shown, and what a letter stands for
def c_list(args, kwargs):
    """the names of the folders of the folder that was given, except those that are skipped, each once (shown above)"""
    skips = args[0] if args else kwargs.get("skips")
    where = args[1] if len(args) > 1 else kwargs.get("path_to_dbms_dir")
    fam = family("listed")
    nm = C.uf("listed.name", IntS, StrS)
    distinct_keys_fact(fam, lambda i: nm(i))

    def one(i):
        n = Sym("str", nm(i))
        C.fact(is_dir0(folder_of(where, n)))
        C.fact(proper(n))
        if skips is not None:
            C.fact(z3.Not(member(skips, n)))
        return n

    r = ListV([each(fam, (), one)])
    E.log("list", where, r, skips)
    return r


LISTED = "exactly the first 26 of the names listed for the asked folder are offered, in their order, by A to Z"
SHOWN = "what is shown for a letter is the name the letter stands for"
NONE_ = "None when there is none"
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
USUAL = {"tests", "__pycache__"}


def parts_of(x):
    """the parts of a printed line that are not fixed text"""
    out = []
    for a in x:
        out += [p for p in (a.parts if isinstance(a, interp.StrCat) else [a]) if not isinstance(p, str) or p in LETTERS and len(p) == 1]
    return out

def line_says(x, k, v):
    ps = parts_of(x)
    if len(ps) != 2:
        return FALSE
    return z3.And(eq(ps[0], k), eq(ps[1], v))


@block("get_and_display_available_dbms", [LISTED, SHOWN, NONE_, NOTHING], contracts=[{P + "select_gdbms:list_existing_dbms": c_list}])
def _():
    E.events, E.printed = [], ListV()
    w, root = folder_world(still(NOTHING))
    tag, d = call(sel.get_and_display_available_dbms, root)
    reach(NOTHING)
    ls = [e for e in E.events if e[0] == "list"]
    if tag != "ok" or len(ls) != 1 or ls[0][1] is not root:
        fail(LISTED, f"{tag} {d} {ls}")
        return
    names = ls[0][2].segs[0]
    if isinstance(ls[0][3], SetV):
        check(LISTED, z3.Not(segs_any(ls[0][3].segs, lambda x: z3.Not(z3.Or([eq(x, n) for n in USUAL])))), "skips")
    else:
        check(LISTED, ls[0][3] is None, "skips")
    C.register(names.dom.fam, (z3.IntVal(0),))
    if d is None:
        check(NONE_, names.dom.hi == 0)
        return
    check(NONE_, names.dom.hi > 0)
    if not isinstance(d, DictV):
        fail(LISTED, "not a dict")
        return
    nm = C.uf("listed.name", IntS, StrS)
    i = z3.Int("position")
    assume(z3.And(i >= 0, i < 26))
    C.register(names.dom.fam, (i,))
    v = lookup(d, models.known_at(list(LETTERS), i, Dom(names.dom.fam, (), z3.IntVal(26))))
    check(LISTED, z3.Not(i < names.dom.hi) if v is MISS else z3.And(i < names.dom.hi, eq(v, Sym("str", nm(i)))))
    k = any_str("letter")
    v = lookup(d, k)
    if v is not MISS:
        check(LISTED, z3.Or([k.t == C.lit(c) for c in LETTERS]))
        check(SHOWN, segs_any(E.printed.segs, lambda x: line_says(x, k, v)), "a letter that is not shown")
    for s in E.printed.segs:
        for x, conds, ix in open_seg(s):
            ps = parts_of(x)
            if len(ps) < 2:
                check(SHOWN, not ps)
                continue
            C.pc, save = list(C.pc) + list(conds), C.pc
            try:
                check(SHOWN, segs_any(d.segs, lambda kv: z3.And(eq(kv[0], ps[0]), eq(kv[1], ps[1]))), "a line that says something else")
            finally:
                C.pc = save


# ---------------------------------------------------------------- selecting
def c_display(args, kwargs):
    """None, or what stands for which name: names of folders in the folder that was given (shown above)"""
    where = args[0] if args else kwargs.get("path_to_dbms_dir")
    d = None
    if C.decide(any_bool("there are databases").t):
        fam = family("shown")
        c, nm = C.uf("shown.letter", IntS, StrS), C.uf("shown.name", IntS, StrS)
        distinct_keys_fact(fam, lambda i: c(i))

        def one(i):
            n = Sym("str", nm(i))
            C.fact(z3.And(is_dir0(folder_of(where, n)), proper(n)))
            return (Sym("str", c(i)), n)

        d = DictV([each(fam, (), one)])
        d.distinct = True
        assume(truth(d))
    E.log("shown", where, d)
    return d


def c_create(args, kwargs):
    """makes a new database and returns its paths (C16)"""
    where = args[0] if args else kwargs.get("path_to_dbms_dir")
    r = Opaque("paths of a new database")
    E.log("created", where, r)
    return r


NAMED = "a letter gives the three existing files of the database that was shown for it, in the asked folder"
OTHER = "anything else is refused, and asked for again"
NEW = "when there is no database a new one is made in the asked folder"
CHOICE = {P + "select_gdbms:get_and_display_available_dbms": c_display, P + "select_gdbms:create_new_dbms": c_create}


@block("get_existing_gdbms", [NAMED, OTHER, NEW, NOTHING], contracts=[CHOICE])
def _():
    E.events = []
    w, root = folder_world(still(NOTHING))

    def iteration(events, how):
        shown = [e for e in events if e[0] == "shown"]
        asked = [e for e in events if e[0] == "input"]
        new = [e for e in events if e[0] == "created"]
        if len(shown) != 1 or shown[0][1] is not root:
            fail(NAMED, f"{events}")
            return
        d = shown[0][2]
        if d is None:
            check(NEW, how == "returns" and len(new) == 1 and new[0][1] is root, f"{how} {new}")
            return
        check(NEW, not new)
        if len(asked) != 1:
            fail(NAMED, f"asked {len(asked)} times")
            return
        v = lookup(d, asked[0][1])
        if v is MISS:
            check(OTHER, how == "continues", how)
            return
        there = z3.And([is_file0(file_of(root, v, pat)) for _, pat in PARTS])
        check(NAMED, there if how == "returns" else z3.Not(there), how)
        check(OTHER, how in ("returns", "continues"), how)

    E.iteration = iteration
    tag, r = call(sel.get_existing_gdbms, root)
    reach(NOTHING)
    last = [e for e in E.events if e[0] == "shown"][-1]
    if last[2] is None:
        check(NEW, tag == "ok" and r is E.events[-1][2])
        return
    if tag != "ok" or not isinstance(r, ObjV) or r.cls is not GDBMSFilePath:
        fail(NAMED, f"{tag} {r}")
        return
    line = [e for e in E.events if e[0] == "input"][-1][1]
    v = lookup(last[2], line)
    if v is MISS:
        fail(NAMED, "a letter that was not shown")
        return
    for kind, pat in PARTS:
        t = term_of(r.fields[kind + "_file_path"])
        check(NAMED, t == file_of(root, v, pat) if t is not None else False, kind)


YES = "after y or yes an existing database is selected, after anything else a new one is made, in the default folder"


def c_existing(args, kwargs):
    r = Opaque("paths of an existing database")
    E.log("existing", args, kwargs, r)
    return r


def c_new(args, kwargs):
    r = Opaque("paths of a new database")
    E.log("new", args, kwargs, r)
    return r


@block("select_gdbms", [YES], contracts=[{P + "select_gdbms:get_existing_gdbms": c_existing, P + "select_gdbms:create_new_dbms": c_new}])
def _():
    E.events = []
    tag, r = call(sel.select_gdbms)
    asked = [e for e in E.events if e[0] == "input"]
    done = [e for e in E.events if e[0] in ("existing", "new")]
    if tag != "ok" or len(asked) != 1 or len(done) != 1:
        fail(YES, f"{tag} {r} {E.events}")
        return
    import wiggle_shell
    line = strterm(asked[0][1])
    yes = z3.Or(line == C.lit("y"), line == C.lit("yes"))
    where = list(done[0][1]) + list(done[0][2].values())
    check(YES, yes if done[0][0] == "existing" else z3.Not(yes))
    check(YES, r is done[0][3] and all(x == wiggle_shell.DBMS_FOLDER for x in where))


# ---------------------------------------------------------------- deleting
OWN = "only the folder of that name and what is in it is removed, and nothing is written"
GONE = "afterwards it is gone"
ABSENT = "one that does not exist is refused, and nothing is changed"
DOES = "one that exists is deleted"


@block("delete_gdbms", [OWN, GONE, ABSENT, DOES])
def _():
    name = any_str("name")

    def on(how, k, _):
        if k is None:
            fail(OWN, "a path that can be anywhere")
            return
        d = folder_of(root, name)
        up = C.uf("fs.parent", IntS, IntS)(k.term)
        check(OWN, z3.And(how == "remove", proper(name), z3.Or(k.term == d, up == d)), how)
        check(ABSENT, is_dir0(d), how)

    w, root = folder_world(on)
    d = folder_of(root, name)
    # the folder of a database holds files only
    dom = fs.kids(d)
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    n, l = fs.kid(d, v)
    C.fact(z3.Implies(dom.inr(v), is_file0(l)))
    C.idx_stack.pop()
    tag, r = call(sel.delete_gdbms, name, root)
    reach(OWN)
    if tag == "ok":
        check(ABSENT, z3.And(proper(name), is_dir0(d)))
        check(GONE, w.entry(key(d))[0] is None)
    else:
        reach(ABSENT)
    check(DOES, z3.Implies(z3.And(proper(name), z3.Not(fs.HAS("\\", name.t)), is_dir0(d)), z3.BoolVal(tag == "ok")), f"{tag} {r}")
