"""C16: creating a database, over every name and every content of the folder for databases."""
from .fsys import *
import importlib

select_database_file, select_gdbms, select_index_file, select_wiggle_number_file = (
    importlib.import_module(f"wiggle_shell.core.select_gdbms.{n}")
    for n in ("select_database_file", "select_gdbms", "select_index_file", "select_wiggle_number_file"))
from models.wigish import GDBMSFilePath

TRUSTED = ["the file system (model: locations, folders, files, open modes)"]
ASSUMPTIONS = ["no links below the folder for databases; file operations do not fail for other reasons than the kind of what is there"]
MAKERS = dict(database=select_database_file.create_new_database, indexes=select_index_file.create_new_indexes_file,
              wiggle_number=select_wiggle_number_file.create_new_wiggle_number_file)
GETTERS = dict(database=select_database_file.get_existing_db_file_path, indexes=select_index_file.get_existing_indexes_file_path,
               wiggle_number=select_wiggle_number_file.get_existing_wn_file_path)
under(*MAKERS.values(), *GETTERS.values(), select_gdbms.get_new_gdbms_file_paths, select_gdbms.create_new_dbms)
NAME_OF = {"database": "gdbms_name", "indexes": "gdbms_name", "wiggle_number": "dbms_name"}
WHERE = "only the folder of that name and its own files in it are made or written"
KEEPS = "no file that was there is written to"
EMPTY = "what is made is empty: no nodes, three empty indexes, a counter at 0"
PATHS = "the paths returned are those of its files"
REFUSED = "a name that is taken or is not the name of a folder is refused"
MADE = "a name that is free is accepted"


def guard(root, name, kinds):
    """what a creation may do to the file system"""
    def on(how, k, _):
        if k is None:
            fail(WHERE, "a path that can be anywhere")
            return
        mine = [file_of(root, name, pat) for kind, pat in PARTS if kind in kinds]
        d = folder_of(root, name)
        if how == "mkdir":
            check(WHERE, z3.Or(k.term == root.term, k.term == d), "mkdir")
        elif how in ("write", "touch"):
            check(WHERE, z3.Or([k.term == t for t in mine]), how)
            check(WHERE, proper(name), how)
            check(KEEPS, z3.Not(is_file0(k.term)), how)
        else:
            fail(WHERE, how)
    return on


def empty_content(kind, c):
    if kind == "wiggle_number":
        return c[0] == "text" and c[1] == "0"
    if c is None or c[0] != "json" or not isinstance(c[1], DictV) or not all(isinstance(s, Item) for s in c[1].segs):
        return False
    d = c[1]
    if kind == "database":
        return not d.segs
    if len(d.segs) != 3:
        return False
    for n in (NODE_LABELS_INDEX_NAME, RELATIONSHIP_NAMES_INDEX_NAME, NODE_RELATIONSHIPS_INDEX_NAME):
        v = lookup(d, n)
        if type(v) is not (DictV if n == NODE_RELATIONSHIPS_INDEX_NAME else ListV) or v.segs:
            return False
    return True


def free(root, name, kinds):
    """formula: nothing is in the way of a database of that name"""
    fs_ = [proper(name), z3.Not(fs.HAS("\\", name.t)), z3.Not(is_file0(root.term)), z3.Not(is_file0(folder_of(root, name)))]
    for kind, pat in PARTS:
        if kind in kinds:
            t = file_of(root, name, pat)
            fs_ += [z3.Not(is_file0(t)), z3.Not(is_dir0(t))]
    return z3.And(fs_)


def made(w, root, name, kinds, got):
    """postcondition of a creation that succeeded"""
    check(REFUSED, proper(name))
    for kind, pat in PARTS:
        if kind not in kinds:
            continue
        t = file_of(root, name, pat)
        check(REFUSED, z3.Not(is_file0(t)), kind)
        what, c = w.entry(key(t))
        if what != "file":
            fail(EMPTY, f"no {kind} file")
            continue
        check(EMPTY, empty_content(kind, c), f"{kind}: {c}")
        p = got.get(kind)
        check(PATHS, term_of(p) == t if term_of(p) is not None else False, kind)
        tag, q = call(GETTERS[kind], name, root)
        check(PATHS, term_of(q) == t if tag == "ok" and term_of(q) is not None else False, f"{kind}: the path of the existing file")


def maker_contract(kind):
    fn = MAKERS[kind]

    @block(fn.__name__, [WHERE, KEEPS, EMPTY, PATHS, REFUSED, MADE])
    def _():
        name = any_str("name")
        w, root = folder_world(None)
        w.on = guard(root, name, [kind])
        tag, r = call(fn, name, root)
        if tag == "ok":
            made(w, root, name, [kind], {kind: r})
        else:
            reach(REFUSED)
        check(MADE, z3.Implies(free(root, name, [kind]), z3.BoolVal(tag == "ok")), f"{tag} {r}")


for _k in MAKERS:
    maker_contract(_k)


@block("get_new_gdbms_file_paths", [WHERE, KEEPS, EMPTY, PATHS, REFUSED, MADE])
def _():
    name = any_str("name")
    w, root = folder_world(None)
    kinds = list(MAKERS)
    w.on = guard(root, name, kinds)
    tag, r = call(select_gdbms.get_new_gdbms_file_paths, name, root)
    if tag == "ok":
        if not isinstance(r, ObjV) or r.cls is not GDBMSFilePath:
            fail(PATHS, f"{r!r}")
            return
        made(w, root, name, kinds, {k: r.fields[k + "_file_path"] for k in kinds})
    else:
        reach(REFUSED)
    check(MADE, z3.Implies(free(root, name, kinds), z3.BoolVal(tag == "ok")), f"{tag} {r}")


class Taken(ValueError):
    """whatever get_new_gdbms_file_paths raises for a name it refuses"""


def c_get_new(args, kwargs):
    """refuses the name (ValueError), or returns the paths of the database that was made (shown above)"""
    name = args[0] if args else kwargs["new_gdbms_name"]
    where = args[1] if len(args) > 1 else kwargs.get("path_to_dbms_dir")
    ok = C.decide(any_bool("name is free").t)
    r = Opaque("paths of the new database") if ok else None
    E.log("new", name, where, r)
    if not ok:
        raise PyExc(Taken)
    return r


ONE = "the database of the name that was entered is made, in the folder that was given, and its paths are returned"
AGAIN = "while names are refused the next one is asked for"


@block("create_new_dbms", [ONE, AGAIN], contracts=[{"wiggle_shell.core.select_gdbms.select_gdbms:get_new_gdbms_file_paths": c_get_new}])
def _():
    E.events = []
    w, root = folder_world(lambda how, k, _: fail(ONE, how))
    last = []

    def iteration(events, how):
        asked = [e for e in events if e[0] == "input"]
        new = [e for e in events if e[0] == "new"]
        good = len(asked) == len(new) == 1 and new[0][2] is root
        check(ONE, eq(new[0][1], asked[0][1]) if good else FALSE, f"{events}")
        refused = any(e[3] is None for e in new)
        check(AGAIN, how == ("continues" if refused else "returns"), how)

    E.iteration = iteration
    tag, r = call(select_gdbms.create_new_dbms, root)
    made_ = [e for e in E.events if e[0] == "new"]
    check(ONE, tag == "ok" and made_ and r is made_[-1][3], f"{tag} {r}")
