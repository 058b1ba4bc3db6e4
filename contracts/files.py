"""Ghost state of the three files of a database, shared by the contracts of the functions that use them."""
from .base import *
from pyvc.models import World, path
from wiggle_query_language.graph.database.indexes import (NODE_LABELS_INDEX_NAME, NODE_RELATIONSHIPS_INDEX_NAME,
                                                          RELATIONSHIP_NAMES_INDEX_NAME)

DB, IDX, NUM = path("database"), path("indexes"), path("wiggle_number")
MISS = Opaque("missing")


def str_list(name):
    """an arbitrary list of strings"""
    return ListV([each(family(name), (), lambda i: any_str(name))])


def str_set(name):
    return SetV([each(family(name), (), lambda i: any_str(name))])


def opt_str_set(name):
    return SetV([each(family(name), (), lambda i: opt_str(name))])


def distinct_keys_fact(fam, key):
    """the keys of a dict are pairwise different: key(i) != key(j) for i != j"""
    a, b = z3.Int("!a"), z3.Int("!b")
    C.pair_schema(fam, (a,), (b,), z3.Implies(a != b, key(a) != key(b)))


def int_lists_dict(name, setlike=False):
    """dict of str -> list (or set) of ints, both of arbitrary length"""
    outer, inner = family(name + ".keys"), family(name + ".vals", 2)
    kf, vf = z3.Function(C.fname(name + ".k"), IntS, StrS), z3.Function(C.fname(name + ".v"), IntS, IntS, IntS)
    distinct_keys_fact(outer, lambda i: kf(i))

    def entry(i):
        seg = each(inner, (i,), lambda j: Sym("int", vf(i, j)))
        return (Sym("str", kf(i)), (SetV if setlike else ListV)([seg]))

    d = DictV([each(outer, (), entry)])
    d.distinct = True
    return d


def indexes():
    """the content of a well-formed indexes file"""
    return DictV([Item((NODE_LABELS_INDEX_NAME, str_list("labels"))),
                  Item((RELATIONSHIP_NAMES_INDEX_NAME, str_list("names"))),
                  Item((NODE_RELATIONSHIPS_INDEX_NAME, int_lists_dict("noderels")))])


def world(**files):
    w = World()
    E.world = w
    for k, c in files.items():
        w.files[k] = c
    return w


def snapshot(w):
    return dict(w.files)


def unchanged(w, snap, *keys):
    """formula: the files are as they were (the other files too, when no key is given)"""
    ks = keys or set(w.files) | set(snap)
    ok = True
    for k in ks:
        a, b = w.files.get(k), snap.get(k)
        if a is b:
            continue
        if a is None or b is None or a[0] != b[0]:
            ok = False
        elif a[0] == "json":
            ok = ok and interp.same(a[1], b[1])
        else:
            ok = False
    return TRUE if ok else FALSE


def json_of(w, key):
    """value in the file, None if the file is not valid json"""
    c = w.files.get(key)
    return c[1] if c is not None and c[0] == "json" else None


def lookup(d, k):
    if not isinstance(d, DictV):
        return MISS
    return E.dict_lookup(d, k, MISS, True)


def member(c, x):
    return E.contains(c, x)


def set_eq(a, b, x):
    """for the arbitrary x: x in a iff x in b"""
    return simp(member(a, x) == member(b, x))


# ------------------------------------------------------------------ contracts of the index writers (shown in C07)
def c_index_writer(args, kwargs):
    """Frame condition: on an indexes file in its proper form, adding to an index changes that file only
    (to another one in its proper form) and returns True."""
    key = models.path_key(kwargs.get("indexes_file_path", args[0] if args else None))
    if key != "indexes" or not proper_indexes(json_of(E.world, key)):
        raise Unsupported("the contract of the index writers needs an indexes file in its proper form")
    E.world.put(key, ("json", indexes()))
    return True


def c_add_item_to_database(args, kwargs):
    """On a database file that holds a json object, given a dict of records with provably different
    keys: raises and leaves the file as it was when a key is taken or a record cannot be stored,
    otherwise adds exactly the records behind what was there (shown in C04)."""
    p = kwargs.get("database_file_path", args[0] if args else None)
    items = kwargs.get("items_to_add", args[-1] if args else None)
    key = models.path_key(p)
    old = json_of(E.world, key)
    if not isinstance(old, DictV) or not isinstance(items, DictV) or not interp.distinct_keys(items.segs):
        raise Unsupported("the contract of add_item_to_database needs records under different keys and an object in the file")
    taken = segs_any(items.segs, lambda kv: member(old, kv[0]))
    unstorable = segs_any(items.segs, lambda kv: z3.Not(models.jsonable(kv[1])))
    if C.decide(simp(z3.Or(taken, unstorable))):
        raise PyExc(AddRefused)
    new = DictV(list(old.segs) + [s for s in models.json_norm(items).segs])
    new.distinct = True
    E.world.put(key, ("json", new))
    return True


class AddRefused(Exception):
    """whatever add_item_to_database raises"""


STORE = {"wiggle_query_language.graph.database.database:add_item_to_database": c_add_item_to_database}


def proper_indexes(d):
    return isinstance(d, DictV) and all(isinstance(lookup(d, n), t) for n, t in (
        (NODE_LABELS_INDEX_NAME, ListV), (RELATIONSHIP_NAMES_INDEX_NAME, ListV), (NODE_RELATIONSHIPS_INDEX_NAME, DictV)))


_IX = "wiggle_query_language.graph.database.indexes."
INDEX_WRITERS = {_IX + "node_labels_index:add_items_to_node_labels_index": c_index_writer,
                 _IX + "relationship_names_index:add_items_to_relationship_names_index": c_index_writer,
                 _IX + "node_relationships_index:add_items_to_node_relationships_index": c_index_writer,
                 _IX + "index_helpers:add_items_set_to_index_by_name": c_index_writer}


def c_node_relationships(args, kwargs):
    """On an indexes file in its proper form, given entries under provably different keys that provably are
    not in the index: the index keeps what it had and gains exactly the entries (as lists); the other
    indexes and the other files are as they were (shown in C07)."""
    key = models.path_key(kwargs.get("indexes_file_path", args[0] if args else None))
    items = kwargs.get("items_to_add", args[-1] if args else None)
    d = json_of(E.world, key)
    if not proper_indexes(d) or not isinstance(items, DictV) or not all(isinstance(s, Item) and isinstance(s.v[0], str) for s in d.segs):
        raise Unsupported("the contract of the index writer needs an indexes file in its proper form")
    old = lookup(d, NODE_RELATIONSHIPS_INDEX_NAME)
    if not interp.distinct_keys(items.segs) or not C.valid(z3.Not(segs_any(items.segs, lambda kv: member(old, kv[0])))):
        raise Unsupported("the contract of the index writer needs entries under different, new keys")
    new = DictV(list(old.segs) + models.json_norm(DictV(models.map_segs(items.segs, lambda kv: (kv[0], ListV([interp.SetSeg(list(kv[1].segs))]))))).segs)
    new.distinct = True
    E.world.put(key, ("json", DictV([Item((s.v[0], new if s.v[0] == NODE_RELATIONSHIPS_INDEX_NAME else s.v[1])) for s in d.segs])))
    return True


INDEX_ENTRIES = {_IX + "node_relationships_index:add_items_to_node_relationships_index": c_node_relationships}
