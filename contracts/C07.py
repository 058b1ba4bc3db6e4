"""C07: contracts of the functions that update and load the indexes (wiping: C19, and its frame here)."""
from .files import *
from wiggle_query_language.graph.database.indexes import index_helpers, node_labels_index, node_relationships_index, relationship_names_index

TRUSTED = ["files and json (model: contents, open modes, position, truncation; a dump that fails leaves part of the text)"]
ASSUMPTIONS = ["the indexes file holds the three indexes (lists of strings, and an object of lists of integers), as creation and every contract here leaves it"]
ALL = [NODE_LABELS_INDEX_NAME, RELATIONSHIP_NAMES_INDEX_NAME, NODE_RELATIONSHIPS_INDEX_NAME]
UNION, OTHERS, VALID = "the index is the union of what it had and what was added", "the other indexes and files are as they were", "the file is complete and valid"


def frame(w, snap, target):
    d, old = json_of(w, "indexes"), snap["indexes"][1]
    check(VALID, isinstance(d, DictV), str(w.files.get("indexes")))
    check(OTHERS, unchanged(w, snap, "database", "wiggle_number"))
    if not isinstance(d, DictV):
        return None
    for n in ALL:
        if n != target:
            check(OTHERS, interp.same(lookup(d, n), lookup(old, n)), n)
    k = any_str("key")
    if lookup(d, k) is not MISS:
        check(OTHERS, z3.Or([k.t == C.lit(n) for n in ALL]))
    return d


def add_set_contract(fn, target, make_items, **fixed):
    under(fn)

    @block(f"{fn.__name__}({target}, {make_items.__name__})", [UNION, OTHERS, VALID])
    def _():
        w = world(database=("garbage", "any text"), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
        snap = snapshot(w)
        items = make_items("added")
        tag, r = call(fn, indexes_file_path=IDX, items_to_add=items, **fixed)
        if tag == "exc":
            fail(UNION, f"raised {r}")
            return
        d = frame(w, snap, target)
        if d is None:
            return
        new, old = lookup(d, target), lookup(snap["indexes"][1], target)
        if not isinstance(new, ListV):
            fail(UNION, f"{new}")
            return
        x = any_dyn("x")
        check(UNION, member(new, x) == z3.Or(member(old, x), member(items, x)))


def load_set_contract(fn, target, **fixed):
    under(fn)
    GETS = "loading gives exactly what is stored under its name"

    @block(f"{fn.__name__}({target})", [GETS, OTHERS])
    def _():
        w = world(database=("garbage", "any text"), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
        snap = snapshot(w)
        tag, r = call(fn, indexes_file_path=IDX, **fixed)
        check(OTHERS, unchanged(w, snap))
        if tag == "exc" or not isinstance(r, SetV):
            fail(GETS, f"{tag} {r}")
            return
        x = any_dyn("x")
        check(GETS, set_eq(r, lookup(snap["indexes"][1], target), x))


def no_items(name):
    return SetV()


def str_set_with_none(name):
    return opt_str_set(name)


H = index_helpers
for items in (str_set, no_items):
    add_set_contract(node_labels_index.add_items_to_node_labels_index, NODE_LABELS_INDEX_NAME, items)
    add_set_contract(relationship_names_index.add_items_to_relationship_names_index, RELATIONSHIP_NAMES_INDEX_NAME, items)
    for n in ALL[:2]:
        add_set_contract(H.add_items_set_to_index_by_name, n, items, index_name=n)
load_set_contract(node_labels_index.load_node_labels_index, NODE_LABELS_INDEX_NAME)
load_set_contract(relationship_names_index.load_relationship_names_index, RELATIONSHIP_NAMES_INDEX_NAME)
for n in ALL[:2]:
    load_set_contract(H.load_index_set_by_name, n, index_name=n)


def node_rels_contract(items_of, label):
    fn = node_relationships_index.add_items_to_node_relationships_index
    under(fn)

    @block(f"{fn.__name__}({label})", [UNION, OTHERS, VALID])
    def _():
        w = world(database=("garbage", "any text"), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
        snap = snapshot(w)
        items = items_of()
        tag, r = call(fn, indexes_file_path=IDX, items_to_add=items)
        if tag == "exc":
            fail(UNION, f"raised {r}")
            return
        d = frame(w, snap, NODE_RELATIONSHIPS_INDEX_NAME)
        if d is None:
            return
        new, old = lookup(d, NODE_RELATIONSHIPS_INDEX_NAME), lookup(snap["indexes"][1], NODE_RELATIONSHIPS_INDEX_NAME)
        k, x = any_str("k"), any_int("x")
        a, b, c = lookup(new, k), lookup(old, k), lookup(items, k)
        has = lambda v: FALSE if v is MISS else member(v, x)
        check(UNION, (a is MISS) == (b is MISS and c is MISS), "entries")
        check(UNION, simp(has(a) == z3.Or(has(b), has(c))), "members")


node_rels_contract(lambda: int_lists_dict("added", True), "any entries")
node_rels_contract(lambda: DictV(), "nothing")


@block("load_node_relationships_index", ["loading gives exactly what is stored under its name", OTHERS])
def _():
    under(node_relationships_index.load_node_relationships_index)
    w = world(database=("garbage", "any text"), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
    snap = snapshot(w)
    tag, r = call(node_relationships_index.load_node_relationships_index, IDX)
    check(OTHERS, unchanged(w, snap))
    GETS = "loading gives exactly what is stored under its name"
    if tag == "exc" or not isinstance(r, DictV):
        fail(GETS, f"{tag} {r}")
        return
    old = lookup(snap["indexes"][1], NODE_RELATIONSHIPS_INDEX_NAME)
    k, x = any_str("k"), any_int("x")
    a, b = lookup(r, k), lookup(old, k)
    check(GETS, (a is MISS) == (b is MISS))
    if a is not MISS and b is not MISS:
        check(GETS, set_eq(a, b, x))


def wipe_frame(fn, target, **fixed):
    under(fn)

    @block(f"{fn.__name__}({target})", ["wiping one index leaves the others", VALID])
    def _():
        w = world(database=("garbage", "any text"), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
        snap = snapshot(w)
        tag, r = call(fn, IDX, im_sure=True, **fixed)
        d, old = json_of(w, "indexes"), snap["indexes"][1]
        check(VALID, tag == "ok" and isinstance(d, DictV))
        if isinstance(d, DictV):
            for n in ALL:
                if n != target:
                    check("wiping one index leaves the others", interp.same(lookup(d, n), lookup(old, n)), n)


wipe_frame(node_labels_index.wipe_node_labels_index, ALL[0])
wipe_frame(relationship_names_index.wipe_relationship_names_index, ALL[1])
wipe_frame(node_relationships_index.wipe_node_relationships_index, ALL[2])
