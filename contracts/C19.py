"""C19: contracts of the wipe functions."""
from .files import *
from wiggle_query_language.graph.database.database import wipe_database
from wiggle_query_language.graph.database.indexes import node_labels_index, node_relationships_index, relationship_names_index
from wiggle_query_language.graph.database.indexes.index_helpers import wipe_index_set_by_name

TRUSTED = ["files and json (model: contents, open modes, position, truncation; a dump that fails leaves part of the text)"]
ALL = [NODE_LABELS_INDEX_NAME, RELATIONSHIP_NAMES_INDEX_NAME, NODE_RELATIONSHIPS_INDEX_NAME]
KIND = {"database": "database_file_path"}


def wipe_contract(fn, target, **fixed):
    under(fn)
    nothing, does, others = "without confirmation nothing is touched", "with confirmation its target is empty", "everything else is as it was"

    @block(f"{fn.__name__}({target})", [nothing, does, others])
    def _():
        w = world(database=("garbage", "any text"), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
        snap = snapshot(w)
        p = DB if target == "database" else IDX
        sure = any_bool("im_sure")
        given = C.decide(z3.Bool("given"))
        tag, r = call(fn, p, **(dict(im_sure=sure) if given else {}), **fixed)
        if not given or not C.decide(sure.t):
            check(nothing, z3.And(unchanged(w, snap), z3.BoolVal(tag == "ok")))
            return
        check(does, tag == "ok", f"raised {r}" if tag == "exc" else "")
        if target == "database":
            d = json_of(w, "database")
            check(does, isinstance(d, DictV) and not d.segs)
            check(others, unchanged(w, snap, "indexes", "wiggle_number"))
            return
        d, old = json_of(w, "indexes"), snap["indexes"][1]
        check(others, unchanged(w, snap, "database", "wiggle_number"))
        if not isinstance(d, DictV):
            fail(does, "the indexes file does not hold a json object")
            return
        for n in ALL:
            v = lookup(d, n)
            if n == target:
                check(does, type(v) is (DictV if n == NODE_RELATIONSHIPS_INDEX_NAME else ListV) and not v.segs)
            else:
                check(others, interp.same(v, lookup(old, n)), n)
        k = any_str("key")
        if lookup(d, k) is not MISS:
            check(others, z3.Or([k.t == C.lit(n) for n in ALL]))


wipe_contract(wipe_database, "database")
wipe_contract(node_labels_index.wipe_node_labels_index, NODE_LABELS_INDEX_NAME)
wipe_contract(relationship_names_index.wipe_relationship_names_index, RELATIONSHIP_NAMES_INDEX_NAME)
wipe_contract(node_relationships_index.wipe_node_relationships_index, NODE_RELATIONSHIPS_INDEX_NAME)
for _n in (NODE_LABELS_INDEX_NAME, RELATIONSHIP_NAMES_INDEX_NAME):
    wipe_contract(wipe_index_set_by_name, _n, index_name=_n)
