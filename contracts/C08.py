"""C08: contract of find_short_circuit over arbitrary label and name sets and arbitrary indexes, and of find over it."""
from .query import *
from models.wql import FindPre
from wiggle_query_language.clauses.find.find import find
from wiggle_query_language.clauses.find.short_circuits import find_short_circuits, nodes, relationships

TRUSTED = ["files and json (model)", "pydantic 1.10 (model)"]
ASSUMPTIONS = ["the indexes file holds the three indexes", "the answer of find is None exactly for 'no results' (that is what it prints)"]
under(find_short_circuits.find_short_circuit, find, nodes.node_label_is_in_index, relationships.relationship_name_is_in_index)
NEVER = "a query all of whose labels and names are in the indexes is never cut short"
ALWAYS = "a query with no label in the index, or names and none of them in the index, is cut short"
FRAME = "the files are only read"


def setting():
    ix = indexes()
    w = world(database=("garbage", "any text"), indexes=("json", ix), wiggle_number=("text", any_str("counter")))
    labels, names = str_set("asked.labels"), str_set("asked.names")
    C.assume(seg_nonempty(labels.segs))
    pre = ObjV(FindPre, {"left_node": None, "middle_node": None, "right_node": None, "node_labels": labels, "relationship_names": names})
    gp = ObjV(GDBMSFilePath, {"database_file_path": DB, "indexes_file_path": IDX, "wiggle_number_file_path": NUM})
    li, ni = lookup(ix, NODE_LABELS_INDEX_NAME), lookup(ix, RELATIONSHIP_NAMES_INDEX_NAME)
    some = lambda s, i: segs_any(s.segs, lambda x: member(i, x))
    other = lambda s, i: segs_any(s.segs, lambda x: z3.Not(member(i, x)))
    named = seg_nonempty(names.segs)
    all_in = z3.And(z3.Not(other(labels, li)), z3.Not(other(names, ni)))
    none_in = z3.Or(z3.Not(some(labels, li)), z3.And(named, z3.Not(some(names, ni))))
    return w, pre, gp, all_in, none_in


@block("find_short_circuit", [NEVER, ALWAYS, FRAME])
def _():
    w, pre, gp, all_in, none_in = setting()
    snap = snapshot(w)
    tag, r = call(find_short_circuits.find_short_circuit, pre, gp)
    check(FRAME, unchanged(w, snap))
    if tag == "exc":
        fail(NEVER, f"raised {r}")
        return
    go = truth(r)
    check(NEVER, z3.Implies(all_in, go))
    check(ALWAYS, z3.Implies(none_in, z3.Not(go)))


@block("find", [NEVER, ALWAYS, FRAME], contracts=[LEAVES_OK])
def _():
    """find over an arbitrary pattern as parsing leaves it"""
    ix = indexes()
    w = world(database=("garbage", "any text"), indexes=("json", ix), wiggle_number=("text", any_str("counter")))
    p = pattern("pat")
    C.assume(wf(p))
    handles = SetV([Each(None, None, [([truth(p.fields[h])], [Item(p.fields[h])]), ([], [])]) for h in HANDLES])
    pf = ObjV(ParsedFind, {"raw_statement": any_str("raw"), "clause": Clause.FIND, "parsed_pattern": p, "parsed_pattern_handles": handles})
    snap = snapshot(w)
    tag, r = call(find, parsed_find=pf, gdbms_file_path=paths_obj(), parsed_criteria=None)
    check(FRAME, unchanged(w, snap))
    if tag == "exc":
        fail(NEVER, f"raised {r}")
        return
    nodes, rels = written(p)
    lab = lambda n: member(lookup(ix, NODE_LABELS_INDEX_NAME), p.fields[n + "_label"])
    named = lambda n: truth(p.fields[n + "_label"])
    nam = lambda n: member(lookup(ix, RELATIONSHIP_NAMES_INDEX_NAME), p.fields[n + "_label"])
    rs = [x[0] for x in rels]
    all_in = z3.And([lab(n) for n in nodes] + [z3.Implies(named(x), nam(x)) for x in rs])
    none_in = z3.Or(z3.Not(z3.Or([lab(n) for n in nodes])), z3.And(z3.Or([named(x) for x in rs] or [FALSE]), z3.Not(z3.Or([z3.And(named(x), nam(x)) for x in rs] or [FALSE]))))
    cut = E.is_(r, None)
    check(NEVER, z3.Implies(all_in, z3.Not(cut)))
    check(ALWAYS, z3.Implies(none_in, cut))
