"""C06: what a MAKE adds to the indexes, over arbitrary statements and patterns and arbitrary indexes."""
from .query import *
from wiggle_query_language.clauses.make.make import add_indexes, make
from wiggle_query_language.clauses.make.transform.make_pre import process_parsed_make_list

TRUSTED = ["files and json (model)", "pydantic 1.10 (model)"]
ASSUMPTIONS = ["the patterns are as parsing leaves them (C20)", "contracts used: get_property_dict, relationship_is_left_to_right (functions of their text), "
               "add_item_to_database (C04), add_items_to_node_relationships_index (C07)",
               "before the MAKE every stored or indexed number is below the counter (C03)"]
under(make, add_indexes, process_parsed_make_list)
LABELS, NAMES = "the label index gains exactly the labels of the written nodes", "the name index gains exactly the non-empty names of the written relationships"
ENTRIES, OLD = "the node index gains exactly one entry per node that relationships start from, with their numbers", "what was in the indexes is still there"


@block("make", [LABELS, NAMES, ENTRIES, OLD], contracts=[{**LEAVES_OK, **STORE, **INDEX_ENTRIES}, {**LEAVES_OK, **STORE}])
def _():
    st = Setting()
    tag, r = call(make, parsed_make_list=st.makes, gdbms_file_path=paths_obj())
    if tag == "exc":
        return
    d, ix = json_of(st.w, "database"), json_of(st.w, "indexes")
    if not proper_indexes(ix):
        fail(OLD, f"the indexes file holds {ix}")
        return
    check(OLD, TRUE)
    new = new_part(d, st.old) if isinstance(d, DictV) else None
    nr = new_part(lookup(ix, NODE_RELATIONSHIPS_INDEX_NAME), lookup(st.ix, NODE_RELATIONSHIPS_INDEX_NAME))
    if new is None or nr is None:
        fail(OLD, "the entries that were there are not in front of the new ones, unchanged")
        return
    check(ENTRIES, interp.distinct_keys(lookup(ix, NODE_RELATIONSHIPS_INDEX_NAME).segs), "entries under the same number overwrite each other")
    g = lambda p, f: truth(p.fields[f])
    anywhere = lambda pred: segs_any(st.makes.segs, lambda m: segs_any(m.fields["parsed_pattern_list"].segs, pred))

    x = any_dyn("x")
    old, cur = (member(lookup(i, NODE_LABELS_INDEX_NAME), x) for i in (st.ix, ix))
    wr = anywhere(lambda p: z3.Or([z3.And(g(p, n), feq(p.fields[n + "_label"], x)) for n in NODES]))
    check(LABELS, cur == z3.Or(old, wr))
    check(OLD, z3.Implies(old, cur))
    old, cur = (member(lookup(i, RELATIONSHIP_NAMES_INDEX_NAME), x) for i in (st.ix, ix))
    wr = anywhere(lambda p: z3.Or([z3.And(g(p, n), g(p, n + "_label"), feq(p.fields[n + "_label"], x)) for n in RELS]))
    check(NAMES, cur == z3.Or(old, wr))
    check(OLD, z3.Implies(old, cur))

    def one():
        s, p, pat = st.at()
        recs, ents = items_at(st.S, st.P, new, s, p), items_at(st.S, st.P, nr, s, p)
        if recs is None or ents is None:
            fail(ENTRIES, "there are entries that belong to no pattern, or are not made for every pattern")
            return
        have = []
        for k, rec in recs:
            rs = relations(rec)
            if rs is None:
                fail(ENTRIES, "relations of a record")
                return
            if rs:
                have.append((k, rs))

        def entry_is(e, r):
            nums = flat_list(e[1])
            if nums is None:
                return FALSE
            ws = [field(x, "relationship_metadata", "wn") for x in r[1]]
            both = [z3.Or([feq(a, b) for b in nums] or [FALSE]) for a in ws] + [z3.Or([feq(a, b) for b in ws] or [FALSE]) for a in nums]
            return z3.And([feq(e[0], r[0])] + both)

        check(ENTRIES, some_matching(ents, have, entry_is))

    C.explore(one)
