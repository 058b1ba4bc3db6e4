"""C01: the records a MAKE stores, over arbitrary statements and patterns and an arbitrary database."""
from .query import *
from wiggle_query_language.clauses.make.make import add_nodes_to_graph, make, make_node, make_nodes
from wiggle_query_language.clauses.make.transform.make_pre import process_parsed_make_list

TRUSTED = ["files and json (model)", "pydantic 1.10 (model)", "the clock (one unknown value per MAKE)"]
ASSUMPTIONS = ["the patterns are as parsing leaves them (C20)", "contracts used: get_property_dict, relationship_is_left_to_right (functions of their text), "
               "add_item_to_database (C04), frame of the index writers (C07)",
               "before the MAKE every stored number is below the counter (C03)"]
under(make, make_nodes, make_node, process_parsed_make_list, add_nodes_to_graph)
ONE, KEPT, CONTENT, TIME = ("exactly one new record for every written node, and no other", "what was stored is kept",
                            "each record has its own node's label and properties", "the creation time is the time of the MAKE")


@block("make", [ONE, KEPT, CONTENT, TIME], contracts=MAKE_CONTRACTS)
def _():
    st = Setting()
    tag, r = call(make, parsed_make_list=st.makes, gdbms_file_path=paths_obj())
    if tag == "exc":
        return
    d = json_of(st.w, "database")
    new = new_part(d, st.old) if isinstance(d, DictV) else None
    if new is None:
        fail(KEPT, "the records that were there are not in front of the new ones, unchanged")
        return
    check(KEPT, TRUE)
    check(ONE, interp.distinct_keys(d.segs), "records under the same number overwrite each other")

    def one():
        s, p, pat = st.at()
        got = items_at(st.S, st.P, new, s, p)
        if got is None:
            fail(ONE, "there are records that belong to no pattern, or are not made for every pattern")
            return
        nodes, rels = written(pat)
        check(ONE, len(got) == len(nodes), f"{len(got)} records for {len(nodes)} nodes")
        check(CONTENT, some_matching([rec for _, rec in got], nodes, lambda rec, n: node_is(rec, pat, n)))
        for _, rec in got:
            at = field(rec, "node_metadata", "created_at")
            check(TIME, isinstance(at, Opaque) and interp.same(at, models.now_term()), f"{at}")

    C.explore(one)
