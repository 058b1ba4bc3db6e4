"""C02: the relationships a MAKE stores, over arbitrary statements and patterns and an arbitrary database."""
from .query import *
from .arrows import arrow_block
from wiggle_query_language.clauses.make.make import make, make_node, make_nodes, make_relationship
from wiggle_query_language.clauses.make.transform.make_pre import process_parsed_make_list

TRUSTED = ["files and json (model)", "pydantic 1.10 (model)"]
ASSUMPTIONS = ["the patterns are as parsing leaves them (C20)", "contracts used: get_property_dict (C10, C11), relationship_is_left_to_right (here): functions of their text, "
               "add_item_to_database (C04), frame of the index writers (C07)",
               "before the MAKE every stored number is below the counter (C03)"]
under(make, make_nodes, make_node, make_relationship, process_parsed_make_list)
DRAWN = "every record has exactly the relationships whose arrows start at its node, each with its own name, properties and ends"
LISTS = "relationships of a record are a list or absent"


@block("make", [DRAWN, LISTS], contracts=MAKE_CONTRACTS)
def _():
    st = Setting()
    tag, r = call(make, parsed_make_list=st.makes, gdbms_file_path=paths_obj())
    if tag == "exc":
        return
    d = json_of(st.w, "database")
    new = new_part(d, st.old) if isinstance(d, DictV) else None
    if new is None or not interp.distinct_keys(d.segs):
        fail(DRAWN, "the new records are not behind the old ones under numbers of their own")
        return

    def one():
        s, p, pat = st.at()
        got = items_at(st.S, st.P, new, s, p)
        if got is None:
            fail(DRAWN, "there are records that belong to no pattern, or are not made for every pattern")
            return
        nodes, rels = written(pat)
        recs = [rec for _, rec in got]
        lists = [relations(rec) for rec in recs]
        check(LISTS, all(x is not None for x in lists))
        if any(x is None for x in lists):
            return
        if len(recs) != len(nodes):
            fail(DRAWN, f"{len(recs)} records for {len(nodes)} nodes")
            return
        alts = []
        for perm in itertools.permutations(range(len(nodes))):  # record i is node perm[i]
            at = {n: recs[i] for i, n in enumerate(perm)}
            fs = []
            for i, n in enumerate(perm):
                mine = [(r, a, b) for r, a, b in rels if a == n]
                fs.append(node_is(recs[i], pat, nodes[n]))
                fs.append(some_matching(lists[i], mine, lambda x, r: rel_is(x, pat, r[0], at[r[1]], at[r[2]])))
            alts.append(z3.And(fs))
        check(DRAWN, z3.Or(alts))

    C.explore(one)


arrow_block()
