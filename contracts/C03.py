"""C03: numbers handed out by MAKE, over arbitrary statements, patterns and stored records."""
from .query import *
from wiggle_query_language.clauses.make.make import make
from wiggle_query_language.graph.state.wiggle_number import get_current_wiggle_number, update_wiggle_number

TRUSTED = ["files and json (model)", "pydantic 1.10 (model)"]
ASSUMPTIONS = ["before the MAKE every stored number is below the counter (true of a new database, and re-established here)",
               "int(str(n)) == n"]
under(make, get_current_wiggle_number, update_wiggle_number)
NODES_U, RELS_U, MIXED = "numbers of nodes are pairwise different", "numbers of relationships are pairwise different", "no node and relationship share a number"
ABOVE, BELOW, KEY, MONO = "every number is at least the counter before", "every number is below the counter after", "a record's key is its number", \
    "the counter does not go down"


def numbers_of(rec):
    """(number of the node, [numbers of its relationships])"""
    n = field(rec, "node_metadata", "wn")
    rels = field(rec, "relations")
    if rels is None or (isinstance(rels, Dyn)):
        return n, []
    ls = is_list(rels)
    if ls is None:
        raise Unsupported("relations of a record")
    return n, [field(r, "relationship_metadata", "wn") for r in ls]


@block("make", [NODES_U, RELS_U, MIXED, ABOVE, BELOW, KEY, MONO], contracts=MAKE_CONTRACTS)
def _():
    st = Setting()
    tag, r = call(make, parsed_make_list=st.makes, gdbms_file_path=paths_obj())
    if tag == "exc":
        return
    c = st.w.files.get("wiggle_number")
    if not (c and c[0] == "text" and strterm(c[1]) is not None):
        fail(BELOW, f"the counter file holds {c}")
        return
    c1 = simp(C.uf("int_of", StrS, IntS)(strterm(c[1])))
    check(BELOW, C.uf("is_num", StrS, z3.BoolSort())(strterm(c[1])))
    check(MONO, c1 >= st.c0)
    d = json_of(st.w, "database")
    new = new_part(d, st.old) if isinstance(d, DictV) else None
    if new is None:
        fail(KEY, "the records that were there are not in front of the new ones, unchanged")
        return
    e1 = [x for g in new for x in open_seg(g)]
    e2 = [x for g in new for x in open_seg(g)]
    nums1 = [(k, numbers_of(rec), cs, ix) for (k, rec), cs, ix in e1]
    nums2 = [(k, numbers_of(rec), cs, ix) for (k, rec), cs, ix in e2]

    def under_(conds, fn):
        save = C.pc
        C.pc = C.pc + list(conds)
        try:
            if C.feasible():
                fn()
        finally:
            C.pc = save

    for a, (k, (n, rs), cs, ix) in enumerate(nums1):
        def one():
            check(KEY, feq(k, E.to_str(n)))
            for x in [n] + rs:
                check(ABOVE, intterm(x) >= st.c0)
                check(BELOW, intterm(x) < c1)
            for i, x in enumerate(rs):
                for y in rs[:i]:
                    check(RELS_U, intterm(x) != intterm(y))

        under_(cs, one)
        for b, (k2, (n2, rs2), cs2, ix2) in enumerate(nums2):
            other = [] if a != b else [z3.Not(z3.And([x == y for x, y in zip(ix, ix2)]))]

            def two():
                if b <= a:
                    check(NODES_U, intterm(n) != intterm(n2))
                    fs = [intterm(x) != intterm(y) for x in rs for y in rs2]
                    if fs:
                        check(RELS_U, z3.And(fs))

            under_(cs + cs2 + other, two)

            def three():
                fs = [intterm(n) != intterm(y) for y in rs2]
                if fs:
                    check(MIXED, z3.And(fs))

            under_(cs + cs2, three)


@block("counter file", ["reading gives the number that was written", "nothing else is touched"])
def _():
    n = any_int("n")
    w = world(database=("garbage", "any"), indexes=("garbage", "any"), wiggle_number=("text", any_str("before")))
    snap = snapshot(w)
    tag, r = call(update_wiggle_number, file_path=NUM, new_wiggle_number=n)
    check("nothing else is touched", unchanged(w, snap, "database", "indexes"))
    if tag == "exc":
        fail("reading gives the number that was written", f"raised {r}")
        return
    tag, m = call(get_current_wiggle_number, NUM)
    check("reading gives the number that was written", feq(n, m) if tag == "ok" else FALSE)
    check("nothing else is touched", unchanged(w, snap, "database", "indexes"))
