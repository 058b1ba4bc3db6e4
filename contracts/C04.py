"""C04: contracts of the functions that load and extend the database file."""
from .files import *
from pyvc.models import JSONABLE, jsonable
from wiggle_query_language.graph.database.database import add_item_to_database, load_database

TRUSTED = ["files and json (model: contents, open modes, position, truncation; a dump that fails leaves part of the text; "
           "a value json accepts loads back as itself, object keys as strings)"]
ASSUMPTIONS = ["the database file holds a json object before the call (an empty or foreign file is refused by json itself)"]
under(add_item_to_database, load_database)


def records(name, stored):
    """a dict of distinct string keys to arbitrary values; values that are already stored are serialisable"""
    fam = family(name)
    kf, vf = z3.Function(C.fname(name + ".k"), IntS, StrS), z3.Function(C.fname(name + ".v"), IntS, V)
    distinct_keys_fact(fam, lambda i: kf(i))

    def entry(i):
        v = Dyn(vf(i))
        if stored:
            C.fact(jsonable(v))
        return (Sym("str", kf(i)), v)

    d = DictV([each(fam, (), entry)])
    d.distinct = True
    return d


KEPT, ADDED, NOTHING_ELSE = "what was stored is kept exactly", "exactly the given records are added", "no other record appears"
REFUSED, FRAME, ACCEPTED = "a refused addition leaves the file as it was", "other files are untouched", "every addition of new storable records is accepted"


def add_contract(make, label):
    @block(f"add_item_to_database({label})", [KEPT, ADDED, NOTHING_ELSE, FRAME, ACCEPTED] + ([REFUSED] if make == "any" else []))
    def _():
        old = records("old", True)
        w = world(database=("json", old), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
        snap = snapshot(w)
        items = records("items", False) if make == "any" else DictV()
        taken = segs_any(items.segs, lambda kv: member(old, kv[0]))
        unstorable = segs_any(items.segs, lambda kv: z3.Not(jsonable(kv[1])))
        tag, r = call(add_item_to_database, DB, items)
        check(FRAME, unchanged(w, snap, "indexes", "wiggle_number"))
        if tag == "exc":
            check(REFUSED, unchanged(w, snap))
            check(ACCEPTED, z3.Or(taken, unstorable), f"raised {r}")
            return
        check(ACCEPTED, TRUE)
        new = json_of(w, "database")
        if not isinstance(new, DictV):
            fail(KEPT, f"the file holds {w.files['database']}")
            return
        k = any_str("k")
        n, o, i = lookup(new, k), lookup(old, k), lookup(items, k)
        if o is not MISS:
            check(KEPT, FALSE if n is MISS else eq(n, o))
            check(ADDED, i is MISS, "a taken number was accepted")
        elif i is not MISS:
            check(ADDED, FALSE if n is MISS else eq(n, i))
        else:
            check(NOTHING_ELSE, n is MISS)
        if label != "any records":
            check(KEPT, interp.same(new, old))
            check(ADDED, TRUE)
            check(NOTHING_ELSE, TRUE)


add_contract("any", "any records")
add_contract("none", "no records")


@block("load_database", ["loading gives exactly what is stored", "loading changes nothing"])
def _():
    old = records("old", True)
    w = world(database=("json", old), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))
    snap = snapshot(w)
    tag, r = call(load_database, DB)
    check("loading changes nothing", unchanged(w, snap))
    if tag == "exc" or not isinstance(r, DictV):
        fail("loading gives exactly what is stored", f"{tag} {r}")
        return
    k = any_str("k")
    a, b = lookup(r, k), lookup(old, k)
    check("loading gives exactly what is stored", (a is MISS) == (b is MISS) if a is MISS or b is MISS else eq(a, b))
