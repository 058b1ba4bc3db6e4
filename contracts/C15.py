"""C15: constructors of the data model, as contracts on the real classes."""
from .base import *
from models.wql.data.node import Node
from models.wql.data.relationship import Relationship
from models.wql.data.wiggle_metadata import WiggleGraphMetalData
from models.wql.parsing.parsed_query import ParsedPattern

TRUSTED = ["pydantic 1.10 field validation and root validator order (model)"]
under(Relationship, Node, ParsedPattern, ParsedPattern.pattern_handles.fget)


def meta(wn):
    return ObjV(WiggleGraphMetalData, {"wn": wn, "created_at": Opaque("clock", term=z3.IntVal(7)), "updated_at": None})


@block("Relationship", ["self relationship refused", "every other relationship is made", "numbers and name are kept"])
def _():
    a, b, n = any_int("from"), any_int("to"), opt_str("name")
    props = DictV([Item((any_str("k"), any_dyn("v")))])
    tag, r = call(Relationship, relationship_metadata=meta(any_int("wn")), relationship_name=n, wn_from_node=a, wn_to_node=b, properties=props)
    if tag == "exc":
        check("self relationship refused", a.t == b.t)
        reach("every other relationship is made") if C.valid(a.t == b.t) else check("every other relationship is made", a.t == b.t)
    else:
        check("self relationship refused", a.t != b.t)
        check("every other relationship is made", TRUE)
        check("numbers and name are kept", z3.And(eq(r.fields["wn_from_node"], a), eq(r.fields["wn_to_node"], b), eq(r.fields["relationship_name"], n)))


@block("Node", ["a relationship that neither starts nor ends at the node is refused", "every other node is made", "label and relations are kept"])
def _():
    wn, lab = any_int("wn"), any_str("label")
    fam = family("rel")

    def rel(i):
        return ObjV(Relationship, {"relationship_metadata": meta(any_int("rwn")), "relationship_name": opt_str("rname"), "wn_from_node": any_int("rf"),
                                   "wn_to_node": any_int("rt"), "properties": None})

    seg = each(fam, (), rel)
    rels = ListV([seg])
    foreign = segs_any([seg], lambda r: z3.And(r.fields["wn_from_node"].t != wn.t, r.fields["wn_to_node"].t != wn.t))
    tag, n = call(Node, node_metadata=meta(wn), node_label=lab, properties=None, relations=rels)
    if tag == "exc":
        check("every other node is made", foreign)
        check("a relationship that neither starts nor ends at the node is refused", TRUE)
    else:
        check("a relationship that neither starts nor ends at the node is refused", z3.Not(foreign))
        i = z3.Int("some")
        C.register(fam, (i,))
        check("label and relations are kept", eq(n.fields["node_label"], lab))


@block("Node without relations", ["every node without relations is made"])
def _():
    tag, n = call(Node, node_metadata=meta(any_int("wn")), node_label=any_str("label"), properties=None, relations=None)
    check("every node without relations is made", tag == "ok")


FIELDS = list(ParsedPattern.__fields__)
HANDLES = [f for f in FIELDS if f.endswith("_handle")]


@block("ParsedPattern", ["two equal handles are refused", "every other pattern is made", "pattern_handles is exactly the set of handles"])
def _():
    vals = {f: opt_str(f) for f in FIELDS}
    dup = z3.Or([z3.And(truth(vals[a]), vals[a].t == vals[b].t) for i, a in enumerate(HANDLES) for b in HANDLES[:i]])
    tag, p = call(ParsedPattern, **vals)
    if tag == "exc":
        check("every other pattern is made", dup)
        return
    check("two equal handles are refused", z3.Not(dup))
    check("every other pattern is made", TRUE)
    hs = E.getattr(p, "pattern_handles")
    x = any_str("x")
    want = z3.Or([z3.And(truth(vals[h]), vals[h].t == V.vstr(x.t)) for h in HANDLES])
    check("pattern_handles is exactly the set of handles", E.contains(hs, x) == want if isinstance(hs, SetV) else FALSE)
