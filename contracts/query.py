"""Arbitrary parsed queries, and the contracts of the leaf functions, shared by C01-C03, C05, C06, C08, C09."""
import itertools

from .files import *
from exceptions.wql.parsing import NonDirectedRelationshipError
from models.wigish import GDBMSFilePath
from models.wql import Clause, ParsedFind, ParsedMake, ParsedReport
from models.wql.parsing.parsed_query import ParsedPattern
from pyvc.interp import open_seg, term_dict  # noqa: F401

FIELDS = list(ParsedPattern.__fields__)
HANDLES = [f for f in FIELDS if f.endswith("_handle")]
NODES, RELS = ("left_node", "middle_node", "right_node"), ("left_middle_rel", "middle_right_rel")

# ------------------------------------------------------------------ contracts of leaf functions
PROPS_OK = lambda t: C.uf("props_ok", StrS, z3.BoolSort())(t)
PROPS_OBJ = lambda t: C.uf("props_obj", StrS, IntS)(t)
LTR = lambda t: C.uf("arrow_ltr", StrS, z3.BoolSort())(t)
BOTH = lambda t: C.uf("arrow_both", StrS, z3.BoolSort())(t)


class PropsError(ValueError):
    """whatever get_property_dict raises for a text it rejects"""


def text_of(v):
    """(formula: there is a text, its term)"""
    if isinstance(v, Dyn):
        return simp(truth(v)), simp(V.s(v.t))
    if v is None:
        return FALSE, None
    return truth(v), strterm(v)


def props_value(v):
    """V term of the property dict of an optional text"""
    has, t = text_of(v)
    return V.vnone if t is None else simp(z3.If(has, V.vobj(PROPS_OBJ(t)), V.vnone))


def c_get_property_dict(args, kwargs):
    """get_property_dict(text): None without a text; rejects some texts; otherwise a dict with string
    keys that is a function of the text alone and that json can store."""
    v = args[0] if args else next(iter(kwargs.values()))
    has, t = text_of(v)
    if t is not None and C.decide(simp(z3.And(has, z3.Not(PROPS_OK(t))))):
        raise PyExc(PropsError)
    if t is not None:
        C.fact(models.JSONABLE(PROPS_OBJ(t)))
    return Dyn(props_value(v), ("none", "obj"), True)


def c_get_property_dict_ok(args, kwargs):
    """the same, for texts that are accepted (the caller must not be reached with others: contracts of
    runs that complete)"""
    v = args[0] if args else next(iter(kwargs.values()))
    has, t = text_of(v)
    if t is not None:
        C.fact(z3.Implies(has, PROPS_OK(t)))
        C.fact(models.JSONABLE(PROPS_OBJ(t)))
    return Dyn(props_value(v), ("none", "obj"), True)


def c_left_to_right(args, kwargs):
    """relationship_is_left_to_right(text): rejects a text with both heads, otherwise a function of the text"""
    v = args[0] if args else next(iter(kwargs.values()))
    if isinstance(v, Dyn):
        v = resolve(v)
    t = strterm(v)
    if t is None:
        raise PyExc(TypeError)
    if C.decide(BOTH(t)):
        raise PyExc(NonDirectedRelationshipError)
    return mk("bool", LTR(t))


LEAVES = {
    "wiggle_query_language.clauses.parsing_helpers.parse_properties:get_property_dict": c_get_property_dict,
    "wiggle_query_language.clauses.transform_helpers.relationships:relationship_is_left_to_right": c_left_to_right,
}
LEAVES_OK = dict(LEAVES)
LEAVES_OK["wiggle_query_language.clauses.parsing_helpers.parse_properties:get_property_dict"] = c_get_property_dict_ok
# what a completed MAKE is shown with; without the contracts of the file functions where they are gone
MAKE_CONTRACTS = [{**LEAVES_OK, **INDEX_WRITERS, **STORE}, {**LEAVES_OK, **INDEX_WRITERS}, LEAVES_OK]


# ------------------------------------------------------------------ arbitrary parsed patterns
def pattern(name, ix=()):
    """a ParsedPattern all of whose texts are arbitrary"""
    vals = {}
    for f in FIELDS:
        t = C.fresh(f"{name}.{f}", V)
        C.fact(z3.Or(V.is_vnone(t), V.is_vstr(t)))
        vals[f] = Dyn(t, ("none", "str"))
    return ObjV(ParsedPattern, vals)


def wf(p):
    """what parsing a pattern guarantees (C20): a left node, a middle node exactly with a left-middle
    relationship, a right node exactly with a middle-right one and only after a middle node, one arrow
    head each, labels, and different handles (the class invariant, C15)"""
    g = lambda f: truth(p.fields[f])
    v = lambda f: p.fields[f].t
    one = lambda f: z3.Implies(g(f), z3.Not(BOTH(V.s(v(f)))))
    fs = [g("left_node"), g("middle_node") == g("left_middle_rel"), g("right_node") == g("middle_right_rel"),
          z3.Implies(g("right_node"), g("middle_node")), one("left_middle_rel"), one("middle_right_rel")]
    # a node without a label is refused before anything is written (C05); here: statements that are accepted
    fs += [z3.Implies(g(n), z3.Not(V.is_vnone(v(n + "_label")))) for n in NODES]
    for i, a in enumerate(HANDLES):
        for b in HANDLES[:i]:
            fs.append(z3.Implies(g(a), v(a) != v(b)))
    return z3.And(fs)


def parsed_makes(well_formed=True):
    """an arbitrary list of parsed MAKE statements with arbitrary lists of patterns"""
    S, P = family("statements"), family("patterns", 2)

    def statement(i):
        def pat(j):
            p = pattern("pat")
            if well_formed:
                C.fact(wf(p))
            return p

        return ObjV(ParsedMake, {"raw_statement": any_str("raw"), "clause": Clause.MAKE, "parsed_pattern_list": ListV([each(P, (i,), pat)])})

    return S, P, ListV([each(S, (), statement)])


def paths_obj():
    return ObjV(GDBMSFilePath, {"database_file_path": DB, "indexes_file_path": IDX, "wiggle_number_file_path": NUM})


STR_OF = lambda t: C.uf("str_of", IntS, StrS)(t)


def num_str(t):
    return strterm(E.to_str(Sym("int", t)))


def database(counter):
    """an arbitrary database: records under distinct numbers below the counter"""
    fam = family("stored")
    nf, vf = z3.Function(C.fname("stored.n"), IntS, IntS), z3.Function(C.fname("stored.v"), IntS, V)
    distinct_keys_fact(fam, lambda i: nf(i))
    distinct_keys_fact(fam, lambda i: STR_OF(nf(i)))

    def entry(i):
        v = Dyn(vf(i), ("obj",))
        C.fact(V.is_vobj(vf(i)))
        C.fact(models.JSONABLE(V.o(vf(i))))
        C.fact(z3.And(nf(i) >= 0, nf(i) < counter))
        return (Sym("str", num_str(nf(i))), v)

    d = DictV([each(fam, (), entry)])
    d.distinct = True
    return d


def node_index(counter):
    """an arbitrary node to relationships index over numbers below the counter"""
    outer, inner = family("nr.keys"), family("nr.vals", 2)
    kf, vf = z3.Function(C.fname("nr.k"), IntS, IntS), z3.Function(C.fname("nr.v"), IntS, IntS, IntS)
    distinct_keys_fact(outer, lambda i: kf(i))
    distinct_keys_fact(outer, lambda i: STR_OF(kf(i)))

    def entry(i):
        C.fact(z3.And(kf(i) >= 0, kf(i) < counter))
        return (Sym("str", num_str(kf(i))), ListV([each(inner, (i,), lambda j: Sym("int", vf(i, j)))]))

    d = DictV([each(outer, (), entry)])
    d.distinct = True
    return d


class Setting:
    """database files in an arbitrary consistent state and an arbitrary list of MAKE statements"""

    def __init__(self, well_formed=True):
        self.c0 = z3.Int(C.fname("counter"))
        C.assume(self.c0 >= 0)
        self.S, self.P, self.makes = parsed_makes(well_formed)
        self.old = database(self.c0)
        self.ix = DictV([Item((NODE_LABELS_INDEX_NAME, str_list("labels"))), Item((RELATIONSHIP_NAMES_INDEX_NAME, str_list("names"))),
                         Item((NODE_RELATIONSHIPS_INDEX_NAME, node_index(self.c0)))])
        self.w = world(database=("json", self.old), indexes=("json", self.ix), wiggle_number=("text", Sym("str", num_str(self.c0))))
        self.snap = snapshot(self.w)

    def at(self):
        """a generic written pattern: (statement index, pattern index, its ParsedPattern)"""
        s, p = z3.Int("s*"), z3.Int("p*")
        C.register(self.S, (s,))
        C.register(self.P, (s, p))
        seg = self.makes.segs[0]
        C.assume(seg.dom.inr(s))
        mk_ = interp.subst(seg.cases[0][1][0].v, [(seg.var, s)])
        seg2 = mk_.fields["parsed_pattern_list"].segs[0]
        C.assume(seg2.dom.inr(p))
        return s, p, interp.subst(seg2.cases[0][1][0].v, [(seg2.var, p)])


def items_at(S, P, segs, s, p):
    """The entries that the pattern (s, p) contributes to a container: the container must be made of
    loops over all statements and all of their patterns, nothing else.  None if it is not."""
    out = []
    for g in segs:
        if not isinstance(g, Each) or g.dom is None or g.dom.fam is not S or not g.dom.full():
            return None
        for h in interp.subst_pick(g.cases, [(g.var, s)]):
            if not isinstance(h, Each) or h.dom is None or h.dom.fam is not P or not h.dom.full() or not h.dom.outer[0].eq(s):
                return None
            got = interp.subst_pick(h.cases, [(h.var, p)])
            while any(isinstance(x, Each) and x.dom is None for x in got):
                got = [y for x in got for y in (E.pick(x.cases) if isinstance(x, Each) and x.dom is None else [x])]
            if not all(isinstance(x, Item) for x in got):
                return None
            out += [x.v for x in got]
    return out


def new_part(d, old):
    """segments of d after the ones of old (which must be in front, unchanged); None otherwise"""
    n = len(old.segs)
    if len(d.segs) >= n and all(interp.same_seg(a, b) for a, b in zip(d.segs, old.segs)):
        return d.segs[n:]
    return None


def written(p):
    """the nodes and relationships of the pattern on the current path:
    [(name, index)] of nodes, [(name, source, target)] of relationships (indices into the nodes)"""
    nodes = [n for n in NODES if C.decide(truth(p.fields[n]))]
    rels = []
    for r, a, b in (("left_middle_rel", 0, 1), ("middle_right_rel", 1, 2)):
        if C.decide(truth(p.fields[r])):
            if C.decide(LTR(V.s(p.fields[r].t))):
                rels.append((r, a, b))
            else:
                rels.append((r, b, a))
    return nodes, rels


def flat_list(v):
    """items of a list whose length is known on the current path (decided, if need be); None otherwise"""
    if not isinstance(v, ListV):
        return None
    out, todo = [], list(v.segs)
    while todo:
        x = todo.pop(0)
        if isinstance(x, Item):
            out.append(x.v)
        elif isinstance(x, Each) and x.dom is None:
            todo = list(E.pick(x.cases)) + todo
        elif isinstance(x, interp.SetSeg):
            todo = list(x.segs) + todo
        else:
            return None
    return out


def relations(rec):
    """the relationships of a record as a list; None when it is neither a list nor null"""
    r = field(rec, "relations")
    if isinstance(r, Dyn):
        r = resolve(r)
    return [] if r is None else flat_list(r)


def node_is(rec, p, n):
    """formula: the record has the label and the properties written for node n of the pattern"""
    return z3.And(feq(field(rec, "node_label"), p.fields[n + "_label"]),
                  feq(field(rec, "properties"), Dyn(props_value(p.fields[n + "_props"]), ("none", "obj"), True)))


def rel_is(rel, p, r, src, dst):
    """formula: the stored relationship has the name and properties written for r, from record src to record dst"""
    return z3.And(feq(field(rel, "relationship_name"), p.fields[r + "_label"]),
                  feq(field(rel, "properties"), Dyn(props_value(p.fields[r + "_props"]), ("none", "obj"), True)),
                  feq(field(rel, "wn_from_node"), field(src, "node_metadata", "wn")), feq(field(rel, "wn_to_node"), field(dst, "node_metadata", "wn")))


def some_matching(xs, ys, rel):
    """formula: the xs can be paired with the ys, all of both, so that rel holds for each pair (and for the whole pairing)"""
    if len(xs) != len(ys):
        return FALSE
    return simp(z3.Or([z3.And([rel(x, y) for x, y in zip(xs, perm)] or [TRUE]) for perm in itertools.permutations(ys)]))


def field(d, *ks):
    for k in ks:
        d = lookup(d, k) if isinstance(d, DictV) else MISS
    return d


def feq(a, b):
    """equality of two values as a formula, False when they are of different kinds"""
    if a is MISS or b is MISS:
        return FALSE
    try:
        return eq(a, b)
    except Unsupported:
        return FALSE


def is_list(v):
    """items of a list of known length, None otherwise"""
    if isinstance(v, ListV) and all(isinstance(s, Item) for s in v.segs):
        return [s.v for s in v.segs]
    return None


def handles_of(p):
    return SetV([Each(None, None, [([truth(p.fields[h])], [Item(p.fields[h])]), ([], [])]) for h in HANDLES])


def any_find(p):
    return ObjV(ParsedFind, {"raw_statement": any_str("raw"), "clause": Clause.FIND, "parsed_pattern": p, "parsed_pattern_handles": handles_of(p)})


def any_report():
    t = any_str("report")
    return ObjV(ParsedReport, {"raw_statement": t, "clause": Clause.REPORT, "extracted_report": t})
