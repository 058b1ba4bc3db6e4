"""C09: contract of process_parsed_find over arbitrary patterns, with and without arbitrary criteria."""
from .query import *
from .arrows import arrow_block
from models.wql import FindNodePre, FindPre, FindRelationshipPre, ParsedCriteria
from models.wql.parsing.parsed_query import ParsedCriteriaYesNo
from wiggle_query_language.clauses.find.transform.find_pre import add_criteria_yes_no_props, process_parsed_find

TRUSTED = ["pydantic 1.10 (model)"]
ASSUMPTIONS = ["the pattern is as parsing leaves it (C20); handles are absent or not empty", "contracts used: get_property_dict (C10, C11), relationship_is_left_to_right (here): functions of their text"]
under(process_parsed_find, add_criteria_yes_no_props, FindPre, FindNodePre, FindRelationshipPre)
DONE = "every pattern as parsing leaves it is interpreted"
NODE = "each node has its own handle, label and properties, and nodes that were not written are absent"
REL = "each relationship has its own handle, name and properties and belongs to the node its arrow starts from, to no other"
LABELS, NAMES = "the labels are exactly the written ones", "the relationship names are exactly the written ones that are not empty"
CRIT = "criteria of a handle are added to the node or relationship with that handle only, and win over its own properties"


def find_of(p):
    handles = SetV([Each(None, None, [([truth(p.fields[h])], [Item(p.fields[h])]), ([], [])]) for h in HANDLES])
    return ObjV(ParsedFind, {"raw_statement": any_str("raw"), "clause": Clause.FIND, "parsed_pattern": p, "parsed_pattern_handles": handles})


def own_props(found, text):
    """formula: the stored properties are those of the text (none at all may also be an empty dict)"""
    has, t = text_of(text)
    none = z3.Not(truth(found))
    if t is None:
        return none
    return z3.And(z3.Implies(has, feq(found, Dyn(props_value(text), ("none", "obj"), True))), z3.Implies(z3.Not(has), none))


def shape(pre, p, props):
    """the checks that do not depend on criteria; props(found, element, which) checks the properties"""
    nodes, rels = written(p)
    for n in NODES:
        got = pre.fields[n]
        if n not in nodes:
            check(NODE, E.is_(got, None) if not isinstance(got, ObjV) else False, f"{n} was not written")
            continue
        if not isinstance(got, ObjV):
            fail(NODE, f"{n} is missing")
            return
        check(NODE, z3.And(feq(got.fields["node_label"], p.fields[n + "_label"]), feq(got.fields["node_handle"], p.fields[n + "_handle"])))
        props(NODE, got, n)
        here = [r for r, a, _ in rels if NODES[a] == n]
        have = flat_list(got.fields["relationships"])
        if have is None or len(have) != len(here):
            fail(REL, f"relationships of {n}")
            continue
        # matched by handle and name, in either order
        match = lambda x, r: z3.And(feq(x.fields["rel_handle"], p.fields[r + "_handle"]), feq(x.fields["rel_name"], p.fields[r + "_label"]))
        for perm in itertools.permutations(here):
            if C.valid(z3.And([match(x, r) for x, r in zip(have, perm)] or [TRUE])):
                here = perm
                break
        for x, r in zip(have, here):
            check(REL, match(x, r))
            props(REL, x, r)
        if not here:
            check(REL, TRUE)
    x = any_dyn("x", ("none", "str"))
    check(LABELS, member(pre.fields["node_labels"], x) == z3.Or([feq(p.fields[n + "_label"], x) for n in nodes]))
    check(NAMES, member(pre.fields["relationship_names"], x) == z3.Or([z3.And(truth(p.fields[r + "_label"]), feq(p.fields[r + "_label"], x)) for r, _, _ in rels] or [FALSE]))


@block("process_parsed_find", [DONE, NODE, REL, LABELS, NAMES], contracts=[LEAVES_OK])
def _():
    p = pattern("pat")
    C.assume(wf(p))
    tag, pre = call(process_parsed_find, find_of(p))
    if tag == "exc":
        fail(DONE, f"raised {pre}")
        return
    check(DONE, TRUE)
    if not isinstance(pre, ObjV) or pre.cls is not FindPre:
        fail(NODE, f"returned {pre}")
        return
    C.explore(lambda: shape(pre, p, lambda name, got, e: check(name, z3.And(own_props(got.fields["props_dict_yes"], p.fields[e + "_props"]), z3.Not(truth(got.fields["props_dict_no"]))))))


# ------------------------------------------------------------------ criteria
YES = lambda old, h: C.uf("with_criteria_yes", V, V, V)(old, h)
NO = lambda old, h: C.uf("with_criteria_no", V, V, V)(old, h)


def c_add_criteria(args, kwargs):
    """add_criteria_yes_no_props(model, criteria, handle): the properties of that model become a function of
    what they were and of the handle (for these criteria); returns the model.  What function: block below."""
    names = ["find_pre_model", "criteria", "handle"]
    a = dict(zip(names, args))
    a.update(kwargs)
    m, h = a["find_pre_model"], to_V(a["handle"])
    if a["criteria"] is not CRIT_BOX["c"]:
        raise Unsupported("criteria that are not the given ones")
    for f, fn in (("props_dict_yes", YES), ("props_dict_no", NO)):
        old = m.fields[f]
        old = V.vnone if isinstance(old, DictV) and not old.segs else to_V(old)
        core.setkey(m, m.fields, f, Dyn(simp(fn(old, h)), ("none", "obj"), True))
    return m


CRIT_BOX = {}
ADD = {"wiggle_query_language.clauses.find.transform.find_pre:add_criteria_yes_no_props": c_add_criteria}


def any_props(name, tags=("none", "obj")):
    v = any_dyn(name, tags)
    return Dyn(v.t, tags, True)


def any_criteria():
    fam = family("criteria")
    kf = z3.Function(C.fname("criteria.k"), IntS, StrS)
    distinct_keys_fact(fam, lambda i: kf(i))
    entry = lambda i: (Sym("str", kf(i)), ObjV(ParsedCriteriaYesNo, {"props_dict_yes_match": any_props("cyes", ("obj",)), "props_dict_no_match": any_props("cno", ("obj",))}))
    d = DictV([each(fam, (), entry)])
    d.distinct = True
    return ObjV(ParsedCriteria, {"raw_statement": any_str("raw"), "clause": Clause.CRITERIA, "criteria_handle_props": d}), fam


@block("process_parsed_find with criteria", [DONE, NODE, REL, LABELS, NAMES, CRIT], contracts=[{**LEAVES_OK, **ADD}])
def _():
    p = pattern("pat")
    C.assume(wf(p))
    crit, _ = any_criteria()
    CRIT_BOX["c"] = crit
    tag, pre = call(process_parsed_find, find_of(p), crit)
    if tag == "exc":
        fail(DONE, f"raised {pre}")
        return
    check(DONE, TRUE)
    if not isinstance(pre, ObjV) or pre.cls is not FindPre:
        fail(NODE, f"returned {pre}")
        return

    def props(name, got, e):
        h, own = p.fields[e + "_handle"].t, props_value(p.fields[e + "_props"])
        check(CRIT, z3.And(feq(got.fields["props_dict_yes"], Dyn(simp(YES(own, h)), ("none", "obj"), True)),
                           feq(got.fields["props_dict_no"], Dyn(simp(NO(V.vnone, h)), ("none", "obj"), True))))

    C.explore(lambda: shape(pre, p, props))


MERGED = "the properties looked for become the own ones and those of the handle's criteria, which win"
OTHERS = "without criteria for the handle nothing changes, and nothing but the properties ever does"
READ = "the criteria are only read"


def lookup_in(d, x):
    """(formula: x is a key, V term of the value) of a dict or None"""
    if isinstance(d, Dyn):
        d = resolve(d)
    if d is None:
        return FALSE, V.vnone
    return simp(member(d, x)), to_V(E.dict_lookup(d, x, None, True))


def add_criteria(cls, fields):
    old = {"props_dict_yes": any_props("own.yes"), "props_dict_no": any_props("own.no"), **fields}
    m = ObjV(cls, dict(old))
    crit, fam = any_criteria()
    handle = opt_str("handle")
    given = crit.fields["criteria_handle_props"]
    tag, r = call(add_criteria_yes_no_props, find_pre_model=m, criteria=crit, handle=handle)
    if tag == "exc":
        fail(MERGED, f"raised {r}")
        return
    check(READ, crit.fields["criteria_handle_props"] is given)
    check(OTHERS, z3.And([TRUE if m.fields[f] is old[f] else FALSE for f in fields] or [TRUE]))
    check(MERGED, r is m, "another object is returned")

    def one(f, g):
        def go():
            x = any_str("x")
            now = lookup_in(m.fields[f], x)
            was = lookup_in(old[f], x)
            i = z3.Int("c*")
            C.register(fam, (i,))
            if C.decide(z3.And(Dom(fam, ()).inr(i), V.is_vstr(handle.t), simp(interp.subst(given.segs[0].cases[0][1][0].v[0], [(given.segs[0].var, i)]).t == V.s(handle.t)))):
                c = lookup_in(interp.subst(given.segs[0].cases[0][1][0].v[1], [(given.segs[0].var, i)]).fields[g], x)
                check(MERGED, z3.And(now[0] == z3.Or(was[0], c[0]), z3.Implies(c[0], now[1] == c[1]), z3.Implies(z3.And(was[0], z3.Not(c[0])), now[1] == was[1])))
            else:
                has = segs_any(given.segs, lambda kv: feq(kv[0], handle))
                if not C.decide(has):
                    check(OTHERS, z3.And(now[0] == was[0], z3.Implies(was[0], now[1] == was[1])))
        return go

    C.explore(one("props_dict_yes", "props_dict_yes_match"))
    C.explore(one("props_dict_no", "props_dict_no_match"))


@block("add_criteria_yes_no_props(node)", [MERGED, OTHERS, READ])
def _():
    rels = ListV([each(family("rels"), (), lambda i: any_dyn("rel", ("obj",)))])
    add_criteria(FindNodePre, {"node_label": any_str("label"), "node_handle": opt_str("h"), "relationships": rels})


@block("add_criteria_yes_no_props(relationship)", [MERGED, OTHERS, READ])
def _():
    add_criteria(FindRelationshipPre, {"rel_name": opt_str("name"), "rel_handle": opt_str("h")})


arrow_block()
