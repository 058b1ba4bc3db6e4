"""C05: a query that raises leaves the three files as they were.

make: over arbitrary lists of parsed statements, well formed or not; execute_query: over arbitrary
parsed queries, with the contract of make; query: over any text, with the contracts of the parsing."""
import importlib
from .query import *
from models.wql import MakePre, FindPre, Node, NodePre, Relationship, WiggleGraphMetalData, ParsedQuery, ParsedReport, RelationshipPre
from core.query import query as qmod
from wiggle_query_language.clauses.find.find import find
from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
from wiggle_query_language.clauses.make.make import make, make_node
from wiggle_query_language.clauses.make.transform.make_pre import process_parsed_make_list

TRUSTED = ["files and json (model)", "pydantic 1.10 (model)"]
ASSUMPTIONS = ["the three files are in their proper form before the query, and can be read and written",
               "contracts used: get_property_dict, relationship_is_left_to_right (raise, or are functions of their text), add_item_to_database (C04), index writers (C07)"]
under(make, make_node, process_parsed_find, process_parsed_make_list, qmod.execute_query, qmod.query, qmod.parse_query_string, find)
SAME = "when it raises, the files are as they were"
PROPER = "when it completes, the indexes file is in its proper form"


def c_get_property_dict_any(args, kwargs):
    """as c_get_property_dict; whether json can store the result is not known"""
    v = args[0] if args else next(iter(kwargs.values()))
    has, t = text_of(v)
    if t is not None and C.decide(simp(z3.And(has, z3.Not(PROPS_OK(t))))):
        raise PyExc(PropsError)
    return Dyn(props_value(v), ("none", "obj"), True)


LEAVES_ANY = dict(LEAVES)
LEAVES_ANY["wiggle_query_language.clauses.parsing_helpers.parse_properties:get_property_dict"] = c_get_property_dict_any


def c_add_any(args, kwargs):
    """add_item_to_database: raises and leaves the file as it was, or changes that file only (shown in C04)"""
    key = models.path_key(kwargs.get("database_file_path", args[0] if args else None))
    if not isinstance(json_of(E.world, key), DictV):
        raise Unsupported("the contract of add_item_to_database needs an object in the file")
    if C.decide(any_bool("addition refused").t):
        raise PyExc(AddRefused)
    E.world.put(key, ("json", DictV()))
    return True


STORE_ANY = {"wiggle_query_language.graph.database.database:add_item_to_database": c_add_any}


def consistent():
    """database files in their proper form; the two other files hold anything"""
    return world(database=("json", DictV()), indexes=("json", indexes()), wiggle_number=("text", any_str("counter")))


def every(segs):
    """the values a list can hold"""
    for s in segs:
        if isinstance(s, Item):
            yield s.v
        elif isinstance(s, Each):
            for _, ss in s.cases:
                yield from every(ss)
        else:
            yield None


TAKEN = "processing the parsed statements touches no file and gives a number and a list of MakePre"


@block("process_parsed_make_list", [TAKEN], contracts=[LEAVES_ANY])
def _():
    _, _, makes = parsed_makes(False)
    w = consistent()
    snap = snapshot(w)
    tag, r = call(process_parsed_make_list, parsed_make_list=makes, current_wiggle_number=any_int("number"))
    check(TAKEN, unchanged(w, snap))
    if tag == "ok":
        ok = isinstance(r, tuple) and len(r) == 2 and intterm(r[0]) is not None and isinstance(r[1], ListV)
        check(TAKEN, ok and all(isinstance(x, ObjV) and x.cls is MakePre for x in every(r[1].segs)), f"returned {r}")


class ProcessRefused(Exception):
    """whatever process_parsed_make_list raises"""


def any_make_pre(fam):
    """an arbitrary list of MakePre"""
    rels = {n: family("pre." + n, 2) for n in NODES}
    dom = Dom(fam, ())
    C.fact(dom.hi >= 0)
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    try:
        def rel(j):
            return ObjV(RelationshipPre, {"wn": any_int("rwn"), "rel_name": opt_str("rname"), "rel_handle": opt_str("rhandle"), "props_string": opt_str("rprops"),
                                          "wn_from_node": any_dyn("from", ("none", "int")), "wn_to_node": any_dyn("to", ("none", "int"))})

        def node(n):
            return ObjV(NodePre, {"wn": any_int("wn"), "node_label": any_str("label"), "node_handle": opt_str("handle"), "props_string": opt_str("props"),
                                  "relationships_pre": ListV([each(rels[n], (v,), rel)])})

        def sets(n):
            return SetV([each(family(n, 2), (v,), lambda j: any_str(n))])

        cases = []
        m, r = any_bool("has middle").t, any_bool("has right").t
        for gm, mid in ((m, True), (z3.Not(m), False)):
            for gr, right in ((r, True), (z3.Not(r), False)):
                pre = ObjV(MakePre, {"left_node": node("left_node"), "middle_node": node("middle_node") if mid else None,
                                     "right_node": node("right_node") if right else None, "node_labels": sets("labels"), "relationship_names": sets("names")})
                cases.append(([gm, gr], [Item(pre)]))
    finally:
        C.idx_stack.pop()
    return ListV([Each(dom, v, cases)])


def c_process(args, kwargs):
    """process_parsed_make_list: raises, or gives some number and some list of MakePre; touches no file"""
    if C.decide(any_bool("processing refuses").t):
        raise PyExc(ProcessRefused)
    return (any_int("next number"), any_make_pre(family("make pre")))


PROCESS = {"wiggle_query_language.clauses.make.transform.make_pre:process_parsed_make_list": c_process}


NODE = "making a node touches no file and gives a node whose relations are a list or absent"


@block("make_node", [NODE], contracts=[LEAVES_ANY])
def _():
    w = consistent()
    snap = snapshot(w)
    one = any_make_pre(family("make pre"))
    seg = one.segs[0]
    i = z3.Int("i*")
    C.register(seg.dom.fam, (i,))
    C.assume(seg.dom.inr(i))
    pre = interp.subst(seg.cases[0][1][0].v, [(seg.var, i)]).fields["left_node"]
    tag, r = call(make_node, pre)
    check(NODE, unchanged(w, snap))
    if tag == "ok":
        check(NODE, isinstance(r, ObjV) and r.cls is Node and (r.fields["relations"] is None or isinstance(r.fields["relations"], ListV)), f"returned {r}")


class NodeRefused(Exception):
    """whatever make_node raises"""


def c_make_node(args, kwargs):
    """make_node(pre): raises, or gives some node; touches no file"""
    if C.decide(any_bool("node refused").t):
        raise PyExc(NodeRefused)
    meta = lambda: ObjV(WiggleGraphMetalData, {"wn": any_int("wn"), "created_at": any_int("now"), "updated_at": None})
    rel = lambda j: ObjV(Relationship, {"relationship_metadata": meta(), "relationship_name": opt_str("rname"), "wn_from_node": any_int("from"), "wn_to_node": any_int("to"), "properties": any_props("rp")})
    outer = tuple(t for _, t in C.idx_stack)
    rels = ListV([each(family("made rels", 1 + len(outer)), outer, rel)]) if C.decide(any_bool("has relations").t) else None
    return ObjV(Node, {"node_metadata": meta(), "node_label": any_str("label"), "properties": any_props("np"), "relations": rels})


def any_props(name):
    return Dyn(any_dyn(name, ("none", "obj")).t, ("none", "obj"), True)


MAKE_NODE = {"wiggle_query_language.clauses.make.make:make_node": c_make_node}


@block("make", [SAME, PROPER], contracts=[{**LEAVES_ANY, **PROCESS, **MAKE_NODE, **INDEX_WRITERS, **STORE_ANY}, {**LEAVES_ANY, **PROCESS, **INDEX_WRITERS, **STORE_ANY}, {**LEAVES_ANY, **INDEX_WRITERS, **STORE}])
def _():
    _, _, makes = parsed_makes(False)
    c0 = z3.Int(C.fname("counter"))
    C.assume(c0 >= 0)
    w = world(database=("json", database(c0)), indexes=("json", indexes()), wiggle_number=("text", Sym("str", num_str(c0))))
    snap = snapshot(w)
    tag, r = call(make, parsed_make_list=makes, gdbms_file_path=paths_obj())
    if tag == "exc":
        check(SAME, unchanged(w, snap), f"raised {r}")
    else:
        check(PROPER, proper_indexes(json_of(w, "indexes")))


class MakeRefused(Exception):
    """whatever make raises"""


def c_make(args, kwargs):
    """make: raises and leaves the files as they were, or changes the database's files only, the indexes file
    to one in its proper form (shown above)"""
    gp = kwargs["gdbms_file_path"] if "gdbms_file_path" in kwargs else args[-1]
    if C.decide(any_bool("make refuses").t):
        raise PyExc(MakeRefused)
    w = E.world
    for f, c in (("database_file_path", ("json", DictV())), ("indexes_file_path", ("json", indexes())), ("wiggle_number_file_path", ("text", any_str("counter")))):
        w.put(models.path_key(gp.fields[f]), c)
    return True


MAKE = {"wiggle_query_language.clauses.make.make:make": c_make}


def any_query(makes):
    """an arbitrary parsed query: each of the clauses may be absent"""
    p = pattern("find")
    f = any_find(p) if C.decide(any_bool("has find").t) else None
    r = any_report() if C.decide(any_bool("has report").t) else None
    m = makes if C.decide(any_bool("has make").t) else None
    return ObjV(ParsedQuery, {"make_parsed": m, "find_parsed": f, "criteria_parsed": None, "report_parsed": r}), p


AGAIN, READS = "a FIND that was interpreted once is interpreted again", "interpreting a FIND touches neither the files nor the parsed FIND"


@block("process_parsed_find", [AGAIN, READS], contracts=[LEAVES_ANY])
def _():
    w = consistent()
    snap = snapshot(w)
    p = pattern("find")
    f = any_find(p)
    was = dict(p.fields), dict(f.fields)
    tag, r = call(process_parsed_find, parsed_find=f, parsed_criteria=None)
    check(READS, unchanged(w, snap))
    check(READS, all(p.fields[k] is v for k, v in was[0].items()) and all(f.fields[k] is v for k, v in was[1].items()))
    if tag == "ok":
        tag, r = call(process_parsed_find, parsed_find=f, parsed_criteria=None)
        check(AGAIN, tag == "ok")


class FindRefused(Exception):
    """whatever process_parsed_find raises"""


def c_process_find(args, kwargs):
    """process_parsed_find(parsed FIND): refuses it whenever it is asked or never; otherwise gives some FindPre;
    touches neither the files nor its argument (shown above)"""
    f = kwargs["parsed_find"] if "parsed_find" in kwargs else args[0]
    if f is not QUERY["find"] or kwargs.get("parsed_criteria", args[1] if len(args) > 1 else None) is not None:
        raise Unsupported("the contract of process_parsed_find is about the FIND of the query")
    if C.decide(z3.Bool("the FIND is refused")):
        raise PyExc(FindRefused)
    return ObjV(FindPre, {"left_node": Opaque("left"), "middle_node": None, "right_node": None, "node_labels": str_set("asked.labels"), "relationship_names": str_set("asked.names")})


QUERY = {}
FIND = {"wiggle_query_language.clauses.find.transform.find_pre:process_parsed_find": c_process_find}


@block("execute_query", [SAME, PROPER], contracts=[{**LEAVES_ANY, **MAKE, **FIND}, {**LEAVES_ANY, **MAKE}])
def _():
    w = consistent()
    snap = snapshot(w)
    _, _, makes = parsed_makes(False)
    pq, p = any_query(makes)
    QUERY["find"] = pq.fields["find_parsed"]
    tag, r = call(qmod.execute_query, pq, paths_obj())
    if tag == "exc":
        check(SAME, unchanged(w, snap), f"raised {r}")
    else:
        check(PROPER, proper_indexes(json_of(w, "indexes")))


# ---------------------------------------------------------------- parsing, on any text whatsoever
P = "wiggle_query_language.clauses."
NO_FILES = "touches no file, whatever the text"


class ParseRefused(Exception):
    """whatever the parsing raises"""


def may_raise():
    if C.decide(any_bool("refused").t):
        raise PyExc(ParseRefused)


def c_check(args, kwargs):
    """a check of a list of statements: raises, or gives True"""
    may_raise()
    return True


def c_extract(args, kwargs):
    """extract_all_statements: raises, or gives None or a list of texts"""
    may_raise()
    if C.decide(any_bool("no statement").t):
        return None
    return ListV([each(family("statements"), (), lambda i: any_str("statement"))])


CHECKS = ("check_statement_syntax", "check_illegal_characters", "check_node_rel_properties", "check_relationships", "check_nothing_left_over")
STATEMENT_CHECKS = {P + "parsing_helpers.parse_statement_checks:" + n: c_check for n in CHECKS}
VALIDATE = {P + "parsing_helpers.parse_statement_checks:validate_statement": c_check}
EXTRACT = {P + "parsing_helpers.extract_statements:extract_all_statements": c_extract}
any_statements = lambda: ListV([each(family("statements"), (), lambda i: any_str("statement"))])


def frame_block(name, fn, args, result, contracts=None):
    under(fn)

    @block(name, [NO_FILES], contracts=contracts)
    def _():
        w = consistent()
        snap = snapshot(w)
        tag, r = call(fn, *args())
        check(NO_FILES, unchanged(w, snap))
        check(NO_FILES, tag == "exc" or result(r), f"returned {r}")


checks_mod = importlib.import_module(P + "parsing_helpers.parse_statement_checks")
true = lambda r: r is True
list_of = lambda cls: lambda r: r is None or isinstance(r, ListV) and all(isinstance(x, ObjV) and x.cls is cls for x in every(r.segs))
one = lambda cls: lambda r: r is None or isinstance(r, ObjV) and r.cls is cls
texts = lambda r: r is None or isinstance(r, ListV) and all(interp.strlike(x) for x in every(r.segs))
for n in CHECKS:
    if hasattr(checks_mod, n):
        frame_block(n, getattr(checks_mod, n), lambda: [any_statements()], true)
frame_block("validate_statement", checks_mod.validate_statement, lambda: [any_statements()], true, [STATEMENT_CHECKS])
for clause in (Clause.MAKE, Clause.FIND, Clause.REPORT):
    frame_block(f"extract_all_statements({clause.value})", importlib.import_module(P + "parsing_helpers.extract_statements").extract_all_statements,
                lambda: [any_str("text"), clause], texts)
for word, cls, result in (("make", ParsedMake, list_of), ("find", ParsedFind, one), ("report", ParsedReport, one)):
    frame_block(f"parse_{word}_statement_from_query_string", getattr(qmod, f"parse_{word}_statement_from_query_string"), lambda: [any_str("text")], result(cls),
                [{**EXTRACT, **VALIDATE}])


def c_parse_make(args, kwargs):
    may_raise()
    return parsed_makes(False)[2] if C.decide(any_bool("has make").t) else None


def c_parse_find(args, kwargs):
    may_raise()
    return any_find(pattern("find")) if C.decide(any_bool("has find").t) else None


def c_parse_report(args, kwargs):
    may_raise()
    return any_report() if C.decide(any_bool("has report").t) else None


PARSE = {f"{P}{w}.parse_{w}.parse_{w}_statement:parse_{w}_statement_from_query_string": c for w, c in (("make", c_parse_make), ("find", c_parse_find), ("report", c_parse_report))}


def is_parsed(r):
    if not (isinstance(r, ObjV) and r.cls is ParsedQuery):
        return False
    m, f, c, p = (r.fields[k] for k in ("make_parsed", "find_parsed", "criteria_parsed", "report_parsed"))
    return list_of(ParsedMake)(m) and one(ParsedFind)(f) and c is None and one(ParsedReport)(p)


frame_block("parse_query_string", qmod.parse_query_string, lambda: [any_str("text")], is_parsed, [PARSE])


def c_parse_query(args, kwargs):
    may_raise()
    return any_query(parsed_makes(False)[2])[0]


class QueryRefused(Exception):
    """whatever execute_query raises"""


def c_execute(args, kwargs):
    """execute_query: as c_make (shown above)"""
    gp = kwargs["gdbms_file_path"] if "gdbms_file_path" in kwargs else args[-1]
    if C.decide(any_bool("query refused").t):
        raise PyExc(QueryRefused)
    for f, c in (("database_file_path", ("json", DictV())), ("indexes_file_path", ("json", indexes())), ("wiggle_number_file_path", ("text", any_str("counter")))):
        E.world.put(models.path_key(gp.fields[f]), c)
    return True


Q = "core.query.query:"


@block("query", [SAME, PROPER], contracts=[{Q + "parse_query_string": c_parse_query, Q + "execute_query": c_execute}])
def _():
    w = consistent()
    snap = snapshot(w)
    tag, r = call(qmod.query, any_str("text"), paths_obj())
    if tag == "exc":
        check(SAME, unchanged(w, snap), f"raised {r}")
    else:
        check(PROPER, proper_indexes(json_of(w, "indexes")))
