"""Contracts of the functions that read property maps."""
import importlib

from .wordly import *

P = "wiggle_query_language.clauses."
pp = importlib.import_module(P + "parsing_helpers.parse_properties")
pre = importlib.import_module("models.wql.parsing.properties_pre")
FUNCTIONS = [pp.get_property_dict, pp.parse_properties, pp.handle_extracted_property, pp.handle_null_property, pp.handle_bool_property, pp.handle_float_property,
             pp.handle_int_property, pp.handle_list_property, pp.handle_string_property, pre.WiggleGraphPropertyPre.yield_extracted_property]
CONVERSIONS = "int(text) is the integer of the digits (up to 4300 of them), float(text) the decimal, ast.literal_eval of a list of simple literals the list of their values"


def conversion(v):
    """(kind, the text that is converted) of a value"""
    if v is None:
        return "null", None
    if v is True or v is False:
        return ("true" if v else "false"), None
    if isinstance(v, Sym) and v.k == "int" and name(v.t) == "int_of":
        return "int", v.t.arg(0)
    if isinstance(v, Opaque) and v.name == "float":
        return "float", v.term.arg(0)
    if isinstance(v, Opaque) and v.name == "literal":
        return "list", v.term.arg(0).arg(0)
    if isinstance(v, (str, Sym)) and (isinstance(v, str) or v.k == "str"):
        return "str", strterm(v)
    if isinstance(v, Dyn) and v.tags <= {"none", "str"} and C.valid(V.is_vstr(v.t)):
        return "str", V.s(v.t)
    raise Unsupported(f"a value {v!r}")


def name(t):
    return t.decl().name() if z3.is_app(t) else None


def entries(r):
    """of the dict: (domain of matches, index, [(guard, key, value)]), or None if there are none"""
    if not isinstance(r, DictV):
        raise Unsupported(f"returned {r}")
    segs = [x for x in r.segs if not (isinstance(x, Each) and not any(ss for _, ss in x.cases))]
    if not segs:
        return None
    if len(segs) != 1 or not isinstance(segs[0], Each) or segs[0].dom is None or not segs[0].dom.full() or not hasattr(segs[0].dom.fam, "rxh"):
        raise Unsupported("a dict that is not made from the matches of one pattern")
    e = segs[0]
    full = [(g, ss) for g, ss in e.cases if ss]
    if any(len(ss) != 1 or not isinstance(ss[0], Item) for _, ss in full):
        raise Unsupported("several entries per match")
    return e, [(z3.And(guard, h), k, w) for guard, k, v in ((z3.And(g) if g else TRUE, *ss[0].v) for g, ss in full) for h, w in kinds_of(v)]


def kinds_of(v):
    """the value, a case for each kind of value it may be"""
    if isinstance(v, Sym) and v.k == "bool":
        return [(v.t, True), (z3.Not(v.t), False)]
    if isinstance(v, Dyn) and len(v.tags) > 1 and v.tags <= {"none", "str", "bool"}:
        return [x for tag in sorted(v.tags) for x in {"none": lambda: [(V.is_vnone(v.t), None)], "str": lambda: [(V.is_vstr(v.t), Sym("str", V.s(v.t)))],
                                                     "bool": lambda: [(z3.And(V.is_vbool(v.t), V.b(v.t)), True), (z3.And(V.is_vbool(v.t), z3.Not(V.b(v.t))), False)]}[tag]()]
    return [(TRUE, v)]
