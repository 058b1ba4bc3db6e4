"""C12: malformed statements are rejected wherever they are, well-formed ones accepted.

Every check is a loop over the statements; each is shown to return for every list of documented statements, and to raise
for every list of texts of which one (at any position) is malformed in the way the check is for.
"""
from .wordly import *
from .clauses import *
import importlib
import re

P = "wiggle_query_language.clauses."
m = importlib.import_module(P + "parsing_helpers.parse_statement_checks")
mk_ = importlib.import_module(P + "make.parse_make.parse_make_statement")
fd_ = importlib.import_module(P + "find.parse_find.parse_find_statement")
CHECKS = (m.check_statement_syntax, m.check_illegal_characters, m.check_node_rel_properties, m.check_relationships, m.check_nothing_left_over)
under(*CHECKS, m.check_property_syntax, m.validate_statement, mk_.parse_make_statement_from_query_string, fd_.parse_find_statement_from_query_string)

statements()


def stmts(assume_each):
    """any number of statements"""
    fam = family("statements")
    u = lambda i: C.uf("stmt", IntS, StrS)(i)

    def one(i):
        for f in assume_each(Sym("str", u(i))):
            C.fact(f)
        return Sym("str", u(i))

    return fam, ListV([each(fam, (), one)]), u


for fn in CHECKS:
    @block(f"{fn.__name__} takes documented statements", ["returns"])
    def _():
        use_words()
        fam, l, u = stmts(lambda s: in_lang("statement", s))
        tag, r = call(fn, l)
        if tag == "exc":
            fail("returns", f"raised {r}")
        else:
            check("returns", truth(r))


def has_part(s, lang_, part):
    """known from now on: a text of lang_ has, among the matches of the code's patterns, one that is in the language `part`"""
    for r in vars(m).values():
        if isinstance(r, re.Pattern):
            dom = matches(r, "iter", txt(s))
            v = C.new_index(dom)
            whole = [rx.group_value(r, how, txt(s), v, g) for how in ("iter", "all") for g in range(min(r.groups, 1) + 1)]
            for parts in (whole, whole[:1]):
                e, _ = C.exists(dom, v, z3.And([lang(part, x) for x in parts if isinstance(x, Sym)]))
                try:
                    if words.refute(strterm(s), [lang(lang_, s), z3.Not(e)])[0]:
                        C.assume(e)
                        break
                except (words.TooBig, Unsupported):
                    pass


def rejects(fn, lang_, title, part=None):
    @block(f"{fn.__name__} rejects {title}", ["raises"])
    def _():
        use_words()
        fam, l, u = stmts(lambda s: [])
        k = C.fresh("k", IntS)
        C.assume(z3.And(k >= 0, k < fam.length(())))
        C.register(fam, (k,))
        for f in in_lang(lang_, Sym("str", u(k))):
            C.assume(f)
        if part is not None:
            has_part(Sym("str", u(k)), lang_, part)
            C.words = None
        tag, r = call(fn, l)
        if tag == "exc":
            return reach("raises")
        if part is not None:
            C.words = words.conflict_within
            if not C.feasible():
                return
            C.words = words.conflict
        fail("raises", "accepted")


ANY = r"(?s:.)"
COARSE = G.COARSE
# an illegal character, anywhere in any text
language("illegal", rf"{ANY}*[#%&*$]{ANY}*", 5)
rejects(m.check_illegal_characters, "illegal", "an illegal character")
# an odd number of brackets of a kind, in any text
for n, c in (("parentheses", "()"), ("curly brackets", "{}"), ("square brackets", r"\[\]")):
    language("odd " + n, rf"[^{c}]*[{c}][^{c}]*(?:[{c}][^{c}]*[{c}][^{c}]*)*", 5)
    rejects(m.check_statement_syntax, "odd " + n, f"an odd number of {n}")
# arrows and names of relationships
NODE = G.node("x", p=COARSE)
ANYREL = r"(?:<?-+\[\s*(?:(?:\w+\s*)?(?::\s*(?:\w+\s*)?)?)(?:" + COARSE + r"\s*)?\]-+>?)"


def with_rel(bad):
    """a statement with such a relationship between two nodes of a pattern"""
    one = rf"{NODE}\s*{bad}\s*{NODE}(?:\s*{ANYREL}\s*{NODE})?|{NODE}\s*{ANYREL}\s*{NODE}\s*{bad}\s*{NODE}"
    pat = rf"{NODE}(?:\s*{ANYREL}\s*{NODE}(?:\s*{ANYREL}\s*{NODE})?)?"
    return rf"[a-zA-Z]+\s*(?:{pat}\s*,\s*)*(?:{one})\s*(?:,\s*{pat}\s*)*;"


BODY = r"\[\s*(?:(?:\w+\s*)?(?::\s*(?:\w+\s*)?)?)(?:" + COARSE + r"\s*)?\]"
language("undirected", with_rel(rf"-+{BODY}-+"), 20)
language("both directions", with_rel(rf"<-+{BODY}-+>"), 20)
LOWER = rf"\[\s*(?:\w+\s*)?:\s*{G.NOT_UPPER}\s*(?:{COARSE}\s*)?\]"
language("lower case name", with_rel(rf"(?:<-+{LOWER}-+|-+{LOWER}-+>)"), 20)
rejects(m.check_relationships, "undirected", "a relationship without a direction")
rejects(m.check_relationships, "both directions", "a relationship with both directions")
rejects(m.check_relationships, "lower case name", "a relationship name that is not upper case")
# commas and colons of properties
E1 = G.entry()
MAP_NO_COLON = rf"\{{\s*(?:{E1}\s*,\s*)*\w+\s*(?:{G.VALUE_GLUED}|\s{G.VALUE})\s*(?:,\s*{E1}\s*)*\}}"
MAP_NO_COMMA = rf"\{{\s*(?:{E1}\s*,\s*)*{E1}\s+{E1}\s*(?:,\s*{E1}\s*)*\}}"


def with_map(bad):
    n = rf"\(\s*\w*\s*:\s*\w+\s*{bad}\s*\)"
    b = r"\[\s*(?:(?:\w+\s*)?(?::\s*(?:\w+\s*)?)?)" + bad + r"\s*\]"
    r = rf"<?-+{b}-+>?"
    return rf"[a-zA-Z]+\s*(?:{NODE}|{ANYREL}|[\s,])*(?:{n}|{r})(?:{NODE}|{ANYREL}|[\s,])*;"


language("missing colon", with_map(MAP_NO_COLON), 60)
language("missing comma", with_map(MAP_NO_COMMA), 60)
language("map without a colon", MAP_NO_COLON, 20)
language("map without a comma", MAP_NO_COMMA, 20)
rejects(m.check_node_rel_properties, "missing colon", "a missing colon between name and value", "map without a colon")
rejects(m.check_node_rel_properties, "missing comma", "a missing comma between properties", "map without a comma")
# anything else than nodes and relationships
CHARS = r"[{}\w:\s,'\"\.\[\]@]*"
UNDERSTOOD = rf"[a-zA-Z]+(?:\(\s*\w*\s*:\s*\w+{CHARS}\)|<?-+\[{CHARS}\]-+>?|[\s,])*;"
language("understood", UNDERSTOOD, 20)


@block("check_nothing_left_over rejects everything that is not made of nodes and relationships", ["raises"])
def _():
    use_words()
    fam, l, u = stmts(lambda s: [])
    k = C.fresh("k", IntS)
    C.assume(z3.And(k >= 0, k < fam.length(())))
    C.register(fam, (k,))
    C.assume(z3.Not(lang("understood", Sym("str", u(k)))))
    tag, r = call(m.check_nothing_left_over, l)
    if tag == "exc":
        reach("raises")
    else:
        fail("raises", "accepted")


# ---------------------------------------------------------------- all checks are made
ALL_FIVE = "what a check rejects is rejected, whatever statement it is in"
NO_MORE = "what no check rejects is accepted"


@block("validate_statement", [ALL_FIVE, NO_MORE], contracts=[{P + "parsing_helpers.parse_statement_checks:" + f.__name__: flagged(f.__name__) for f in CHECKS}])
def _():
    E.events = []
    fam, l, u = stmts(lambda s: [])
    k = C.fresh("k", IntS)
    C.assume(z3.And(k >= 0, k < fam.length(())))
    C.register(fam, (k,))
    bad = [C.uf(f.__name__, StrS, z3.BoolSort()) for f in CHECKS]
    tag, r = call(m.validate_statement, l)
    if tag == "exc":
        check(NO_MORE, z3.Or([segs_any(l.segs, lambda x, f=f: f(strterm(x))) for f in bad]), f"raised {r}")
        return reach(ALL_FIVE)
    check(ALL_FIVE, z3.And([z3.Not(f(u(k))) for f in bad]))
    check(NO_MORE, truth(r))


CHECKED = "a query is accepted only if every statement of the kind is, wherever it is"
READ = "what is read are the statements, all of them, in order"


TAKEN = "what is neither rejected by the check nor when it is read is accepted"


def accepted(tag, r, kind):
    if tag == "exc":
        if r is not Rejected:
            check(TAKEN, counts("FIND") > 1 if kind == "FIND" else FALSE, f"raised {r}")
        return None
    reach(TAKEN)
    k = C.fresh("k", IntS)
    C.assume(z3.Implies(counts(kind) > 0, z3.And(k >= 0, k < counts(kind))))
    for f in C.families.values():
        if f.name.startswith(kind):
            C.register(f, (k,))
    check(CHECKED, z3.Implies(counts(kind) > 0, z3.Not(invalid(text_at(kind, k)))), f"returned {r}")
    return k


@block("parse_find_statement_from_query_string", [CHECKED, TAKEN], contracts=[MODS])
def _():
    E.events = []
    tag, r = call(fd_.parse_find_statement_from_query_string, any_str("q"))
    accepted(tag, r, "FIND")


@block("parse_make_statement_from_query_string", [CHECKED, TAKEN, READ], contracts=[MODS])
def _():
    E.events = []
    tag, r = call(mk_.parse_make_statement_from_query_string, any_str("q"))
    k = accepted(tag, r, "MAKE")
    if k is None:
        return
    if not isinstance(r, ListV):
        return fail(READ, f"returned {r}") if r is not None else check(READ, counts("MAKE") == 0)
    segs = [x for x in r.segs if not (isinstance(x, Each) and not any(ss for _, ss in x.cases))]
    one = len(segs) == 1 and isinstance(segs[0], Each) and segs[0].dom.full() and segs[0].dom.fam.name.startswith("MAKE")
    if not one:
        return fail(READ, f"returned {r}")
    got = [x.v for x in interp.subst_pick(segs[0].cases, [(segs[0].var, k)])]
    check(READ, feq(got[0], Dyn(V.vobj(C.uf("make of", StrS, IntS)(text_at("MAKE", k))), ("obj",))) if len(got) == 1 else FALSE, f"{got}")
