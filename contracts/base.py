"""Obligations: what a contracts/<ID>.py is written with.

A block states a contract of real functions: it builds the weakest allowed pre-state, runs the
real code symbolically on every path, and asks z3 for the postcondition on each path.  An
obligation is discharged only if it was reached on some path, and is valid on every path.
"""
import os
import sys
import time
import traceback

sys.path.append("/opt/venv/lib/python3.12/site-packages")

import z3  # noqa: E402

from pyvc import core, interp, models, rx  # noqa: E402,F401
from pyvc.core import (C, DictV, Dom, Dyn, Each, FALSE, Family, Infeasible, IntS, Item, ListV, ObjV, Opaque, SetV, StrS, Sym,  # noqa: E402,F401
                       TRUE, Unsupported, V, simp)
from pyvc.interp import (E, PyExc, eq, intterm, is_const, mk, reset, resolve, segs_any, seg_nonempty, strterm, subst, to_V,  # noqa: E402,F401
                         truth)

RESULTS = []  # obligations of this run
BY_BLOCK = []  # (number of the block, its obligations)
CLAIM = None  # which blocks this process runs
NUMBER = [0]


def claimed():
    NUMBER[0] += 1
    return CLAIM is None or CLAIM(NUMBER[0])


def result(obs):
    RESULTS.extend(obs)
    BY_BLOCK.append((NUMBER[0], obs))


TEXTS = []  # for which an obligation may not hold, as the verifier found them
INLINED, CONTRACTS, MODELS = set(), set(), set()
UNDER = set()  # functions under contract
TOTAL = dict(checks=0, time=0.0, unknown=0, paths=0, loops=0, insts=0)
CUR = None
ONLY = None
TIER = "quick"


class Blk:
    def __init__(self, name, must):
        self.name, self.must = name, list(must)
        self.res = {}  # obligation -> [(ok, detail)]
        self.live = set()  # obligations reached on a path that is satisfiable
        self.time = {}
        self.automata = set()
        self.texts = []  # for which an obligation may not hold


def check(name, f, detail=""):
    """The postcondition `name` on the current path."""
    t0 = time.time()
    if isinstance(f, bool):
        ok = f or C.valid(FALSE)
    else:
        ok = C.valid(f)
    if name not in CUR.live and C.feasible():
        CUR.live.add(name)
    d = ""
    if not ok:
        d = f"{detail}; path: {[str(simp(p))[:100] for p in C.pc][-8:]}"
        d += counterexample(f)
    CUR.res.setdefault(name, []).append((bool(ok), d))
    CUR.time[name] = CUR.time.get(name, 0) + time.time() - t0
    return ok


def counterexample(f):
    try:
        C.want_model, C.model = True, None
        C.check(z3.Not(f) if not isinstance(f, bool) else TRUE)
        m = C.model
        C.want_model = False
        if m is None:
            return " (solver gave no model)"
        out = []
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith(("lit", "ex!", "k!")):
                out.append(f"{d.name()}={m[d]}")
        return " model: " + ", ".join(out[:25])
    except Exception as e:  # a counterexample is only a courtesy
        C.want_model = False
        return f" ({type(e).__name__})"


def fail(name, detail):
    """Reaching this path at all violates `name`."""
    return check(name, False, detail)


def reach(name):
    """The path is an allowed outcome for `name`."""
    return check(name, TRUE)


def call(fn, *args, **kw):
    """('ok', value) or ('exc', class)"""
    try:
        return ("ok", E.call(fn, list(args), kw))
    except PyExc as e:
        return ("exc", e.cls)


def under(*fns):
    for f in fns:
        f = getattr(f, "__func__", f)
        if isinstance(f, type):
            UNDER.add(f"{f.__module__}:{f.__qualname__}")
        else:
            UNDER.add(E.qual(f))


class Block:
    """Decorator: @block("name", must=[...]) def _(): ..."""


def block(name, must, limit=4000, contracts=None):
    """contracts: {function: contract}, or a list of such dicts to be tried in turn (the last resort of a
    dict is to inline everything); the attempt that discharges most is the one reported."""

    def deco(fn):
        global CUR
        if ONLY and ONLY not in name or not claimed():
            return fn
        attempts = contracts if isinstance(contracts, list) else [contracts, {}] if contracts else [{}]
        best = None
        t00 = time.time()
        for i, cs in enumerate(attempts):
            t0 = time.time()
            if i and t0 - t00 > (100 if TIER == "quick" else 1200):
                break
            reset()
            C.deadline = t0 + (300 if TIER == "quick" else 900)
            E.contracts = dict(cs)
            CUR = Blk(name, must)
            err = None
            try:
                C.explore(fn, limit)
            except Unsupported as e:
                err = ("unsupported", f"outside the verifier's subset: {e} (near line {getattr(E, 'line', '?')})")
            except PyExc as e:
                err = ("failed", f"unexpected {e}")
            except RecursionError:
                err = ("unsupported", "recursion")
            except Exception as e:
                tb = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in traceback.extract_tb(e.__traceback__)]
                err = ("unsupported", f"{type(e).__name__}: {e}; " + " | ".join(tb[-14:]))
            got = obligations(CUR, err)
            TEXTS.extend(x for x in CUR.texts if isinstance(x, str) and x not in TEXTS)
            for k in TOTAL:
                if k in C.stats:
                    TOTAL[k] += C.stats[k]
            good = sum(o["status"] == "discharged" for o in got)
            if best is None or good > best[0]:
                best = (good, got, set(E.inlined), set(E.used_contracts), set(E.used_models))
            if good == len(got):
                break
        if os.environ.get("BLKTIME"):
            print(f"   [{time.time() - t00:.1f}s] {name}", flush=True)
        result([{k: str(v) if k == 'detail' else v for k, v in o.items()} for o in best[1]])
        INLINED.update(best[2])
        CONTRACTS.update(best[3])
        MODELS.update(best[4])
        return fn

    return deco


def obligations(blk, err):
    out = []
    for n in dict.fromkeys(blk.must + list(blk.res)):
        rs = blk.res.get(n, [])
        bads = [d for ok, d in rs if not ok]
        st, det = "discharged", f"{len(rs)} paths"
        if bads:
            st, det = "failed", bads[0]
        elif err is not None:
            st, det = err
        elif n not in blk.live:
            st, det = "failed", "not reached on any satisfiable path: the contract would be vacuous"
        out.append(dict(name=f"{blk.name}: {n}", status=st, detail=det[:1500], seconds=round(blk.time.get(n, 0), 3), backend="automata" if n in blk.automata else "z3 and automata" if C.words is not None else "z3", paths=len(rs)))
    return out


def lemma(name, fn):
    """An obligation decided by fn() -> (ok, detail) with another back end."""
    if ONLY and ONLY not in name or not claimed():
        return
    t0 = time.time()
    try:
        ok, det, backend = fn()
        st = "discharged" if ok else "failed"
    except Unsupported as e:
        st, det, backend = "unsupported", f"outside the verifier's subset: {e}", "automata"
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        st, det, backend = "unsupported", f"{type(e).__name__}: {e}; " + " | ".join(x.strip() for x in tb[-6:]), "automata"
    result([dict(name=name, status=st, detail=str(det)[:1500], seconds=round(time.time() - t0, 3), backend=backend)])


# ------------------------------------------------------------------ symbolic inputs
def opt_str(name):
    return any_dyn(name, ("none", "str"))


def any_str(name):
    return Sym("str", C.fresh(name, StrS))


def any_int(name):
    return Sym("int", C.fresh(name, IntS))


def any_bool(name):
    return Sym("bool", C.fresh(name, z3.BoolSort()))


def any_dyn(name, tags=("none", "bool", "int", "str", "obj")):
    t = C.fresh(name, V)
    if len(tags) < 5:
        C.fact(z3.Or([interp.tag_test(t, k) for k in tags]))
    return Dyn(t, tags)


def assume(f):
    C.assume(f)


def family(name, arity=1, length=None):
    """A sequence of arbitrary length (below outer indices, for arity > 1)."""
    key = C.fname("fam." + name)
    if key in C.families:
        return C.families[key]
    if length is None:
        if arity == 1:
            n = z3.Int(f"len.{key[4:]}")
            length = lambda outer: n
        else:
            f = z3.Function(f"len.{key[4:]}", *[IntS] * (arity - 1), IntS)
            length = lambda outer: f(*outer)
    fam = C.families[key] = Family(key[4:], arity, length)
    return fam


def each(fam, outer, elem):
    """list of fam's elements: elem(index) -> value"""
    dom = Dom(fam, outer)
    C.fact(dom.hi >= 0)
    v = C.new_index(dom)
    C.idx_stack.append((dom, v))
    try:
        x = elem(v)
    finally:
        C.idx_stack.pop()
    return Each(dom, v, [([], [Item(x)])])
