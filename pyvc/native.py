"""The search through a net of automata, in compiled code that asks each component for its transitions once."""
import ctypes
import hashlib
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
FILL = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.POINTER(ctypes.c_int)))
INFO = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int)
_LIB = []


def lib():
    """None if there is no compiler"""
    if not _LIB:
        _LIB.append(build())
    return _LIB[0]


def build():
    src = os.path.join(HERE, "explore.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    cxx = shutil.which("g++") or shutil.which("clang++")
    for d in (os.path.join(os.path.dirname(HERE), "build"), tempfile.gettempdir()):
        out = os.path.join(d, f"explore-{h}.so")
        try:
            if not os.path.exists(out):
                if cxx is None:
                    return None
                os.makedirs(d, exist_ok=True)
                fd, tmp = tempfile.mkstemp(suffix=".so", dir=d)
                os.close(fd)
                subprocess.run([cxx, "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, capture_output=True)
                os.rename(tmp, out)
            l = ctypes.CDLL(out)
        except (OSError, subprocess.CalledProcessError):
            continue
        P = ctypes.POINTER(ctypes.c_int)
        l.net_new.restype = ctypes.c_void_p
        l.net_new.argtypes = [FILL, INFO]
        l.net_free.argtypes = [ctypes.c_void_p]
        l.net_comp.argtypes = [ctypes.c_void_p, ctypes.c_int, P]
        l.net_phi.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, P]
        l.net_search.restype = ctypes.c_int64
        l.net_search.argtypes = [ctypes.c_void_p, P, ctypes.c_int, P, ctypes.c_int, ctypes.c_int, P, P, ctypes.c_int64, ctypes.c_double, P, ctypes.c_int64, P64]
        return l
    return None


P64 = ctypes.POINTER(ctypes.c_int64)


def arr(xs):
    return (ctypes.c_int * max(1, len(xs)))(*xs)


class Timeout(Exception):
    pass


def search(net, wants, reps, END, limit, seconds):
    """the letters of a word, or None; net is prepared.  Raises OverflowError beyond the limits."""
    L = lib()
    n = len(net.comps)
    states = [[] for _ in range(n)]
    sid = [{} for _ in range(n)]
    seqs, qid = [], {}
    error = []

    def state(c, s):
        i = sid[c].get(s)
        if i is None:
            i = sid[c][s] = len(states[c])
            states[c].append(s)
        return i

    def seq(t):
        i = qid.get(t)
        if i is None:
            i = qid[t] = len(seqs)
            seqs.append(t)
        return i

    keep = [None]

    def fill(c, s, nin, ins, res):
        try:
            comp = net.comps[c]
            st = states[c][s]
            if hasattr(comp, "multi"):
                out = [(comp.multi(st, [seqs[ins[k]] for k in range(nin)]), ())]
            else:
                out = net.run1(c, st, seqs[ins[0]])
            flat = []
            for s2, o in out:
                flat.append(state(c, s2))
                flat.append(seq(o))
            keep[0] = arr(flat)
            res[0] = ctypes.cast(keep[0], ctypes.POINTER(ctypes.c_int))
            return len(out)
        except Exception as e:  # noqa
            error.append(e)
            return -1

    code = {False: 0, True: 1, None: 2}

    def info(c, s):
        comp, st = net.comps[c], states[c][s]
        return code[comp.value(st)] | (4 if comp.doomed(st, True) else 0) | (8 if comp.doomed(st, False) else 0)

    f, g = FILL(fill), INFO(info)
    N = L.net_new(f, g)
    try:
        for ins in net.ins:
            x = [-1 if r == "root" else r for r in (ins or ("root",))]
            L.net_comp(N, len(x), arr(x))

        def phi(p):
            k = p[0]
            if k == "atom":
                return L.net_phi(N, 0, p[1], 0, arr([]))
            if k == "const":
                return L.net_phi(N, 1, code[p[1]], 0, arr([]))
            if k == "not":
                return L.net_phi(N, 2, phi(p[1]), 0, arr([]))
            if k in ("and", "or"):
                ks = [phi(q) for q in p[1:]]
                return L.net_phi(N, 3 if k == "and" else 4, 0, len(ks), arr(ks))
            return L.net_phi(N, 1, 2, 0, arr([]))

        ps = [phi(p) for p, _ in wants]
        init = [state(c, s) for c, s in enumerate(net.init())]
        word = (ctypes.c_int * 4096)()
        explored = ctypes.c_int64()
        r = L.net_search(N, arr(init), len(reps), arr([seq((x,)) for x in reps]), seq((END,)), len(ps), arr(ps), arr([int(bool(w)) for _, w in wants]),
                         limit, seconds, word, 4096, ctypes.byref(explored))
        net.explored = explored.value
        if error:
            raise error[0]
        if r == -1:
            return None
        if r == -2:
            raise OverflowError(f"more than {limit} states")
        if r == -4:
            raise OverflowError(f"more than {seconds:.0f} s ({explored.value} states)")
        if r < 0:
            raise OverflowError("word too long")
        return [reps[word[i]] for i in range(r)]
    finally:
        L.net_free(N)
