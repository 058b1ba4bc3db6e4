"""The automata model of regular expressions against CPython's re, on random texts."""
import os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.autom import *  # noqa


def runs(comp, letters):
    states = {(comp.init(), ())}
    for x in letters + [END]:
        states = {(s2, out + toks) for s, out in states for s2, toks in comp.step(s, x)}
    return [out for _, out in states]


def spans(out):
    pos, res, cur = 0, [], None
    for t in out:
        if t == "<":
            cur = {0: (pos, None)}
        elif t == ">":
            cur[0] = (cur[0][0], pos)
            res.append(cur)
        elif isinstance(t, tuple):
            k, g = t
            cur[g] = (pos, None) if k == "(" else (cur[g][0], pos)
        elif t >= 0:
            pos += 1
    return res


def real(rx, s, how="finditer"):
    ms = list(rx.finditer(s)) if how == "finditer" else [m for m in [getattr(rx, how)(s)] if m]
    return [{g: m.span(g) for g in range(rx.groups + 1) if m.span(g) != (-1, -1)} for m in ms]


def check(rx, texts):
    p = prog_of(rx)
    bad = 0
    for s in texts:
        r = runs(Track(p), [A.of_char(c) for c in s])
        got = [spans(o) for o in r]
        want = real(rx, s)
        if got != [want]:
            bad += 1
            print("DIFF", rx.pattern[:60], repr(s), got[:2], want)
        for how in ("search",):
            m = rx.search(s)
            got = [spans(o) for o in runs(Track(p, once=how), [A.of_char(c) for c in s])]
            if got != [real(rx, s, how)]:
                bad += 1
                print("DIFF", how, rx.pattern[:60], repr(s), got[:2], real(rx, s, how))
    return bad


if __name__ == "__main__":
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    pats = [r"a*", r"(a|ab)(c|bcd)?", r"(a+?)(b*)", r"(?:x|\A)\s*(a)", r"(?<=;)\s*(ab|a)\b", r"a|b*", r"(a?)(ab)?", r"(a(b)?)?c*", r"\bab?", r"(?<!a)b+|a", r"[^a]+?;", r"(?i:aB)|b",
            r"(?=a)\w", r"a*?", r"(a*)(b|\Z)", r"(a{2,3})b?", r"(?s:.+?)\)"]
    n = bad = 0
    for p in pats:
        for fl in (0, re.I):
            rx = re.compile(p, fl)
            texts = ["".join(rnd.choice("aabbcdABx; )\n") for _ in range(rnd.randrange(0, 9))) for _ in range(150)]
            n += len(texts)
            bad += check(rx, texts)
    print(n, "texts,", bad, "differences")
    sys.exit(bool(bad))
