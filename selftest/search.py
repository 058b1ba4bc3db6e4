"""The compiled search through nets of automata against the one in Python, on random formulas with unknowns; and every word
that is found has the properties asked for."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.autom import *  # noqa

PATS = [r"a*", r"(?:a|b)+c", r"\w+", r"[ab]", r"a", r".*b.*", r"c?", r"ab|ba", r"[^a]*"]


def formula(rnd, atoms, depth):
    k = rnd.random()
    if depth == 0 or k < .25:
        return rnd.choice([("atom", rnd.choice(atoms))] * 5 + [("?",), ("const", True), ("const", False)])
    if k < .4:
        return ("not", formula(rnd, atoms, depth - 1))
    return (rnd.choice(["and", "or"]),) + tuple(formula(rnd, atoms, depth - 1) for _ in range(rnd.randrange(1, 4)))


def net_(rnd):
    net = Net()
    atoms, streams = [], ["root"]
    tr = net.add("tr", Track(prog(rnd.choice([r"(a)(b)?", r"\w+?", r"c(a*)"]), 0)), "root")
    sel = net.add("sel", Selected(), tr)
    for g in (0, 1):
        streams.append(net.add(("grp", g), Group(g), sel))
    streams.append(net.add("strip", Strip(A.regex("[a]")), "root"))
    inner = Net()
    m = inner.add("p", Pred(prog(rnd.choice([r"a+b?", r"\w", "c"]), 0), "fullmatch"), "root")
    streams.append(net.add("sub", Sub([(inner, ("atom", m), [("text", rnd.choice(["", "x", "ab"]))]), (inner, ("not", ("atom", m)), [("stream", "root")])]), tr))
    atoms.append(net.add("part", Part(1), sel))
    for k in range(rnd.randrange(1, 5)):
        s = rnd.choice(streams)
        atoms.append(net.add(("pred", k), Pred(prog(rnd.choice(PATS), 0), rnd.choice(["fullmatch", "search", "match"])), s))
    x, y = rnd.sample(streams, 2)
    atoms.append(net.add("same", Same(), x, y))
    exnet = Net()
    q = exnet.add("p", Pred(prog(rnd.choice(PATS), 0), "fullmatch"), "root")
    atoms.append(net.add("ex", ExMatch(exnet, rnd.choice([("atom", q), ("and", ("atom", q), ("?",)), ("not", ("atom", q))])), tr))
    return net, atoms


if __name__ == "__main__":
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    bad = n = none = big = 0
    for _ in range(int(os.environ.get("N", "400"))):
        net, atoms = net_(rnd)
        wants = [(formula(rnd, atoms, 3), rnd.random() < .6) for _ in range(rnd.randrange(1, 4))]
        try:
            a, b = net.witness(wants, 30000), net.witness(wants, 30000, native=False)
        except (TooBig, Unsupported):
            big += 1
            continue
        n += 1
        none += a is None
        if (a is None) != (b is None) or a is not None and (not net.can(a, wants) or len(a) != len(b)):
            bad += 1
            print("DIFF", wants, repr(a), repr(b))
        # short words one by one
        if a is None:
            for k in range(200):
                t = "".join(rnd.choice("abc x") for _ in range(rnd.randrange(5)))
                if net.can(t, wants):
                    bad += 1
                    print("DIFF", wants, "no word, but", repr(t))
                    break
    print(n, "searches,", none, "without a word,", big, "too big,", bad, "differences")
    sys.exit(bool(bad))
