"""Witness search / replay on the real code (scratch copy on PYTHONPATH).

run.py search PROP SEED SECONDS MAXCASES OUT   -> OUT: {"cases", "distinct", "seconds", "sample", "witness"}
run.py texts PROP FILE OUT                     -> FILE: texts the verifier names; OUT: {"tried", "witness"}
run.py replay CASEFILE                         -> exit 0 holds, 1 violated (message on stdout)
"""
import hashlib
import json
import logging
import os
import random
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def quiet():
    for name in [None] + list(logging.root.manager.loggerDict):
        lg = logging.getLogger(name)
        for h in list(lg.handlers):
            lg.removeHandler(h)
    logging.disable(logging.CRITICAL)


def main():
    mode = sys.argv[1]
    from replay import props as P

    import wiggle_graph_logger.graph_logger  # noqa: F401
    import wiggle_shell.core.query.query  # noqa: F401

    quiet()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        h = P.H(tmp)
        if mode == "replay":
            d = json.load(open(sys.argv[2]))
            if "named_text" in d["case"]:
                from replay import texts as T

                m = T.check(d["property"], d["case"]["named_text"], h)
                print(m or "holds")
                return 1 if m else 0
            m = P.PROPS[d["property"]].check(d["case"], h)
            print(m or "holds")
            return 1 if m else 0
        if mode == "texts":
            from replay import texts as T

            prop, wit, n = sys.argv[2], None, 0
            for text in json.load(open(sys.argv[3])):
                n += 1
                m = T.check(prop, text, h)
                if m:
                    wit = {"property": prop, "case": {"named_text": text}, "message": m}
                    break
            json.dump({"tried": n, "witness": wit}, open(sys.argv[4], "w"))
            return 1 if wit else 0
        prop, seed, secs, maxc, out = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
        p = P.PROPS[prop]
        t0, n, seen, sample, wit = time.time(), 0, set(), [], None
        while n < maxc and (time.time() - t0 < secs):
            size = n // 40
            r = random.Random(f"{prop}/{seed}/{n}")
            case = json.loads(json.dumps(p.case(r, min(size, 4))))
            n += 1
            key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
            if len(sample) < 2 and n > 3:
                sample.append(case)
            seen.add(key)
            try:
                m = p.check(case, h)
            except Exception as e:  # the harness itself must not decide anything
                import traceback

                m = "the code's interface no longer fits the check: " + traceback.format_exc(limit=-3)
                wit = {"property": prop, "case": case, "message": m, "harness_error": True}
                break
            if m:
                wit = {"property": prop, "case": case, "message": m}
                break
        json.dump({"cases": n, "distinct": len(seen), "seconds": time.time() - t0, "sample": sample[:1], "witness": wit,
                   "rule": p.rule}, open(out, "w"))
        return 1 if wit else 0


if __name__ == "__main__":
    sys.exit(main())
