"""python3-vt -m contracts.run <ID> <tier> <copy of /repo> <out.json>"""
import importlib
import json
import mmap
import multiprocessing
import os
import pickle
import sys
import time
import traceback


def part(prop):
    """the blocks that this process gets hold of"""
    from contracts import base
    error = ""
    level, trusted, assumptions = "", [], []
    try:
        m = importlib.import_module(f"contracts.{prop}")
        level = getattr(m, "LEVEL", "proof")
        trusted, assumptions = getattr(m, "TRUSTED", []), getattr(m, "ASSUMPTIONS", [])
    except Exception:
        error = traceback.format_exc()[-1500:]
    return dict(results=base.BY_BLOCK, level=level, trusted=trusted, assumptions=assumptions, error=error, total=base.TOTAL, texts=base.TEXTS,
                UNDER=base.UNDER, CONTRACTS=base.CONTRACTS, INLINED=base.INLINED, MODELS=base.MODELS)


def parallel(prop):
    from contracts import base
    n = int(os.environ.get("PROOF_WORKERS", "0")) or min(os.cpu_count() or 1, 6)
    if n == 1:
        return [part(prop)]
    claimed, lock = mmap.mmap(-1, 4096), multiprocessing.get_context("fork").Lock()

    def claim(i):
        with lock:
            if claimed[i]:
                return False
            claimed[i] = 1
            return True

    base.CLAIM = claim
    kids = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(part(prop), fh)
                code = 0
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        try:
            out.append(pickle.loads(data))
        except Exception as e:
            out.append(dict(results=[], level="", trusted=[], assumptions=[], error=f"a process of the verifier ended ({e})", total={k: 0 for k in base.TOTAL},
                            UNDER=set(), CONTRACTS=set(), INLINED=set(), MODELS=set()))
    return out


def main():
    prop, tier, repo, out = sys.argv[1:5]
    sys.setrecursionlimit(20000)
    repo = os.path.realpath(repo)
    for p in (os.path.join(repo, "wiggle_shell"), repo):
        if p not in sys.path:
            sys.path.insert(0, p)
    t0 = time.time()
    from contracts import base
    if len(sys.argv) > 5:
        base.ONLY = sys.argv[5]
    base.E.roots = (repo,)
    base.TIER = tier
    parts = parallel(prop)
    base.RESULTS = [o for _, os_ in sorted((x for p in parts for x in p["results"]), key=lambda x: x[0]) for o in os_]
    level, trusted, assumptions = "proof", [], []
    for p in parts:
        level = p["level"] or level
        trusted = trusted or p["trusted"]
        assumptions = assumptions or p["assumptions"]
        for k in base.TOTAL:
            base.TOTAL[k] += p["total"][k]
        for n in ("UNDER", "CONTRACTS", "INLINED", "MODELS"):
            getattr(base, n).update(p[n])
    broken = [p["error"] for p in parts if p["error"]]
    if broken:
        base.RESULTS.append(dict(name=f"{prop}: generation of the obligations", status="failed", detail=broken[0], seconds=0, backend="-"))
    d = dict(
        obligations=base.RESULTS, level=level, texts=sorted({x for p in parts for x in p.get("texts", [])}, key=len)[:400],
        trusted=["pyvc (symbolic execution of the syntax trees of /repo's functions, in /verif/pyvc) and z3"] + list(trusted)
        + ["models of: " + ", ".join(sorted(base.MODELS))],
        assumptions=list(assumptions),
        functions_under_contract=sorted(base.UNDER | base.CONTRACTS),
        functions_inlined=sorted(base.INLINED),
        solver=dict(name="z3", calls=base.TOTAL["checks"], seconds=round(base.TOTAL["time"], 2), unknown=base.TOTAL["unknown"],
                    paths=base.TOTAL["paths"], loops_summarised=base.TOTAL["loops"], instances=base.TOTAL["insts"], wall=round(time.time() - t0, 2)),
    )
    with open(out, "w") as fh:
        json.dump(d, fh, indent=1, default=str)
    for o in base.RESULTS:
        print(o["status"], o["name"], o.get("paths", ""), o["seconds"], "" if o["status"] == "discharged" else o["detail"])
    print(d["solver"])


if __name__ == "__main__":
    main()
