"""check.py <PROPERTY> [quick|thorough]

Decides one property of /repo's current tree:
  1. the deductive obligations of contracts/<PROPERTY>.py, generated from the current source and
     discharged by z3 (subprocess, so that a crash is an undischarged obligation, not an error);
  2. in parallel a bounded search for failing inputs on the real code (labelled bounded, never counted
     as proved), which also supplies the failing input of an obligation that is not discharged.
Exit 0: every obligation discharged, no failing input.  Exit 1: VIOLATION line.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
VENV = "/opt/venv/bin/python"
VT = shutil.which("python3-vt") or sys.executable


def copy_repo(dst):
    def ign(d, names):
        return [n for n in names if n in (".git", "__pycache__", ".pytest_cache", ".venv", "venv") or n.endswith((".log", ".pyc"))]

    shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
    return dst


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cores = min(os.cpu_count() or 4, 8)
    secs, workers = (14, max(2, cores - 2)) if tier == "quick" else (300, max(2, cores - 1))
    t0 = time.time()
    out = os.path.join(HERE, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        repo = copy_repo(os.path.join(tmp, "repo"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=tmp)
        env["PYTHONPATH"] = f"{repo}:{repo}/wiggle_shell:{HERE}"
        runs = []
        for w in range(workers):
            f = os.path.join(out, f"search{w}.json")
            cmd = [VENV, os.path.join(HERE, "replay", "run.py"), "search", prop, str(seed * 1000 + w), str(secs), "100000000", f]
            runs.append((f, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(f + ".err", "w"), stdin=subprocess.DEVNULL, cwd=tmp)))
        proof = None
        ded = os.path.join(out, "proof.json")
        has_proof = os.path.exists(os.path.join(HERE, "contracts", f"{prop}.py"))
        if has_proof:
            cmd = [VT, "-m", "contracts.run", prop, tier, repo, ded]
            proof = subprocess.Popen(cmd, env=env, stdout=open(ded + ".log", "w"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=HERE)
        limit = 700 if tier == "quick" else 7200
        obs, ded_d = [], {}
        if proof is not None:
            try:
                proof.wait(limit)
            except subprocess.TimeoutExpired:
                proof.kill()
            try:
                ded_d = json.load(open(ded))
                obs = ded_d["obligations"]
            except Exception as e:
                tail = open(ded + ".log").read()[-1500:]
                obs = [dict(name=f"{prop}: verifier run", status="failed", detail=f"the verifier gave no result ({type(e).__name__}): {tail}")]
            if not obs:
                obs = [dict(name=f"{prop}: obligations", status="failed", detail="no obligation was generated")]
        search, witness, soft = [], None, None
        for f, p in runs:
            try:
                p.wait(max(5, t0 + secs + 120 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
            try:
                d = json.load(open(f))
            except Exception:
                soft = soft or dict(message="the search for failing inputs did not run: " + open(f + ".err").read()[-1500:], property=prop, harness_error=True)
                continue
            search.append(d)
            w = d.get("witness")
            if w and w.get("harness_error"):
                soft = soft or w
            elif w and (witness is None or len(json.dumps(w)) < len(json.dumps(witness))):
                witness = w
        failed = [o for o in obs if o["status"] != "discharged"]
        if failed and not witness and ded_d.get("texts"):
            # the texts that the verifier names for them, on the real code
            f = os.path.join(out, "texts.json")
            json.dump(ded_d["texts"], open(f, "w"))
            try:
                subprocess.run([VENV, os.path.join(HERE, "replay", "run.py"), "texts", prop, f, f + ".out"], env=env, stdout=subprocess.DEVNULL,
                               stderr=open(f + ".err", "w"), stdin=subprocess.DEVNULL, cwd=tmp, timeout=90)
                witness = json.load(open(f + ".out")).get("witness")
            except Exception:
                pass
        known = load_known(prop)
        code = 0
        lines = []
        for k in known:
            lines.append(f"KNOWN-FINDING: property={prop} {k}")
        if witness:
            rp = os.path.join(out, "violation.json")
            json.dump(dict(witness, kind="failing input on the real code", failed_obligations=failed,
                           how_to_replay=f"{VENV} {HERE}/replay/run.py replay {rp}   (PYTHONPATH=<copy of /repo>:<copy>/wiggle_shell:{HERE})"),
                      open(rp, "w"), indent=1, default=str)
            print(f"{prop}: {witness['message']}")
            for o in failed:
                print(f"{prop}: obligation not discharged: {o['name']}: {o.get('detail', '')[:300]}")
            lines.append(f"VIOLATION property={prop} replay={rp}")
            code = 1
        elif failed or soft:
            rp = os.path.join(out, "violation.json")
            json.dump(dict(property=prop, kind="obligation not discharged", failed_obligations=failed, search=soft), open(rp, "w"), indent=1, default=str)
            for o in failed:
                print(f"{prop}: obligation not discharged: {o['name']}: {o.get('detail', '')[:300]}")
            if soft:
                print(f"{prop}: {soft['message'][:600]}")
            lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
            code = 1
        evidence(prop, tier, seed, ded_d, obs, has_proof, search, t0, code)
        for ln in lines:
            print(ln)
        sys.stdout.flush()
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_known(prop):
    res = []
    try:
        for ln in open(os.path.join(HERE, "known_findings.txt")):
            if ln.startswith("finding:") and f"property={prop} " in ln:
                res.append(ln.split(f"property={prop} ", 1)[1].strip())
    except FileNotFoundError:
        pass
    return res


def evidence(prop, tier, seed, ded, obs, has_proof, search, t0, code):
    bounded = dict(
        label="bounded: generated inputs run on the real code; never counted as proved",
        evaluations=sum(d["cases"] for d in search),
        distinct_nontrivial=sum(d["distinct"] for d in search),
        rule=search[0]["rule"] if search else "",
        samples=[s for d in search[:2] for s in d["sample"]],
    )
    if has_proof:
        level = ded.get("level", "proof")
        cov = dict(
            obligations=len(obs),
            discharged=sum(o["status"] == "discharged" for o in obs),
            checker_cmd=f"python3-vt -m contracts.run {prop} {tier} <copy of /repo> <out>",
            trusted_base=ded.get("trusted", []),
            obligation_list=[{k: o[k] for k in ("name", "status", "seconds", "backend") if k in o} for o in obs],
            functions_under_contract=ded.get("functions_under_contract", []),
            functions_inlined=ded.get("functions_inlined", []),
            solver=ded.get("solver", {}),
            bounded_search=bounded,
        )
        if level != "proof":
            cov.update(evaluations=bounded["evaluations"], distinct_nontrivial=bounded["distinct_nontrivial"], rule=bounded["rule"], samples=bounded["samples"])
    else:
        level = "exploration"
        cov = dict(bounded)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ded.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=code)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
