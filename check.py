#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]

Decides one property on /repo's current working tree.
  A  deductive part (pyvc/): contracts of the functions of the property, obligations generated from the current
     source and discharged by z3;
  B  run-time part (rt/): the same contracts evaluated on generated inputs against the real code; finds and
     replays failing inputs, and stands in (bounded) for what A does not reach.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
REPO_PY = "/opt/venv/bin/python"
EV = os.path.join(HERE, "evidence")

BUDGET = {"quick": {"C05": 25, "C10": 20, "C11": 30, "C12": 30, "C17": 40}, "thorough": {}}


def rt(prop, seconds, seed, workers, tag):
    out = os.path.join(EV, ".rt-%s-%s.json" % (prop, tag))
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen([REPO_PY, "-B", os.path.join(HERE, "rt", "main.py"), prop, "--seconds", str(seconds), "--workers", str(workers), "--seed", str(seed), "--out", out],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out


def rt_result(h):
    p, out = h
    err = p.communicate()[1]
    if not os.path.exists(out):
        return {"n": 0, "nontrivial": 0, "samples": [], "failures": [], "errors": [err[-2000:]], "wall_s": 0}
    res = json.load(open(out))
    os.remove(out)
    return res


def prover(prop, tier):
    """starts the deductive part"""
    main = os.path.join(HERE, "pyvc", "main.py")
    if not os.path.exists(main):
        return None
    out = os.path.join(EV, ".vc-%s.json" % prop)
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen([VT, "-B", main, prop, "--tier", tier, "--out", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out


def prover_result(h, limit):
    if h is None:
        return {"obligations": [], "status": "none"}
    p, out = h
    try:
        err = p.communicate(timeout=limit)[1]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"obligations": [], "status": "timeout", "error": "time limit"}
    if not os.path.exists(out):
        return {"obligations": [], "status": "error", "error": err[-3000:]}
    r = json.load(open(out))
    os.remove(out)
    return r


def write_replay(prop, doc):
    d = os.path.join(EV, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    json.dump(dict(doc, property=prop, replay_cmd="%s %s --replay %s" % (REPO_PY, os.path.join(HERE, "rt", "main.py"), path)), open(path, "w"), indent=1)
    return path


def known(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.strip()[len("finding: "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(EV, exist_ok=True)
    t0 = time.monotonic()
    meta = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}[prop]
    cores = os.cpu_count() or 4
    seconds = 300 if tier == "thorough" else BUDGET["quick"].get(prop, 15)
    vc = prover(prop, tier)
    run = rt_result(rt(prop, seconds, seed, max(2, cores - (1 if vc else 0)), "a"))
    A = prover_result(vc, 700 if tier == "thorough" else 480)
    obs = A["obligations"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    if not run["failures"] and refuted:
        # the proof of an obligation failed: search longer for an input that shows it on the real code
        more = rt_result(rt(prop, 90 if tier == "quick" else 300, seed + 7919, cores, "b"))
        run["n"] += more["n"]
        run["nontrivial"] += more["nontrivial"]
        run["failures"] += more["failures"]
        run["errors"] += more["errors"]
    violations = 0
    code = 0
    for k in known(prop):
        print("KNOWN-FINDING: %s" % k)
    if run["failures"]:
        f = run["failures"][0]
        path = write_replay(prop, {"case": f["case"], "reason": f["failure"], "index": f.get("index"), "history": f.get("history"), "failed_obligations": [o["name"] for o in refuted]})
        print("%s fails on the current tree: %s" % (prop, f["failure"][:2000]))
        for o in refuted[:20]:
            print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violations, code = 1, 1
    elif refuted:
        path = write_replay(prop, {"reason": "obligation not provable any more", "failed_obligations": refuted, "verifier": A.get("verifier")})
        for o in refuted[:20]:
            print("failed obligation: %s: %s" % (o["name"], o.get("detail", "")[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        violations, code = 1, 1
    elif run["n"] == 0:
        print("%s: the run-time part could not run: %s" % (prop, "\n".join(run["errors"])[-3000:]))
        code = 2
    proved = [o for o in obs if o["status"] == "proved"]
    cov = {"evaluations": run["n"], "distinct_nontrivial": run["nontrivial"],
           "rule": "contracts of %s evaluated on generated inputs against the real code: random studies/timelines/scripts of every element kind, shape, name and order, sizes biased to the constants of the source; non-trivial: has elements to check, and distinct by the whole case" % prop,
           "samples": run["samples"]}
    if obs:
        cov.update({"obligations": len(obs), "discharged": len(proved), "checker_cmd": "%s pyvc/main.py %s (z3 %s)" % (VT, prop, A.get("z3", "")),
                    "trusted_base": A.get("trusted", []), "functions_under_contract": A.get("functions", []), "solver_s": A.get("solver_s", 0),
                    "queries": A.get("queries", 0), "unproved": [o for o in obs if o["status"] != "proved"], "obligation_names": [o["name"] for o in proved][:400],
                    "bounded": A.get("bounded", [])})
    if A.get("error"):
        cov["prover_error"] = A["error"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if obs and len(proved) == len(obs) and A.get("level", "proof") == "proof" else "exploration", "coverage": cov,
          "assumptions": A.get("assumptions", []), "wall_s": round(time.monotonic() - t0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(EV, "%s.json" % prop), "w"), indent=1)
    if code == 0:
        print("%s holds: %d obligations discharged of %d, %d inputs checked" % (prop, len(proved), len(obs), run["n"]))
    sys.exit(code)


if __name__ == "__main__":
    main()
