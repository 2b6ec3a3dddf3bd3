"""Run-time contract checker: main.py PROP --seconds S --workers N --seed K --min M --out FILE
   main.py --replay FILE        re-runs the case of a replay file on the current tree."""
import argparse
import json
import os
import random
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
_clock = time.monotonic

MODULE = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    MODULE[_p] = "lp"
for _p in ("C07", "C08", "C09"):
    MODULE[_p] = "domain"
for _p in ("C10", "C11", "C12"):
    MODULE[_p] = "analyzer"
MODULE["C13"] = "remote"
for _p in ("C14", "C15", "C16"):
    MODULE[_p] = "workflow"
MODULE["C17"] = "viewer"


def load(prop):
    import importlib

    return importlib.import_module(MODULE[prop])


def plain(o):
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    if hasattr(o, "tolist"):
        return o.tolist()
    if o is None or isinstance(o, (int, float, str, bool)):
        return o
    return repr(o)


class NoAnswer(Exception):
    pass


def no_answer(*_):
    raise NoAnswer("no answer: 40 s of processor time or 180 s on one small input")


def worker(a):
    signal.signal(signal.SIGPROF, no_answer)
    signal.signal(signal.SIGALRM, no_answer)
    out = open(a.out, "w")

    def emit(x):
        out.write(json.dumps(x) + "\n")
        out.flush()

    end = _clock() + a.seconds
    try:
        mod = load(a.prop)
        from common import Failure
    except BaseException as ex:  # the library cannot even be imported
        import traceback

        emit({"import_error": "".join(traceback.format_exception(ex)[-6:])})
        return
    seen = set()
    n = nt = 0
    samples = []
    i = a.worker
    first = True
    while _clock() < end or n < a.min:
        rng = random.Random("%s/%d/%d" % (a.prop, a.seed, i))
        try:
            signal.setitimer(signal.ITIMER_PROF, 40)
            signal.alarm(180)
            case, ok = mod.run(a.prop, rng, i)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
            n += 1
            if ok:
                h = hash(json.dumps(plain(case), sort_keys=True, default=str))
                if h not in seen:
                    seen.add(h)
                    nt += 1
            if len(samples) < 2 and ok:
                s = json.dumps(plain(case))
                if len(s) < 6000:
                    samples.append(plain(case))
        except Failure as f:
            emit({"failure": str(f), "case": plain(f.case), "index": i, "history": {"seed": a.seed, "workers": a.workers, "worker": a.worker}, "n": n + 1, "nontrivial": nt})
            break
        i += a.workers
        if first or n % 20 == 0:
            emit({"n": n, "nontrivial": nt, "samples": samples})
            first = False
    emit({"n": n, "nontrivial": nt, "samples": samples})
    out.close()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--worker", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--min", type=int, default=3)
    ap.add_argument("--out", required=False)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        doc = json.load(open(a.replay))
        if "case" not in doc:
            print("this replay file has no input: " + doc.get("reason", ""))
            return 2
        mod = load(doc["property"])
        from common import Failure, Violation

        try:
            mod.replay(doc["property"], doc["case"])
        except Exception as ex:
            print("REPRODUCED property=%s: %s: %s" % (doc["property"], type(ex).__name__, ex))
            return 1
        h = doc.get("history")
        if h:  # it may need what was computed before in the same process
            i = h["worker"]
            while i <= doc["index"]:
                try:
                    mod.run(doc["property"], random.Random("%s/%d/%d" % (doc["property"], h["seed"], i)), i)
                except Exception as ex:
                    print("REPRODUCED property=%s at input %d of the history: %s: %s" % (doc["property"], i, type(ex).__name__, ex))
                    return 1
                i += h["workers"]
        print("not reproduced")
        return 0
    if a.worker is not None:
        worker(a)
        return 0
    t0 = _clock()
    tmp = tempfile.mkdtemp(prefix="verif-rt-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    ps = []
    for w in range(a.workers):
        f = os.path.join(tmp, "w%d" % w)
        ps.append((f, subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), a.prop, "--seconds", str(a.seconds), "--workers", str(a.workers), "--worker", str(w), "--seed", str(a.seed), "--min", str(a.min), "--out", f],
                                       stdout=subprocess.DEVNULL, stderr=open(f + ".err", "w"), env=env, cwd=tmp, start_new_session=True)))
    limit = _clock() + a.seconds + 240
    res = {"n": 0, "nontrivial": 0, "samples": [], "failures": [], "errors": []}
    pending = dict(ps)
    while pending and _clock() < limit:
        time.sleep(0.05)
        done = [f for f, p in pending.items() if p.poll() is not None]
        for f in done:
            pending.pop(f)
        if any(os.path.exists(f) and '"failure"' in open(f).read() for f in done):
            break
    for f, p in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        last = None
        for line in (open(f).read().splitlines() if os.path.exists(f) else []):
            try:
                x = json.loads(line)
            except ValueError:
                continue
            if "import_error" in x:
                res["errors"].append(x["import_error"])
            elif "failure" in x:
                res["failures"].append(x)
            else:
                last = x
        if last:
            res["n"] += last["n"]
            res["nontrivial"] += last["nontrivial"]
            res["samples"] += last["samples"]
        elif not res["failures"]:
            res["errors"].append(open(f + ".err").read()[-2000:])
    res["samples"] = res["samples"][:2]
    res["wall_s"] = _clock() - t0
    for f, _ in ps:
        for g in (f, f + ".err"):
            if os.path.exists(g):
                os.remove(g)
    try:
        os.rmdir(tmp)
    except OSError:
        pass
    text = json.dumps(res)
    if a.out:
        open(a.out, "w").write(text)
    else:
        print(text[:3000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
