"""main.py PROP [--tier T] [--out FILE]: deductive part of a property on /repo's current source"""
import argparse
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import z3  # noqa

from core import *  # noqa
from engine import NeedCarry
from interp import Interp
from report import Report

MODULES = {"C17": "p_view", "C16": "p_shuf", "C15": "p_stage", "C14": "p_pipe", "C13": "p_remote", "C11": "p_query", "C12": "p_aggr", "C10": "p_analyzer", "C09": "p_json", "C08": "p_builder", "C07": "p_num", "C01": "p_lp", "C02": "p_lp", "C03": "p_lp", "C04": "p_lp", "C05": "p_lp", "C06": "p_lp"}
class Late(BaseException):
    pass


LEVEL = {}
LIMIT = 400  # seconds for one part


def part(prop, i):
    """obligations of one part of a property, in its own engine"""
    mod = importlib.import_module(MODULES[prop])
    f = getattr(mod, "parts", lambda p: [mod.run])(prop)[i]
    Interp.INJ.clear(), Interp.INV.clear()
    rep, eng = Report(), Interp()
    def late(*_):
        raise Late("time limit")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        f(eng, rep, prop)
    except (Unsupported, NeedCarry) as e:
        rep.add("%s: %s" % (prop, getattr(f, "__name__", "part")), "unsupported", e)
    except (Exception, Late) as e:
        rep.add("%s: %s" % (prop, getattr(f, "__name__", "part")), "unsupported", "%s: %s" % (type(e).__name__, e))
    finally:
        signal.alarm(0)
    return {"obs": rep.obs, "bounded": rep.bounded, "funcs": eng.functions, "trusted": eng.trusted, "assumptions": eng.assumptions, "queries": eng.prover.queries, "secs": eng.prover.time}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    rep = Report()
    doc = {"z3": z3.get_version_string(), "level": LEVEL.get(a.prop, "proof")}
    funcs, trusted, assumptions, queries, secs = set(), set(), set(), 0, 0.0
    if a.prop in MODULES:
        mod = importlib.import_module(MODULES[a.prop])
        n = len(getattr(mod, "parts", lambda p: [mod.run])(a.prop))
        jobs = min(n, max(2, (os.cpu_count() or 4) - 2))
        if n == 1:
            res = [part(a.prop, 0)]
        else:
            with ProcessPoolExecutor(jobs, mp_context=multiprocessing.get_context("fork")) as ex:
                res = list(ex.map(part, [a.prop] * n, range(n)))
        for r in res:
            rep.obs += r["obs"]
            rep.bounded += r["bounded"]
            funcs |= r["funcs"]
            trusted |= r["trusted"]
            assumptions |= r["assumptions"]
            queries += r["queries"]
            secs += r["secs"]
    doc.update({"obligations": rep.obs, "functions": sorted(funcs), "trusted": sorted(trusted), "assumptions": sorted(assumptions), "bounded": rep.bounded,
                "queries": queries, "solver_s": round(secs, 2), "wall_s": round(time.monotonic() - t0, 1), "verifier": "pyvc (symbolic execution of the real functions, z3 %s)" % z3.get_version_string()})
    if a.out:
        json.dump(doc, open(a.out, "w"))
    if a.v or not a.out:
        for o in rep.obs:
            print("%-11s %s  %s" % (o["status"], o["name"], o["detail"][:1500] if o["status"] != "proved" else ""))
        print(len(rep.obs), "obligations", doc["wall_s"], "s", queries, "queries", doc["solver_s"], "s solver")


if __name__ == "__main__":
    main()
