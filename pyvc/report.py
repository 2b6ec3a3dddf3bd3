"""obligations of a property and their verdicts"""
import ctypes
import time
import traceback

import z3

from core import *  # noqa
from engine import NeedCarry


class Fail(Exception):
    """an obligation that does not hold: status refuted (or unknown when the solver gave up)"""

    def __init__(self, msg, status="refuted"):
        Exception.__init__(self, msg)
        self.status = status


class Report:
    def __init__(self):
        self.obs, self.bounded = [], []
        self.seen = {}

    def add(self, name, status, detail=""):
        n = self.seen.get(name, 0)
        self.seen[name] = n + 1
        self.obs.append({"name": name if n == 0 else "%s#%d" % (name, n), "status": status, "detail": str(detail)[:3000]})

    def run(self, name, fn):
        """fn returns normally: proved; Fail: refuted; Unsupported: undecided"""
        try:
            r = fn()
        except Fail as e:
            self.add(name, e.status, e)
            return None
        except PyRaise as e:
            self.add(name, "refuted", "raises %s %s" % (e.cls, e.where))
            return None
        except NeedCarry as e:
            self.add(name, "unsupported", "loop carried %s" % e.name)
            return None
        except (Unsupported, RecursionError, z3.Z3Exception, AttributeError, KeyError, TypeError, IndexError, AssertionError, ValueError, NotImplementedError, ctypes.ArgumentError) as e:
            self.add(name, "unsupported", "%s: %s [%s]" % (type(e).__name__, e, traceback.format_exc()[-1200:] if not isinstance(e, Unsupported) else ""))
            return None
        self.add(name, "proved")
        return r


def need(eng, goal, msg, timeout=6000):
    """obligation: goal holds in the current state"""
    if isinstance(goal, bool):
        goal = z3.BoolVal(goal)
    if eng.prove(goal, timeout=timeout):
        return
    why = eng.prover.reason
    if "timeout" in why or "cancel" in why or "max" in why:
        raise Fail("%s: solver gave up (%s) on %s" % (msg, why, str(goal)[:1500]), "unknown")
    raise Fail("%s: not provable: %s  under %s" % (msg, str(goal).replace("\n", " ")[:1500], [str(p).replace("\n", " ")[:200] for p in eng.pc[-8:]]))


def paths(eng, facts, fn):
    """fn on all paths of the current state with extra facts; every path must end normally"""
    pc = list(eng.pc)
    eng.pc = pc + [f for f in facts if not z3.is_true(f)]
    tr = (eng.trace, eng.tpos, eng.alts)
    try:
        outs = eng.explore(fn)
    finally:
        eng.pc = pc
        eng.trace, eng.tpos, eng.alts = tr
    for o in outs:
        if o.kind == "raise":
            raise Fail("raises %s under %s" % (o.val.cls, [str(p)[:300] for p in o.pc]))
    return outs
