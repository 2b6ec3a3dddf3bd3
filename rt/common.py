"""Shared parts of the run-time contract checker (runs in the interpreter of the repository).

Everything here is written against the public API of hadar; studies are generated from a plain description
(`desc`), and every expected value is computed from that description, never from hadar's own objects."""
import ast
import collections
import json
import math
import os
import pickle
import random
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")

import warnings

warnings.filterwarnings("ignore")

import multiprocessing
import multiprocessing.pool

REAL_POOL = multiprocessing.Pool
REAL_SLEEP = time.sleep
MODE = {"real_pool": False}


class _Res:
    def __init__(self, v):
        self.v = v

    def get(self, timeout=None):
        return self.v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return True


class SerialPool:
    """Stand-in for multiprocessing.Pool: same copies of arguments and results, one worker, no processes."""

    def __init__(self, *a, **k):
        init = k.get("initializer") or (a[1] if len(a) > 1 else None)
        if init:
            init(*(k.get("initargs") or (a[2] if len(a) > 2 else ())))

    @staticmethod
    def _call(f, args, kw=None):
        f, args, kw = pickle.loads(pickle.dumps((f, args, kw or {})))
        return pickle.loads(pickle.dumps(f(*args, **kw)))

    def map(self, f, it, chunksize=None):
        return [self._call(f, (x,)) for x in list(it)]

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=1):
        # a legal schedule of a real pool: results come back in another order
        return iter(list(reversed(self.map(f, it))))

    def starmap(self, f, it, chunksize=None):
        return [self._call(f, tuple(x)) for x in list(it)]

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(f, it)
        if callback:
            callback(r)
        return _Res(r)

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        r = self.starmap(f, it)
        if callback:
            callback(r)
        return _Res(r)

    def apply(self, f, args=(), kwds=None):
        return self._call(f, tuple(args), kwds)

    def apply_async(self, f, args=(), kwds=None, callback=None, error_callback=None):
        r = self._call(f, tuple(args), kwds)
        if callback:
            callback(r)
        return _Res(r)

    def close(self):
        pass

    def terminate(self):
        pass

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _pool(*a, **k):
    return REAL_POOL(*a, **k) if MODE["real_pool"] else SerialPool(*a, **k)


multiprocessing.Pool = _pool
# a machine with two processors, whatever the one that runs the check
os.cpu_count = lambda: 2
if hasattr(os, "sched_getaffinity"):
    os.sched_getaffinity = lambda pid=0: {0, 1}
# sleeping costs nothing, but the clock of the process moves on as if it had slept
SLEPT = [0.0]


def _sleep(s=0):
    SLEPT[0] += s


def _clock(real):
    return lambda: real() + SLEPT[0]


time.sleep = _sleep
for _c in ("time", "monotonic", "perf_counter"):
    setattr(time, _c, _clock(getattr(time, _c)))

_devnull = os.open(os.devnull, os.O_WRONLY)


class quiet:
    """GLOP and progress bars write on file descriptor 1."""

    def __enter__(self):
        sys.stdout.flush()
        self.o, self.e = os.dup(1), os.dup(2)
        os.dup2(_devnull, 1)
        os.dup2(_devnull, 2)

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.o, 1)
        os.dup2(self.e, 2)
        os.close(self.o)
        os.close(self.e)
        return False


import numpy as np
import pandas as pd

import hadar
from hadar import LPOptimizer, Study

TOL = 1e-5


class Violation(Exception):
    pass


class Failure(Exception):
    """a violation together with the case that shows it"""

    def __init__(self, msg, case):
        Exception.__init__(self, msg)
        self.case = case

    @staticmethod
    def wrap(ex, case):
        import traceback

        if isinstance(ex, Failure):
            return ex
        if isinstance(ex, Violation):
            return Failure(str(ex), case)
        return Failure("%s: %s\n%s" % (type(ex).__name__, ex, "".join(traceback.format_exception(ex)[-4:])), case)


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------------------------------------
# constants of the source under check: sizes, values and names that the code itself treats specially.
# Those that the tree has more often than the tree the checks were written for (constants.json) get more weight: it
# only steers the generation of inputs.
def harvest():
    found = collections.Counter()
    for d, dirs, fs in os.walk(os.path.join(REPO, "hadar")):
        dirs.sort()
        for f in sorted(fs):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            doc = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    doc.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in doc and type(n.value) in (int, float, str):
                    found[n.value if type(n.value) is str else float(n.value)] += 1
    return found


def usable(x):
    return type(x) is str and 0 < len(x) <= 24 and "%" not in x and ":" not in x and "\n" not in x


def constants():
    found = harvest()
    base = collections.Counter({(float(v) if k == "n" else v): c for k, v, c in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")))})
    new = [x for x, c in found.items() if c > base.get(x, 0)]
    nums = lambda xs: sorted(x for x in xs if type(x) is float)
    return ([int(x) for x in nums(found) if x.is_integer() and 3 <= x <= 70], sorted(x for x in found if usable(x)),
            [int(x) for x in nums(new) if x.is_integer() and 2 <= x <= 400], [x for x in nums(new) if 0 < abs(x) <= 1e7], sorted(x for x in new if usable(x)))


INTS, STRS, NEW_INTS, NEW_NUMS, NEW_STRS = constants()
BASE_NAMES = ["a", "b", "c", "d", "e", "aa", "ab", "a b", "A", "fr", "be", "nuclear", "load", "gas", "wind_1", "10",
              "1", "0", "é", "long name with spaces", "x.y", "a-b", "default", "elec", "north.sea"]


def name(rng, avoid=()):
    for _ in range(200):
        r = rng.random()
        if NEW_STRS and rng.random() < 0.15:
            n = rng.choice(NEW_STRS)
        elif r < 0.75:
            n = rng.choice(BASE_NAMES[:12]) if rng.random() < 0.7 else rng.choice(BASE_NAMES)
        elif r < 0.85 and STRS:
            n = rng.choice(STRS)
        else:
            n = "".join(rng.choice("abcxyz019_-") for _ in range(rng.randint(1, 6)))
        if n not in avoid:
            return n
    return "n%d" % rng.randint(0, 10 ** 9)


# ---------------------------------------------------------------------------------------------
# values
def gen_value(rng, h, s, lo, hi, integer=None, kinds=None):
    integer = rng.random() < 0.4 if integer is None else integer
    top = hi if hi <= 1 else 50 * hi
    near = [c for c in NEW_NUMS if lo <= c <= top] if rng.random() < 0.3 else []
    flat = rng.random() < 0.06  # many equal entries

    def num():
        if flat and rng.random() < 0.7:
            x = lo if rng.random() < 0.5 else (lo + hi) / 2
        elif near and rng.random() < 0.5:
            x = min(top, max(lo, rng.choice(near) + rng.choice([0, 0, -1, 1, 0.01, -0.01, 10, 0.5])))
            return min(max(int(round(x)), math.ceil(lo)), math.floor(top)) if integer else min(max(round(x, 6), lo), top)
        elif rng.random() < 0.12:
            x = lo
        elif rng.random() < 0.08:
            x = hi
        else:
            x = rng.uniform(lo, hi)
        return int(round(x)) if integer else round(x, 2 if hi - lo >= 0.5 else 4)

    kind = rng.choice(kinds or ["scalar", "row", "col", "mat", "mat"])
    if kind == "scalar":
        d = num()
    elif kind == "row":
        d = [num() for _ in range(h)]
    elif kind == "col":
        d = [[num()] for _ in range(s)]
    else:
        d = [[num() for _ in range(h)] for _ in range(s)]
    form = rng.choice(["list", "list", "np", "np", "pd", "npF", "npS", "npR", "npI"])
    return {"k": kind, "d": d, "f": form}


def const(x):
    return {"k": "scalar", "d": x, "f": "list"}


def at(v, s, t):
    k, d = v["k"], v["d"]
    if k == "scalar":
        return d
    if k == "row":
        return d[t]
    if k == "col":
        return d[s][0]
    return d[s][t]


def raw(v):
    """the object given to hadar"""
    if v["k"] == "scalar":
        return v["d"]
    if v["f"] == "list":
        return json.loads(json.dumps(v["d"]))
    if v["f"].startswith("np"):
        a = np.array(v["d"])
        if v["f"] == "npF":  # another memory order
            return np.asfortranarray(a)
        if v["f"] == "npS":  # a view on a larger array
            b = np.full(tuple(2 * n for n in a.shape), -77.0).astype(a.dtype)
            b[tuple(slice(None, None, 2) for _ in a.shape)] = a
            return b[tuple(slice(None, None, 2) for _ in a.shape)]
        if v["f"] == "npR":
            a.setflags(write=False)
        if v["f"] == "npI" and a.dtype.kind == "i":
            return a.astype(np.int32)
        return a
    return pd.Series(v["d"]) if v["k"] == "row" else pd.DataFrame(v["d"])


# ---------------------------------------------------------------------------------------------
# studies
def size(rng, opts):
    r = rng.random()
    if r < opts.get("big", 0.04):
        c = [i for i in INTS if 5 <= i <= opts.get("maxbig", 30)] + [5, 7, 9, 13, 17, 26]
        return min(opts.get("maxbig", 30), rng.choice(c) + rng.choice([0, 0, 1]))
    return rng.choice([1, 1, 2, 2, 3, 3, 4])


def near(rng, top):
    """a size around a constant of the source, at most top"""
    c = [i for i in NEW_INTS if i <= top]
    return max(1, min(top, rng.choice(c) + rng.choice([-1, 0, 0, 1, 1, 2]))) if c else None


def gen_desc(rng, **opts):
    big = rng.random()
    h = size(rng, dict(opts, big=0.25 if big < 0.15 else 0.0))
    s = size(rng, dict(opts, big=0.25 if 0.15 < big < 0.25 else 0.0, maxbig=14))
    if rng.random() < 0.1:
        s = h
    # one dimension much larger than the others, now and then; around constants of the source when there are new ones
    wide, count = None, 0
    if opts.get("wide") or rng.random() < (0.4 if NEW_INTS else 0.02):
        wide = opts.get("wide") or rng.choice(["h", "h", "s", "s", "nodes", "nets", "cons", "prod", "stor", "link", "convs", "src"])
        top = {"h": 260, "s": 140, "nodes": 40, "nets": 20, "link": 40, "src": 40}.get(wide, 70)
        count = near(rng, top) or rng.randint(min(top, 18), min(top, 130))
        h, s = min(h, 3), min(s, 3)
        if wide in "hs":
            h, s = (count, rng.choice([1, 1, 2])) if wide == "h" else (rng.choice([1, 1, 2]), count)
    small = wide is not None and count > 25
    crowd = wide is None and rng.random() < 0.08  # many elements in one node
    nets, used = [], []
    for i in range(count if wide == "nets" else 1 if small and wide != "src" else rng.choice([1, 1, 2, 2, 3])):
        n = "default" if (rng.random() < (0.5 if i == 0 else 0.3) and "default" not in used) else name(rng, used)
        used.append(n)
        nodes, un = [], []
        for _ in range(count + 1 if wide in ("nodes", "link", "src") and i == 0 else rng.choice([1, 2]) if small or wide == "nets" else rng.choice([1, 2, 2, 3, 3, 4])):
            m = name(rng, un)
            un.append(m)
            nodes.append([m, {"cons": [], "prod": [], "stor": [], "link": []}])
        nets.append([n, nodes])
    V = lambda lo, hi, **k: gen_value(rng, h, s, lo, hi, **k)
    cnt = lambda w: rng.choice(w)
    first = True
    for n, nodes in nets:
        for m, e in nodes:
            extra = rng.randint(6, 12) if (crowd and first) else 0
            main = first
            first = False
            many = lambda k: count if (wide == k and main) else 0
            few = [0, 0, 0, 1] if small and wide in ("nodes", "link", "src") else None
            un = []
            for _ in range(many("cons") or cnt(few or [0, 1, 1, 2, 3]) + (extra if rng.random() < 0.5 else 0)):
                x = name(rng, un)
                un.append(x)
                e["cons"].append({"name": x, "cost": V(-10, 30) if rng.random() < 0.05 else V(20, 400), "qty": V(0, 60 if rng.random() < 0.92 else 5000)})
            un = []
            for _ in range(many("prod") or cnt(few or [0, 1, 1, 2, 3]) + (extra if rng.random() < 0.5 else 0)):
                x = name(rng, un)
                un.append(x)
                e["prod"].append({"name": x, "cost": V(-10 if rng.random() < 0.15 else 0, 60), "qty": V(0, 50 if rng.random() < 0.92 else 5000)})
            un = []
            for _ in range(many("stor") or cnt(few or [0, 0, 1, 1, 2, 3]) + (extra if rng.random() < 0.3 else 0)):
                x = name(rng, un)
                un.append(x)
                cap = V(8, 60)
                mincap = min(at(cap, a, 0) for a in range(s))
                e["stor"].append({"name": x, "capacity": cap, "flow_in": V(0, 30), "flow_out": V(0, 30),
                                  "cost": V(-5 if rng.random() < 0.2 else 0, 5),
                                  "init": rng.choice([0, 0, round(rng.uniform(0, mincap), 1), int(mincap)] if rng.random() < 0.96 else [round(mincap + rng.uniform(0, 12), 1)]),
                                  "eff": V(0.3, 1.0, integer=False) if rng.random() < 0.85 else const(rng.choice([0, 1, 0.99, 0.5]))})
            for m2, _ in nodes:
                p = 0.06 if m2 == m else 0.5 if not (small and wide in ("nodes", "link", "src")) else 1.0 if wide == "link" and main else 0.03
                if rng.random() < p:
                    e["link"].append({"dest": m2, "cost": V(-2 if rng.random() < 0.1 else 0, 8), "qty": V(0, 30)})
            rng.shuffle(e["link"])
    convs, un = [], []
    allnodes = [(n, m) for n, nodes in nets for m, _ in nodes]
    for j in range(count if wide == "convs" else rng.choice([1, 1, 2]) if wide == "src" else rng.choice([0, 0, 1, 1, 2, 3])):
        x = name(rng, un)
        un.append(x)
        k = min(len(allnodes), count if wide == "src" and j == 0 else rng.choice([1, 1, 2, 3, 4]))
        src = rng.sample(allnodes, k)
        d = rng.choice(allnodes)
        convs.append({"name": x, "src": [[a, b, V(*rng.choice([(0.25, 3.0)] * 9 + [(0.004, 0.05), (5, 60)]), integer=False)] for a, b in src], "dest": list(d),
                      "cost": V(-3 if rng.random() < 0.1 else 0, 10), "max": V(0, 40)})
    return {"h": h, "s": s, "nets": nets, "convs": convs, "order": rng.randint(0, 10 ** 6)}


def put(node, kind, x):
    """add one element to a node through its handle"""
    if kind == "cons":
        return node.consumption(name=x["name"], cost=raw(x["cost"]), quantity=raw(x["qty"]))
    if kind == "prod":
        return node.production(name=x["name"], cost=raw(x["cost"]), quantity=raw(x["qty"]))
    return node.storage(name=x["name"], capacity=raw(x["capacity"]), flow_in=raw(x["flow_in"]), flow_out=raw(x["flow_out"]),
                        cost=raw(x["cost"]), init_capacity=x["init"], eff=raw(x["eff"]))


def build(desc, study=None):
    """Build the study through the public fluent API, in an order chosen by desc['order']."""
    rng = random.Random(desc["order"])
    st = study or Study(horizon=desc["h"], nb_scn=desc["s"])
    style = rng.randint(0, 2)
    links_early = rng.random() < 0.5

    add = put
    handles = {}
    cur = None
    pend_links = []
    for n, nodes in desc["nets"]:
        cur = st.network(n) if cur is None or style == 0 else cur.network(n)
        for m, e in nodes:
            cur = cur.node(m)
            handles[n, m] = cur
            todo = [("cons", x) for x in e["cons"]] + [("prod", x) for x in e["prod"]] + [("stor", x) for x in e["stor"]]
            if style == 2:  # interleave kinds, keep order inside each kind
                groups = {k: [x for kk, x in todo if kk == k] for k in ("cons", "prod", "stor")}
                todo = []
                while any(groups.values()):
                    k = rng.choice([k for k in groups if groups[k]])
                    todo.append((k, groups[k].pop(0)))
            for k, x in todo:
                cur = add(cur, k, x)
            for l in e["link"]:
                pend_links.append((n, m, l))
        if links_early:
            for a, b, l in pend_links:
                cur = cur.link(src=b, dest=l["dest"], cost=raw(l["cost"]), quantity=raw(l["qty"]))
            if pend_links and style != 1:
                cur = st.network(n)
            pend_links = []
    for n, m, l in pend_links:
        st.add_link(network=n, src=m, dest=l["dest"], cost=raw(l["cost"]), quantity=raw(l["qty"]))
    for c in desc["convs"]:
        def srcs():
            for a, b, r in c["src"]:
                handles[a, b].to_converter(name=c["name"], ratio=raw(r))
        before = rng.random() < 0.5
        if before:
            srcs()
        st.network(c["dest"][0]).converter(name=c["name"], to_network=c["dest"][0], to_node=c["dest"][1], max=raw(c["max"]), cost=raw(c["cost"]))
        if not before:
            srcs()
    return st


OPTIMIZER = {"n": 0}


def solve(study, real_pool=False):
    MODE["real_pool"] = real_pool
    OPTIMIZER["n"] += 1
    if OPTIMIZER["n"] % 3 == 1:  # an optimizer solves many studies
        OPTIMIZER["it"] = LPOptimizer()
    try:
        with quiet():
            return OPTIMIZER["it"].solve(study)
    finally:
        MODE["real_pool"] = False


# ---------------------------------------------------------------------------------------------
# independent oracle: the LP of docs/source/mathematics/linear-model.rst, written from the description
def oracle(desc, s):
    """-> (status, optimal cost) for scenario s"""
    from ortools.linear_solver.pywraplp import Solver

    lp = Solver("oracle", Solver.GLOP_LINEAR_PROGRAMMING)
    obj = lp.Objective()
    obj.SetMinimization()
    H = desc["h"]
    off = 0.0
    for_conv = {}
    rows = {}
    for t in range(H):
        for n, nodes in desc["nets"]:
            for m, e in nodes:
                rows[t, n, m] = lp.Constraint(0.0, 0.0)
    acc = {}

    def term(row, var, c):
        acc[row, var] = acc.get((row, var), 0.0) + c

    vars_ = []

    def newvar(ub, cost):
        v = lp.NumVar(0.0, float(ub), "")
        vars_.append(v)
        obj.SetCoefficient(v, float(cost))
        return len(vars_) - 1

    prev = {}
    stor_rows = []
    for t in range(H):
        for n, nodes in desc["nets"]:
            for m, e in nodes:
                r = (t, n, m)
                load = 0.0
                for x in e["cons"]:
                    q = at(x["qty"], s, t)
                    load += q
                    term(r, newvar(q, at(x["cost"], s, t)), 1.0)
                for x in e["prod"]:
                    term(r, newvar(at(x["qty"], s, t), at(x["cost"], s, t)), 1.0)
                for i, x in enumerate(e["stor"]):
                    lvl = newvar(at(x["capacity"], s, t), at(x["cost"], s, t))
                    fi = newvar(at(x["flow_in"], s, t), 0)
                    fo = newvar(at(x["flow_out"], s, t), 0)
                    term(r, fi, -1.0)
                    term(r, fo, 1.0)
                    rhs = float(x["init"]) if t == 0 else 0.0
                    c = lp.Constraint(rhs, rhs)
                    c.SetCoefficient(vars_[lvl], 1.0)
                    c.SetCoefficient(vars_[fi], -float(at(x["eff"], s, t)))
                    c.SetCoefficient(vars_[fo], 1.0)
                    if t > 0:
                        c.SetCoefficient(vars_[prev[n, m, i]], -1.0)
                    prev[n, m, i] = lvl
                for x in e["link"]:
                    v = newvar(at(x["qty"], s, t), at(x["cost"], s, t))
                    term(r, v, -1.0)
                    term((t, n, x["dest"]), v, 1.0)
                rows[r].SetBounds(load, load)
        for x in desc["convs"]:
            mx = at(x["max"], s, t)
            d = newvar(mx, at(x["cost"], s, t))
            term((t, x["dest"][0], x["dest"][1]), d, 1.0)
            for a, b, ratio in x["src"]:
                rr = at(ratio, s, t)
                v = newvar(mx / rr, 0)
                term((t, a, b), v, -1.0)
                c = lp.Constraint(0.0, 0.0)
                c.SetCoefficient(vars_[v], float(rr))
                c.SetCoefficient(vars_[d], -1.0)
    for (row, var), c in acc.items():
        if c != 0:
            rows[row].SetCoefficient(vars_[var], c)
    with quiet():
        st = lp.Solve()
        val = obj.Value()
    return ("optimal" if st == Solver.OPTIMAL else "infeasible" if st == Solver.INFEASIBLE else "other"), val


def total_cost(desc, res, s):
    tot = 0.0
    for t in range(desc["h"]):
        for n, nodes in desc["nets"]:
            for m, e in nodes:
                out = res.networks[n].nodes[m]
                for i, x in enumerate(e["cons"]):
                    tot += (at(x["qty"], s, t) - out.consumptions[i].quantity[s, t]) * at(x["cost"], s, t)
                for i, x in enumerate(e["prod"]):
                    tot += out.productions[i].quantity[s, t] * at(x["cost"], s, t)
                for i, x in enumerate(e["stor"]):
                    tot += out.storages[i].capacity[s, t] * at(x["cost"], s, t)
                for i, x in enumerate(e["link"]):
                    tot += out.links[i].quantity[s, t] * at(x["cost"], s, t)
        for x in desc["convs"]:
            tot += res.converters[x["name"]].flow_dest[s, t] * at(x["cost"], s, t)
    return tot


# ---------------------------------------------------------------------------------------------
# plain image of studies and results
def num_image(v, h, s):
    return [[float(v[i, j]) for j in range(h)] for i in range(s)]


def study_image(st):
    h, s = st.horizon, st.nb_scn

    def val(v):
        try:
            return num_image(v, h, s)
        except TypeError:
            return ("raw", repr(v))

    nets = []
    for n, net in st.networks.items():
        nodes = []
        for m, nd in net.nodes.items():
            nodes.append((m,
                          [(c.name, val(c.quantity), val(c.cost)) for c in nd.consumptions],
                          [(c.name, val(c.quantity), val(c.cost)) for c in nd.productions],
                          [(c.name, val(c.capacity), val(c.flow_in), val(c.flow_out), val(c.cost), float(c.init_capacity), val(c.eff)) for c in nd.storages],
                          [(c.dest, val(c.quantity), val(c.cost)) for c in nd.links]))
        nets.append((n, nodes))
    convs = [(k, c.name, [(tuple(x), val(r)) for x, r in c.src_ratios.items()], c.dest_network, c.dest_node, val(c.cost), val(c.max)) for k, c in st.converters.items()]
    return {"version": st.version, "horizon": h, "nb_scn": s, "networks": nets, "converters": convs}


def desc_image(d, version):
    h, s = d["h"], d["s"]
    val = lambda v: [[float(at(v, i, j)) for j in range(h)] for i in range(s)]
    nets = []
    for n, nodes in d["nets"]:
        nets.append((n, [(m,
                          [(c["name"], val(c["qty"]), val(c["cost"])) for c in e["cons"]],
                          [(c["name"], val(c["qty"]), val(c["cost"])) for c in e["prod"]],
                          [(c["name"], val(c["capacity"]), val(c["flow_in"]), val(c["flow_out"]), val(c["cost"]), float(c["init"]), val(c["eff"])) for c in e["stor"]],
                          [(c["dest"], val(c["qty"]), val(c["cost"])) for c in e["link"]]) for m, e in nodes]))
    convs = [(c["name"], c["name"], [((a, b), val(r)) for a, b, r in c["src"]], c["dest"][0], c["dest"][1], val(c["cost"]), val(c["max"])) for c in d["convs"]]
    return {"version": version, "horizon": h, "nb_scn": s, "networks": nets, "converters": convs}


def result_image(r):
    arr = lambda a: np.array(a, dtype=float).tolist()
    nets = []
    for n, net in r.networks.items():
        nets.append((n, [(m, [(c.name, arr(c.quantity)) for c in nd.consumptions], [(c.name, arr(c.quantity)) for c in nd.productions],
                          [(c.name, arr(c.capacity), arr(c.flow_in), arr(c.flow_out)) for c in nd.storages],
                          [(c.dest, arr(c.quantity)) for c in nd.links]) for m, nd in net.nodes.items()]))
    convs = [(k, c.name, [(tuple(x), arr(f)) for x, f in c.flow_src.items()], arr(c.flow_dest)) for k, c in r.converters.items()]
    b = r.benchmark
    return {"networks": nets, "converters": convs, "bench": (list(b.modeler), list(b.solver), b.mapper, b.total)}


def diff(a, b, path=""):
    """first difference between two images, None when equal"""
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return "%s: keys %s instead of %s" % (path, list(a), list(b))
        for k in a:
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if (a == b or (a != a and b != b)) else "%s: %r instead of %r" % (path, a, b)
    return None if a == b else "%s: %r instead of %r" % (path, a, b)


def fake_result(desc, rng):
    """a Result with arbitrary numbers (need not be a solution), through hadar's public classes"""
    from hadar.optimizer.domain.output import (OutputConsumption, OutputConverter, OutputLink, OutputNetwork, OutputNode,
                                               OutputProduction, OutputStorage, Result)

    h, s = desc["h"], desc["s"]

    def arr():
        return np.array([[round(rng.uniform(0, 100), 3) for _ in range(h)] for _ in range(s)])

    nets = {}
    for n, nodes in desc["nets"]:
        nd = {}
        for m, e in nodes:
            nd[m] = OutputNode(consumptions=[OutputConsumption(name=x["name"], quantity=arr()) for x in e["cons"]],
                               productions=[OutputProduction(name=x["name"], quantity=arr()) for x in e["prod"]],
                               storages=[OutputStorage(name=x["name"], capacity=arr(), flow_in=arr(), flow_out=arr()) for x in e["stor"]],
                               links=[OutputLink(dest=x["dest"], quantity=arr()) for x in e["link"]])
        nets[n] = OutputNetwork(nodes=nd)
    convs = {x["name"]: OutputConverter(name=x["name"], flow_src={(a, b): arr() for a, b, _ in x["src"]}, flow_dest=arr()) for x in desc["convs"]}
    return Result(networks=nets, converters=convs)
