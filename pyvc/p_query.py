"""C11: every query of the fluent API, on the tables by their contract (C10): rows, values, levels, reuse of partial queries.

A filter argument is any list (arbitrary length and elements), any scalar, nothing, or (scenario, time) any slice."""
import itertools

import z3

import lib
import lib_rel
import p_aggr
from core import *  # noqa
from engine import NeedCarry
from p_json import frame_check, old_sites
from report import *  # noqa

KINDS = {"consumption": ("consumption", "name"), "production": ("production", "name"), "storage": ("storage", "name"), "link": ("link", "dest"),
         "to_converter": ("src_converter", "name"), "from_converter": ("dest_converter", "name")}
COLUMN = {"network": "network", "node": "node", "scn": "scn", "time": "t"}


class Filter:
    """argument of one step of the query: value passed, rows kept, fixed to one value"""

    def __init__(self, eng, col, form):
        self.col, self.form = col, form
        sort = I if col in ("scn", "t") else S
        one = lambda nm, so: Sc(z3.Const(nm + "_" + col, so), "int" if so == I else "str")
        self.facts = []
        if form == "none":
            self.arg, self.keep, self.alone = None, lambda x: z3.BoolVal(True), z3.BoolVal(False)
        elif form == "one":
            self.arg = one("one", sort)
            self.keep, self.alone = lambda x: x == self.arg.t, z3.BoolVal(True)
        elif form in ("list", "tuple", "many"):
            self.arg = lib.AnyList(eng, col, sort, "builtins." + ("tuple" if form == "tuple" else "list"))
            if form != "list":
                self.facts = [self.arg.n > (0 if form == "tuple" else 1)]
            self.keep, self.alone = lambda x: z3.Or(self.arg.n == 0, self.arg.has(x)), self.arg.n == 1
        else:
            a, b, st = [one(n, I) if f in form.split() else None for n, f in (("start", "start"), ("stop", "stop"), ("step", "step"))]
            self.arg = slice(a, b, st)
            A, T = a.t if a else z3.IntVal(0), st.t if st else z3.IntVal(1)
            if st:
                self.facts.append(T > 0)
            if b:
                r = None if not st else lib.Range
                if st:
                    has = z3.Function("in_range", I, I, I, I, B)
                    self.keep = lambda x: has(A, b.t, T, x)
                else:
                    self.keep = lambda x: z3.And(x >= A, x < b.t)
                self.alone = z3.And(A < b.t, b.t <= A + T)
            else:
                self.keep = lambda x: z3.And(x >= A, (x - A) % T == 0) if st else x >= A
                self.alone = z3.BoolVal(False)


def query(eng, rep, x, kind, order, forms):
    """order: permutation of node, scn, time, <kind> after network"""
    steps = ["network"] + list(order)
    tab, idcol = KINDS[kind]
    cols = [COLUMN.get(s, idcol) for s in steps]
    fs = [Filter(eng, c, forms[s]) for s, c in zip(steps, cols)]
    name = "C11 %s, %s" % (".".join(steps), "/".join(forms[s] for s in steps))
    old = old_sites(eng)

    def call():
        o, marks = x.obj, []
        for s, f in zip(steps, fs):
            o = eng.call(eng.getattr(o, s), [f.arg], {})
            marks.append((len(eng.log), old_sites(eng)))
        for (n, sites), nxt in zip(marks[:-1], marks[1:]):
            frame_check(eng, eng.log[n:], sites, "a partial query")
        return o

    spec = x.rel[tab]
    G = list(spec.guard)
    for c, f in zip(cols, fs):
        G.append(f.keep(term(spec.cols[c])))
    facts = [g for f in fs for g in f.facts]

    def check(v):
        if not isinstance(v, lib_rel.Rel):
            raise Fail("the query returns %r" % (v,))
        gone = len(cols) - len(v.levels)
        if gone < 0 or gone > len(cols) - 1 or v.levels != cols[gone:]:
            raise Fail("index levels %s of a query by %s" % (v.levels, cols))
        for f in fs[:gone]:
            need(eng, f.alone, "level %s removed only when fixed to one value" % f.col)
        eq = [b == t for b, t in v.elim]
        R_ = conj(v.guard + eq)
        need(eng, R_ == conj(G), "rows kept")
        if gone < len(cols) - 1:
            q = v.some(eng)
            need(eng, z3.Or(z3.Not(fs[gone].alone), z3.Not(q)), "leading level %s fixed to one value is removed" % fs[gone].col)
        want = {c for c in spec.cols if c not in cols and lib_rel.numeric(spec.cols[c])}
        if set(v.cols) != want:
            raise Fail("columns %s instead of %s" % (sorted(v.cols), sorted(want)))
        for c in v.levels:
            need(eng, z3.Implies(conj([R_]), eqt(term(v.lv[c]), term(spec.cols[c]))), "index %s" % c)
        for c in want:
            p, q = num2(term(v.cols[c]), term(spec.cols[c]))
            need(eng, z3.Implies(R_, p == q), "value %s" % c)

    p_aggr.run(eng, rep, x, name, call, facts, check)


def orders(kind):
    return list(itertools.permutations(["node", "scn", "time", kind]))


def prefix(order, n):
    return {s: "one" if i < n else "many" for i, s in enumerate(("network",) + order)}


def same(form):
    return lambda o: {s: form for s in ("network",) + o}


def make(name, kind, forms, which=slice(None)):
    def f(eng, rep, prop):
        x = p_aggr.Ctx(eng)
        for o in orders(kind)[which]:
            for fm in forms:
                query(eng, rep, x, kind, o, fm(o))

    f.__name__ = name
    return f


def slices(o):
    """scenario and time filters of every slice form"""
    sl = [" ".join(c) for n in range(4) for c in itertools.combinations(["start", "stop", "step"], n)]
    sl[0] = "slice"
    return [dict(same("many")(o), time=s, scn=t) for s, t in zip(sl, sl[::-1])]


def parts(prop):
    out = []
    for k in KINDS:
        out.append(make("queries of " + k, k, [same(f) for f in ("many", "one", "none")]))
    for k in ("consumption", "link"):
        out.append(make("fixed leading levels, " + k, k, [lambda o, n=n: prefix(o, n) for n in (1, 2, 3, 4)]))
    out.append(make("slices", "production", [lambda o, i=i: slices(o)[i] for i in range(8)], slice(0, None, 7)))
    out.append(make("lists", "storage", [same("list"), same("tuple")], slice(9, 10)))
    return out
