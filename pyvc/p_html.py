"""C17, second half: what the HTML plots draw of the data they receive (hadar/viewer/html.py).

Each method of the plotting object runs on arbitrary arguments of the shape the selectors give (first half).  A plotly
figure is the list of the traces added to it, with their arguments; layout, titles and colours are not looked at."""
import z3

import lib
import lib_plot
import lib_rel
import p_aggr
from core import *  # noqa
from lib import METHODS, TABLE, Val, ext, force, meth
from p_view import HTML, vector
from report import *  # noqa
from schema import ArrT, DictT, ListT, Obj


class Opaque(Val):
    """a value that only decorates the figure"""

    def __init__(self, what="decoration"):
        self.what = what

    def getattr(self, eng, name):
        return self

    def call(self, eng, args, kw):
        return self

    def getitem(self, eng, k):
        return self

    def binop(self, eng, op, *a):
        return self

    rbinop = binop

    def __repr__(self):
        return "Opaque"


def opaque(*names):
    for n in names:
        TABLE[n] = lambda eng, args, kw: Opaque()


def deco(v):
    return isinstance(v, (Opaque, Unknown)) or isinstance(v, Tup) and any(deco(x) for x in v.items)


def dress():
    """functions whose values only decorate"""
    opaque("matplotlib.cm.coolwarm", "numpy.exp", "numpy.power", "numpy.std", "numpy.sqrt", "numpy.square", "numpy.linalg.norm")
    T = TABLE
    for k in ("Scatter", "Ohlc", "Heatmap", "Scattermapbox", "Candlestick"):
        T["plotly.graph_objects." + k] = (lambda k: lambda eng, args, kw: trace(k, args, kw))(k)
    T["plotly.graph_objects.Figure"] = figure
    T["numpy.linspace"] = linspace
    T["numpy.mean"] = lambda eng, args, kw: Opaque()
    for n in ("max", "min"):
        old = T.get("numpy." + n)
        T["numpy." + n] = T["numpy.a" + n] = (lambda up, old: lambda eng, args, kw: bound(eng, args, kw, up, old))(n == "max", old)
        METHODS["Picked." + n] = METHODS["ndarray." + n] = (lambda up: lambda eng, a, args, kw: bound(eng, [a] + list(args), kw, up, None))(n == "max")
    for n in ("numpy.array", "builtins.str", "builtins.abs", "builtins.float", "builtins.int"):
        T[n] = (lambda old: lambda eng, args, kw: Opaque() if args and deco(force(eng, args[0])) else old(eng, args, kw))(T[n]) if n in T else (lambda eng, args, kw: Opaque() if deco(force(eng, args[0])) else lib.Val()._no(n))
    METHODS["ndarray.sort"] = a_sort
    T["numpy.sort"] = np_sort
    METHODS["ndarray.mean"] = METHODS["ndarray.std"] = lambda eng, a, args, kw: Opaque()


class Trace(Val):
    def __init__(self, kind, kw):
        self.kind, self.kw = kind, kw

    def subst(self, pairs):
        return Trace(self.kind, {k: subst(v, pairs) for k, v in self.kw.items()})

    def mentions(self, c):
        return any(mentions(v, c) for v in self.kw.values())

    def __repr__(self):
        return "Trace(%s, %r)" % (self.kind, self.kw)


def trace(kind, args, kw):
    if args:
        raise Unsupported("trace with positional arguments")
    return Trace(kind, dict(kw))


class Fig(Val):
    def __init__(self, lst):
        self.lst = lst

    def subst(self, pairs):
        return Fig(subst(self.lst, pairs))

    def mentions(self, c):
        return mentions(self.lst, c)

    def getattr(self, eng, name):
        if name in ("add_trace", "add_traces", "update_layout", "update_xaxes", "update_yaxes"):
            return FigMeth(self, name)
        raise Unsupported("figure.%s" % name)

    def __repr__(self):
        return "Fig(%r)" % (self.lst,)


class FigMeth(Val):
    def __init__(self, fig, name):
        self.fig, self.name = fig, name

    def call(self, eng, args, kw):
        if self.name.startswith("update"):
            return self.fig
        if self.name == "add_trace":
            if len(args) + len(kw) != 1:
                raise Unsupported("add_trace options")
            add(eng, self.fig, force(eng, (list(args) + list(kw.values()))[0]))
            return self.fig
        for x in args:
            extend(eng, self.fig, x)
        if kw:
            raise Unsupported("add_traces options")
        return self.fig


def add(eng, fig, t):
    if not isinstance(t, Trace):
        raise Unsupported("trace %r" % (t,))
    eng.append(fig.lst, t)


def extend(eng, fig, x):
    x = force(eng, x)
    if isinstance(x, Trace):
        return add(eng, fig, x)
    eng.loop(eng.contents(x), lambda e: add(eng, fig, force(eng, e)), lib.frame(), set())


def figure(eng, args, kw):
    fig = Fig(eng.new_list())
    kw = dict(kw)
    data = args[0] if args else kw.pop("data", None)
    kw.pop("layout", None)
    if kw or len(args) > 2:
        raise Unsupported("figure options")
    if data is not None:
        extend(eng, fig, data)
    return fig


def linspace(eng, args, kw):
    names = ["start", "stop", "num"]
    a = dict(zip(names, args))
    a.update(kw)
    if set(a) - set(names):
        raise Unsupported("linspace options")
    a = {k: force(eng, v) for k, v in a.items()}
    n = a.get("num", 50)
    if any(isinstance(v, Opaque) for v in a.values()):
        return Opaque()
    lo, hi, n = real(term(a["start"])), real(term(a["stop"])), term(n)
    if not eng.choose(n >= 0):
        raise PyRaise("ValueError")
    return lib.new_array(eng, [lib.wrap_int(n)], lambda i: Sc(z3.If(n > 1, lo + (hi - lo) * z3.ToReal(term(i[0])) / z3.ToReal(n - 1), lo), "float"))


def bound(eng, args, kw, up, old):
    """largest (smallest) element, of those selected by a mask: a bound that is reached"""
    a = force(eng, args[0])
    if len(args) > 1 or set(kw) - {"initial"}:
        raise Unsupported("max over an axis")
    init = kw.get("initial")
    if isinstance(a, Opaque):
        return a
    if not isinstance(a, lib_plot.Picked) and not (isinstance(a, Ref) and a.cls == "ndarray"):
        if old is None or kw:
            raise Unsupported("extremum of %r" % (a,))
        return old(eng, args, kw)
    sh = a.shape if isinstance(a, lib_plot.Picked) else lib.array_shape(eng, a)
    at = a.at if isinstance(a, lib_plot.Picked) else (lambda e, i: (z3.BoolVal(True), lib.cell(e, a, i)))
    m = eng.fresh("extremum", R)
    bs, rs = [eng.fresh("e", I) for _ in sh], [eng.fresh("reached", I) for _ in sh]
    inr = lambda xs: z3.And(*[c for x, d in zip(xs, sh) for c in (x >= 0, x < d)])

    def one(xs):
        pc = list(eng.pc)
        eng.pc = pc + [inr(xs)]
        try:
            k, v = at(eng, [Sc(x, "int") for x in xs])
            if len(eng.pc) != len(pc) + 1:
                raise Unsupported("extremum of elements by cases")
            return k, real(term(force(eng, v)))
        finally:
            eng.pc = pc

    k, v = one(bs)
    kr, vr = [z3.substitute(x, *zip(bs, rs)) for x in (k, v)]
    eng.pc.append(z3.ForAll(bs, z3.Implies(z3.And(inr(bs), k), v <= m if up else v >= m)))
    reach = z3.And(inr(rs), kr, vr == m)
    if init is not None:
        i = real(term(force(eng, init)))
        eng.pc.append(m >= i if up else m <= i)
        eng.pc.append(z3.Or(m == i, reach))
    else:
        some = z3.And(*[d > 0 for d in sh]) if z3.is_true(k) else z3.Exists(bs, z3.And(inr(bs), k))
        if not eng.choose(some):
            raise PyRaise("ValueError", ("no element",))
        eng.pc.append(reach)
    return Sc(m, "float")


def ranks(eng, a):
    """cells of the array in increasing order: contract of sort, the same multiset of values"""
    sh = lib.array_shape(eng, a)
    if len(sh) != 1:
        raise Unsupported("sort of several dimensions")
    n = sh[0]
    j = z3.Int("j_so")
    pc = list(eng.pc)
    eng.pc = pc + [j >= 0, j < n]
    try:
        c = term(force(eng, lib.cell(eng, a, [Sc(j, "int")])))
        if len(eng.pc) != len(pc) + 2:
            raise Unsupported("sort of elements by cases")
    finally:
        eng.pc = pc
    if any(mentions(c, b) for b in eng.binders):
        raise Unsupported("sort in a loop")
    # one function per content
    key = ("sorted", c.get_id(), n.get_id())
    memo = eng.__dict__.setdefault("sorts", {})
    if key not in memo:
        memo[key] = (z3.Function("sorted!%d" % len(memo), I, R), c, n)
        f = memo[key][0]
        k = z3.Int("k_so")
        eng.prover.axiom(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < n), f(j) <= f(k)), patterns=[z3.MultiPattern(f(j), f(k))]))
    eng.trusted.add("numpy sort: same values, in increasing order")
    return memo[key][0], n


def a_sort(eng, a, args, kw):
    if args or kw:
        raise Unsupported("sort options")
    f, n = ranks(eng, a)
    lib.fill_array(eng, a, [lib.wrap_int(n)], lambda i: Sc(f(term(i[0])), "float"))
    return None


def np_sort(eng, args, kw):
    if len(args) > 1 or kw:
        raise Unsupported("sort options")
    f, n = ranks(eng, lib.arrayish(eng, args[0]))
    return lib.new_array(eng, [lib.wrap_int(n)], lambda i: Sc(f(term(i[0])), "float"))


# ------------------------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, eng, coord=False, dates=False):
        self.eng = eng
        dress()
        DATE = z3.Function("date", I, R)
        self.axis = DATE if dates else z3.ToReal
        self.tag = ", with dates" if dates else ""

        def date_range(eng, args, kw):
            if args or set(kw) != {"start", "end", "periods"} or force(eng, kw["start"]) != "2020-01-01" or force(eng, kw["end"]) != "2020-12-31":
                raise Unsupported("date_range of %s %s" % (args, kw))
            return lib.new_array(eng, [force(eng, kw["periods"])], lambda i: Sc(DATE(term(i[0])), "float"))

        TABLE["pandas.date_range"] = date_range
        self.h, self.nb = z3.Ints("horizon nb_scn")
        eng.prover.axiom(self.h >= 1)
        eng.prover.axiom(self.nb >= 1)
        agg = Ref("agg", (), eng.cls("hadar.analyzer.result.ResultAnalyzer"))
        C = eng.cls("hadar.optimizer.domain.input.Study")
        eng.schema["agg"] = Obj(agg.cls, {"study": lambda: Ref("agg.study", (), C)})
        eng.schema["agg.study"] = Obj(C, {"horizon": lambda: Sc(self.h, "int"), "nb_scn": lambda: Sc(self.nb, "int")})
        self.fn = eng.cls(HTML + "HTMLPlotting")
        kw = {"unit_symbol": "MW"}
        if dates:
            kw["time_start"], kw["time_end"] = "2020-01-01", "2020-12-31"
        if coord:
            kw["node_coord"] = coord(self)
        outs = eng.explore(lambda: eng.call(self.fn, [agg], kw))
        if len(outs) != 1 or outs[0].kind != "ok":
            raise Unsupported("creation of the plotting object: %s" % [(o.kind, getattr(o.val, "cls", None), getattr(o.val, "where", None), o.pc) for o in outs])
        eng.load(outs[0].log, outs[0].pc)
        self.obj = outs[0].val
        self.base = list(eng.log)
        self.plot = eng.getattr(self.obj, "plotting")
        self.time = eng.getattr(self.plot, "time_index")

    def call(self, name, args, kw=None):
        e = self.eng
        return lambda: e.call(e.getattr(self.plot, name), args, kw or {})

    def given(self, site, f, dims, py="float"):
        self.eng.schema[site] = ArrT(f, lambda *a: dims, py)
        return Ref(site, (), "ndarray")


def traces(eng, v):
    if not isinstance(v, Fig):
        raise Unsupported("figure %r" % (v,))
    return eng.contents(v.lst).segs


def the(segs, n):
    """n traces, one by one"""
    if len(segs) != n or any(s.binders or s.guard for s in segs):
        raise Fail("%d groups of traces, expected %d" % (len(segs), n)) if not any(s.guard for s in segs) else Unsupported("traces under conditions")
    return [s.elem for s in segs]


def values(eng, t, key):
    if key not in t.kw:
        raise Fail("trace without %s" % key)
    return force(eng, t.kw[key])


def abscissa(eng, x, t):
    vector(eng, values(eng, t, "x"), x.h, x.axis, "abscissas")


def creation(eng, rep, x):
    rep.run("C17 HTML time axis: %s" % ("the dates between start and end, one per step" if x.tag else "0 .. horizon-1"), lambda: vector(eng, x.time, x.h, x.axis, "time axis"))


def run(eng, rep, x, name, call, facts, check):
    p_aggr.run(eng, rep, x, name, call, facts, check)


def timeline(eng, rep, prop, dates=False):
    x = Ctx(eng, dates=dates)
    creation(eng, rep, x)
    V = z3.Function("curve", I, I, R)
    s, t = z3.Ints("s0 t0")
    eng.radix = [x.nb, x.h]
    lv = {"scn": Sc(s, "int"), "t": Sc(t, "int")}
    rel = lib_rel.Rel([s, t], [s >= 0, s < x.nb, t >= 0, t < x.h], {}, ["scn", "t"], lv, sorted_=True)
    df = lib_rel.RSer(rel, Sc(V(s, t), "float"))

    def check(r):
        sg = traces(eng, r)
        if len(sg) != 1 or len(sg[0].binders) != 1:
            raise Unsupported("groups of traces")
        g = sg[0]
        b = g.binders[0]
        need(eng, conj(g.guard) == z3.And(b >= 0, b < x.nb), "one curve per scenario")
        pc = list(eng.pc)
        eng.pc = pc + list(g.guard)
        try:
            abscissa(eng, x, g.elem)
            y = values(eng, g.elem, "y")
            if isinstance(y, lib_rel.RSer):
                y = lib_plot.column_array(eng, y.rel, y.val)
            vector(eng, y, x.h, lambda j: V(b, j), "curve of a scenario")
        finally:
            eng.pc = pc

    run(eng, rep, x, "C17 HTML timeline" + x.tag, x.call("timeline", [df, "title"]), [], check)


def monotone(eng, rep, prop):
    x = Ctx(eng)
    V = z3.Function("value", I, R)
    n = z3.Int("size")
    eng.prover.axiom(n >= 1)

    def call():
        y = lib.new_array(eng, [Sc(n, "int")], lambda i: Sc(V(term(i[0])), "float"))
        f, _ = ranks(eng, y)
        call.f = f
        return eng.call(eng.getattr(x.plot, "monotone"), [y, "title"], {})

    def check(r):
        (t,) = the(traces(eng, r), 1)
        vector(eng, values(eng, t, "y"), n, lambda j: call.f(n - 1 - j), "values in decreasing order")
        vector(eng, values(eng, t, "x"), n, lambda j: z3.If(n > 1, 100 * z3.ToReal(j) / z3.ToReal(n - 1), z3.RealVal(0)), "abscissas")

    run(eng, rep, x, "C17 HTML monotone", call, [], check)


def gaussian(eng, rep, prop):
    x = Ctx(eng)
    Q, RAC = z3.Function("value", I, R), z3.Function("rac", I, R)
    n = z3.Int("size")
    eng.prover.axiom(n >= 1)
    qt, rac = x.given("qt", Q, [Sc(n, "int")]), x.given("rac", RAC, [Sc(n, "int")])
    x.base = list(eng.log)

    def check(r):
        ts = the(traces(eng, r), 3)
        j = z3.Int("j_q")
        seen = []
        for t in ts:
            p = values(eng, t, "x")
            if not isinstance(p, lib_plot.Picked):
                continue
            name = t.kw.get("name")
            if name not in ("passed", "failed"):
                raise Fail("points named %r" % (name,))
            seen.append(name)

            def body():
                k, v = p.at(eng, [Sc(j, "int")])
                need(eng, k == (RAC(j) >= 0 if name == "passed" else RAC(j) < 0), "%s points are those of the sign of the remaining capacity" % name)
                need(eng, z3.Implies(k, real(term(force(eng, v))) == Q(j)), "value of a point")

            need(eng, p.shape[0] == n, "points")
            paths(eng, [j >= 0, j < n], body)
        if sorted(seen) != ["failed", "passed"]:
            raise Fail("groups of points %s" % seen)

    run(eng, rep, x, "C17 HTML gaussian", x.call("gaussian", [rac, qt, "title"]), [], check)


def candles(eng, rep, prop, dates=False):
    x = Ctx(eng, dates=dates)
    A, C = z3.Function("open", I, R), z3.Function("close", I, R)
    op, cl = x.given("open", A, [Sc(x.h, "int")]), x.given("close", C, [Sc(x.h, "int")])

    def check(r):
        (t,) = the(traces(eng, r), 1)
        abscissa(eng, x, t)
        vector(eng, values(eng, t, "open"), x.h, A, "level before")
        vector(eng, values(eng, t, "close"), x.h, C, "level after")

    run(eng, rep, x, "C17 HTML candles" + x.tag, x.call("candles", [op, cl, "title"]), [], check)


def matrix(eng, rep, prop, dates=False):
    x = Ctx(eng, dates=dates)
    D = z3.Function("data", I, I, R)
    data = lib.owned(eng, x.given("data", D, [Sc(x.nb, "int"), Sc(x.h, "int")]))  # of floats, as get_rac returns
    M, N = z3.Reals("largest smallest")
    a, b, p, q, u, w = z3.Ints("a_ b_ p_ q_ u_ w_")
    inr = lambda s, t: z3.And(s >= 0, s < x.nb, t >= 0, t < x.h)
    spec = []
    for m, sg, (i, j) in ((M, 1, (p, q)), (N, -1, (u, w))):
        spec.append(z3.ForAll([a, b], z3.Implies(z3.And(inr(a, b), sg * D(a, b) > 0), sg * D(a, b) <= m), patterns=[D(a, b)]))
        spec.append(z3.Or(m == 0, z3.And(inr(i, j), sg * D(i, j) > 0, m == sg * D(i, j))))
        spec.append(m >= 0)

    def check(r):
        (t,) = the(traces(eng, r), 1)
        abscissa(eng, x, t)
        p_aggr.same_array(eng, values(eng, t, "text"), [x.nb, x.h], lambda s, t_: D(s, t_), "shown numbers")
        z = values(eng, t, "z")
        if not (isinstance(z, Ref) and z.cls == "ndarray"):
            raise Unsupported("z is %r" % (z,))
        sh = lib.array_shape(eng, z)
        if len(sh) != 2:
            raise Fail("dimensions of the colours")
        need(eng, z3.And(sh[0] == x.nb, sh[1] == x.h), "shape of the colours")
        s_, t_ = z3.Ints("s_q t_q")

        def body():
            c = real(term(force(eng, lib.cell(eng, z, [Sc(s_, "int"), Sc(t_, "int")]))))
            d = D(s_, t_)
            need(eng, z3.Implies(d > 0, c * M == d), "colour of a positive value: fraction of the largest")
            need(eng, z3.Implies(d < 0, c * N == d), "colour of a negative value: fraction of the smallest")
            need(eng, z3.Implies(d == 0, c == 0), "colour of zero")

        paths(eng, [inr(s_, t_)], body)

    run(eng, rep, x, "C17 HTML matrix" + x.tag, x.call("matrix", [data, "title"]), spec, check)


def stack(eng, rep, prop, dates=False):
    x = Ctx(eng, dates=dates)
    sites = {}
    for k in ("areas", "lines"):
        n = z3.Int("n_" + k)
        eng.prover.axiom(n >= 0)
        nm, f = z3.Function(k + ".name", I, S), z3.Function(k + ".data", I, I, R)
        eng.schema[k] = ListT(k, lambda n=n: n, lambda i, nm=nm, k=k: Tup([Sc(nm(i), "str"), Ref(k + ".data", (i,), "ndarray")]))
        eng.schema[k + ".data"] = ArrT(f, lambda i: [Sc(x.h, "int")])
        sites[k] = (Ref(k, (), "list"), n, nm, f)

    def check(r):
        got = {"areas": [], "lines": []}
        for g in traces(eng, r):
            if len(g.binders) != 1:
                raise Unsupported("traces %r under %r" % (g.elem, g.guard))
            b = g.binders[0]
            name = term(force(eng, g.elem.kw.get("name")))
            # the element a trace stands for: its rank in the list
            k, i = next(((k, c) for k in got for c in (b, sites[k][1] - 1 - b) if eng.prove(z3.Implies(conj(g.guard), eqt(name, sites[k][2](c))))), (None, None))
            if k is None:
                raise Fail("a trace has not the name of its element: %s" % name)
            got[k].append((b, i, conj(g.guard)))
            _, n, nm, f = sites[k]
            pc = list(eng.pc)
            eng.pc = pc + list(g.guard)
            try:
                abscissa(eng, x, g.elem)
                q = z3.Int("below")
                vector(eng, values(eng, g.elem, "y"), x.h, lambda j: eng.sum_term([q], [q >= 0, q < z3.simplify(i)], f(q, j)) + f(i, j), "%s: height, the sum up to the element" % k)
            finally:
                eng.pc = pc
        e = z3.Int("element")
        for k, l in got.items():
            n = sites[k][1]
            gs = [z3.substitute(g, (b, e if i.eq(b) else n - 1 - e)) for b, i, g in l]
            need(eng, z3.Or(*gs) == z3.And(e >= 0, e < n), "%s: a trace for each element, none for others" % k)
            for p in range(len(gs)):
                for q in range(p):
                    need(eng, z3.Not(z3.And(gs[p], gs[q])), "%s: one trace per element" % k)

    run(eng, rep, x, "C17 HTML stack" + x.tag, x.call("stack", [sites["areas"][0], sites["lines"][0], "title"]), [], check)


def themap(eng, rep, prop):
    LON, LAT = z3.Function("lon", S, R), z3.Function("lat", S, R)
    C_ = z3.Function("coord.dom", S, B)
    N = {"n": z3.Int("n_coord"), "nodes": z3.Int("n_nodes"), "lines": z3.Int("n_lines")}
    a, b = z3.Consts("a b", S)
    j = z3.Int("j")

    def ordered(tag, dom, arity, val):
        ks = [a, b][:arity]
        pos = z3.Function(tag + ".pos", *([S] * arity + [I]))
        at = [z3.Function("%s.at%d" % (tag, i), I, S) for i in range(arity)]
        n = z3.Int("n_" + tag)
        ax = eng.prover.axiom
        p = pos(*ks)
        ax(n >= 0)
        ax(z3.ForAll(ks, z3.Implies(dom(*ks), z3.And(p >= 0, p < n, *[f(p) == k for f, k in zip(at, ks)])), patterns=[p]))
        back = [f(j) for f in at]
        ax(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(dom(*back), pos(*back) == j)), patterns=[back[0]]))
        eng.INJ[pos.name()] = 0
        if arity == 1:
            eng.INV[pos.name()] = at[0]
        eng.schema[tag] = DictT(tag, dom, pos, at[0], lambda: n, val, arity)
        return n, at

    x = Ctx(eng, coord=lambda x: (ordered("coord", C_, 1, lambda k: Tup([Sc(LON(k), "float"), Sc(LAT(k), "float")])), Ref("coord", (), "dict"))[1])
    ND, LD, NQ, LQ = z3.Function("nodes.dom", S, B), z3.Function("lines.dom", S, S, B), z3.Function("position", S, R), z3.Function("exchange", S, S, R)
    nn, nat = ordered("nodes", ND, 1, lambda k: Sc(NQ(k), "float"))
    ordered("lines", LD, 2, lambda k, l: Sc(LQ(k, l), "float"))
    eng.prover.axiom(z3.ForAll([a], z3.Implies(ND(a), C_(a)), patterns=[ND(a)]))
    eng.prover.axiom(z3.ForAll([a, b], z3.Implies(LD(a, b), z3.And(C_(a), C_(b))), patterns=[LD(a, b)]))
    limit, size = Sc(z3.Real("limit"), "float"), Sc(z3.Real("zoom"), "float")
    facts = [z3.Real("limit") > 0, z3.Real("zoom") > 0, nn > 0]

    def pair(v, i):
        """element i of a list or vector"""
        v = force(eng, v)
        return real(term(force(eng, eng.getitem(v, i))))

    def check(r):
        segs = traces(eng, r)
        seen = {"lines": [], "texts": [], "nodes": 0}
        q = z3.Int("j_q")
        for g in segs:
            t = g.elem
            if not g.binders:
                if g.guard:
                    raise Unsupported("trace under conditions")
                seen["nodes"] += 1
                for k, f in (("lon", LON), ("lat", LAT)):
                    vector(eng, lib.arrayish(eng, values(eng, t, k)), nn, lambda i: f(nat[0](i)), k)
                col = eng.getitem(values(eng, t, "marker"), "color")
                for k, v in (("text", values(eng, t, "text")), ("color", col)):
                    vector(eng, lib.arrayish(eng, v), nn, lambda i: NQ(nat[0](i)), "%s of the nodes" % k)
                continue
            if len(g.binders) != 2:
                raise Unsupported("traces %r" % (t,))
            pc = list(eng.pc)
            eng.pc = pc + list(g.guard)
            try:
                u, w = g.binders
                need(eng, LD(u, w), "an arrow only for a line")
                if "text" in t.kw:
                    need(eng, eqt(term(force(eng, t.kw["text"])), term(TABLE["builtins.str"](eng, [Sc(LQ(u, w), "float")], {}))), "number of an arrow")
                    seen["texts"].append((u, w, g.guard))
                else:
                    for k, f in (("lon", LON), ("lat", LAT)):
                        v = values(eng, t, k)
                        need(eng, eng.length(v) == 2, "ends of an arrow")
                        need(eng, z3.And(pair(v, 0) == f(u), pair(v, 1) == f(w)), "an arrow goes from the origin to the destination")
                    seen["lines"].append((u, w, g.guard))
            finally:
                eng.pc = pc
        if seen["nodes"] != 1:
            raise Fail("%d groups of nodes" % seen["nodes"])
        for k in ("lines", "texts"):
            if len(seen[k]) != 1:
                raise Unsupported("%d groups of arrows" % len(seen[k]))
            u, w, g = seen[k][0]
            need(eng, conj(g) == LD(u, w), "one arrow for each line")

    run(eng, rep, x, "C17 HTML map of exchanges", x.call("map_exchange", [Ref("nodes", (), "dict"), Ref("lines", (), "dict"), limit, "title", size]), facts, check)


def dated(f):
    def g(eng, rep, prop):
        f(eng, rep, prop, True)

    g.__name__ = f.__name__ + " with dates"
    return g


PARTS = [dated(timeline), dated(candles), dated(matrix), dated(stack), timeline, monotone, gaussian, candles, matrix, stack, themap]
