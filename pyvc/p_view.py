"""C17: what the selectors of the viewer give to the plots, and what the HTML plots draw.

Selectors (hadar/viewer/abc.py) run on an arbitrary study and result; the analyzer's tables (C10), get_rac, get_balance
and get_elements_inside (C12) are used by their contracts, the query functions are executed.  The plotting object is a
record of the arguments of its call.  HTML plots (hadar/viewer/html.py) run on arbitrary arguments; plotly figures are
records of the traces added to them."""
import z3

import lib
import lib_rel
import p_aggr
import lib_plot
from core import *  # noqa
from engine import NeedCarry
from lib import METHODS, TABLE, Val, ext, force, meth
from p_json import frame_check, old_sites
from report import *  # noqa

ABC = "hadar.viewer.abc."
HTML = "hadar.viewer.html."


class Call(Val):
    """figure made by a method of the plotting object with these arguments"""

    def __init__(self, name, env):
        self.name, self.env = name, env

    def __repr__(self):
        return "Call(%s)" % self.name


class Rec(Val):
    def __init__(self, eng):
        self.cls = eng.cls(ABC + "ABCElementPlotting")

    def getattr(self, eng, name):
        f, _ = self.cls.find(name)
        if f is None:
            raise Unsupported("plot %s" % name)
        return RecMeth(self, f, name)


class RecMeth(Val):
    def __init__(self, rec, f, name):
        self.rec, self.f, self.name = rec, f, name

    def call(self, eng, args, kw):
        return Call(self.name, eng.bind_args(self.f, [self.rec] + list(args), kw))


class View:
    """plotting object over an arbitrary study and result"""

    def __init__(self, eng):
        self.eng = eng
        self.x = x = p_aggr.Ctx(eng)
        m = self.m = x.m
        p_aggr.elements_contract(x)
        C = eng.cls(p_aggr.MOD + "ResultAnalyzer")
        self.RAC = z3.Function("rac", S, I, I, R)
        self.BAL = z3.Function("balance", S, S, I, I, R)

        def by_contract(name, f, dom):
            fn, _ = C.find(name)

            def h(eng, args, kw):
                env = eng.bind_args(fn, args, kw)
                a = [term(force(eng, env[p.arg])) for p in fn.node.args.args[1:]]
                a = f[1](a, [p.arg for p in fn.node.args.args[1:]])
                if not eng.choose(dom(*a)):
                    raise Unsupported("%s of a place that does not exist" % name)
                return lib.new_array(eng, [Sc(m.nb, "int"), Sc(m.h, "int")], lambda i: Sc(f[0](*(a + [term(i[0]), term(i[1])])), "float"))

            eng.contracts[fn.name] = h
            eng.trusted.add("ResultAnalyzer.%s by its contract (proved in C12)" % name)

        pick = lambda names: (lambda a, ps: [a[ps.index(n)] for n in names])
        by_contract("get_rac", (self.RAC, pick(["network"])), m.net_dom)
        by_contract("get_balance", (self.BAL, pick(["network", "node"])), m.node_dom)
        self.obj = eng.alloc(eng.cls(ABC + "ABCPlotting"), "plotting")
        for k, v in (("plotting", Rec(eng)), ("agg", x.obj), ("unit", ""), ("coord", None)):
            eng.setattr(self.obj, k, v)
        x.base = list(eng.log)
        self.n, self.k, self.i, self.c = z3.Const("network_v", S), z3.Const("node_v", S), z3.Const("elem_v", I), z3.Const("conv_v", S)
        self.s, self.t = z3.Const("scn_v", I), z3.Const("time_v", I)
        self.inside = [m.node_dom(self.n, self.k), m.net_dom(self.n), self.s >= 0, self.s < m.nb, self.t >= 0, self.t < m.h]

    def node(self):
        e = self.eng
        return e.call(e.getattr(e.call(e.getattr(self.obj, "network"), [Sc(self.n, "str")], {}), "node"), [Sc(self.k, "str")], {})


# kind -> (selector method, table, parameter for the data, data columns)
ELEMENTS = {"consumption": ("consumption", "cons", ["given", "asked"]), "production": ("production", "prod", ["used", "avail"]), "link": ("link", "link", ["used", "avail"]),
            "to_converter": ("src_converter", None, ["flow"]), "from_converter": ("dest_converter", None, ["flow"])}


def element(v, kind):
    """(name of the element, facts, column -> value at (s, t))"""
    m = v.m
    tab, e, _ = ELEMENTS[kind] if kind != "storage" else ("storage", "stor", None)
    bs, dom, _, cols = v.x.spec[tab]
    pr = dict(zip([str(b) for b in bs], bs))
    to = {"n0": v.n, "k0": v.k, "i0": v.i, "c0": v.c}
    sub = [(b, to[str(b)]) for b in bs]
    facts = [z3.substitute(d, *sub) for d in dom]
    if kind == "from_converter":
        facts += [m.dn(v.c) == v.n, m.dk(v.c) == v.k]
    name = v.c if e is None else m.name[e](v.n, v.k, v.i)
    s0, t0 = z3.Const("s0", I), z3.Const("t0", I)
    val = lambda col: (lambda s, t: z3.substitute(cols[col], *(sub + [(s0, s), (t0, t)])))
    return Sc(name, "str"), facts, val


def vector(eng, a, n, f, what):
    """1-D array of n cells f(j)"""
    a = force(eng, a)
    if isinstance(a, (lib_rel.RValues, lib_rel.RSer)):
        raise Unsupported("%s: rows not recognised" % what)
    if not (isinstance(a, Ref) and a.cls == "ndarray"):
        raise Unsupported("%s is %r" % (what, a))
    sh = lib.array_shape(eng, a)
    if len(sh) != 1:
        raise Fail("%s has %d dimensions" % (what, len(sh)))
    need(eng, sh[0] == n, "length of %s" % what)
    j = z3.Int("j_q")

    def body():
        p, q = num2(term(force(eng, lib.cell(eng, a, [Sc(j, "int")]))), f(j))
        need(eng, p == q, "%s at every place" % what)

    paths(eng, [j >= 0, j < n], body)


def figure(v, name):
    if not isinstance(v, Call):
        raise Unsupported("not the figure of the plotting object: %r" % (v,))
    if v.name != name:
        raise Fail("plot %s instead of %s" % (v.name, name))
    return v.env


def elements(kind):
    def f(eng, rep, prop):
        v = View(eng)
        m = v.m
        tab, e, cols = ELEMENTS[kind]
        name, facts, val = element(v, kind)
        S_, T_ = Sc(v.s, "int"), Sc(v.t, "int")
        for col in cols + [None]:
            data = val(col or cols[0])
            args = [name] + ([col] if col and e else [])

            def sel():
                return eng.call(eng.getattr(v.node(), kind), args, {})

            pre = "C17 %s%s " % (kind, " " + col if col else ", default kind")
            call = lambda what, kw: (lambda: eng.call(eng.getattr(sel(), what), [], kw))

            def timeline(r):
                df = figure(r, "timeline")["df"]
                if not isinstance(df, lib_rel.RSer):
                    raise Unsupported("timeline of %r" % (df,))
                table(eng, v, df, data)

            p_aggr.run(eng, rep, v.x, pre + "timeline", call("timeline", {}), v.inside + facts, timeline)
            for kw, n, at, rac in (({"t": T_}, m.nb, lambda j: data(j, v.t), lambda j: v.RAC(v.n, j, v.t)), ({"scn": S_}, m.h, lambda j: data(v.s, j), lambda j: v.RAC(v.n, v.s, j))):
                w = "at one step" if "t" in kw else "in one scenario"
                p_aggr.run(eng, rep, v.x, pre + "monotone " + w, call("monotone", kw), v.inside + facts, lambda r: multiset(eng, figure(r, "monotone")["y"], n, at, "values"))

                def gauss(r):
                    env = figure(r, "gaussian")
                    vector(eng, env["qt"], n, at, "values")
                    vector(eng, env["rac"], n, rac, "remaining capacities")

                p_aggr.run(eng, rep, v.x, pre + "gaussian " + w, call("gaussian", kw), v.inside + facts, gauss)

    f.__name__ = "plots of " + kind
    return f


def multiset(eng, y, n, f, what):
    """monotone: the values in any order"""
    y = force(eng, y)
    vector(eng, y, n, f, what)


def table(eng, v, df, data):
    """timeline: one value per (scenario, step), in order"""
    m = v.m
    rel = df.rel
    if rel.levels != ["scn", "t"]:
        raise Fail("timeline indexed by %s" % rel.levels)
    if not rel.sorted:
        raise Unsupported("order of the rows")
    a, b = z3.Ints("s_q t_q")
    inr = z3.And(a >= 0, a < m.nb, b >= 0, b < m.h)
    need(eng, lib_plot.has_key(eng, rel, [Sc(a, "int"), Sc(b, "int")]) == inr, "one row per (scenario, step)")
    if not lib_rel.unique(eng, rel, rel.levels):
        raise Fail("several rows per (scenario, step)")

    def body():
        p, q = num2(term(lib_plot.at_key(eng, rel, [Sc(a, "int"), Sc(b, "int")], df.val)), data(a, b))
        need(eng, p == q, "value at every (scenario, step)")

    paths(eng, [inr], body)


def storage(eng, rep, prop):
    v = View(eng)
    m = v.m
    name, facts, val = element(v, "storage")
    fin, fout, eff = val("flow_in"), val("flow_out"), val("eff")
    init = m.q["stor", "init_capacity"](v.n, v.k, v.i)
    cap = val("capacity")
    # the result's level follows the dynamics (C03)
    j = z3.Int("j_lv")
    s0 = v.s
    dyn = [cap(v.s, z3.IntVal(0)) == init + fin(v.s, z3.IntVal(0)) * eff(v.s, z3.IntVal(0)) - fout(v.s, z3.IntVal(0)),
           z3.ForAll([j], z3.Implies(z3.And(j > 0, j < m.h), cap(v.s, j) == cap(v.s, j - 1) + fin(v.s, j) * eff(v.s, j) - fout(v.s, j)), patterns=[cap(v.s, j)])]
    eng.assumptions.add("candles: levels of the result follow the storage dynamics (C03)")
    call = lambda what, kw: (lambda: eng.call(eng.getattr(eng.call(eng.getattr(v.node(), "storage"), [name], {}), what), [], kw))

    def candles(s):
        def check(r):
            env = figure(r, "candles")
            op, cl = force(eng, env["open"]), force(eng, env["close"])
            for a, w in ((op, "open"), (cl, "close")):
                if not (isinstance(a, Ref) and a.cls == "ndarray"):
                    raise Unsupported("%s is %r" % (w, a))
                sh = lib.array_shape(eng, a)
                if len(sh) != 1:
                    raise Fail("dimensions of %s" % w)
                need(eng, sh[0] == m.h, "length of %s" % w)
            at = lambda a, i: real(term(force(eng, lib.cell(eng, a, [Sc(i, "int")]))))
            q = z3.Int("j_q")
            z = z3.IntVal(0)
            paths(eng, [], lambda: need(eng, at(op, z) == init, "first level is the initial one"))
            paths(eng, [q >= 0, q < m.h], lambda: need(eng, at(cl, q) == at(op, q) + fin(s, q) * eff(s, q) - fout(s, q), "level after a step"))
            paths(eng, [q >= 0, q + 1 < m.h], lambda: need(eng, at(op, q + 1) == at(cl, q), "level before a step is the one after the step before"))

        return check

    p_aggr.run(eng, rep, v.x, "C17 storage candles", call("candles", {"scn": Sc(v.s, "int")}), v.inside + facts + dyn, candles(v.s))
    p_aggr.run(eng, rep, v.x, "C17 storage candles, default scenario", call("candles", {}), v.inside + facts + [z3.substitute(d, (v.s, z3.IntVal(0))) for d in dyn], candles(z3.IntVal(0)))
    for kw, n, at in (({"t": Sc(v.t, "int")}, m.nb, lambda j: fin(j, v.t) - fout(j, v.t)), ({"scn": Sc(v.s, "int")}, m.h, lambda j: fin(v.s, j) - fout(v.s, j))):
        w = "at one step" if "t" in kw else "in one scenario"
        p_aggr.run(eng, rep, v.x, "C17 storage monotone " + w, call("monotone", kw), v.inside + facts, lambda r: multiset(eng, figure(r, "monotone")["y"], n, at, "values"))


def matrix(eng, rep, prop):
    v = View(eng)
    m = v.m
    call = lambda: eng.call(eng.getattr(eng.call(eng.getattr(v.obj, "network"), [Sc(v.n, "str")], {}), "rac_matrix"), [], {})
    p_aggr.run(eng, rep, v.x, "C17 rac_matrix", call, v.inside, lambda r: p_aggr.same_array(eng, figure(r, "matrix")["data"], [m.nb, m.h], lambda s, t: v.RAC(v.n, s, t), "matrix"))


def stack(eng, rep, prop):
    v = View(eng)
    m = v.m
    j = z3.Const("t0", I)

    def group(tab, col, s):
        """family of (binders, domain, name, values over time)"""
        bs, dom, _, cols = v.x.spec[tab]
        cond = [cols["network"] == v.n, cols["node"] == v.k]
        pr = [(z3.Const("s0", I), s)]
        val = z3.substitute(cols[col], *pr)
        return bs, dom + cond, cols["dest" if tab == "link" else "name"], val

    def check(pk, ck, s):
        def f(r):
            env = figure(r, "stack")
            bal = lambda t: v.BAL(v.n, v.k, s, t)
            areas = [group("production", pk, s), group("storage", "flow_out", s), group("dest_converter", "flow", s)]
            lines = [group("consumption", ck, s), group("storage", "flow_in", s), group("src_converter", "flow", s)]
            pile(eng, v, env["areas"], areas, ("import", z3.If(bal(j) < 0, -bal(j), z3.RealVal(0))), "areas")
            pile(eng, v, env["lines"], lines, ("export", z3.If(bal(j) > 0, bal(j), z3.RealVal(0))), "lines")

        return f

    eng.merging = True

    def call(kw):
        return lambda: eng.call(eng.getattr(v.node(), "stack"), [], kw)

    S_ = Sc(v.s, "int")
    for pk, ck, kw in (("used", "given", {"scn": S_, "prod_kind": "used", "cons_kind": "given"}), ("avail", "asked", {"scn": S_, "prod_kind": "avail", "cons_kind": "asked"}), ("used", "asked", {"scn": S_})):
        p_aggr.run(eng, rep, v.x, "C17 stack of a node, %s" % ("default kinds" if len(kw) == 1 else "%s and %s" % (pk, ck)), call(kw), v.inside, check(pk, ck, v.s))
    p_aggr.run(eng, rep, v.x, "C17 stack of a node, default scenario", call({}), v.inside, check("used", "asked", z3.IntVal(0)))

    def balance():
        """areas and lines have the same total with the kinds used and given: lemma over the balance of a node (C01) and the contract of get_balance (C12)"""
        here = lambda c: [c["network"] == v.n, c["node"] == v.k]
        T = lambda tab, col, cond=here: v.x.total(tab, lambda c: c[col], cond, v.s, v.t)
        out, into = T("link", "used"), T("link", "used", lambda c: [c["network"] == v.n, c["dest"] == v.k])
        pos = lambda t: z3.If(t > 0, t, z3.RealVal(0))
        bal = v.BAL(v.n, v.k, v.s, v.t)
        areas = [T("production", "used"), T("storage", "flow_out"), T("dest_converter", "flow")]
        lines = [T("consumption", "given"), T("storage", "flow_in"), T("src_converter", "flow")]
        eng.pc = list(v.inside) + [sum(areas[1:], areas[0]) + into == sum(lines[1:], lines[0]) + out, bal == out - into]
        need(eng, sum(areas[1:], areas[0]) + pos(-bal) == sum(lines[1:], lines[0]) + pos(bal), "areas and lines balance")

    rep.run("C17 areas and lines balance (from C01 and C12)", balance)


def pile(eng, v, lst, groups, extra, what):
    """the list has one (name, values over time) per element of the groups, and the extra one unless it is null"""
    m = v.m
    t = z3.Const("t0", I)
    intime = [t >= 0, t < m.h]
    eng.keep_guards = True
    try:
        segs = eng.contents(force(eng, lst)).segs
    finally:
        eng.keep_guards = False
    left = list(range(len(groups)))
    drawn = False
    for sg in segs:
        # the group of this segment
        pc = list(eng.pc)
        eng.pc = pc + list(sg.guard)
        try:
            e = force(eng, sg.elem)
            if isinstance(e, Ref) and e.cls in ("list", "tuple"):
                e = Tup(eng.unpack(e, 2))
            if not (isinstance(e, Tup) and len(e.items) == 2):
                raise Unsupported("%s: element %r" % (what, e))
            nm, arr = [force(eng, x) for x in e.items]
        finally:
            eng.pc = pc
        why = None
        if not sg.binders:
            vector_in(eng, sg, arr, m.h, lambda q: z3.substitute(extra[1], (t, q)), "%s: %s" % (what, nm))
            need(eng, eqt(term(nm), term(extra[0])), "%s: name of the exchange" % what)
            if drawn:
                raise Fail("%s: exchange twice" % what)
            drawn = True
            if sg.guard:
                paths(eng, intime + [z3.Not(conj(sg.guard))], lambda: need(eng, extra[1] == 0, "%s: exchange left out only when null" % what))
            continue
        for g in left:
            try:
                same_family(eng, v, sg, nm, arr, groups[g], what)
                left.remove(g)
                break
            except Fail as ex:
                why = why or ex
                if ex.status != "refuted":
                    raise
        else:
            raise Fail("%s: a family of elements that is none of those expected: %s" % (what, why))
    for g in left:
        bs, dom, nm, val = groups[g]
        need(eng, z3.Not(conj(dom)), "%s: every element of the node is there" % what)
    if not drawn:
        paths(eng, intime, lambda: need(eng, extra[1] == 0, "%s: exchange left out only when null" % what))


def vector_in(eng, sg, arr, n, f, what):
    pc = list(eng.pc)
    eng.pc = pc + list(sg.guard)
    try:
        vector(eng, arr, n, f, what)
    finally:
        eng.pc = pc


def same_family(eng, v, sg, nm, arr, group, what):
    bs, dom, name, val = group
    t = z3.Const("t0", I)
    # binders of the segment as functions of the element: by sort, the element's own coordinates
    ren = []
    free = list(bs)
    sub, guard, left = lib_plot.pinned(eng, lib_rel.Rel(bs, dom, {}), [])
    for b in sg.binders:
        x = next((y for y in left if y.sort() == b.sort() and not any(y.eq(z) for _, z in ren)), None)
        if x is None:
            raise Fail("other coordinates")
        ren.append((b, x))
    if len(ren) != len(left):
        raise Fail("other coordinates")
    R_ = lambda x: subst(x, ren)
    g1, g2 = conj([R_(c) for c in sg.guard]), conj(guard)
    need(eng, z3.And(z3.Implies(g1, g2), z3.Implies(g2, g1)), "exactly the elements of the node")
    need(eng, z3.Implies(g2, eqt(term(R_(nm)), z3.substitute(name, *sub) if sub else name)), "name of each")
    f = lambda q: z3.substitute(z3.substitute(val, *sub) if sub else val, (t, q))
    pc = list(eng.pc)
    eng.pc = pc + [g2]
    try:
        vector(eng, R_(arr), v.m.h, f, "%s: values" % what)
    finally:
        eng.pc = pc


def exchange(eng, rep, prop):
    v = View(eng)
    m = v.m
    a, b = z3.Consts("from_q to_q", S)
    ix = z3.Function("study.link_index", S, S, S, I)
    has = lambda x, y: z3.And(m.node_dom(v.n, x), ix(v.n, x, y) >= 0, ix(v.n, x, y) < m.cnt["link"](v.n, x), m.name["link"](v.n, x, ix(v.n, x, y)) == y)
    used = v.x.spec["link"][3]["used"]
    coords = [z3.Const(n, s) for n, s in (("n0", S), ("k0", S), ("i0", I), ("s0", I), ("t0", I))]

    def check(s):
        flow = lambda x, y: z3.substitute(used, *zip(coords, [v.n, x, ix(v.n, x, y), s, v.t]))
        net = z3.If(has(a, b), flow(a, b), z3.RealVal(0)) - z3.If(has(b, a), flow(b, a), z3.RealVal(0))

        def f(r):
            env = figure(r, "map_exchange")
            nodes, lines = force(eng, env["nodes"]), force(eng, env["lines"])
            for d in (nodes, lines):
                if not (isinstance(d, Ref) and d.cls == "dict"):
                    raise Unsupported("map of %r" % (d,))
            from engine import _NONE

            def get(d, k):
                w = eng.dict_get(d, k)
                return None if w is _NONE else real(term(force(eng, w)))

            def inodes():
                w = get(nodes, Sc(a, "str"))
                if w is None:
                    need(eng, z3.Not(m.node_dom(v.n, a)), "every node is on the map")
                else:
                    need(eng, m.node_dom(v.n, a), "only nodes of the network are on the map")
                    need(eng, w == v.BAL(v.n, a, s, v.t), "net position of a node")

            paths(eng, [], inodes)

            def ilines():
                w, u = [get(lines, Tup([Sc(x, "str"), Sc(y, "str")])) for x, y in ((a, b), (b, a))]
                linked = z3.Or(has(a, b), has(b, a))
                if w is not None:
                    need(eng, linked, "a line only between linked nodes")
                    need(eng, net >= 0, "a line follows the sign of the exchange")
                    need(eng, w == net, "a line carries the net exchange")
                else:
                    need(eng, z3.Or(z3.Not(linked), net < 0, z3.And(net == 0, z3.BoolVal(u is not None))), "every linked pair has its line")

            paths(eng, [], ilines)

        return f

    def call(kw):
        return lambda: eng.call(eng.getattr(eng.call(eng.getattr(v.obj, "network"), [Sc(v.n, "str")], {}), "map"), [], kw)

    T_, Z = Sc(v.t, "int"), Sc(z3.Const("zoom_v", R), "float")
    p_aggr.run(eng, rep, v.x, "C17 map of exchanges", call({"t": T_, "zoom": Z, "scn": Sc(v.s, "int")}), v.inside, check(v.s))
    p_aggr.run(eng, rep, v.x, "C17 map of exchanges, default scenario", call({"t": T_, "zoom": Z}), v.inside, check(z3.IntVal(0)))


def parts(prop):
    import p_html

    return [elements(k) for k in ELEMENTS] + [storage, matrix, stack, exchange] + p_html.PARTS
