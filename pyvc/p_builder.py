"""C08: every builder call on an arbitrary study being built.

Contract of each public builder call, on any study and any handle: accepted exactly when the element is valid; then the
study is the old one plus exactly the element described in the designated place, and nothing else changes; otherwise an
error is raised and the study is unchanged.  NumericalValueFactory.create is used by its contract (C07)."""
import z3

import lib
from core import *  # noqa
from engine import _NONE
from report import *  # noqa
from schema import NumT, StudyModel

LISTS = {"cons": "consumptions", "prod": "productions", "stor": "storages", "link": "links"}
FIELDS = {"cons": ["cost", "quantity"], "prod": ["cost", "quantity"], "stor": ["capacity", "flow_in", "flow_out", "cost", "eff"], "link": ["quantity", "cost"]}


class Data(lib.Val):
    """numerical data given by the user: accepted by create or not, value f(s, t) when accepted"""

    def __init__(self, name):
        self.name = name
        self.bad = z3.Bool("refused_" + name)
        self.f = z3.Function("data_" + name, I, I, R)

    def __repr__(self):
        return "Data(%s)" % self.name


class Image:
    """what the study must be: functions of the old one, with the effect of the call"""

    def __init__(self, m):
        self.m = m
        self.net = lambda n: m.net_dom(n)
        self.net_pos = lambda n: m.net_pos(n)
        self.net_n = m.net_n
        self.node = lambda n, k: m.node_dom(n, k)
        self.node_pos = lambda n, k: m.node_pos(n, k)
        self.node_n = lambda n: m.node_n(n)
        self.cnt = {e: m.cnt[e] for e in LISTS}
        self.new = None  # (e, n, k, attributes) appended
        self.conv = lambda c: m.conv_dom(c)
        self.conv_pos = lambda c: m.conv_pos(c)
        self.conv_n = m.conv_n
        self.src = lambda c, n, k: m.src_dom(c, n, k)
        self.src_pos = lambda c, n, k: m.src_pos(c, n, k)
        self.src_n = lambda c: m.src_n(c)
        self.ratio_new = None  # (c, n, k, num)
        self.dest_new = None  # (c, n, k, cost, max)


class Builder:
    def __init__(self, eng, rep):
        self.eng, self.rep = eng, rep
        self.m = StudyModel(eng, partial=True)
        n, k = z3.Consts("n k", S)
        e = sconst("")
        eng.prover.axiom(z3.ForAll([n, k], z3.Implies(self.m.node_dom(n, k), z3.And(n != e, k != e)), patterns=[self.m.node_dom(n, k)]))
        eng.assumptions.add("names of networks and nodes are not empty; data entries are finite numbers (no NaN)")
        self.nums = {}
        NV = eng.cls("hadar.optimizer.domain.numeric.NumericalValue")

        def create(eng, args, kw):
            v = lib.force(eng, kw["value"] if "value" in kw else args[-1])
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                site = "num:const:%s" % v
                eng.schema[site] = NumT(lambda s, t: z3.RealVal(v), self.m.nb, self.m.h)
                return Ref(site, (), NV)
            if isinstance(v, Ref) and isinstance(v.cls, Cls) and NV in v.cls.mro():
                return v
            if not isinstance(v, Data):
                raise Unsupported("create(%r)" % (v,))
            if eng.choose(v.bad):
                raise PyRaise("ValueError", ("shape",), "create")
            site = "num:" + v.name
            eng.schema[site] = NumT(v.f, self.m.nb, self.m.h)
            return Ref(site, (), NV)

        eng.contracts["hadar.optimizer.domain.numeric.NumericalValueFactory.create"] = create
        eng.trusted.add("NumericalValueFactory.create by its contract (proved in C07)")
        self.NV = NV

    # ------------------------------------------------------------------ comparison of the study with an image
    def same_num(self, v, d, what):
        if not (isinstance(v, Ref) and v.cls is self.NV):
            raise Fail("%s is not a NumericalValue: %r" % (what, v))
        g = self.eng
        s, t = z3.Ints("s_n t_n")
        T = g.schema[v.site]
        want = d.f(s, t) if isinstance(d, Data) else z3.RealVal(d)
        need(g, z3.Implies(z3.And(s >= 0, s < self.m.nb, t >= 0, t < self.m.h), T.f(*(list(v.args) + [s, t])) == want), "value of %s" % what)

    def check_dict(self, get, dom, pos, n, what, ar=1):
        g = self.eng

        def f():
            d = get()
            off = z3.IntVal(0)
            for s in g.items(d).segs:
                key = s.elem.items[0]
                ks = [term(key)] if ar == 1 else [term(x) for x in key.items]
                pc = list(g.pc)
                g.pc = pc + list(s.guard)
                need(g, dom(*ks), "key of %s" % what)
                if s.index is None or s.count is None:
                    raise Unsupported("order of %s" % what)
                need(g, off + s.index == pos(*ks), "order of %s" % what)
                g.pc = pc
                off = off + s.count
            need(g, off == n(), "number of %s" % what)

        def back():
            x = [z3.Const("x%d_b" % i, S) for i in range(ar)]
            key = Sc(x[0], "str") if ar == 1 else Tup([Sc(v, "str") for v in x])
            d = get()
            if g.dict_get(d, key) is _NONE:
                need(g, z3.Not(dom(*x)), "every %s expected is there" % what)

        return f, back

    def check(self, study, im, old=True):
        """the study is exactly image im (in the current state)"""
        g, m = self.eng, self.m
        n, k, c = z3.Const("n_c", S), z3.Const("k_c", S), z3.Const("c_c", S)
        nets = lambda: g.getattr(study, "networks")
        nodes = lambda: g.getattr(g.getitem(nets(), Sc(n, "str")), "nodes")
        node = lambda: g.getitem(nodes(), Sc(k, "str"))
        convs = lambda: g.getattr(study, "converters")
        conv = lambda: g.getitem(convs(), Sc(c, "str"))

        def two(facts, get, dom, pos, cnt, what, ar=1):
            for f in self.check_dict(get, dom, pos, cnt, what, ar):
                paths(g, facts, f)

        paths(g, [], lambda: need(g, z3.And(term(g.getattr(study, "horizon")) == m.h, term(g.getattr(study, "nb_scn")) == m.nb), "horizon and scenarios"))
        two([], nets, im.net, im.net_pos, lambda: im.net_n, "networks")
        two([im.net(n)], nodes, lambda x: im.node(n, x), lambda x: im.node_pos(n, x), lambda: im.node_n(n), "nodes")
        for e, l in LISTS.items():
            i = z3.Const("i_c", I)

            def f(e=e, l=l):
                lst = g.getattr(node(), l)
                need(g, g.length(lst) == im.cnt[e](n, k), "number of %s" % l)
                if not g.choose(z3.And(i >= 0, i < im.cnt[e](n, k))):
                    return
                x = g.getitem(lst, Sc(i, "int"))
                fresh = None
                if im.new is not None and im.new[0] == e:
                    fresh = z3.And(n == im.new[1], k == im.new[2], i == m.cnt[e](n, k))
                if fresh is not None and g.choose(fresh):
                    a = im.new[3]
                    key = "dest" if e == "link" else "name"
                    need(g, term(g.getattr(x, key)) == a[key], "%s of the new %s" % (key, e))
                    for fld in FIELDS[e]:
                        self.same_num(g.getattr(x, fld), a[fld], "%s of the new %s" % (fld, e))
                    if e == "stor":
                        need(g, real(term(g.getattr(x, "init_capacity"))) == a["init_capacity"], "init_capacity of the new storage")
                    want = g.cls("hadar.optimizer.domain.input." + {"cons": "Consumption", "prod": "Production", "stor": "Storage", "link": "Link"}[e])
                    if x.cls is not want:
                        raise Fail("class of the new %s" % e)
                    return
                if not (isinstance(x, Ref) and x.site == "study.%s" % e):
                    raise Fail("%s is not an element of the old study: %r" % (e, x))
                need(g, z3.And(x.args[0] == n, x.args[1] == k, x.args[2] == i), "old %s keep their place" % l)
                need(g, term(g.getattr(x, "dest" if e == "link" else "name")) == m.name[e](n, k, i), "names of the old %s" % l)
                for fld in FIELDS[e]:
                    v = g.getattr(x, fld)
                    if not (isinstance(v, Ref) and v.site == "study.%s.%s" % (e, fld)):
                        raise Fail("%s of an old %s is changed" % (fld, e))
                    need(g, conj([a == b for a, b in zip(v.args, (n, k, i))]), "%s of the old %s" % (fld, l))

            paths(g, [im.net(n), im.node(n, k)], f)
        two([], convs, im.conv, im.conv_pos, lambda: im.conv_n, "converters")
        two([im.conv(c)], lambda: g.getattr(conv(), "src_ratios"), lambda x, y: im.src(c, x, y), lambda x, y: im.src_pos(c, x, y), lambda: im.src_n(c), "sources", 2)

        def attrs():
            v = conv()
            need(g, term(g.getattr(v, "name")) == c, "name of converter")
            d = (m.dn(c), m.dk(c))
            e = sconst("")
            dn, dk = term(g.getattr(v, "dest_network")), term(g.getattr(v, "dest_node"))
            if im.dest_new is not None and g.choose(c == im.dest_new[0]):
                need(g, z3.And(dn == im.dest_new[1], dk == im.dest_new[2]), "destination set")
                self.same_num(g.getattr(v, "cost"), im.dest_new[3], "cost of the converter")
                self.same_num(g.getattr(v, "max"), im.dest_new[4], "max of the converter")
            elif g.choose(m.conv_dom(c)):
                need(g, z3.And(dn == d[0], dk == d[1]), "destination of the old converter")
                for f in ("cost", "max"):
                    x = g.getattr(v, f)
                    if not (isinstance(x, Ref) and x.site == "study.conv." + f):
                        raise Fail("%s of an old converter is changed" % f)
                    need(g, x.args[0] == c, "%s of the old converter" % f)
            else:
                need(g, z3.And(dn == e, dk == e), "no destination yet")

        paths(g, [im.conv(c)], attrs)

        def ratios():
            x, y = z3.Consts("x_r y_r", S)
            if not g.choose(im.src(c, x, y)):
                return
            r = g.getitem(g.getattr(conv(), "src_ratios"), Tup([Sc(x, "str"), Sc(y, "str")]))
            if im.ratio_new is not None and g.choose(z3.And(c == im.ratio_new[0], x == im.ratio_new[1], y == im.ratio_new[2])):
                self.same_num(r, im.ratio_new[3], "ratio")
                return
            if not (isinstance(r, Ref) and r.site == "study.ratio"):
                raise Fail("ratio of an old source is changed")
            need(g, conj([a == b for a, b in zip(r.args, (c, x, y))]), "ratio of the old source")

        paths(g, [im.conv(c)], ratios)

    # ------------------------------------------------------------------ calls
    def handle(self, how, n0, k0, n1, k1):
        """a handle on an existing place, made by the public API (other handles are made before and after)"""
        g = self.eng
        s = self.m.ref
        h = g.call(g.getattr(s, "network"), [Sc(n0, "str")], {})
        nd = g.call(g.getattr(h, "node"), [Sc(k0, "str")], {})
        if how == "network":
            g.call(g.getattr(nd, "node"), [Sc(k1, "str")], {})
            return h
        if how == "node":
            g.call(g.getattr(h, "node"), [Sc(k1, "str")], {})
            o = g.call(g.getattr(nd, "network"), [Sc(n1, "str")], {})
            g.call(g.getattr(o, "node"), [Sc(k1, "str")], {})
            return nd
        if how == "node of node":
            o = g.call(g.getattr(h, "node"), [Sc(k1, "str")], {})
            x = g.call(g.getattr(o, "node"), [Sc(k0, "str")], {})
            return x
        if how == "network of node":
            h1 = g.call(g.getattr(s, "network"), [Sc(n1, "str")], {})
            o = g.call(g.getattr(h1, "node"), [Sc(k1, "str")], {})
            return g.call(g.getattr(o, "network"), [Sc(n0, "str")], {})
        if how == "study":
            return s
        raise Unsupported(how)

    def call(self, name, how, meth, args, kw, facts, refuse, image, err=("ValueError",), result=None):
        """one contract: refuse = list of z3 conditions; image(): expected study when accepted"""
        g, m = self.eng, self.m
        n0, k0, n1, k1 = z3.Consts("n0 k0 n1 k1", S)
        here = [m.net_dom(n0), m.node_dom(n0, k0), m.net_dom(n1), m.node_dom(n1, k1), m.node_dom(n0, k1)] + facts

        def go():
            h = self.handle(how, n0, k0, n1, k1)
            return g.call(g.getattr(h, meth), args, kw)

        outs = []

        def explore():
            g.load([], here)
            if g.prover.prove(g.pc, z3.BoolVal(False)):
                raise Unsupported("contradictory assumptions")
            outs.extend(g.explore(go))
            if not any(o.kind != "raise" for o in outs):
                raise Fail("never accepted")

        nm = "%s of a %s handle" % (name, how) if how != "study" else name
        if self.rep.run(nm + ": executes", lambda: explore() or True) is None:
            return
        refused = disj(refuse)

        def accepted():
            for o in outs:
                if o.kind == "raise":
                    continue
                g.load(o.log, here + o.pc)
                need(g, z3.Not(refused), "accepted only when valid")

        def raised():
            for o in outs:
                if o.kind != "raise":
                    continue
                if o.val.cls not in err:
                    raise Fail("raises %s under %s" % (o.val.cls, [str(p)[:300] for p in o.pc]))
                g.load(o.log, here + o.pc)
                need(g, refused, "refused only when not valid")

        def effect():
            for o in outs:
                if o.kind != "raise":
                    g.load(o.log, here + o.pc)
                    self.check(m.ref, image())

        def unchanged():
            for o in outs:
                if o.kind == "raise":
                    g.load(o.log, here + o.pc)
                    self.check(m.ref, Image(m))

        self.rep.run(nm + ": accepted only when valid", lambda: accepted() or True)
        self.rep.run(nm + ": refused only when not valid", lambda: raised() or True)
        self.rep.run(nm + ": adds exactly the element described, in the place designated", lambda: effect() or True)
        if any(o.kind == "raise" for o in outs):
            self.rep.run(nm + ": a refused call leaves the study unchanged", lambda: unchanged() or True)


def run(eng, rep, prop):
    b = Builder(eng, rep)
    g, m = eng, b.m
    eng.max_paths = 5000
    n0, k0, n1, k1 = z3.Consts("n0 k0 n1 k1", S)
    x = z3.Const("name", S)
    i = z3.Const("i", I)
    st = lambda v: Sc(v, "str")

    def dup(e, n, k, v):
        return z3.Exists([i], z3.And(i >= 0, i < m.cnt[e](n, k), m.name[e](n, k, i) == v))

    def neg(d, hi=None):
        s, t = z3.Ints("s t")
        c = d.f(s, t) < 0
        if hi is not None:
            c = z3.Or(c, d.f(s, t) > hi)
        return z3.Exists([s, t], z3.And(s >= 0, s < m.nb, t >= 0, t < m.h, c))

    def appended(e, n, k, attrs):
        def f():
            im = Image(m)
            im.cnt[e] = lambda a, c: z3.If(z3.And(a == n, c == k), m.cnt[e](a, c) + 1, m.cnt[e](a, c))
            im.new = (e, n, k, attrs)
            return im
        return f

    q, cost = Data("quantity"), Data("cost")
    for how in ("node", "node of node"):
        for e, meth in (("cons", "consumption"), ("prod", "production")):
            b.call(meth, how, meth, [], {"name": st(x), "cost": cost, "quantity": q}, [], [dup(e, n0, k0, x), q.bad, cost.bad, neg(q)], appended(e, n0, k0, {"name": x, "cost": cost, "quantity": q}))
        cap, fi, fo, ef = Data("capacity"), Data("flow_in"), Data("flow_out"), Data("eff")
        ini = z3.Real("init_capacity")
        b.call("storage", how, "storage", [], {"name": st(x), "capacity": cap, "flow_in": fi, "flow_out": fo, "cost": cost, "init_capacity": Sc(ini, "float"), "eff": ef}, [],
               [dup("stor", n0, k0, x), cap.bad, fi.bad, fo.bad, ef.bad, cost.bad, neg(cap), neg(fi), neg(fo), neg(ef, 1), ini < 0],
               appended("stor", n0, k0, {"name": x, "capacity": cap, "flow_in": fi, "flow_out": fo, "cost": cost, "eff": ef, "init_capacity": ini}))
    b.call("storage with defaults", "node", "storage", [], {"name": st(x), "capacity": cap, "flow_in": fi, "flow_out": fo}, [],
           [dup("stor", n0, k0, x), cap.bad, fi.bad, fo.bad, neg(cap), neg(fi), neg(fo)],
           appended("stor", n0, k0, {"name": x, "capacity": cap, "flow_in": fi, "flow_out": fo, "cost": 0, "eff": 0.99, "init_capacity": z3.RealVal(0)}))
    src, dest = z3.Consts("src dest", S)
    kw = {"src": st(src), "dest": st(dest), "cost": cost, "quantity": q}
    bad_link = [z3.Not(m.node_dom(n0, src)), z3.Not(m.node_dom(n0, dest)), dup("link", n0, src, dest), q.bad, cost.bad, neg(q)]
    lk = appended("link", n0, src, {"dest": dest, "cost": cost, "quantity": q})
    for how in ("network", "network of node", "node"):
        b.call("link", how, "link", [], kw, [], bad_link, lk)
    b.call("Study.add_link", "study", "add_link", [], dict(kw, network=st(n0)), [], bad_link, lk)

    # networks and nodes
    def net_image():
        im = Image(m)
        new = z3.Not(m.net_dom(x))
        im.net = lambda n: z3.Or(m.net_dom(n), n == x)
        im.net_pos = lambda n: z3.If(z3.And(n == x, new), m.net_n, m.net_pos(n))
        im.net_n = z3.If(new, m.net_n + 1, m.net_n)
        im.node_n = lambda n: z3.If(z3.And(n == x, new), 0, m.node_n(n))
        im.node = lambda n, k: m.node_dom(n, k)
        return im

    for how in ("study", "network", "node"):
        b.call("network", how, "network", [st(x)], {}, [], [], net_image)

    def node_image():
        im = Image(m)
        new = z3.Not(m.node_dom(n0, x))
        im.node = lambda n, k: z3.Or(m.node_dom(n, k), z3.And(n == n0, k == x))
        im.node_pos = lambda n, k: z3.If(z3.And(n == n0, k == x, new), m.node_n(n0), m.node_pos(n, k))
        im.node_n = lambda n: z3.If(z3.And(n == n0, new), m.node_n(n) + 1, m.node_n(n))
        for e in LISTS:
            im.cnt[e] = (lambda e: lambda n, k: z3.If(z3.And(n == n0, k == x, new), 0, m.cnt[e](n, k)))(e)
        return im

    for how in ("network", "node", "network of node"):
        b.call("node", how, "node", [st(x)], {}, [], [], node_image)

    # converters
    r, mx = Data("ratio"), Data("max")

    def conv_image(im):
        new = z3.Not(m.conv_dom(x))
        im.conv = lambda c: z3.Or(m.conv_dom(c), c == x)
        im.conv_pos = lambda c: z3.If(z3.And(c == x, new), m.conv_n, m.conv_pos(c))
        im.conv_n = z3.If(new, m.conv_n + 1, m.conv_n)
        im.src = lambda c, n, k: z3.And(m.conv_dom(c), m.src_dom(c, n, k))
        im.src_n = lambda c: z3.If(z3.And(c == x, new), 0, m.src_n(c))
        return im

    def src_image():
        im = conv_image(Image(m))
        old = z3.And(m.conv_dom(x), m.src_dom(x, n0, k0))
        src, sn = im.src, im.src_n
        im.src = lambda c, n, k: z3.Or(src(c, n, k), z3.And(c == x, n == n0, k == k0))
        im.src_pos = lambda c, n, k: z3.If(z3.And(c == x, n == n0, k == k0), sn(c), m.src_pos(c, n, k))
        im.src_n = lambda c: z3.If(c == x, sn(c) + 1, sn(c))
        im.ratio_new = (x, n0, k0, r)
        return im

    for how in ("node", "node of node"):
        b.call("to_converter", how, "to_converter", [], {"name": st(x), "ratio": r}, [], [z3.And(m.conv_dom(x), m.src_dom(x, n0, k0)), r.bad], src_image)
    tn, tk = z3.Consts("to_network to_node", S)
    e_ = sconst("")

    def dest_image():
        im = conv_image(Image(m))
        im.dest_new = (x, tn, tk, cost, mx)
        return im

    for how in ("network", "node"):
        b.call("converter", how, "converter", [], {"name": st(x), "to_network": st(tn), "to_node": st(tk), "max": mx, "cost": cost}, [],
               [z3.And(m.conv_dom(x), m.dn(x) != e_), z3.Not(m.node_dom(tn, tk)), cost.bad, mx.bad], dest_image)

    # a new study
    def empty():
        g.load([], [])
        h, nb = m.h, m.nb

        def go():
            s = g.call(g.cls("hadar.optimizer.domain.input.Study"), [], {"horizon": Sc(h, "int"), "nb_scn": Sc(nb, "int")})
            for d in ("networks", "converters"):
                need(g, g.length(g.getattr(s, d)) == 0, "a new study has no %s" % d)
            need(g, z3.And(term(g.getattr(s, "horizon")) == h, term(g.getattr(s, "nb_scn")) == nb), "horizon and scenarios")
            f = g.getattr(s, "factory")
            need(g, z3.And(term(g.getattr(f, "horizon")) == h, term(g.getattr(f, "nb_scn")) == nb), "its values are built for this horizon and number of scenarios")

        paths(g, [], go)

    rep.run("Study(horizon, nb_scn): empty", lambda: empty() or True)
