"""symbolic inputs: an arbitrary valid study (any number of networks, nodes, elements, converters, scenarios, steps).

Each component is an uninterpreted function of its position; the validity invariants (established by the builder,
property C08) are axioms on these functions."""
import z3

from core import *  # noqa
from engine import _NONE, Engine


class T_:
    attrs = ()

    def attr(self, eng, ref, name):
        return _NONE


class Obj:
    """object of class cls with attributes given by functions of its arguments"""

    def __init__(self, cls, attrs, extra=None):
        self.cls, self.attrs = cls, attrs

    def attr(self, eng, ref, name):
        f = self.attrs.get(name)
        return f(*ref.args) if f is not None else _NONE


class DictT(T_):
    """dict keyed by one or two strings: dom(ctx, key), pos(ctx, key), n(ctx)"""

    attrs = ()

    def __init__(self, tag, dom, pos, at, n, val, arity=1):
        self.tag, self.dom, self.pos, self.at, self.n, self.val, self.arity = tag, dom, pos, at, n, val, arity

    def seq(self, eng, ref):
        ks = [eng.fresh(self.tag, S) for _ in range(self.arity)]
        key = Sc(ks[0], "str") if self.arity == 1 else Tup([Sc(k, "str") for k in ks])
        a = list(ref.args) + ks
        return Seq([Seg(ks, [self.dom(*a)], Tup([key, None]), self.pos(*a), self.n(*ref.args))])

    def get(self, eng, ref, key):
        if self.arity == 1:
            if not is_scalar(key) or term(key).sort() != S:
                return _NONE
            ks = [term(key)]
        else:
            if not (isinstance(key, Tup) and len(key.items) == 2):
                return _NONE
            ks = [term(k) for k in key.items]
        a = list(ref.args) + ks
        if eng.choose(self.dom(*a)):
            return self.val(*a)
        return _NONE


class ListT(T_):
    attrs = ()

    def __init__(self, tag, n, val):
        self.tag, self.n, self.val = tag, n, val

    def seq(self, eng, ref):
        i = eng.fresh(self.tag, I)
        n = self.n(*ref.args)
        return Seq([Seg([i], [i >= 0, i < n], self.val(*(list(ref.args) + [i])), i, n)])

    def length(self, eng, ref):
        return self.n(*ref.args)

    def elem(self, eng, ref, i):
        return self.val(*(list(ref.args) + [i]))


class NumT(T_):
    """NumericalValue by contract: v[s, t] is the value at scenario s, step t (C07 proves it of every class)"""

    immutable = True
    attrs = ()

    def __init__(self, f, nb, h, ge0=None):
        self.f, self.nb, self.h = f, nb, h

    def attr(self, eng, ref, name):
        if name == "nb_scn":
            return Sc(self.nb, "int")
        if name == "horizon":
            return Sc(self.h, "int")
        if name == "value":
            raise Unsupported("stored value of a NumericalValue (class not known)")
        return _NONE

    def getitem(self, eng, ref, k):
        if not (isinstance(k, Tup) and len(k.items) == 2):
            raise Unsupported("index of a NumericalValue")
        s, t = [term(x) for x in k.items]
        if s.sort() != I or t.sort() != I:
            raise Unsupported("index of a NumericalValue")
        if not eng.choose(z3.And(s >= 0, s < self.nb, t >= 0, t < self.h)):
            if eng.choose(z3.Or(s >= self.nb, t >= self.h)):
                raise PyRaise("IndexError")
            raise Unsupported("negative index of a NumericalValue")
        return Sc(self.f(*(list(ref.args) + [s, t])), "num")

    def order(self, eng, ref, nm, other):
        o = term(other)
        s, t = eng.fresh("s", I), eng.fresh("t", I)
        v, o = num2(self.f(*(list(ref.args) + [s, t])), o)
        c = {"__lt__": v < o, "__le__": v <= o, "__gt__": v > o, "__ge__": v >= o}[nm]
        return eng.wrap(z3.ForAll([s, t], z3.Implies(z3.And(s >= 0, s < self.nb, t >= 0, t < self.h), c)))


class StudyModel:
    def __init__(self, eng, pre="study", partial=False, init_py="num"):
        self.eng = eng
        P = pre + "."
        F = lambda n, *s: z3.Function(P + n, *s)
        ax = eng.prover.axiom
        self.nb, self.h = z3.Int(P + "nb_scn"), z3.Int(P + "horizon")
        ax(self.nb >= 1)
        ax(self.h >= 1)
        n, k, m, c, x = z3.Consts("n k m c x", S)
        i, j, s, t = z3.Consts("i j s t", I)
        nb, h = self.nb, self.h
        mod = "hadar.optimizer.domain.input."
        cl = lambda q: eng.cls(mod + q)
        NV = eng.cls("hadar.optimizer.domain.numeric.NumericalValue")
        sch = eng.schema
        self.pre = pre

        # networks
        self.net_dom, self.net_pos, self.net_at, self.net_n = F("net_dom", S, B), F("net_pos", S, I), F("net_at", I, S), z3.Int(P + "net_n")
        self.node_dom, self.node_pos, self.node_at, self.node_n = F("node_dom", S, S, B), F("node_pos", S, S, I), F("node_at", S, I, S), F("node_n", S, I)

        def order(dom, pos, at, cnt, ctx, key):
            """pos enumerates dom: bijection with 0..n-1"""
            a = list(ctx) + [key]
            p = pos(*a)
            nn = cnt(*ctx) if ctx else cnt
            ax(z3.ForAll(a, z3.Implies(dom(*a), z3.And(p >= 0, p < nn, at(*(list(ctx) + [p])) == key)), patterns=[p]))
            q = at(*(list(ctx) + [j]))
            ax(z3.ForAll(list(ctx) + [j], z3.Implies(z3.And(j >= 0, j < nn), z3.And(dom(*(list(ctx) + [q])), pos(*(list(ctx) + [q])) == j)), patterns=[q]))
            ax(z3.ForAll(list(ctx), nn >= 0, patterns=[nn]) if ctx else nn >= 0)
            ax(z3.ForAll(a, z3.Implies(dom(*a), z3.And(p >= 0, p < nn)), patterns=[dom(*a)]))
            eng.INJ[pos.name()] = len(ctx)
            eng.INV[pos.name()] = at

        order(self.net_dom, self.net_pos, self.net_at, self.net_n, [], n)
        order(self.node_dom, self.node_pos, self.node_at, self.node_n, [n], k)
        ax(z3.ForAll([n, k], z3.Implies(self.node_dom(n, k), self.net_dom(n)), patterns=[self.node_dom(n, k)]))
        st = lambda p: pre + "." + p
        R_ = lambda p, cls: (lambda *a: Ref(st(p), a, cls))
        self.ref = Ref(pre, (), cl("Study"))
        self.version = z3.Const(P + "version", S)
        sch[pre] = Obj(cl("Study"), {"version": lambda: Sc(self.version, "str"), "networks": R_("networks", "dict"), "converters": R_("converters", "dict"), "horizon": lambda: Sc(h, "int"), "nb_scn": lambda: Sc(nb, "int"), "factory": R_("factory", eng.cls("hadar.optimizer.domain.numeric.NumericalValueFactory"))})
        sch[st("factory")] = Obj(None, {"horizon": lambda: Sc(h, "int"), "nb_scn": lambda: Sc(nb, "int")})
        sch[st("networks")] = DictT("net", self.net_dom, self.net_pos, self.net_at, lambda: self.net_n, R_("network", cl("InputNetwork")))
        sch[st("network")] = Obj(cl("InputNetwork"), {"nodes": R_("nodes", "dict")})
        sch[st("nodes")] = DictT("node", self.node_dom, self.node_pos, self.node_at, self.node_n, R_("node", cl("InputNode")))
        lists = {"consumptions": ("cons", "Consumption"), "productions": ("prod", "Production"), "storages": ("stor", "Storage"), "links": ("link", "Link")}
        sch[st("node")] = Obj(cl("InputNode"), {l: R_(l, "list") for l in lists})
        self.cnt, self.q, self.name = {}, {}, {}
        fields = {"cons": ["cost", "quantity"], "prod": ["cost", "quantity"], "stor": ["capacity", "flow_in", "flow_out", "cost", "eff"], "link": ["quantity", "cost"]}
        order_attrs = {"cons": ["cost", "quantity", "name"], "prod": ["name", "cost", "quantity"], "stor": ["name", "capacity", "flow_in", "flow_out", "cost", "init_capacity", "eff"], "link": ["dest", "quantity", "cost"]}
        for l, (e, cn) in lists.items():
            N = F("n_" + e, S, S, I)
            self.cnt[e] = N
            ax(z3.ForAll([n, k], N(n, k) >= 0, patterns=[N(n, k)]))
            sch[st(l)] = ListT(e, N, R_(e, cl(cn)))
            nm = F(e + ("_dest" if e == "link" else "_name"), S, S, I, S)
            ix = F(e + "_index", S, S, S, I)
            self.name[e] = nm
            ax(z3.ForAll([n, k, i], z3.Implies(z3.And(i >= 0, i < N(n, k)), ix(n, k, nm(n, k, i)) == i), patterns=[nm(n, k, i)]))
            eng.INJ[nm.name()] = 2
            eng.INV[nm.name()] = ix
            at = {}
            for f in order_attrs[e]:
                if f in fields[e]:
                    q = F("%s_%s" % (e, f), S, S, I, I, I, R)
                    self.q[e, f] = q
                    sch[st("%s.%s" % (e, f))] = NumT(q, nb, h)
                    at[f] = R_("%s.%s" % (e, f), NV)
                    if f != "cost":
                        a = [n, k, i, s, t]
                        lim = q(*a) >= 0
                        if f == "eff":
                            lim = z3.And(lim, q(*a) <= 1)
                        ax(z3.ForAll(a, z3.Implies(z3.And(i >= 0, i < N(n, k)), lim), patterns=[q(*a)]))
                elif f == "init_capacity":
                    q = F("stor_init", S, S, I, I if "int" in init_py else R)
                    self.q[e, f] = q
                    ax(z3.ForAll([n, k, i], z3.Implies(z3.And(i >= 0, i < N(n, k)), q(n, k, i) >= 0), patterns=[q(n, k, i)]))
                    at[f] = (lambda q: lambda *a: Sc(q(*a), init_py))(q)
                else:
                    at[f] = (lambda nm: lambda *a: Sc(nm(*a), "str"))(nm)
            sch[st(e)] = Obj(cl(cn), at)
        d = self.name["link"](n, k, i)
        ax(z3.ForAll([n, k, i], z3.Implies(z3.And(self.node_dom(n, k), i >= 0, i < self.cnt["link"](n, k)), self.node_dom(n, d)), patterns=[d]))
        # converters
        self.conv_dom, self.conv_pos, self.conv_at, self.conv_n = F("conv_dom", S, B), F("conv_pos", S, I), F("conv_at", I, S), z3.Int(P + "conv_n")
        order(self.conv_dom, self.conv_pos, self.conv_at, self.conv_n, [], c)
        self.dn, self.dk = F("conv_dest_network", S, S), F("conv_dest_node", S, S)
        if partial:
            # being built: a converter may have no destination yet, or no source
            e = sconst("")
            unset = z3.And(self.dn(c) == e, self.dk(c) == e)
            for pt in (self.dn(c), self.dk(c)):
                ax(z3.ForAll([c], z3.Implies(self.conv_dom(c), z3.Or(unset, z3.And(self.node_dom(self.dn(c), self.dk(c)), self.dn(c) != e, self.dk(c) != e))), patterns=[pt]))
        else:
          ax(z3.ForAll([c], z3.Implies(self.conv_dom(c), self.node_dom(self.dn(c), self.dk(c))), patterns=[self.dn(c)]))
          ax(z3.ForAll([c], z3.Implies(self.conv_dom(c), self.node_dom(self.dn(c), self.dk(c))), patterns=[self.dk(c)]))
        self.src_dom, self.src_pos, self.src_n = F("src_dom", S, S, S, B), F("src_pos", S, S, S, I), F("src_n", S, I)
        self.src_at_n, self.src_at_k = F("src_at_network", S, I, S), F("src_at_node", S, I, S)
        p = self.src_pos(c, n, k)
        ax(z3.ForAll([c, n, k], z3.Implies(self.src_dom(c, n, k), z3.And(p >= 0, p < self.src_n(c), self.src_at_n(c, p) == n, self.src_at_k(c, p) == k)), patterns=[p]))
        ax(z3.ForAll([c], self.src_n(c) >= 0, patterns=[self.src_n(c)]))
        ax(z3.ForAll([c, n, k], z3.Implies(self.src_dom(c, n, k), z3.And(p >= 0, p < self.src_n(c))), patterns=[self.src_dom(c, n, k)]))
        ax(z3.ForAll([c, n, k], z3.Implies(z3.And(self.conv_dom(c), self.src_dom(c, n, k)), self.node_dom(n, k)), patterns=[self.src_dom(c, n, k)]))
        eng.INJ[self.src_pos.name()] = 1
        sch[st("converters")] = DictT("conv", self.conv_dom, self.conv_pos, self.conv_at, lambda: self.conv_n, R_("converter", cl("Converter")))
        at = {"name": lambda c: Sc(c, "str"), "src_ratios": R_("src_ratios", "dict"), "dest_network": lambda c: Sc(self.dn(c), "str"), "dest_node": lambda c: Sc(self.dk(c), "str")}
        for f in ("cost", "max"):
            q = F("conv_" + f, S, I, I, R)
            self.q["conv", f] = q
            sch[st("conv." + f)] = NumT(q, nb, h)
            at[f] = R_("conv." + f, NV)
        if not partial:
          ax(z3.ForAll([c, s, t], z3.Implies(self.conv_dom(c), self.q["conv", "max"](c, s, t) >= 0), patterns=[self.q["conv", "max"](c, s, t)]))
        sch[st("converter")] = Obj(cl("Converter"), at)
        self.ratio = F("ratio", S, S, S, I, I, R)
        if not partial:
          ax(z3.ForAll([c, n, k, s, t], z3.Implies(self.src_dom(c, n, k), self.ratio(c, n, k, s, t) > 0), patterns=[self.ratio(c, n, k, s, t)]))
        sch[st("src_ratios")] = DictT("src", self.src_dom, self.src_pos, None, self.src_n, R_("ratio", NV), arity=2)
        sch[st("ratio")] = NumT(self.ratio, nb, h)


class ArrT(T_):
    """numpy array given as input: cells f(args, i, j)"""

    attrs = ()

    def __init__(self, f, dims, py="float"):
        self.f, self.dims, self.py = f, dims, py

    def shape(self, eng, ref):
        return self.dims(*ref.args)

    def cell(self, eng, ref, idx):
        return Sc(self.f(*(list(ref.args) + [term(i) for i in idx])), self.py)


OUT = {"cons": ["quantity"], "prod": ["quantity"], "stor": ["capacity", "flow_in", "flow_out"], "link": ["quantity"]}


class ResultModel:
    """arbitrary Result.  study given: same networks, nodes, elements, names, converters and sources as the study"""

    def __init__(self, eng, pre="result", study=None, py="float"):
        self.eng, self.pre = eng, pre
        P = pre + "."
        F = lambda n, *s: z3.Function(P + n, *s)
        ax = eng.prover.axiom
        sch = eng.schema
        mod = "hadar.optimizer.domain.output."
        cl = lambda q: eng.cls(mod + q)
        st = lambda p: pre + "." + p
        R_ = lambda p, cls: (lambda *a: Ref(st(p), a, cls))
        if study is None:
            m = StudyModel(eng, pre + "_like")
        else:
            m = study
        self.m = m
        self.nb, self.h = m.nb, m.h
        dims = lambda *a: [m.nb, m.h]
        self.ref = Ref(pre, (), cl("Result"))
        self.q = {}
        sch[pre] = Obj(cl("Result"), {"networks": R_("networks", "dict"), "converters": R_("converters", "dict"), "benchmark": R_("benchmark", cl("Benchmark"))})
        sch[st("networks")] = DictT("net", m.net_dom, m.net_pos, m.net_at, lambda: m.net_n, R_("network", cl("OutputNetwork")))
        sch[st("network")] = Obj(cl("OutputNetwork"), {"nodes": R_("nodes", "dict")})
        sch[st("nodes")] = DictT("node", m.node_dom, m.node_pos, m.node_at, m.node_n, R_("node", cl("OutputNode")))
        lists = {"consumptions": ("cons", "OutputConsumption"), "productions": ("prod", "OutputProduction"), "storages": ("stor", "OutputStorage"), "links": ("link", "OutputLink")}
        sch[st("node")] = Obj(cl("OutputNode"), {l: R_(l, "list") for l in lists})
        for l, (e, cn) in lists.items():
            sch[st(l)] = ListT(e, m.cnt[e], R_(e, cl(cn)))
            at = {}
            nm = (lambda nm: lambda *a: Sc(nm(*a), "str"))(m.name[e])
            if e == "link":
                at["dest"] = nm
            elif e in ("prod", "stor"):
                at["name"] = nm
            for f in OUT[e]:
                q = F("%s_%s" % (e, f), S, S, I, I, I, R if py == "float" else I)
                self.q[e, f] = q
                sch[st("%s.%s" % (e, f))] = ArrT(q, dims, "np." + py + "64")
                at[f] = R_("%s.%s" % (e, f), "ndarray")
            if e == "cons":
                at["name"] = nm
            sch[st(e)] = Obj(cl(cn), at)
        self.flow_dest, self.flow_src = F("flow_dest", S, I, I, R), F("flow_src", S, S, S, I, I, R)
        sch[st("converters")] = DictT("conv", m.conv_dom, m.conv_pos, m.conv_at, lambda: m.conv_n, R_("converter", cl("OutputConverter")))
        sch[st("converter")] = Obj(cl("OutputConverter"), {"name": lambda c: Sc(c, "str"), "flow_src": R_("flow_src", "dict"), "flow_dest": R_("conv.flow_dest", "ndarray")})
        sch[st("flow_src")] = DictT("src", m.src_dom, m.src_pos, None, m.src_n, R_("conv.flow_src", "ndarray"), arity=2)
        sch[st("conv.flow_dest")] = ArrT(self.flow_dest, dims, "np.float64")
        sch[st("conv.flow_src")] = ArrT(self.flow_src, dims, "np.float64")
        self.bm = {f: F("bench_" + f, I, R) for f in ("modeler", "solver")}
        self.bm_n = {f: z3.Int(P + "bench_n_" + f) for f in ("modeler", "solver")}
        self.bm1 = {f: z3.Real(P + "bench_" + f) for f in ("mapper", "total")}
        at = {}
        for f in ("modeler", "solver"):
            ax(self.bm_n[f] >= 0)
            sch[st("bench." + f)] = ListT("b", (lambda f: lambda: self.bm_n[f])(f), (lambda f: lambda i: Sc(self.bm[f](i), "float"))(f))
            at[f] = R_("bench." + f, "list")
        for f in ("mapper", "total"):
            at[f] = (lambda f: lambda: Sc(self.bm1[f], "float"))(f)
        sch[st("benchmark")] = Obj(cl("Benchmark"), at)
