"""C12: get_elements_inside, get_cost, get_balance, get_rac on an arbitrary study and result of the same structure.

The tables are used by their contract (C10): one row per (element, scenario, step) with its values."""
import z3

import lib
import lib_rel
import p_analyzer
from core import *  # noqa
from engine import _NONE, NeedCarry
from p_json import frame_check, old_sites
from report import *  # noqa

MOD = "hadar.analyzer.result."


class Ctx:
    def __init__(self, eng):
        self.eng = eng
        self.m, self.r = p_analyzer.setup(eng)
        m = self.m
        n, k, c = z3.Consts("n k c", S)
        e = sconst("")
        ax = eng.prover.axiom
        ax(z3.ForAll([n, k], z3.Implies(m.node_dom(n, k), z3.And(n != e, k != e)), patterns=[m.node_dom(n, k)]))
        ax(z3.ForAll([n], z3.Implies(m.net_dom(n), n != e), patterns=[m.net_dom(n)]))
        ax(m.nb * m.h >= 1)
        eng.assumptions.add("names of networks and nodes are not empty; table values are finite")
        eng.trusted.add("ResultAnalyzer tables by their contract (proved in C10)")
        self.spec, st = p_analyzer.spec(m, self.r)
        s, t = st
        self.obj = eng.alloc(eng.cls(MOD + "ResultAnalyzer"), "analyzer")
        self.rel = {}
        for tab, (bs, dom, _, cols) in self.spec.items():
            tt = lambda v: Sc(v, "str" if v.sort() == S else "int" if v.sort() == I else "float")
            self.rel[tab] = lib_rel.Rel(bs + [s, t], dom + [s >= 0, s < m.nb, t >= 0, t < m.h], {c_: tt(v) for c_, v in cols.items()}, table=tab)
            eng.setattr(self.obj, tab, self.rel[tab])
        eng.setattr(self.obj, "study", m.ref)
        eng.setattr(self.obj, "result", self.r.ref)
        self.base = list(eng.log)

    # sums of the specification ------------------------------------------------------------------
    def total(self, tab, val, cond, s, t):
        """sum over the elements of the table with cond of val, at (s, t)"""
        bs, dom, _, cols = self.spec[tab]
        pr = [(z3.Const("s0", I), s), (z3.Const("t0", I), t)]
        v = z3.substitute(val(cols), *pr)
        return self.eng.sum_term(bs, dom + list(cond(cols)), v)

    def cost(self, cond, s, t):
        T = lambda tab, f: self.total(tab, f, cond, s, t)
        return (T("consumption", lambda c: (c["asked"] - c["given"]) * c["cost"]) + T("production", lambda c: c["used"] * c["cost"])
                + T("storage", lambda c: c["capacity"] * c["cost"]) + T("link", lambda c: c["used"] * c["cost"]) + T("dest_converter", lambda c: c["flow"] * c["cost"]))


def run(eng, rep, x, name, call, facts, check):
    """all paths of a call under facts; check(value) on each"""
    old = old_sites(eng)

    def f():
        for g in facts:
            eng.pc.append(g)
        return call()

    try:
        outs = eng.explore(f)
    except (Unsupported, NeedCarry) as e:
        rep.add(name, "unsupported", e)
        eng.reset()
        eng.load(x.base, [])
        return
    except Fail as e:
        rep.add(name, e.status, e)
        eng.reset()
        eng.load(x.base, [])
        return
    except (AttributeError, KeyError, TypeError, z3.Z3Exception) as e:
        import traceback

        rep.add(name, "unsupported", traceback.format_exc()[-700:])
        eng.reset()
        eng.load(x.base, [])
        return
    eng.load(x.base, list(facts))
    if eng.prove(z3.BoolVal(False)):
        rep.add(name + ": consistent assumptions", "unsupported", "assumptions are inconsistent")
    if not outs:
        rep.add(name, "unsupported", "no path")
    for j, o in enumerate(outs):
        nm = name if len(outs) == 1 else "%s, path %d" % (name, j)
        eng.load(x.base + o.log, o.pc)
        if o.kind == "raise":
            if not eng.prove(z3.BoolVal(False)):
                rep.add(nm + ": does not raise", "refuted", "raises %s %s under %s" % (o.val.cls, o.val.where, [str(p)[:200] for p in o.pc]))
            continue
        if eng.prove(z3.BoolVal(False)):
            continue
        rep.run(nm, lambda: (frame_check(eng, o.log, old, "the study, result or tables"), check(o.val)))
    eng.reset()
    eng.load(x.base, [])


def same_array(eng, a, dims, f, what):
    if not (isinstance(a, Ref) and a.cls == "ndarray"):
        raise Unsupported("%s is %r" % (what, a))
    sh = lib.array_shape(eng, a)
    if len(sh) != len(dims):
        raise Fail("%s has %d dimensions" % (what, len(sh)))
    for x, y in zip(sh, dims):
        need(eng, x == y, "shape of %s" % what)
    if len(dims) == 1:
        for i in range(dims[0]):
            v = term(lib.cell(eng, a, [i]))
            p, q = num2(v, f(i))
            need(eng, p == q, "%s[%d]" % (what, i))
        return
    s, t = z3.Ints("s_q t_q")

    def body():
        v = term(lib.cell(eng, a, [Sc(s, "int"), Sc(t, "int")]))
        p, q = num2(v, f(s, t))
        need(eng, p == q, "%s at every (scenario, step)" % what)

    paths(eng, [s >= 0, s < dims[0], t >= 0, t < dims[1]], body)


def modes(x):
    """scope -> (arguments, facts, condition on table columns)"""
    m = x.m
    n, k = z3.Const("network_q", S), z3.Const("node_q", S)
    w = lambda v: Sc(v, "str")
    d = sconst("default")
    return [("node and network", {"node": w(k), "network": w(n)}, [m.node_dom(n, k)], n, k),
            ("node, network default", {"node": w(k)}, [m.node_dom(d, k)], d, k),
            ("network", {"network": w(n)}, [m.net_dom(n)], n, None),
            ("whole study", {}, [], None, None)]


def scope(n, k):
    return lambda c: ([c["network"] == n] if n is not None else []) + ([c["node"] == k] if k is not None else [])


KINDS = ["cons", "prod", "stor", "link", "src", "dest"]


def count(x, kind, n, k):
    """number of elements of the kind in the scope (None: everywhere)"""
    m, g = x.m, x.eng
    nn, kk, c = z3.Const("n1", S), z3.Const("k1", S), z3.Const("c1", S)
    dom = [m.net_dom(nn), m.node_dom(nn, kk)] + ([nn == n] if n is not None else []) + ([kk == k] if k is not None else [])
    if kind in m.cnt:
        return g.sum_term([nn, kk], dom, m.cnt[kind](nn, kk))
    if kind == "src":
        return g.sum_term([nn, kk, c], dom + [m.conv_dom(c), m.src_dom(c, nn, kk)], z3.IntVal(1))
    return g.sum_term([nn, kk, c], dom + [m.conv_dom(c), m.dn(c) == nn, m.dk(c) == kk], z3.IntVal(1))


def elements_contract(x, skip=0):
    """use get_elements_inside by its contract; the first skip calls run the body (its own proof)"""
    fn, _ = x.eng.cls(MOD + "ResultAnalyzer").find("get_elements_inside")
    state = {"skip": skip, "rank": 4}

    def h(eng, args, kw):
        env = eng.bind_args(fn, args, kw)
        names = [a.arg for a in fn.node.args.args]
        node, net = env["node"], env["network"]
        node, net = lib.force(eng, node), lib.force(eng, net)
        rank = (node is None) + (net is None and node is None)
        if state["skip"]:
            if state.get("top") is None or eng.depth <= state["top"]:
                state["top"], state["rank"] = eng.depth, rank
                return NotImplemented
            if rank >= state["rank"]:
                raise Unsupported("recursion of get_elements_inside")
        n = term(net) if net is not None else sconst("default") if node is not None else None
        k = term(node) if node is not None else None
        m = x.m
        if k is not None:
            if not eng.choose(m.node_dom(n, k)):
                raise PyRaise("KeyError", (node,))
        elif n is not None and not eng.choose(m.net_dom(n)):
            raise PyRaise("KeyError", (net,))
        from core import Sc as Sc_

        l = [Sc_(count(x, kind, n, k), "int") for kind in KINDS]
        return lib.new_array(eng, [6], lambda i: l[i[0]] if isinstance(i[0], int) else lib._no("index"))

    x.eng.contracts[fn.name] = h
    return state


def elements(eng, rep, prop):
    x = Ctx(eng)
    for nm, kw, facts, n, k in modes(x):
        st = elements_contract(x, 1)

        def call():
            st["top"] = None
            return eng.call(eng.getattr(x.obj, "get_elements_inside"), [], kw)

        run(eng, rep, x, "C12 get_elements_inside, %s" % nm, call, facts,
            lambda v: same_array(eng, v, [6], lambda i: count(x, KINDS[i], n, k), "get_elements_inside"))


def costs(eng, rep, prop):
    x = Ctx(eng)
    elements_contract(x)
    for nm, kw, facts, n, k in modes(x)[3 if prop == "C05" else 0:]:
        run(eng, rep, x, "%s get_cost, %s" % (prop, nm), lambda: eng.call(eng.getattr(x.obj, "get_cost"), [], kw), facts,
            lambda v: same_array(eng, v, [x.m.nb, x.m.h], lambda s, t: x.cost(scope(n, k), s, t), "get_cost"))


def balance(eng, rep, prop):
    x = Ctx(eng)
    for nm, kw, facts, n, k in modes(x)[:2]:
        def want(s, t):
            U = lambda f: x.total("link", lambda c: c["used"], f, s, t)
            return U(lambda c: [c["network"] == n, c["node"] == k]) - U(lambda c: [c["network"] == n, c["dest"] == k])

        run(eng, rep, x, "C12 get_balance, %s" % nm, lambda: eng.call(eng.getattr(x.obj, "get_balance"), [], kw), facts,
            lambda v: same_array(eng, v, [x.m.nb, x.m.h], want, "get_balance"))


def rac(eng, rep, prop):
    x = Ctx(eng)
    for nm, kw, facts, n, k in (modes(x)[2], ("network default", {}, [x.m.net_dom(sconst("default"))], sconst("default"), None)):
        def want(s, t):
            c = lambda c: [c["network"] == n]
            return x.total("production", lambda c: c["avail"] - c["used"], c, s, t) - x.total("consumption", lambda c: c["asked"] - c["given"], c, s, t)

        run(eng, rep, x, "C12 get_rac, %s" % nm, lambda: eng.call(eng.getattr(x.obj, "get_rac"), [], kw), facts,
            lambda v: same_array(eng, v, [x.m.nb, x.m.h], want, "get_rac"))


def parts(prop):
    return [elements, costs, balance, rac]
