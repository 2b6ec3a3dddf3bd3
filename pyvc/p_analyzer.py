"""C10: the tables of ResultAnalyzer, on an arbitrary study and a result of the same structure.

Contract of each _build_* function: the table has as many rows as (elements) x scenarios x steps; there is an injective
numbering of the elements by blocks 0..number of elements - 1, such that the row (block, scenario, step) carries the
element's names and the study's and the result's values there.  An injection between sets of the same finite size is a
bijection, hence exactly one row per (element, scenario, step) and none else."""
import z3

import lib
import lib_pd
from core import *  # noqa
from engine import _NONE, NeedCarry
from p_json import frame_check, old_sites
from report import *  # noqa
from schema import ResultModel, StudyModel

MOD = "hadar.analyzer.result.ResultAnalyzer"


def setup(eng):
    m = StudyModel(eng)
    r = ResultModel(eng, study=m)
    eng.radix = (m.nb, m.h)
    NV = "hadar.optimizer.domain.numeric.NumericalValue"

    def flatten(eng, args, kw):
        v = args[0]
        T = eng.schema[v.site]
        return lib_pd.Blk(z3.IntVal(1), lambda b, s, t: Sc(T.f(*(list(v.args) + [s, t])), "float"))

    eng.contracts[NV + ".flatten"] = flatten
    eng.trusted.add("NumericalValue.flatten by its contract (proved in C07)")
    return m, r


def spec(m, r):
    """table -> (binders, domain, number of elements, columns)"""
    n, k, c = z3.Const("n0", S), z3.Const("k0", S), z3.Const("c0", S)
    i, s, t = z3.Const("i0", I), z3.Const("s0", I), z3.Const("t0", I)
    out = {}
    at = lambda q, *a: q(*(list(a) + [s, t]))
    for tab, e, study, res in (("consumption", "cons", {"cost": "cost", "asked": "quantity"}, {"given": "quantity"}),
                               ("production", "prod", {"cost": "cost", "avail": "quantity"}, {"used": "quantity"}),
                               ("storage", "stor", {"max_capacity": "capacity", "max_flow_in": "flow_in", "max_flow_out": "flow_out", "cost": "cost", "eff": "eff"}, {"capacity": "capacity", "flow_in": "flow_in", "flow_out": "flow_out"}),
                               ("link", "link", {"cost": "cost", "avail": "quantity"}, {"used": "quantity"})):
        cols = {col: at(m.q[e, f], n, k, i) for col, f in study.items()}
        cols.update({col: at(r.q[e, f], n, k, i) for col, f in res.items()})
        cols.update({"network": n, "node": k, "t": t, "scn": s, "dest" if e == "link" else "name": m.name[e](n, k, i)})
        if e == "stor":
            cols["init_capacity"] = m.q[e, "init_capacity"](n, k, i)
        dom = [m.node_dom(n, k), m.net_dom(n), i >= 0, i < m.cnt[e](n, k)]
        out[tab] = ([n, k, i], dom, lambda eng, e=e: eng.sum_term([n, k], [m.net_dom(n), m.node_dom(n, k)], m.cnt[e](n, k)), cols)
    q = m.q["conv", "max"](c, s, t)
    out["dest_converter"] = ([c], [m.conv_dom(c)], lambda eng: m.conv_n, {"name": c, "network": m.dn(c), "node": m.dk(c), "flow": r.flow_dest(c, s, t), "cost": m.q["conv", "cost"](c, s, t), "max": q, "t": t, "scn": s})
    out["src_converter"] = ([c, n, k], [m.conv_dom(c), m.src_dom(c, n, k)], lambda eng: eng.sum_term([c], [m.conv_dom(c)], m.src_n(c)),
                            {"name": c, "network": n, "node": k, "ratio": m.ratio(c, n, k, s, t), "flow": r.flow_src(c, n, k, s, t), "max": q / m.ratio(c, n, k, s, t), "t": t, "scn": s})
    return out, (s, t)


KEYS = {"consumption": ("network", "node", "name"), "production": ("network", "node", "name"), "storage": ("network", "node", "name"), "link": ("network", "node", "dest"),
        "dest_converter": ("name",), "src_converter": ("name", "network", "node")}


def numbering(eng, df, tab, binders):
    """block of each element: the block term of a write of the table, in terms of the element"""
    cands = []
    for w in eng.log:
        if not (isinstance(w, W) and w.kind == "cell" and w.ref.site == df.site):
            continue
        b = term(w.key[1])
        vs = [x for x in w.binders if mentions(b, x)]
        if [x.sort() for x in vs] == [x.sort() for x in binders]:
            cands.append(z3.substitute(b, *zip(vs, binders)))
    if not cands:
        raise Unsupported("numbering of the elements of %s not recognised" % tab)
    return cands


def check_table(eng, rep, df, tab, sp, st, pre):
    binders, dom, count, cols = sp
    s, t = st
    g = eng
    inside = [s >= 0, s < g.radix[0], t >= 0, t < g.radix[1]]
    if not (isinstance(df, Ref) and df.cls == "DataFrame"):
        rep.add(pre, "unsupported", "not a table: %r" % (df,))
        return

    def rows():
        have, want = lib_pd.nblocks(g, df), count(g)
        if not g.prove(have == want):
            raise Fail("rows: %s blocks, expected %s" % (have, want))
        extra = set(g.lookup("attr", df, ("columns",)).items) ^ set(cols)
        if extra:
            raise Fail("columns: %s" % sorted(extra))

    rep.run(pre + ": number of rows and columns", rows)
    try:
        cands = numbering(g, df, tab, binders)
    except Unsupported as e:
        rep.add(pre + ": numbering", "unsupported", e)
        return
    best = None
    for b in cands[:6]:
        # first candidate that is an injective numbering in range
        ren = [(x, z3.Const(x.decl().name() + "'", x.sort())) for x in binders]
        b2, d2 = z3.substitute(b, *ren), [z3.substitute(x, *ren) for x in dom]
        ok = g.prove(z3.Implies(z3.And(*(dom + d2 + [b == b2])), z3.And(*[x == y for x, y in ren])), timeout=6000) and g.prove(z3.Implies(z3.And(*dom), z3.And(b >= 0, b < lib_pd.nblocks(g, df))), timeout=6000)
        if ok:
            best = b
            break
    if best is None:
        rep.add(pre + ": every element has its own rows", "refuted", "numbering %s" % cands[0])
        return
    rep.add(pre + ": every element has its own rows", "proved")
    for col, want in sorted(cols.items()):
        def f():
            def body():
                v = lib_pd.read_cell(g, df, col, best, s, t)
                x = term(v)
                a, c = (x, want) if x.sort() == want.sort() else (num2(x, want) if S not in (x.sort(), want.sort()) else (None, None))
                if a is None:
                    raise Fail("column %s is %s, expected %s" % (col, x, want))
                need(g, a == c, "column %s" % col)

            paths(g, dom + inside, body)

        rep.run("%s: column %s at every (element, scenario, step)" % (pre, col), f)


def tables(eng, rep, prop):
    m, r = setup(eng)
    sp, st = spec(m, r)
    old = old_sites(eng)
    C = eng.cls(MOD)
    for tab in sp:
        fn, _ = C.find("_build_" + tab)
        pre = "C10 _build_" + tab
        if fn is None:
            # built another way: checked through the constructor below
            continue
        try:
            outs = eng.explore(lambda: eng.call(fn, [m.ref, r.ref], {}))
        except (Unsupported, NeedCarry) as e:
            rep.add(pre, "unsupported", e)
            eng.reset()
            continue
        done(eng, rep, outs, old, pre, lambda o, p: check_table(eng, rep, o.val, tab, sp[tab], st, p))


def done(eng, rep, outs, old, pre, f):
    for j, o in enumerate(outs):
        p = pre if len(outs) == 1 else "%s path %d" % (pre, j)
        base = eng.snap()
        eng.load(o.log, list(base[1]) + o.pc)
        try:
            if o.kind == "raise":
                if not eng.prover.prove(eng.pc, z3.BoolVal(False)):
                    rep.add(p + ": does not raise", "refuted", "raises %s %s" % (o.val.cls, o.val.where))
                continue
            rep.run(p + ": study and result unchanged", lambda: frame_check(eng, o.log, old, "the study or the result"))
            f(o, p)
        finally:
            eng.load([], base[1])


def constructor(eng, rep, prop):
    m, r = setup(eng)
    sp, st = spec(m, r)
    old = old_sites(eng)
    C = eng.cls(MOD)
    calls = {}
    for tab in sp:
        fn, _ = C.find("_build_" + tab)
        if fn is None:
            raise Unsupported("no _build_" + tab)

        def h(eng, args, kw, tab=tab):
            a = list(args) + list(kw.values())
            if not (len(a) == 2 and {x.site for x in a} == {m.ref.site, r.ref.site}):
                raise Fail("_build_%s called with %r" % (tab, a))
            x = eng.alloc("DataFrame", "table:" + tab)
            eng.write("attr", x, ("table",), tab)
            return x

        eng.contracts[fn.name] = h

    def f():
        o = eng.instantiate(C, [m.ref, r.ref], {})
        for tab in sp:
            v = eng.getattr(o, tab)
            if not (isinstance(v, Ref) and v.site.startswith("table:" + tab + "@")):
                raise Fail("attribute %s is %r" % (tab, v))
        for a, x in (("study", m.ref), ("result", r.ref)):
            if not z3.is_true(z3.simplify(eng.eq(eng.getattr(o, a), x))):
                raise Fail("attribute %s" % a)

    def run():
        for o in eng.explore(f):
            if o.kind == "raise":
                raise Fail("raises %s" % o.val.cls)

    rep.run("C10 ResultAnalyzer.__init__: every table is the one of its name, of this study and result", run)


def parts(prop):
    return [tables, constructor]
