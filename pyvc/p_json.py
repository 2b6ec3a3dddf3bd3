"""C09: to_json / from_json of studies and results, on an arbitrary study and an arbitrary result.

Contract: to_json gives a document of JSON types only and changes nothing; from_json of the document (itself, or its
copy by json.dumps / json.loads) gives an object with the same content and does not change the document.
NumericalValue.to_json and NumericalValueFactory.create are used by contract at the study level; the contract is proved
of each class in the first part."""
import z3

import lib
from core import *  # noqa
from engine import _NONE
from p_builder import FIELDS, LISTS
from report import *  # noqa
from schema import OUT, ListT, NumT, ResultModel, StudyModel, T_

NUM = "hadar.optimizer.domain.numeric."
JSONTYPES = ("int", "float", "bool", "str")


class NumDoc(T_):
    """document of a NumericalValue (contract: create of it gives the value back)"""

    immutable = True
    attrs = ()

    def __init__(self, of):
        self.of = of

    def seq(self, eng, ref):
        raise Unsupported("content of the document of a number")

    def get(self, eng, ref, key):
        raise Unsupported("content of the document of a number")


def json_types(eng, v, what, depth=0):
    """v is made of JSON types only (every element, any position)"""
    v = lib.force(eng, v)
    if v is None or isinstance(v, (bool, int, float, str)):
        return
    if isinstance(v, Sc):
        if v.py not in JSONTYPES:
            raise Fail("%s is of type %s, not a JSON type" % (what, v.py))
        return
    if isinstance(v, Tup):
        for x in v.items:
            json_types(eng, x, what, depth + 1)
        return
    if isinstance(v, Ref):
        T = eng.schema.get(v.site)
        if isinstance(T, NumDoc):
            return
        if v.cls in ("list", "tuple"):
            for s in eng.contents(v).segs:
                paths(eng, s.guard, lambda: json_types(eng, s.elem, what + "[]", depth + 1))
            return
        if v.cls == "dict":
            for s in eng.items(v).segs:
                k = s.elem.items[0]
                if not (isinstance(k, str) or (isinstance(k, Sc) and k.py == "str")):
                    raise Fail("key %r of %s is not a string" % (k, what))
                paths(eng, s.guard, lambda: json_types(eng, eng.getitem(v, k), "%s.%s" % (what, k), depth + 1))
            return
        raise Fail("%s is a %s, not a JSON type" % (what, v.cls.name if isinstance(v.cls, Cls) else v.cls))
    raise Unsupported("JSON type of %r" % (v,))


def json_copy(eng, v):
    """json.loads(json.dumps(v)) of a document of JSON types: a copy, tuples become lists"""
    v = lib.force(eng, v)
    if isinstance(v, Tup):
        return eng.new_list([json_copy(eng, x) for x in v.items])
    if isinstance(v, Ref) and v.cls in ("list", "tuple"):
        r = eng.alloc("list")
        eng.loop(eng.contents(v), lambda e: eng.append(r, json_copy(eng, e)), lib.frame(), set())
        return r
    if isinstance(v, Ref) and v.cls == "dict" and not isinstance(eng.schema.get(v.site), NumDoc):
        r = eng.alloc("dict")
        eng.loop(lib.View(v, "items").iterate(eng), lambda e: eng.setitem(r, e.items[0], json_copy(eng, e.items[1])), lib.frame(), set())
        return r
    return v


def frame_check(eng, log, sites, what):
    """no write of the log goes to an object that existed before"""
    for w in log:
        if isinstance(w, W) and w.ref.site in sites:
            if eng.prover.prove(eng.pc + list(w.guard), z3.BoolVal(False)):
                continue
            raise Fail("%s is modified: %s" % (what, str(w).replace("\n", " ")[:600]))


def old_sites(eng):
    return set(k[1] for k, l in eng.index.items() if l) | set(eng.schema)


# ------------------------------------------------------------------------------------------- numbers
def numbers(eng, rep, prop):
    nb, h = z3.Ints("nb_scn horizon")
    eng.prover.axiom(nb >= 1)
    eng.prover.axiom(h >= 1)
    eng.max_paths = 4000
    s, t = z3.Ints("s t")
    inside = [s >= 0, s < nb, t >= 0, t < h]
    w = lambda x: Sc(x, "int")

    def arr(dims, sort, py):
        F = z3.Function("cell%d" % len(dims), *([I] * len(dims) + [sort]))
        return lambda: lib.new_array(eng, [x if isinstance(x, int) else w(x) for x in dims], lambda i: Sc(F(*[term(j) for j in i]), py))

    cases = []
    for sort, py in ((R, "float"), (I, "int")):
        x = z3.Const("x" + py, sort)
        cases.append(("%s scalar" % py, (lambda x, py: lambda: Sc(x, py))(x, py)))
        for nm, dims in (("row", [h]), ("column", [nb, 1]), ("matrix", [nb, h])):
            cases.append(("%s %s" % (py, nm), arr(dims, sort, "np.%s64" % py)))
    if not hasattr(lib, "np_nested"):
        raise Unsupported("nested lists")
    idx = Tup([Sc(s, "int"), Sc(t, "int")])
    for name, build in cases:
        def go(copy, build=build):
            f = eng.call(eng.cls(NUM + "NumericalValueFactory"), [], {"horizon": w(h), "nb_scn": w(nb)})
            v = eng.call(eng.getattr(f, "create"), [build()], {})
            known, n0 = old_sites(eng), len(eng.log)
            d = eng.call(eng.getattr(v, "to_json"), [], {})
            frame_check(eng, eng.log[n0:], known, "the value")
            json_types(eng, d, "document")
            if copy == 1:
                d = json_copy(eng, d)
            if copy == 2:
                d = eng.call(eng.func("hadar.optimizer.utils.JSON.convert"), [d], {})
                json_types(eng, d, "document")
            g = eng.call(eng.cls(NUM + "NumericalValueFactory"), [], {"horizon": w(h), "nb_scn": w(nb)})
            known, n0 = old_sites(eng), len(eng.log)
            v2 = eng.call(eng.getattr(g, "create"), [d], {})
            frame_check(eng, eng.log[n0:], known, "the document")
            a, b = eng.getitem(v, idx), eng.getitem(v2, idx)
            need(eng, real(term(a)) == real(term(b)), "value after the round trip")
            need(eng, z3.And(term(eng.getattr(v2, "nb_scn")) == nb, term(eng.getattr(v2, "horizon")) == h), "nb_scn and horizon")
            if not (isinstance(v2.cls, Cls) and eng.cls(NUM + "NumericalValue") in v2.cls.mro()):
                raise Fail("not a NumericalValue")

        for copy in (0, 1, 2):
            def f(copy=copy, go=go):
                eng.load([], inside)
                paths(eng, [], lambda: go(copy))

            rep.run("create(v.to_json()%s) has the values of v: %s" % (["", " through json text", " converted again"][copy], name), lambda: f() or True)


# ------------------------------------------------------------------------------------------- studies
class Same:
    def __init__(self, eng, m):
        self.eng, self.m = eng, m

    def keys(self, get, dom, pos, n, what, ar=1):
        g = self.eng

        def f():
            d = get()
            if not (isinstance(d, Ref) and d.cls == "dict"):
                raise Fail("%s is not a dict" % what)
            off = z3.IntVal(0)
            for s in g.items(d).segs:
                key = s.elem.items[0]
                if ar == 2 and not (isinstance(key, Tup) and len(key.items) == 2):
                    raise Fail("key of %s" % what)
                ks = [term(key)] if ar == 1 else [term(x) for x in key.items]
                pc = list(g.pc)
                g.pc = pc + list(s.guard)
                need(g, dom(*ks), "key of %s" % what)
                if s.index is None or s.count is None:
                    raise Unsupported("order of %s" % what)
                need(g, off + s.index == pos(*ks), "order of %s" % what)
                g.pc = pc
                off = off + s.count
            need(g, off == n, "number of %s" % what)

        def back():
            x = [z3.Const("x%d_b" % i, S) for i in range(ar)]
            key = Sc(x[0], "str") if ar == 1 else Tup([Sc(v, "str") for v in x])
            if g.dict_get(get(), key) is _NONE:
                need(g, z3.Not(dom(*x)), "every %s expected is there" % what)

        return f, back

    def common(self, obj, name, element, arrays, pre):
        """networks, nodes, elements, converters of obj are those of the model"""
        g, m = self.eng, self.m
        n, k, c = z3.Const("n_c", S), z3.Const("k_c", S), z3.Const("c_c", S)
        i = z3.Const("i_c", I)
        nets = lambda: g.getattr(obj(), "networks")
        nodes = lambda: g.getattr(g.getitem(nets(), Sc(n, "str")), "nodes")
        node = lambda: g.getitem(nodes(), Sc(k, "str"))
        convs = lambda: g.getattr(obj(), "converters")
        conv = lambda: g.getitem(convs(), Sc(c, "str"))
        out = []

        def two(label, facts, *a):
            def run():
                for f in self.keys(*a):
                    paths(g, facts, f)
            out.append((label, run))

        two("networks", [], nets, m.net_dom, m.net_pos, m.net_n, "networks")
        two("nodes", [m.net_dom(n)], nodes, lambda x: m.node_dom(n, x), lambda x: m.node_pos(n, x), m.node_n(n), "nodes")
        for e, l in LISTS.items():
            def f(e=e, l=l):
                lst = g.getattr(node(), l)
                if not (isinstance(lst, Ref) and lst.cls == "list"):
                    raise Fail("%s is not a list" % l)
                need(g, g.length(lst) == m.cnt[e](n, k), "number of %s" % l)
                if not g.choose(z3.And(i >= 0, i < m.cnt[e](n, k))):
                    return
                x = g.getitem(lst, Sc(i, "int"))
                want = g.cls(pre % {"cons": "Consumption", "prod": "Production", "stor": "Storage", "link": "Link"}[e])
                if not (isinstance(x, Ref) and x.cls is want):
                    raise Fail("class of %s" % l)
                need(g, term(g.getattr(x, "dest" if e == "link" else "name")) == m.name[e](n, k, i), "names of %s" % l)
                element(e, x, (n, k, i))

            out.append((l, lambda f=f: paths(g, [m.net_dom(n), m.node_dom(n, k)], f)))
        two("converters", [], convs, m.conv_dom, m.conv_pos, m.conv_n, "converters")
        return out, conv, c, two


def study(eng, rep, prop):
    for py in ("float", "int", "np.float64", "np.int64"):
        e = type(eng)()
        type(eng).INJ.clear(), type(eng).INV.clear()
        _study(e, rep, py)
        eng.functions |= e.functions
        eng.trusted |= e.trusted
        eng.assumptions |= e.assumptions
        eng.prover.queries += e.prover.queries
        eng.prover.time += e.prover.time


def _study(eng, rep, py):
    g = eng
    eng.max_paths = 4000
    m = StudyModel(eng, init_py=py)
    NV = eng.cls(NUM + "NumericalValue")
    nums = lambda v: isinstance(v, Ref) and v.cls is NV

    def to_json(eng, args, kw):
        v = args[0]
        if not nums(v):
            return NotImplemented
        site = "doc:" + v.site
        eng.schema[site] = NumDoc(v.site)
        return Ref(site, v.args, "dict")

    def create(eng, args, kw):
        fac = args[0]
        v = lib.force(eng, kw["value"] if "value" in kw else args[-1])
        if nums(v):
            return v
        T = eng.schema.get(v.site) if isinstance(v, Ref) else None
        if not isinstance(T, NumDoc):
            raise Unsupported("create(%r)" % (v,))
        need(eng, z3.And(term(eng.getattr(fac, "horizon")) == m.h, term(eng.getattr(fac, "nb_scn")) == m.nb), "values are read with the study's horizon and number of scenarios")
        site = "again:" + T.of
        eng.schema[site] = eng.schema[T.of]
        return Ref(site, v.args, NV)

    def convert(eng, args, kw):
        v = lib.force(eng, args[-1] if args else kw["value"])
        return v if isinstance(v, Ref) and isinstance(eng.schema.get(v.site), NumDoc) else NotImplemented

    eng.contracts["hadar.optimizer.utils.JSON.convert"] = convert
    eng.contracts["hadar.optimizer.utils.JSON.to_json"] = to_json
    eng.contracts[NUM + "NumericalValue.to_json"] = to_json
    eng.contracts[NUM + "NumericalValueFactory.create"] = create
    eng.assumptions.add("json.loads(json.dumps(d)) is a copy of a document d of JSON types (tuples become lists)")
    eng.assumptions.add("valid study: unique names, converters with a destination (C08)")
    tag = "study (init_capacity %s)" % py

    def execute():
        eng.load([], [])
        known = old_sites(eng)
        outs = eng.explore(lambda: eng.call(eng.getattr(m.ref, "to_json"), [], {}))
        for o in outs:
            if o.kind == "raise":
                raise Fail("to_json raises %s" % o.val.cls)
            eng.load([], o.pc)
            frame_check(eng, o.log, known, "the study")
        return outs

    outs = rep.run("%s: to_json works and leaves the study unchanged" % tag, execute)
    if outs is None:
        return

    def types():
        for o in outs:
            eng.load(o.log, o.pc)
            paths(eng, [], lambda: json_types(eng, o.val, "document"))

    rep.run("%s: to_json gives JSON types only" % tag, lambda: types() or True)
    for copy in (False, True):
        nm = "%s: from_json of the document%s" % (tag, " through json text" if copy else "")

        def back():
            res = []
            for o in outs:
                eng.load(o.log, o.pc)

                def go():
                    d = json_copy(eng, o.val) if copy else o.val
                    known, n0 = old_sites(eng), len(eng.log)
                    r = eng.call(eng.func("hadar.optimizer.domain.input.Study.from_json"), [d], {})
                    return Tup([r, Tup([n0 - len(o.log)])]), known

                for x in eng.explore(go):
                    if x.kind == "raise":
                        raise Fail("from_json raises %s %s" % (x.val.cls, x.val.where))
                    (r, n0), known = x.val[0].items, x.val[1]
                    res.append((o.log + x.log, o.pc + x.pc, r, n0.items[0] + len(o.log), known))
            return res

        res = rep.run(nm + " works", back)
        if res is None:
            continue

        def frame():
            for log, pc, r, n0, known in res:
                eng.load([], pc)
                frame_check(eng, log[n0:], known, "the document")

        rep.run(nm + " leaves the document unchanged", lambda: frame() or True)
        for log, pc, r, n0, known in res:
            same = Same(eng, m)

            def val(v, q, args, what):
                if not nums(v):
                    raise Fail("%s is not a NumericalValue" % what)
                s, t = z3.Ints("s_n t_n")
                T = g.schema[v.site]
                need(g, z3.Implies(z3.And(s >= 0, s < m.nb, t >= 0, t < m.h), T.f(*(list(v.args) + [s, t])) == q(*(list(args) + [s, t]))), "value of %s" % what)

            def element(e, x, p):
                for f in FIELDS[e]:
                    val(g.getattr(x, f), m.q[e, f], p, "%s of %s" % (f, e))
                if e == "stor":
                    a, b = num2(term(g.getattr(x, "init_capacity")), m.q["stor", "init_capacity"](*p))
                    need(g, a == b, "init_capacity")

            checks, conv, c, two = same.common(lambda: r, None, element, None, "hadar.optimizer.domain.input.%s")

            def head():
                if not (isinstance(r, Ref) and r.cls is g.cls("hadar.optimizer.domain.input.Study")):
                    raise Fail("not a Study")
                need(g, z3.And(term(g.getattr(r, "horizon")) == m.h, term(g.getattr(r, "nb_scn")) == m.nb), "horizon, scenarios")
                need(g, z3.Implies(m.version != sconst(""), term(g.getattr(r, "version")) == m.version), "version")
                f = g.getattr(r, "factory")
                need(g, z3.And(term(g.getattr(f, "horizon")) == m.h, term(g.getattr(f, "nb_scn")) == m.nb), "factory")

            checks.append(("version, horizon, scenarios", lambda: paths(g, [], head)))
            two("converter sources", [m.conv_dom(c)], lambda: g.getattr(conv(), "src_ratios"), lambda x, y: m.src_dom(c, x, y), lambda x, y: m.src_pos(c, x, y), m.src_n(c), "sources", 2)

            def attrs():
                v = conv()
                if not (isinstance(v, Ref) and v.cls is g.cls("hadar.optimizer.domain.input.Converter")):
                    raise Fail("class of converters")
                need(g, z3.And(term(g.getattr(v, "name")) == c, term(g.getattr(v, "dest_network")) == m.dn(c), term(g.getattr(v, "dest_node")) == m.dk(c)), "name and destination of converter")
                for f in ("cost", "max"):
                    val(g.getattr(v, f), m.q["conv", f], (c,), "%s of converter" % f)
                x, y = z3.Consts("x_r y_r", S)
                if g.choose(m.src_dom(c, x, y)):
                    val(g.getitem(g.getattr(v, "src_ratios"), Tup([Sc(x, "str"), Sc(y, "str")])), m.ratio, (c, x, y), "ratio")

            def vacuous():
                n, k, x, y = z3.Consts("n_v k_v x_v y_v", S)
                i = z3.Const("i_v", I)
                if g.prover.prove(g.pc + [m.net_dom(n), m.node_dom(n, k), m.conv_dom(c), m.src_dom(c, x, y), i >= 0] + [i < m.cnt[e](n, k) for e in LISTS], z3.BoolVal(False)):
                    raise Unsupported("contradictory assumptions")

            checks.append(("assumptions are consistent (no vacuous proof)", vacuous))
            checks.append(("converter values", lambda: paths(g, [m.conv_dom(c)], attrs)))
            for label, f in checks:
                def one(f=f):
                    eng.load(log, pc)
                    f()

                rep.run("%s: %s%s" % (nm, "same " if "consistent" not in label else "", label), lambda: one() or True)


# ------------------------------------------------------------------------------------------- results
def result(eng, rep, prop):
    for py in ("float", "int"):
        e = type(eng)()
        type(eng).INJ.clear(), type(eng).INV.clear()
        _result(e, rep, py)
        eng.functions |= e.functions
        eng.trusted |= e.trusted
        eng.assumptions |= e.assumptions
        eng.prover.queries += e.prover.queries
        eng.prover.time += e.prover.time


def _result(eng, rep, py):
    g = eng
    eng.max_paths = 4000
    rm = ResultModel(eng, py=py)
    m = rm.m
    tag = "result (%s arrays)" % py

    def execute():
        eng.load([], [])
        known = old_sites(eng)
        outs = eng.explore(lambda: eng.call(eng.getattr(rm.ref, "to_json"), [], {}))
        for o in outs:
            if o.kind == "raise":
                raise Fail("to_json raises %s" % o.val.cls)
            eng.load([], o.pc)
            frame_check(eng, o.log, known, "the result")
        return outs

    outs = rep.run("%s: to_json works and leaves the result unchanged" % tag, execute)
    if outs is None:
        return

    def types():
        for o in outs:
            eng.load(o.log, o.pc)
            paths(eng, [], lambda: json_types(eng, o.val, "document"))

    rep.run("%s: to_json gives JSON types only" % tag, lambda: types() or True)
    for copy in (False, True):
        nm = "%s: from_json of the document%s" % (tag, " through json text" if copy else "")

        def back():
            res = []
            for o in outs:
                eng.load(o.log, o.pc)

                def go():
                    d = json_copy(eng, o.val) if copy else o.val
                    known, n0 = old_sites(eng), len(eng.log)
                    r = eng.call(eng.func("hadar.optimizer.domain.output.Result.from_json"), [d], {})
                    return r, n0 - len(o.log), known

                for x in eng.explore(go):
                    if x.kind == "raise":
                        raise Fail("from_json raises %s %s" % (x.val.cls, x.val.where))
                    res.append((o.log + x.log, o.pc + x.pc, x.val[0], x.val[1] + len(o.log), x.val[2]))
            return res

        res = rep.run(nm + " works", back)
        if res is None:
            continue

        def frame():
            for log, pc, r, n0, known in res:
                eng.load([], pc)
                frame_check(eng, log[n0:], known, "the document")

        rep.run(nm + " leaves the document unchanged", lambda: frame() or True)
        for log, pc, r, n0, known in res:
            same = Same(eng, m)

            def val(v, q, args, what):
                if not (isinstance(v, Ref) and v.cls == "ndarray"):
                    raise Fail("%s is not an array" % what)
                d = lib.array_shape(g, v)
                if len(d) != 2:
                    raise Fail("%s has %d dimensions" % (what, len(d)))
                need(g, z3.And(d[0] == m.nb, d[1] == m.h), "shape of %s" % what)
                s, t = z3.Ints("s_n t_n")
                if g.choose(z3.And(s >= 0, s < m.nb, t >= 0, t < m.h)):
                    x, y = num2(term(lib.cell(g, v, [Sc(s, "int"), Sc(t, "int")])), q(*(list(args) + [s, t])))
                    need(g, x == y, "cells of %s" % what)

            def element(e, x, p):
                for f in OUT[e]:
                    val(g.getattr(x, f), rm.q[e, f], p, "%s of %s" % (f, e))

            checks, conv, c, two = same.common(lambda: r, None, element, None, "hadar.optimizer.domain.output.Output%s")
            two("converter sources", [m.conv_dom(c)], lambda: g.getattr(conv(), "flow_src"), lambda x, y: m.src_dom(c, x, y), lambda x, y: m.src_pos(c, x, y), m.src_n(c), "sources", 2)

            def attrs():
                v = conv()
                if not (isinstance(v, Ref) and v.cls is g.cls("hadar.optimizer.domain.output.OutputConverter")):
                    raise Fail("class of converters")
                need(g, term(g.getattr(v, "name")) == c, "name of converter")
                val(g.getattr(v, "flow_dest"), rm.flow_dest, (c,), "flow_dest")
                x, y = z3.Consts("x_r y_r", S)
                if g.choose(m.src_dom(c, x, y)):
                    val(g.getitem(g.getattr(v, "flow_src"), Tup([Sc(x, "str"), Sc(y, "str")])), rm.flow_src, (c, x, y), "flow_src")

            def vacuous():
                n, k, x, y = z3.Consts("n_v k_v x_v y_v", S)
                i = z3.Const("i_v", I)
                if g.prover.prove(g.pc + [m.net_dom(n), m.node_dom(n, k), m.conv_dom(c), m.src_dom(c, x, y), i >= 0] + [i < m.cnt[e](n, k) for e in LISTS], z3.BoolVal(False)):
                    raise Unsupported("contradictory assumptions")

            checks.append(("assumptions are consistent (no vacuous proof)", vacuous))
            checks.append(("converter values", lambda: paths(g, [m.conv_dom(c)], attrs)))

            def bench():
                b = g.getattr(r, "benchmark")
                for f in ("mapper", "total"):
                    need(g, real(term(g.getattr(b, f))) == rm.bm1[f], f)
                i = z3.Const("i_b", I)
                for f in ("modeler", "solver"):
                    l = g.getattr(b, f)
                    need(g, g.length(l) == rm.bm_n[f], "number of " + f)
                    if g.choose(z3.And(i >= 0, i < rm.bm_n[f])):
                        need(g, real(term(g.getitem(l, Sc(i, "int")))) == rm.bm[f](i), f)

            checks.append(("benchmark", lambda: paths(g, [], bench)))
            for label, f in checks:
                def one(f=f):
                    eng.load(log, pc)
                    f()

                rep.run("%s: %s%s" % (nm, "same " if "consistent" not in label else "", label), lambda: one() or True)


def parts(prop):
    return [numbers, study, result]
