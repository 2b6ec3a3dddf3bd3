"""C07: NumericalValueFactory.create and the NumericalValue classes, for every shape, value, index.

Contract of create(x) (the one that NumT of schema.py gives to the callers): the returned value v satisfies, for all
0 <= s < nb_scn, 0 <= t < horizon, v[s, t] = spec(x, s, t); v[s, t] raises IndexError beyond; flatten()[s * horizon + t]
= v[s, t] and has nb_scn * horizon cells; v < c (<=, >, >=) exactly when all entries are; any other x raises ValueError."""
import ast

import z3

import lib
from core import *  # noqa
from engine import _NONE
from report import *  # noqa
from schema import ListT

MOD = "hadar.optimizer.domain.numeric."


class RowsT(ListT):
    """list of lists of the same length"""

    def __init__(self, tag, n, m, f):
        ListT.__init__(self, tag, lambda *a: n, lambda i: Ref(tag + ".row", [i], "list"))
        self.dims, self.f = (n, m), f

    def as_array(self, eng, v):
        return lib.new_array(eng, [lib.wrap_int(d) for d in self.dims], lambda i: Sc(self.f(term(i[0]), term(i[1])), "float"))


class Case:
    """one kind of input: value(eng) builds it; spec(s, t) the value meant, or None when it must be refused"""

    def __init__(self, name, build, spec, facts, need_type=None):
        self.name, self.build, self.spec, self.facts = name, build, spec, facts


def cases(eng, nb, h):
    x, xi = z3.Real("x"), z3.Int("xi")
    F1, F2, F3 = z3.Function("in1", I, R), z3.Function("in2", I, I, R), z3.Function("in3", I, I, I, R)
    d0, d1, d2 = z3.Ints("d0 d1 d2")
    dd = [d0 >= 0, d1 >= 0, d2 >= 0]
    w = lambda t: Sc(t, "int")
    arr1 = lambda e: lib.new_array(e, [w(d0)], lambda i: Sc(F1(term(i[0])), "float"))
    arr2 = lambda e: lib.new_array(e, [w(d0), w(d1)], lambda i: Sc(F2(term(i[0]), term(i[1])), "float"))
    row, col, mat = (lambda s, t: F1(t)), (lambda s, t: F2(s, 0)), (lambda s, t: F2(s, t))
    eng.schema["in.list1"] = ListT("in1", lambda: d0, lambda i: Sc(F1(i), "float"))
    eng.schema["in.list2"] = RowsT("in2", d0, d1, lambda i, j: F2(i, j))
    eng.schema["in2.row"] = ListT("in2r", lambda i: d1, lambda i, j: Sc(F2(i, j), "float"))
    lib.METHODS["DataFrame.__array__"] = lambda e, v, a, k: arr2(e)
    lib.METHODS["Series.__array__"] = lambda e, v, a, k: arr1(e)
    l1, l2 = (lambda e: Ref("in.list1", (), "list")), (lambda e: Ref("in.list2", (), "list"))
    df, se = (lambda e: Ref("in.df", (), "DataFrame")), (lambda e: Ref("in.series", (), "Series"))
    eng.assumptions.add("np.array(DataFrame) has the cells of the frame in order, np.array(Series) its values; entries are finite real numbers")
    out = [Case("float", lambda e: Sc(x, "float"), lambda s, t: x, []), Case("int", lambda e: Sc(xi, "int"), lambda s, t: z3.ToReal(xi), []),
           Case("{value: float} of a JSON document", lambda e: e.new_dict([("value", Sc(x, "float")), ("horizon", Sc(h, "int")), ("nb_scn", Sc(nb, "int"))]), lambda s, t: x, [])]
    nz = dd + [d0 > 0, d1 > 0, d2 > 0]
    for nm, b1, b2 in (("array", arr1, arr2), ("list", l1, l2), ("pandas", se, df)):
        out.append(Case("%s of shape (horizon,)" % nm, b1, row, dd + [d0 == h]))
        out.append(Case("%s of shape (n,), n != horizon" % nm, b1, None, dd + [d0 != h] + ([d0 > 0] if nm == "list" else [])))
        out.append(Case("%s of shape (nb_scn, 1)" % nm, b2, col, dd + [d0 == nb, d1 == 1]))
        out.append(Case("%s of shape (nb_scn, horizon)" % nm, b2, mat, dd + [d0 == nb, d1 == h]))
        out.append(Case("%s of another 2D shape" % nm, b2, None, nz + [z3.Not(z3.And(d0 == nb, z3.Or(d1 == 1, d1 == h)))]))
    out.append(Case("3D array", lambda e: lib.new_array(e, [w(d0), w(d1), w(d2)], lambda i: Sc(F3(*[term(j) for j in i]), "float")), None, nz))
    out.append(Case("0D array", lambda e: lib.new_array(e, [], lambda i: Sc(x, "float")), None, []))
    out.append(Case("None", lambda e: None, None, []))
    out.append(Case("str", lambda e: Sc(z3.Const("astr", S), "str"), None, []))
    out.append(Case("dict without value", lambda e: e.new_dict([("cost", 1)]), None, []))
    out.append(Case("object of another class", lambda e: Ref("in.obj", (), e.cls("hadar.optimizer.domain.input.InputNode")), None, []))
    return out


def run(eng, rep, prop):
    nb, h = z3.Ints("nb_scn horizon")
    eng.prover.axiom(nb >= 1)
    eng.prover.axiom(h >= 1)
    eng.max_paths = 4000
    split = lib.split_axiom
    s, t, s2, t2, n = z3.Ints("s t s2 t2 n")
    quot, rem = lib.ufun("quot", I, I, I), lib.ufun("rem", I, I, I)

    def lemma():
        sv = z3.Solver()
        sv.set("timeout", 20000)
        d, m = z3.Ints("d m")
        sv.add(n > 0, s >= 0, t >= 0, t < n, d >= 0, m >= 0, m < n, s * n + t == d * n + m, z3.Or(d != s, m != t))
        r = sv.check()
        if r != z3.unsat:
            raise Fail("division lemma", "unknown")

    rep.run("lemma: s * n + t determines s and t (0 <= t < n)", lambda: lemma() or True)
    q = s * h + t
    split(eng)
    inside = [s >= 0, s < nb, t >= 0, t < h]

    def bounds_lemma():
        sv = z3.Solver()
        sv.set("timeout", 20000)
        sv.add(nb >= 1, h >= 1, *inside)
        sv.add(z3.Not(z3.And(q >= 0, q < nb * h, q < h * nb)))
        if sv.check() != z3.unsat:
            raise Fail("index lemma", "unknown")

    rep.run("lemma: 0 <= s * horizon + t < nb_scn * horizon", lambda: bounds_lemma() or True)
    flat_facts = inside + [quot(q, h) == s, rem(q, h) == t, q >= 0, q < nb * h, q < h * nb]

    def factory():
        f = eng.cls(MOD + "NumericalValueFactory")
        return eng.call(f, [], {"horizon": Sc(h, "int"), "nb_scn": Sc(nb, "int")})

    for c in cases(eng, nb, h):
        def make(c=c):
            v = c.build(eng)
            return eng.call(eng.getattr(factory(), "create"), [v], {})

        nm = "create(%s)" % c.name

        def outs(c=c, make=make):
            eng.load([], c.facts)
            if eng.prover.prove(eng.pc, z3.BoolVal(False)):
                raise Unsupported("contradictory case")
            return eng.explore(make)

        if c.spec is None:
            def refused(c=c):
                for o in outs():
                    if o.kind != "raise":
                        raise Fail("accepted under %s" % [str(p) for p in o.pc])
                    if o.val.cls != "ValueError":
                        raise Fail("raises %s instead of ValueError under %s" % (o.val.cls, [str(p) for p in o.pc]))

            rep.run(nm + " is refused with ValueError", lambda: refused() or True)
            continue
        res = []

        def accepted(c=c):
            for o in outs():
                if o.kind == "raise":
                    raise Fail("raises %s under %s" % (o.val.cls, [str(p) for p in o.pc]))
                if not (isinstance(o.val, Ref) and isinstance(o.val.cls, Cls) and eng.cls(MOD + "NumericalValue") in o.val.cls.mro()):
                    raise Fail("does not return a NumericalValue")
                res.append(o)

        if rep.run(nm + " is accepted", lambda: accepted() or True) is None:
            continue

        def on(o, facts, fn, c=c):
            eng.load(o.log, c.facts + o.pc + facts)
            pc = list(eng.pc)
            r = eng.explore(fn)
            eng.load(o.log, pc)
            return r

        def read(c=c):
            for o in res:
                for x in on(o, inside, lambda: eng.getitem(o.val, Tup([Sc(s, "int"), Sc(t, "int")]))):
                    if x.kind == "raise":
                        raise Fail("[s, t] raises %s" % x.val.cls)
                    eng.load([], c.facts + o.pc + inside + x.pc)
                    need(eng, real(term(x.val)) == c.spec(s, t), "value at [s, t]")

        def beyond(c=c):
            for o in res:
                for x in on(o, [s >= 0, t >= 0, z3.Or(s >= nb, t >= h)], lambda: eng.getitem(o.val, Tup([Sc(s, "int"), Sc(t, "int")]))):
                    if x.kind != "raise" or x.val.cls != "IndexError":
                        raise Fail("reading beyond the end: %s" % (x.val.cls if x.kind == "raise" else "returns a value"))

        def flat(c=c):
            def f(o):
                a = eng.call(eng.getattr(o.val, "flatten"), [], {})
                sh = lib.array_shape(eng, a)
                if len(sh) != 1:
                    raise Fail("flatten is not one-dimensional")
                need(eng, z3.Or(sh[0] == nb * h, sh[0] == h * nb), "length of flatten()")
                return lib.cell(eng, a, [Sc(q, "int")])

            for o in res:
                for x in on(o, flat_facts, lambda: f(o)):
                    if x.kind == "raise":
                        raise Fail("flatten raises %s" % x.val.cls)
                    eng.load([], c.facts + o.pc + flat_facts + x.pc)
                    need(eng, real(term(x.val)) == c.spec(s, t), "flatten()[s * horizon + t]")

        def order(c=c):
            o_ = z3.Real("other")
            for op, fn in (("<", ast.Lt()), ("<=", ast.LtE()), (">", ast.Gt()), (">=", ast.GtE())):
                for o in res:
                    for x in on(o, [], lambda: eng.compare(fn, o.val, Sc(o_, "float"))):
                        if x.kind == "raise":
                            raise Fail("%s raises %s" % (op, x.val.cls))
                        v = x.val
                        if isinstance(v, Ref):
                            raise Unsupported("comparison gives %r" % v)
                        got = v if isinstance(v, bool) else eng.truth(v)
                        got = z3.BoolVal(got) if isinstance(got, bool) else got
                        cmp_ = lambda a: {"<": a < o_, "<=": a <= o_, ">": a > o_, ">=": a >= o_}[op]
                        base = c.facts + o.pc + x.pc
                        # got => every entry; (every entry) => got
                        eng.load([], base + inside + [got])
                        need(eng, cmp_(c.spec(s, t)), "v %s c is true only if it is true of every entry" % op)
                        a, b = z3.Ints("es et")
                        every = z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < nb, b >= 0, b < h), cmp_(c.spec(a, b))))
                        sv = z3.Solver()
                        sv.set("timeout", 20000)
                        for f in base + [nb >= 1, h >= 1, every, z3.Not(got)]:
                            sv.add(f)
                        r = sv.check()
                        if r != z3.unsat:
                            raise Fail("v %s c is true whenever it is true of every entry: %s" % (op, sv.model() if r == z3.sat else sv.reason_unknown()), "refuted" if r == z3.sat else "unknown")

        rep.run(nm + ": [s, t] is the value meant", lambda: read() or True)
        rep.run(nm + ": [s, t] beyond the end raises IndexError", lambda: beyond() or True)
        rep.run(nm + ": flatten agrees with [s, t]", lambda: flat() or True)
        rep.run(nm + ": comparisons hold iff they hold of every entry", lambda: order() or True)

        def keeps(c=c):
            """attributes used by the callers"""
            for o in res:
                for x in on(o, [], lambda: Tup([eng.getattr(o.val, "nb_scn"), eng.getattr(o.val, "horizon")])):
                    if x.kind == "raise":
                        raise Fail("no nb_scn / horizon")
                    eng.load([], c.facts + o.pc + x.pc)
                    need(eng, z3.And(term(x.val.items[0]) == nb, term(x.val.items[1]) == h), "nb_scn and horizon of the value")

        rep.run(nm + ": keeps nb_scn and horizon", lambda: keeps() or True)

    def same():
        """a NumericalValue is taken as is"""
        v = Ref("in.numeric", (), eng.cls(MOD + "MatrixNumericalValue"))
        eng.load([], [])
        for o in eng.explore(lambda: eng.call(eng.getattr(factory(), "create"), [v], {})):
            if o.kind == "raise" or not (isinstance(o.val, Ref) and o.val.site == "in.numeric"):
                raise Fail("a NumericalValue is not taken as is")

    rep.run("create(NumericalValue) is the value itself", lambda: same() or True)
