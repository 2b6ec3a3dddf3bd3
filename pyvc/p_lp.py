"""C01..C06: solve_lp on an arbitrary valid study.

The real solve_lp (with everything it calls in the repository) is executed symbolically on the generic study of
schema.py.  At the call of Solver.Solve the linear program that was built must be the one of the specification:
same variables, bounds, rows and objective, for all elements, nodes, networks, steps and scenarios; the result
returned must hold the value of each variable at the place of its element."""
import itertools

import z3

from core import *  # noqa
from engine import _NONE
from report import *  # noqa
from schema import StudyModel

PREFIX = "hadar.optimizer.lp.optimizer.solve_lp"

# element kinds: parameters after t
PARAMS = {"lol": "nki", "prod": "nki", "cap": "nki", "fin": "nki", "fout": "nki", "link": "nki", "cdst": "c", "csrc": "cnk"}
OWNER = {"lol": "cons", "prod": "prod", "cap": "stor", "fin": "stor", "fout": "stor", "link": "link"}
SORT = {"n": S, "k": S, "i": I, "c": S, "t": I}
ROWS = {"adequacy": "nk", "stor0": "nki", "storT": "nki", "mix": "cnk"}


class LP:
    def __init__(self, eng, rep):
        self.eng, self.rep = eng, rep
        self.m = StudyModel(eng)
        self.s0 = z3.Const("s0", I)
        self.reads = {}

    # ------------------------------------------------------------------ specification
    def params(self, names, tag):
        return [z3.Const("t_" + tag, I)] + [z3.Const("%s_%s" % (x, tag), SORT[x]) for x in names]

    def valid(self, E, p):
        """the element exists"""
        m, t = self.m, p[0]
        g = [t >= 0, t < m.h]
        if E == "cdst":
            return g + [m.conv_dom(p[1])]
        if E == "csrc":
            return g + [m.conv_dom(p[1]), m.src_dom(*p[1:])]
        return g + [m.net_dom(p[1]), m.node_dom(p[1], p[2]), p[3] >= 0, p[3] < m.cnt[OWNER[E]](p[1], p[2])]

    def row_valid(self, k, p):
        m, t = self.m, p[0]
        g = [t >= 0, t < m.h]
        if k == "mix":
            return g + [m.conv_dom(p[1]), m.src_dom(*p[1:])]
        g += [m.net_dom(p[1]), m.node_dom(p[1], p[2])]
        if k == "adequacy":
            return g
        g += [p[3] >= 0, p[3] < m.cnt["stor"](p[1], p[2])]
        return g + [t == 0 if k == "stor0" else t > 0]

    def at(self, e, f, p, s):
        return self.m.q[e, f](*(list(p[1:]) + [s, p[0]]))

    def ub(self, E, p, s):
        m = self.m
        if E == "csrc":
            return self.m.q["conv", "max"](p[1], s, p[0]) / m.ratio(p[1], p[2], p[3], s, p[0])
        if E == "cdst":
            return m.q["conv", "max"](p[1], s, p[0])
        f = {"lol": "quantity", "prod": "quantity", "link": "quantity", "cap": "capacity", "fin": "flow_in", "fout": "flow_out"}[E]
        return self.at(OWNER[E], f, p, s)

    def cost(self, E, p, s):
        if E == "cdst":
            return self.m.q["conv", "cost"](p[1], s, p[0])
        if E in ("lol", "prod", "cap", "link"):
            return self.at(OWNER[E], "cost", p, s)
        return z3.RealVal(0)

    def coef(self, row, r, E, p, s):
        """coefficient of variable E(p) in row(r)"""
        m = self.m
        one, zero = z3.RealVal(1), z3.RealVal(0)
        same_t = r[0] == p[0]
        if row == "adequacy":
            if E in ("lol", "prod", "fin", "fout"):
                return z3.If(z3.And(same_t, r[1] == p[1], r[2] == p[2]), -one if E == "fin" else one, zero)
            if E == "link":
                d = m.name["link"](p[1], p[2], p[3])
                out, inn = r[2] == p[2], r[2] == d
                return z3.If(z3.And(same_t, r[1] == p[1], out, z3.Not(inn)), -one, z3.If(z3.And(same_t, r[1] == p[1], inn, z3.Not(out)), one, zero))
            if E == "cdst":
                return z3.If(z3.And(same_t, r[1] == m.dn(p[1]), r[2] == m.dk(p[1])), one, zero)
            if E == "csrc":
                return z3.If(z3.And(same_t, r[1] == p[2], r[2] == p[3]), -one, zero)
            return zero
        if row in ("stor0", "storT"):
            if E not in ("cap", "fin", "fout"):
                return zero
            el = z3.And(r[1] == p[1], r[2] == p[2], r[3] == p[3])
            if E == "fin":
                return z3.If(z3.And(same_t, el), -self.at("stor", "eff", r, s), zero)
            if E == "fout":
                return z3.If(z3.And(same_t, el), one, zero)
            if row == "stor0":
                return z3.If(z3.And(same_t, el), one, zero)
            return z3.If(z3.And(same_t, el), one, z3.If(z3.And(r[0] - 1 == p[0], el), -one, zero))
        if E == "cdst":
            return z3.If(z3.And(same_t, r[1] == p[1]), -one, zero)
        if E == "csrc":
            return z3.If(z3.And(same_t, r[1] == p[1], r[2] == p[2], r[3] == p[3]), m.ratio(r[1], r[2], r[3], s, r[0]), zero)
        return zero

    def rhs(self, row, r, s):
        m = self.m
        if row == "adequacy":
            i = z3.Const("i_sum", I)
            return self.eng.sum_term([i], [i >= 0, i < m.cnt["cons"](r[1], r[2])], m.q["cons", "quantity"](r[1], r[2], i, s, r[0]))
        if row == "stor0":
            return m.q["stor", "init_capacity"](r[1], r[2], r[3])
        return z3.RealVal(0)

    # ------------------------------------------------------------------ execution
    def execute(self):
        eng = self.eng
        outs = eng.explore(lambda: eng.call(eng.func(PREFIX), [self.m.ref], {}))
        self.oks = [o for o in outs if o.kind in ("ok", "return")]
        self.bad = [o for o in outs if o.kind == "raise"]
        if len(self.oks) != 1:
            raise Unsupported("%d normal paths of solve_lp" % len(self.oks))
        self.ok = self.oks[0]
        sol = self.solves(self.ok.events)
        if not sol:
            raise Unsupported("no call of Solve recorded")
        self.states = sol

    def solves(self, evs, binders=(), guard=()):
        out = []
        for e in evs:
            if e[0] == "loop":
                out += self.solves([e[3]], tuple(binders) + tuple(e[1]), tuple(guard) + tuple(e[2]))
            elif e[0] == "solve":
                out.append({"solver": e[1], "status": e[2], "log": e[3], "pc": e[4], "binders": e[5], "loop": list(binders), "guard": list(guard)})
        return out

    # ------------------------------------------------------------------ result
    def node_of(self, n, k):
        g = self.eng
        net = g.getitem(g.getattr(self.ok.val, "networks"), Sc(n, "str"))
        return g.getitem(g.getattr(net, "nodes"), Sc(k, "str"))

    def element_of(self, E, p):
        g = self.eng
        attr = {"cons": "consumptions", "prod": "productions", "stor": "storages", "link": "links"}[OWNER[E]]
        return g.getitem(g.getattr(self.node_of(p[1], p[2]), attr), Sc(p[3], "int"))

    def array_of(self, E, p):
        g = self.eng
        if E in ("cdst", "csrc"):
            c = g.getitem(g.getattr(self.ok.val, "converters"), Sc(p[1], "str"))
            if E == "cdst":
                return g.getattr(c, "flow_dest")
            return g.getitem(g.getattr(c, "flow_src"), Tup([Sc(p[2], "str"), Sc(p[3], "str")]))
        f = {"lol": "quantity", "prod": "quantity", "link": "quantity", "cap": "capacity", "fin": "flow_in", "fout": "flow_out"}[E]
        return g.getattr(self.element_of(E, p), f)

    def load_result(self):
        self.eng.load(self.ok.log, self.ok.pc)
        self.eng.pc += [self.s0 >= 0, self.s0 < self.m.nb]

    def read(self, E):
        """value of the result for E at scenario s0: value of exactly one variable"""
        eng = self.eng
        self.load_result()
        p = self.params(PARAMS[E], "r")

        def f():
            a = self.array_of(E, p)
            return eng.getitem(a, Tup([Sc(self.s0, "int"), Sc(p[0], "int")]))

        outs = paths(eng, self.valid(E, p), f)
        reads = []
        for o in outs:
            v = real(term(o.val))
            sols = {}
            todo = [v]
            while todo:
                x = todo.pop()
                if z3.is_app(x) and x.decl().name().startswith("sol@"):
                    sols[x.get_id()] = x
                else:
                    todo += x.children()
            pc = list(eng.pc)
            eng.pc = pc + self.valid(E, p) + o.pc
            if not sols:
                raise Fail("result of %s does not depend on the solution: %s" % (E, str(v)[:300]))
            if len(sols) > 1:
                raise Unsupported("several variables in the result of %s" % E)
            x = list(sols.values())[0]
            want = self.ub("lol", p, self.s0) - x if E == "lol" else x
            need(eng, v == want, "value stored for %s" % E)
            eng.pc = pc
            reads.append((o.pc, x.decl().name()[4:], x.children()))
        self.reads[E] = (p, reads)

    def place(self, E):
        """scenario position: the variable read for scenario s0 belongs to the model solved for scenario s0"""
        eng = self.eng
        p, reads = self.reads[E]
        for pc, site, args in reads:
            hit = False
            for st in self.states:
                fam = [w for w in st["log"] if isinstance(w, W) and w.kind == "attr" and w.ref.cls == "Variable" and w.key == ("lb",) and w.ref.site == site]
                for w in fam:
                    hit = True
                    if not st["loop"]:
                        raise Unsupported("one model for all scenarios")
                    b = st["loop"][0]
                    pos = [i for i, a in enumerate(w.ref.args) if a.eq(b)]
                    if not pos:
                        raise Fail("variables of %s are shared between scenarios" % E)
                    self.load_result()
                    eng.pc += self.valid(E, p) + pc
                    need(eng, args[pos[0]] == self.s0, "result of %s at scenario s comes from the model of scenario s" % E)
            if not hit:
                raise Fail("variable of %s is not in the model" % E)

    # ------------------------------------------------------------------ the model at Solve
    def load_model(self, st):
        self.eng.load(st["log"], st["pc"], st["binders"])
        self.eng.max_paths = 4000

    def scn(self, st):
        return st["loop"][0]

    def var(self, st, E, p):
        """the variable of E(p) in this model"""
        q, reads = self.reads[E]
        sub = list(zip(q, p)) + [(self.s0, self.scn(st))]
        for pc, site, args in reads:
            c = subst_term(conj(pc), sub)
            if len(reads) == 1 or self.eng.choose(c):
                return Ref(site, [subst_term(a, sub) for a in args], "Variable")
        raise Unsupported("variable of %s" % E)

    def injective(self, st):
        eng = self.eng
        self.load_model(st)
        for E in PARAMS:
            for F in PARAMS:
                p, q = self.params(PARAMS[E], "a"), self.params(PARAMS[F], "b")

                def f():
                    a, b = self.var(st, E, p), self.var(st, F, q)
                    same = eng.eq(a, b)
                    if E == F:
                        need(eng, z3.Implies(same, conj([x == y for x, y in zip(p, q)])), "two %s elements share a variable" % E)
                    else:
                        need(eng, z3.Not(same), "%s and %s share a variable" % (E, F))

                paths(eng, self.valid(E, p) + self.valid(F, q), f)

    def bounds(self, st, E):
        eng = self.eng
        self.load_model(st)
        p = self.params(PARAMS[E], "a")
        s = self.scn(st)

        def f():
            v = self.var(st, E, p)
            lb, ub = eng.getattr_raw(v, "lb"), eng.getattr_raw(v, "ub")
            need(eng, term(lb) == 0, "lower bound of %s" % E)
            want = self.ub(E, p, s)
            if E == "csrc":
                need(eng, real(term(ub)) >= want, "upper bound of %s (>= max / ratio; the mix row gives equality)" % E)
            else:
                need(eng, real(term(ub)) == want, "upper bound of %s is the study's limit at this scenario and step" % E)
            need(eng, eng.eq(eng.getattr_raw(v, "solver"), st["solver"]), "variable of %s belongs to the solver" % E)

        paths(eng, self.valid(E, p), f)

    def families(self, st, cls):
        out = []
        for w in st["log"]:
            if isinstance(w, W) and w.kind == "attr" and w.key == ("lb",) and w.ref.cls == cls:
                if not any(skey(w.ref) == skey(x.ref) and [g.get_id() for g in w.guard] == [g.get_id() for g in x.guard] for x in out):
                    out.append(w)
        for w in st["log"]:
            if isinstance(w, Marker) and w.families:
                pass
        return out

    def generic(self, w, tag):
        """generic member of a family of objects"""
        pairs = [(b, z3.Const("%s_%s" % (b.decl().name(), tag), b.sort())) for b in w.binders]
        return [x[1] for x in pairs], [z3.substitute(g, *pairs) if pairs else g for g in w.guard], subst(w.ref, pairs)

    def assign(self, names, bs, free):
        """injective assignments of parameters to binders of the same sort"""
        ps = ["t"] + list(names)
        for perm in itertools.permutations(bs, len(ps)):
            if all(SORT[x] == b.sort() for x, b in zip(ps, perm)):
                yield list(perm)

    def extra_vars(self, st):
        """every variable of the model is the variable of an element"""
        eng = self.eng
        self.load_model(st)
        for w in self.families(st, "Variable"):
            bs, guard, ref = self.generic(w, "v")
            done = False
            for E in PARAMS:
                if not any(site == w.ref.site for _, site, _ in self.reads[E][1]):
                    continue
                for p in self.assign(PARAMS[E], bs, ()):
                    try:
                        def f():
                            need(eng, conj(self.valid(E, p) + [eng.eq(self.var(st, E, p), ref)]), "")

                        paths(eng, guard, f)
                        done = True
                        break
                    except Fail:
                        continue
                if done:
                    break
            if not done:
                raise Fail("a variable of the model belongs to no element: %s" % w)

    def match_rows(self, st):
        """kind of each row family of the model and how its members are identified"""
        eng = self.eng
        self.load_model(st)
        self.rows = []
        for w in self.families(st, "Constraint"):
            bs, guard, ref = self.generic(w, "w")
            best, errs = None, []
            for kind, names in ROWS.items():
                for p in self.assign(names, bs, ()):
                    if best:
                        break
                    try:
                        def f():
                            need(eng, conj(self.row_valid(kind, p)), "row exists in the specification")

                        paths(eng, guard, f)
                    except Fail as e:
                        continue
                    try:
                        self.check_row(st, kind, p, guard, ref)
                        best = (kind, p)
                    except Fail as e:
                        errs.append((kind, str(e)[:700], e.status))
                        self.load_model(st)
            if best is None:
                self.rows.append((None, w, errs))
            else:
                self.rows.append((best[0], w, best[1], bs, guard, ref))

    def check_row(self, st, kind, p, guard, ref):
        eng, s = self.eng, self.scn(st)

        def f():
            lb, ub = eng.getattr_raw(ref, "lb"), eng.getattr_raw(ref, "ub")
            want = self.rhs(kind, p, s)
            need(eng, real(term(lb)) == want, "%s row: lower bound" % kind)
            need(eng, real(term(ub)) == want, "%s row: upper bound" % kind)
            need(eng, eng.eq(eng.getattr_raw(ref, "solver"), st["solver"]), "%s row belongs to the solver" % kind)

        paths(eng, guard, f)
        for E in PARAMS:
            q = self.params(PARAMS[E], "e")

            def g():
                v = self.var(st, E, q)
                c = eng.lookup("coef", ref, (v,))
                c = z3.RealVal(0) if c is _NONE else real(term(c))
                need(eng, c == self.coef(kind, p, E, q, s), "%s row: coefficient of %s" % (kind, E))

            paths(eng, list(guard) + self.valid(E, q), g)

    def row_kind(self, st, kind):
        """every row of the specification of this kind is in the model"""
        eng = self.eng
        self.load_model(st)
        p = self.params(ROWS[kind], "q")
        fams = [r for r in self.rows if r[0] == kind]
        if not fams:
            errs = [e for r in self.rows if r[0] is None for e in r[2] if e[0] == kind]
            raise Fail("no %s row in the model has the right bounds and coefficients: %s" % (kind, errs), "unknown" if errs and all(e[2] == "unknown" for e in errs) else "refuted")

        def f():
            cs = []
            for _, w, a, bs, guard, ref in fams:
                sub = list(zip(a, p))
                rest = [b for b in bs if not any(b.eq(x) for x in a)]
                if rest:
                    raise Unsupported("row family with more binders")
                cs.append(subst_term(conj(guard), sub))
            need(eng, disj(cs), "every %s row of the specification is in the model" % kind)

        paths(eng, self.row_valid(kind, p), f)

    def no_extra_rows(self, st):
        for r in self.rows:
            if r[0] is None:
                st_ = "unknown" if r[2] and all(e[2] == "unknown" for e in r[2]) else "refuted"
                raise Fail("a row of the model is no row of the specification: %s %s" % (str(r[1]).replace("\n", " ")[:500], r[2]), st_)

    def objective(self, st):
        eng, s = self.eng, self.scn(st)
        self.load_model(st)
        o = Ref("Objective|" + st["solver"].site, st["solver"].args, "Objective", st["solver"].via)

        def h():
            v = eng.getattr_raw(o, "sense")
            if v is not _NONE and v != "min":
                raise Fail("the objective is not minimised")

        paths(eng, [], h)
        for E in PARAMS:
            q = self.params(PARAMS[E], "e")

            def g():
                v = self.var(st, E, q)
                c = eng.lookup("coef", o, (v,))
                c = z3.RealVal(0) if c is _NONE else real(term(c))
                need(eng, c == self.cost(E, q, s), "objective: coefficient of %s" % E)

            paths(eng, self.valid(E, q), g)

    # ------------------------------------------------------------------ frame, errors, shape
    def status_ok(self):
        eng = self.eng
        self.load_result()
        for st in self.states:
            if len(st["loop"]) != 1:
                raise Unsupported("scenario loop")
            b = st["loop"][0]
            sub = [(b, self.s0)]
            need(eng, subst_term(st["status"] == 0, sub), "a result is returned only when every scenario has an optimal solution")
        need(eng, disj([subst_term(conj([g for g in st["guard"] if not mentions(g, st["status"].decl()() if st["status"].num_args() == 0 else st["loop"][0])] + [st["loop"][0] >= 0, st["loop"][0] < self.m.nb]), [(st["loop"][0], self.s0)]) for st in self.states]), "every scenario is solved")

    def raises(self):
        """an exception only when some scenario has no optimal solution"""
        eng = self.eng
        if not self.bad:
            raise Fail("a study without solution is not refused")
        st = self.states[0]
        b = st["loop"][0]
        for o in self.bad:
            eng.load([], o.pc)
            need(eng, z3.Exists([b], z3.And(b >= 0, b < self.m.nb, st["status"] != 0)), "%s raised on a solvable study" % o.val.cls)

    def frame(self):
        """the study is not modified"""
        for o in self.oks + self.bad:
            for w in o.log:
                if isinstance(w, W) and w.ref.site.split(".")[0] == self.m.pre and not w.ref.via:
                    raise Fail("the study is modified: %s" % str(w).replace("\n", " ")[:600])

    def structure(self):
        eng, m = self.eng, self.m
        g = eng
        self.load_result()
        n, k, c = z3.Const("n_z", S), z3.Const("k_z", S), z3.Const("c_z", S)

        def keys(d, dom, pos, cnt, what, ar=1):
            """the dict has exactly the keys of dom, in the same order"""
            def f():
                dd = d()
                it = g.items(dd)
                segs = it.segs
                if len(segs) != 1 or len(segs[0].binders) != ar:
                    raise Unsupported("keys of %s" % what)
                s = segs[0]
                key = s.elem.items[0]
                ks = [term(key)] if ar == 1 else [term(x) for x in key.items]
                pc = list(g.pc)
                g.pc = pc + list(s.guard)
                need(g, dom(*ks), "key of %s is in the study" % what)
                if s.index is None:
                    raise Unsupported("order of %s" % what)
                need(g, s.index == pos(*ks), "order of %s" % what)
                need(g, s.count == cnt, "number of %s" % what)
                g.pc = pc
                x = [z3.Const("x%d_z" % i, S) for i in range(ar)]
                sub, res, un = g.solve(s.binders, list(zip(ks, x)))
                if un:
                    raise Unsupported("keys of %s" % what)
                need(g, z3.Implies(dom(*x), conj([subst_term(q, sub) for q in s.guard] + res)), "every key of the study is in %s" % what)
            return f

        res = self.ok.val
        paths(g, [], keys(lambda: g.getattr(res, "networks"), m.net_dom, m.net_pos, m.net_n, "networks"))
        paths(g, [m.net_dom(n)], keys(lambda: g.getattr(g.getitem(g.getattr(res, "networks"), Sc(n, "str")), "nodes"), lambda x: m.node_dom(n, x), lambda x: m.node_pos(n, x), m.node_n(n), "nodes"))
        paths(g, [], keys(lambda: g.getattr(res, "converters"), m.conv_dom, m.conv_pos, m.conv_n, "converters"))
        conv = lambda: g.getitem(g.getattr(res, "converters"), Sc(c, "str"))
        paths(g, [m.conv_dom(c)], keys(lambda: g.getattr(conv(), "flow_src"), lambda x, y: m.src_dom(c, x, y), lambda x, y: m.src_pos(c, x, y), m.src_n(c), "converter sources", 2))
        paths(g, [m.conv_dom(c)], lambda: need(g, term(g.getattr(conv(), "name")) == c, "converter name"))
        attr = {"cons": "consumptions", "prod": "productions", "stor": "storages", "link": "links"}
        for e, l in attr.items():
            def f(e=e, l=l):
                lst = g.getattr(self.node_of(n, k), l)
                need(g, g.seq_len(g.contents(lst)) == m.cnt[e](n, k), "number of %s" % l)

            paths(g, [m.net_dom(n), m.node_dom(n, k)], f)
            E = {"cons": "lol", "prod": "prod", "stor": "cap", "link": "link"}[e]
            p = self.params("nki", "z2")

            def h(e=e, E=E):
                x = self.element_of(E, p)
                need(g, term(g.getattr(x, "dest" if e == "link" else "name")) == m.name[e](p[1], p[2], p[3]), "name of %s" % e)

            paths(g, self.valid(E, p), h)
        for E in PARAMS:
            p = self.params(PARAMS[E], "z3")

            def sh(E=E):
                a = self.array_of(E, p)
                d = self.eng.lib.array_shape(g, a)
                if len(d) != 2:
                    raise Fail("shape of %s" % E)
                need(g, z3.And(term(d[0]) == m.nb, term(d[1]) == m.h), "shape of the result of %s" % E)

            paths(g, self.valid(E, p), sh)


def vacuity(lp):
    """the assumptions do not contradict each other (else every obligation would hold for nothing)"""
    eng = lp.eng
    lp.load_result()
    for E in PARAMS:
        p = lp.params(PARAMS[E], "vac")
        if eng.prover.prove(eng.pc + lp.valid(E, p), z3.BoolVal(False)):
            raise Unsupported("contradictory assumptions for %s after solve_lp" % E)
    for st in lp.states:
        lp.load_model(st)
        for E in PARAMS:
            p = lp.params(PARAMS[E], "vac")
            if eng.prover.prove(eng.pc + lp.valid(E, p), z3.BoolVal(False)):
                raise Unsupported("contradictory assumptions for %s at Solve" % E)


NEED = {
    "C01": {"E": list(PARAMS), "rows": ["adequacy"], "bounds": []},
    "C02": {"E": list(PARAMS), "rows": [], "bounds": list(PARAMS)},
    "C03": {"E": ["cap", "fin", "fout"], "rows": ["stor0", "storT"], "bounds": []},
    "C04": {"E": ["cdst", "csrc"], "rows": ["mix"], "bounds": []},
    "C05": {"E": list(PARAMS), "rows": list(ROWS), "bounds": list(PARAMS)},
    "C06": {"E": list(PARAMS), "rows": [], "bounds": []},
}


def run(eng, rep, prop):
    lp = LP(eng, rep)
    if rep.run("solve_lp: executes on an arbitrary valid study", lambda: lp.execute() or True) is None:
        return
    cfg = NEED[prop]
    if rep.run("consistent assumptions (no vacuous proof)", lambda: vacuity(lp) or True) is None:
        return
    allE = list(PARAMS)
    for E in allE:
        rep.run("solve_lp post: result of %s is the solution value of its variable" % E, lambda: lp.read(E) or True)
    if len(lp.reads) != len(allE):
        rep.obs = [o for o in rep.obs if o["status"] in ("proved", "unknown", "unsupported") or any(o["name"].split("result of ")[-1].split(" ")[0] == E for E in cfg["E"])]
        return
    for E in cfg["E"]:
        rep.run("solve_lp post: scenario s of %s comes from the model of scenario s" % E, lambda: lp.place(E) or True)
    rep.run("solve_lp post: a result only if every scenario is optimal", lambda: lp.status_ok() or True)
    for i, st in enumerate(lp.states):
        tag = "_solve_batch at Solve" + ("" if i == 0 else " (path %d)" % i)
        rep.run(tag + ": distinct elements have distinct variables", lambda: lp.injective(st) or True)
        for E in cfg["bounds"]:
            rep.run(tag + ": bounds of %s variables" % E, lambda: lp.bounds(st, E) or True)
        if cfg["rows"] or prop == "C05":
            if rep.run(tag + ": rows are identified", lambda: lp.match_rows(st) or True):
                for k in cfg["rows"]:
                    rep.run(tag + ": every %s row with its bounds and coefficients" % k, lambda: lp.row_kind(st, k) or True)
                if prop == "C05":
                    rep.run(tag + ": no other row", lambda: lp.no_extra_rows(st) or True)
        if prop in ("C01", "C03", "C04", "C05"):
            rep.run(tag + ": no variable outside the elements", lambda: lp.extra_vars(st) or True)
        if prop == "C05":
            rep.run(tag + ": objective", lambda: lp.objective(st) or True)
    if prop == "C06":
        rep.run("solve_lp: raises only when a scenario has no optimal solution", lambda: lp.raises() or True)
        rep.run("solve_lp frame: the study is not modified", lambda: lp.frame() or True)
        rep.run("solve_lp post: structure of the result", lambda: lp.structure() or True)


def cost_total(eng, rep, prop):
    """the analyzer's total is the same cost"""
    import p_aggr

    p_aggr.costs(eng, rep, prop)


def parts(prop):
    return [run] + ([cost_total] if prop == "C05" else [])
