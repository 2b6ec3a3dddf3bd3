"""C16: the shuffler. Any arrays, frames, samplers, numbers of sources and draws; pipelines by the contract of C14."""
import ast

import z3

import lib
import lib_frame as lf
from core import *  # noqa
from engine import _NONE
from lib import Val, force
from lib_frame import ROW, DF, State
from p_stage import H, M, NAME, SCN, V, both, inrange, positional, rows_kept, start
from report import *  # noqa
from schema import ArrT, DictT, Obj

MOD = "hadar.workflow.shuffler."
NB, NS, NH = z3.Const("nb_draws", I), z3.Const("raw_scenarios", I), z3.Const("raw_horizon", I)
RAW = z3.Function("raw", I, I, R)
PICK = z3.Function("pick", I, I, I, I, I)
# result of the pipeline: columns
RM = z3.Const("result_columns", I)
RS, RN, RV = z3.Function("result_scn", I, I), z3.Function("result_name", I, S), z3.Function("result_value", I, I, R)
AFTER = z3.Function("rng_after_pipeline", lf.U_, lf.U_)
COMPUTABLE, HAS_OUT = z3.Const("computable", B), z3.Const("announces_to_shuffler", B)


class Smp(Val):
    """sampler of the user: any function of (low, high, number)"""

    pytype = "builtins.function"

    def call(self, eng, args, kw):
        a = dict(zip(["low", "high", "nb"], args))
        rest = dict(kw)
        for k in ("low", "high"):
            if k in rest:
                a[k] = rest.pop(k)
        for k in ("nb", "size"):
            if k in rest:
                a["nb"] = rest.pop(k)
        if rest or len(a) != 3:
            raise Fail("sampler called with %s %s" % (args, kw))
        lo, hi, n = (lf.plainly(eng, term(force(eng, a[k]))) for k in ("low", "high", "nb"))
        k = z3.Const("k!d", I)
        f = lambda i: PICK(lo, hi, n, i)
        eng.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(f(k) >= lo, f(k) < hi)), patterns=[f(k)]))
        return lib.new_array(eng, [lib.wrap_int(n)], lambda i: Sc(f(term(i[0])), "int"))

    def __repr__(self):
        return "Smp"


class Pipe(Val):
    """a pipeline by its contract: reads the timeline, returns a new one of (scenario, name) columns with the rows kept"""

    def __init__(self, x, ts):
        self.x, self.ts, self.multi = x, ts, True

    def getattr(self, eng, name):
        if name in ("assert_computable", "assert_to_shuffler"):
            return Asserts(self, name)
        self._no("attribute " + name)

    def own(self, eng, df, what):
        df = force(eng, df)
        if not isinstance(df, DF):
            raise Fail("%s receives %r" % (what, df))
        st = df.state(eng)
        rows_kept(eng, st)
        if not st.multi and not self.multi:
            # plain form of the same data
            if not df.ref.site.startswith("given."):
                raise Unsupported("data of the pipeline")
            return
        positional(eng, st, lambda b: self.x.std(self.multi, b)[:2], lambda b: self.x.std(self.multi, b)[2])

    def call(self, eng, args, kw):
        self.own(eng, (list(args) + list(kw.values()))[0], "the pipeline")
        r = self.x.rng
        eng.write("attr", r.ref, ("state",), Sc(AFTER(r.state()), "rng"))
        j = eng.fresh("j", I)
        return lf.make(eng, State(H, "time", [Seg([j], [j >= 0, j < RM], Tup([Tup([Sc(RS(j), "int"), Sc(RN(j), "str")]), Sc(RV(ROW, j), "float")]), j, RM)], True))

    def __repr__(self):
        return "Pipe"


class Asserts(Val):
    def __init__(self, p, name):
        self.p, self.name = p, name

    def call(self, eng, args, kw):
        if self.name == "assert_computable":
            self.p.own(eng, (list(args) + list(kw.values()))[0], "assert_computable")
        if not eng.choose(COMPUTABLE if self.name == "assert_computable" else HAS_OUT):
            raise PyRaise("ValueError", (self.name,))
        return None


def setup(eng):
    x = start(eng)
    eng.prover.axiom(z3.And(NS >= 1, NH >= 0, NB >= 0, RM >= 1))
    eng.schema["rawdata"] = ArrT(RAW, lambda: (NS, NH))
    x.raw = Ref("rawdata", (), "ndarray")
    ts = eng.glob(eng.module("hadar.workflow.pipeline"), "TO_SHUFFLER")
    if not isinstance(ts, str):
        raise Unsupported("TO_SHUFFLER")
    x.ts = sconst(ts)
    j, k = z3.Const("j", I), z3.Const("k!", I)
    eng.prover.axiom(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < RM, k >= 0, k < RM, RS(j) == RS(k), RN(j) == RN(k)), j == k), patterns=[z3.MultiPattern(RN(j), RN(k))]))
    j0 = z3.Const("a_result_column", I)
    x.facts = [j0 >= 0, j0 < RM, RN(j0) == x.ts]
    x.pipe = Pipe(x, x.ts)
    x.n = 0

    def urandom(eng, a, kw):
        return lib.Opaque("entropy")

    eng.trusted.add("Pipeline.__call__, assert_computable, assert_to_shuffler by their contracts (C14)")
    eng.assumptions.add("the pipeline of a source gives a column to_shuffler (it announces it); its stages leave the random generator in a state that is a function of the one before (Stage.__call__ reseeds from the system)")
    return x


def frame_cond(log):
    for w in log:
        if isinstance(w, W) and (w.ref.site == "rawdata" or w.ref.site.startswith("given.")):
            raise Fail("registered data are modified: %r" % (w,))


def check_rows(eng, x, r, kind, sampler):
    """r: rows of the source picked by the sampler"""
    r = force(eng, r)
    if kind == "raw":
        if not (isinstance(r, Ref) and r.cls == "ndarray"):
            raise Fail("sample gives %r" % (r,))
        sh = lib.array_shape(eng, r)
        if len(sh) != 2:
            raise Fail("shape of the sample: %s" % (sh,))
        need(eng, z3.And(sh[0] == NB, sh[1] == NH), "shape of the sample")
        i, t = z3.Const("draw", I), z3.Const("step", I)
        pc = list(eng.pc)
        eng.pc += [i >= 0, i < NB, t >= 0, t < NH]
        v = term(force(eng, lib.cell(eng, r, [Sc(i, "int"), Sc(t, "int")])))
        if sampler == "user":
            need(eng, v == RAW(PICK(z3.IntVal(0), NS, NB, i), t), "row i is the scenario that the sampler picked, over the whole range")
        else:
            d = draw(eng, x, NS)
            need(eng, v == RAW(d.at(i), t), "row i is the scenario drawn, over the whole range")
        eng.pc = pc
        return
    if not isinstance(r, lf.Picked) or not r.m.tr:
        raise Unsupported("rows of a pipeline: %r" % (r,))
    st = r.m.st
    need(eng, st.rows == H, "every step of the scenario")
    if len(st.segs) != 1 or len(st.segs[0].binders) != 1 or st.segs[0].index is None or not st.segs[0].index.eq(st.segs[0].binders[0]):
        raise Unsupported("columns in another form")
    s = st.segs[0]
    b = s.binders[0]
    need(eng, conj(list(s.guard)) == z3.And(b >= 0, b < RM, RN(b) == x.ts), "scenarios are the columns to_shuffler, each once")
    pc = list(eng.pc)
    eng.pc += list(s.guard)
    need(eng, term(s.elem.items[1]) == RV(ROW, b), "values of a scenario are those of its column")
    eng.pc = pc
    cnt = lf.count(eng, st.segs)
    sh = lib.array_shape(eng, r.ix)
    if len(sh) != 1:
        raise Fail("draws of shape %s" % (sh,))
    need(eng, sh[0] == NB, "number of draws")
    i = z3.Const("draw", I)
    eng.pc += [i >= 0, i < NB]
    v = term(force(eng, lib.cell(eng, r.ix, [Sc(i, "int")])))
    if sampler == "user":
        need(eng, v == PICK(z3.IntVal(0), cnt, NB, i), "row i is the scenario that the sampler picked, over the whole range")
    else:
        need(eng, v == draw(eng, x, cnt).at(i), "row i is the scenario drawn, over the whole range")
    eng.pc = pc


def draw(eng, x, hi):
    d = [d for d in x.rng.draws() if eng.prove(z3.And(d.lo == 0, d.hi == hi, d.n == NB))]
    if not d:
        raise Fail("no draw over [0, number of scenarios)")
    return d[-1]


def make_tl(eng, x, kind, sampler):
    kw = {} if sampler == "default" else {"sampler": Smp()}
    if kind == "raw":
        return eng.instantiate(eng.cls(MOD + "Timeline"), [x.raw], kw)
    return eng.instantiate(eng.cls(MOD + "TimelinePipeline"), [x.given(x.pipe.multi), x.pipe], kw)


KINDS = (("raw", True), ("pipeline", True), ("pipeline", False))
LABEL = {("raw", True): "raw array", ("pipeline", True): "pipeline, several scenarios", ("pipeline", False): "pipeline, plain columns"}


def each(eng, x, build, act, check, facts=()):
    """build in the initial state, then act on all paths"""
    lf.UNIQ.clear()
    eng.reset()
    eng.load(x.base, x.facts + list(facts))
    o0 = build()
    if eng.alts is not None:
        raise Unsupported("constructor forks")
    base, pc0 = list(eng.log), list(eng.pc)
    frame_cond(base)
    kinds = set()
    for o in eng.explore(lambda: act(o0)):
        eng.load(base + o.log, pc0 + o.pc)
        if eng.prove(z3.BoolVal(False)):
            continue
        frame_cond(o.log)
        kinds.add(o.kind)
        check(o, o0)
    return kinds


def returns(o):
    if o.kind == "raise":
        raise Fail("raises %s %s" % (o.val.cls, o.val.where))
    return o.val


def sampling(eng, rep, prop):
    x = setup(eng)
    for kind, multi in KINDS:
        for sampler in ("user", "default"):
            def one():
                x.pipe.multi = multi

                def check(o, _):
                    check_rows(eng, x, returns(o), kind, sampler)

                each(eng, x, lambda: make_tl(eng, x, kind, sampler), lambda tl: eng.call(eng.getattr(tl, "sample"), [Sc(NB, "int")], {}), check)

            rep.run("C16 sample(nb): %s, %s sampler" % (LABEL[kind, multi], sampler), one)


def registering(eng, rep, prop):
    """Shuffler(), add_data, add_pipeline, then the work of one source as the workers do it"""
    x = setup(eng)
    Sh = eng.cls(MOD + "Shuffler")
    nm, other = z3.Const("source_name", S), z3.Const("other_name", S)
    f = eng.glob(eng.module(MOD[:-1]), "compute")

    for kind, multi in KINDS:
        for sampler in ("user", "default"):
            def one():
                x.pipe.multi = multi

                def build():
                    sh = eng.instantiate(Sh, [] if sampler == "default" else [Smp()], {})
                    if isinstance(eng.getattr(sh, "sampler"), Ext) and eng.getattr(sh, "sampler").name.startswith("numpy.random."):
                        raise Fail("the default sampler is a method of a generator: it is sent to each worker with a copy of its state, sources are not drawn on their own")
                    return sh

                def act(sh):
                    if kind == "raw":
                        r = eng.call(eng.getattr(sh, "add_data"), [Sc(nm, "str"), x.raw], {})
                    else:
                        r = eng.call(eng.getattr(sh, "add_pipeline"), [Sc(nm, "str"), x.given(multi), x.pipe], {})
                    tls = eng.getattr(sh, "timelines")
                    segs = lib.View(tls, "items").iterate(eng).segs
                    if len(segs) != 1 or segs[0].binders or segs[0].guard:
                        raise Fail("one source was registered, the shuffler holds %s" % (segs,))
                    k, tl = segs[0].elem.items
                    need(eng, lf.lib_eq(eng, k, Sc(nm, "str")), "the source is under its name")
                    v = eng.call(f, [Tup([force(eng, tl), Sc(NB, "int"), k])], {})
                    return Tup([r, v])

                def check(o, sh):
                    ok = z3.And(COMPUTABLE, HAS_OUT) if kind != "raw" else z3.BoolVal(True)
                    if o.kind == "raise":
                        if "ValueError" not in lib.exc_names(eng, o.val.cls):
                            raise Fail("raises %s %s" % (o.val.cls, o.val.where))
                        need(eng, z3.Not(ok), "refused only when the pipeline cannot run on the data or gives no to_shuffler")
                        return
                    r, v = o.val.items
                    if not (isinstance(r, Ref) and r.site == sh.site):
                        raise Fail("add returns %r" % (r,))
                    v = force(eng, v)
                    n, rows = eng.unpack(v, 2)
                    need(eng, lf.lib_eq(eng, n, Sc(nm, "str")), "the rows are under the name of their source")
                    check_rows(eng, x, rows, kind, sampler)
                    if sampler == "default":
                        for d in x.rng.draws():
                            if not mentions(d.r, z3.Const("entropy", I)) or mentions(d.r, lf.RNG0):
                                raise Fail("the draw of a worker depends on the random state it inherits: other sources and calls get the same")

                kinds = each(eng, x, build, act, check)
                if "ok" not in kinds or (kind != "raw" and "raise" not in kinds):
                    raise Fail("outcomes %s" % sorted(kinds))

            rep.run("C16 registered and drawn: %s, %s sampler" % (LABEL[kind, multi], sampler), one)

    # other sources are kept
    for kind in ("raw", "pipeline"):
        def keep():
            x.pipe.multi = True
            old = z3.Const("old_name", S)

            def build():
                sh = eng.instantiate(Sh, [], {})
                eng.call(eng.getattr(sh, "add_data"), [Sc(old, "str"), x.raw], {})
                return sh

            def act(sh):
                before = force(eng, eng.getitem(eng.getattr(sh, "timelines"), Sc(old, "str")))
                if kind == "raw":
                    eng.call(eng.getattr(sh, "add_data"), [Sc(nm, "str"), x.raw], {})
                else:
                    eng.call(eng.getattr(sh, "add_pipeline"), [Sc(nm, "str"), x.given(True), x.pipe], {})
                return Tup([before, force(eng, eng.getitem(eng.getattr(sh, "timelines"), Sc(old, "str"))), eng.getattr(sh, "timelines")])

            def check(o, sh):
                a, b, tls = returns(o).items
                if not (isinstance(a, Ref) and isinstance(b, Ref) and a.site == b.site):
                    raise Fail("a source registered before is replaced")
                for k in (old, nm):
                    need(eng, lf.boolterm(eng.member(Sc(k, "str"), tls)), "both sources are registered")
                n = lib.View(tls, "items").iterate(eng).segs
                if len(n) != 2:
                    raise Fail("%d sources" % len(n))

            each(eng, x, build, act, check, [nm != old, COMPUTABLE, HAS_OUT])

        rep.run("C16 a source (%s) does not touch the others" % kind, keep)

    # the same name again: the last source counts
    def again():
        x.pipe.multi = True

        def build():
            sh = eng.instantiate(Sh, [Smp()], {})
            eng.call(eng.getattr(sh, "add_pipeline"), [Sc(nm, "str"), x.given(True), x.pipe], {})
            return sh

        def act(sh):
            eng.call(eng.getattr(sh, "add_data"), [Sc(nm, "str"), x.raw], {})
            tl = force(eng, eng.getitem(eng.getattr(sh, "timelines"), Sc(nm, "str")))
            return eng.call(f, [Tup([tl, Sc(NB, "int"), Sc(nm, "str")])], {})

        def check(o, sh):
            check_rows(eng, x, eng.unpack(force(eng, returns(o)), 2)[1], "raw", "user")

        each(eng, x, build, act, check, [COMPUTABLE, HAS_OUT])

    rep.run("C16 a name registered again has the last source", again)


DOM, POS, AT, NTL = z3.Function("registered", S, B), z3.Function("pos_source", S, I), z3.Function("at_source", I, S), z3.Const("n_sources", I)
ROWS = z3.Function("rows_of", S, I, I)


class Rows(Val):
    """result of the work on one source"""

    def __init__(self, name, n):
        self.name, self.n = name, n

    def subst(self, pairs):
        return Rows(z3.substitute(self.name, *pairs), z3.substitute(self.n, *pairs)) if pairs else self

    def mentions(self, c):
        return mentions(self.name, c) or mentions(self.n, c)

    def __repr__(self):
        return "Rows(%s,%s)" % (self.name, self.n)


def shuffling(eng, rep, prop):
    """shuffle(n) over any number of sources; the work on one source by its contract (proved in the same check)"""
    Sh, Tl = eng.cls(MOD + "Shuffler"), eng.cls(MOD + "Timeline")
    a, j = z3.Const("a", S), z3.Const("j", I)
    ax = eng.prover.axiom
    ax(z3.And(NTL >= 0, NB >= 0))
    ax(z3.ForAll([a], z3.Implies(DOM(a), z3.And(POS(a) >= 0, POS(a) < NTL, AT(POS(a)) == a)), patterns=[POS(a)]))
    ax(z3.ForAll([a], z3.Implies(DOM(a), z3.And(POS(a) >= 0, POS(a) < NTL, AT(POS(a)) == a)), patterns=[DOM(a)]))
    ax(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < NTL), z3.And(DOM(AT(j)), POS(AT(j)) == j)), patterns=[AT(j)]))
    eng.INJ[POS.name()], eng.INV[POS.name()] = 0, AT
    eng.schema["sources"] = DictT("src", DOM, POS, AT, lambda: NTL, lambda k: Ref("source", [k], Tl))
    eng.schema["source"] = Obj(Tl, {"data": lambda k: lib.Opaque("data"), "sampler": lambda k: lib.Opaque("sampler")})
    eng.schema["shuffler"] = Obj(Sh, {"timelines": lambda: Ref("sources", (), "dict"), "sampler": lambda: lib.Opaque("sampler")})
    given = set(eng.schema)
    f = eng.glob(eng.module(MOD[:-1]), "compute")
    eng.trusted.add("multiprocessing.Pool.map: the function on a copy of each argument, results in order")
    eng.trusted.add("compute((source, nb, name)) by its contract (proved in the same check)")

    def work(eng, args, kw):
        p = force(eng, (list(args) + list(kw.values()))[0])
        tl, n, name = (force(eng, y) for y in eng.unpack(p, 3))
        if not (isinstance(tl, Ref) and tl.site == "source"):
            raise Unsupported("work on %r" % (tl,))
        return Tup([name, Rows(tl.args[0], term(n))])

    eng.contracts[f.name] = work

    def one():
        eng.reset()
        n = 0
        for o in eng.explore(lambda: eng.call(eng.getattr(Ref("shuffler", (), Sh), "shuffle"), [Sc(NB, "int")], {})):
            eng.load(o.log, o.pc)
            for w in o.log:
                if isinstance(w, W) and w.ref.site in given:
                    raise Fail("shuffle modifies the shuffler: %r" % (w,))
            r = returns(o)
            if not (isinstance(r, Ref) and r.cls == "dict"):
                raise Fail("shuffle gives %r" % (r,))
            k = z3.Const("any_source", S)
            pc = list(eng.pc)
            for q in paths(eng, [], lambda: Tup([True, force(eng, eng.getitem(r, Sc(k, "str")))]) if eng.truth(eng.compare(ast.In(), Sc(k, "str"), r)) is True else Tup([False, None])):
                has, v = q.val.items
                eng.pc = pc + q.pc
                need(eng, DOM(k) if has else z3.Not(DOM(k)), "exactly the registered names")
                if not has:
                    continue
                if not isinstance(v, Rows):
                    raise Fail("rows of a source: %r" % (v,))
                need(eng, z3.And(v.name == k, v.n == NB), "rows under a name come from the source of that name, as many as asked")
            eng.pc = pc
            n += 1
        if not n:
            raise Fail("shuffle never returns")

    rep.run("C16 shuffle(nb): any number of sources", one)
    eng.contracts.pop(f.name)


def parts(prop):
    return [sampling, registering, shuffling]
