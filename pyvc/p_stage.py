"""C15 (and the stage part of C14): the built-in stages on timelines of any number of rows, columns and scenarios."""
import itertools

import z3

import lib
import lib_frame as lf
from core import *  # noqa
from engine import NeedCarry, _NONE
from lib import Val, force
from lib_frame import ROW, DF, State, Labels
from p_pipe import MOD, NamesT, names_list, has, subset, boolt
from report import *  # noqa
from schema import DictT, ListT, Obj

M, H = z3.Const("n_columns", I), z3.Const("n_rows", I)
SCN, NAME, V = z3.Function("scn", I, I), z3.Function("name", I, S), z3.Function("value", I, I, R)
NAME1, V1 = z3.Function("name1", I, S), z3.Function("value1", I, I, R)
j = z3.Const("j", I)


def inrange(x):
    return z3.And(x >= 0, x < M)


class Frames:
    """a timeline given by the user: with (scenario, name) columns or with plain ones"""

    def __init__(self, eng):
        self.eng = eng
        k = z3.Const("k!", I)
        eng.prover.axiom(M >= 1)
        eng.prover.axiom(H >= 1)
        eng.prover.axiom(ROW < H)
        # labels are distinct
        eng.prover.axiom(z3.ForAll([j, k], z3.Implies(z3.And(inrange(j), inrange(k), SCN(j) == SCN(k), NAME(j) == NAME(k)), j == k), patterns=[z3.MultiPattern(NAME(j), NAME(k))]))
        eng.prover.axiom(z3.ForAll([j, k], z3.Implies(z3.And(inrange(j), inrange(k), NAME1(j) == NAME1(k)), j == k), patterns=[z3.MultiPattern(NAME1(j), NAME1(k))]))
        seg = lambda lab, v: Seg([j], [j >= 0, j < M], Tup([lab, Sc(v, "float")]), j, M)
        self.states = {True: State(H, "time", [seg(Tup([Sc(SCN(j), "int"), Sc(NAME(j), "str")]), V(ROW, j))], True), False: State(H, "time", [seg(Sc(NAME1(j), "str"), V1(ROW, j))], False)}
        for m in (True, False):
            eng.schema["given.%s" % m] = Obj(None, {"state": lambda m=m: self.states[m]})
        eng.assumptions.add("columns of a timeline have distinct labels; scenarios are numbered by integers")

    def given(self, multi):
        return DF(Ref("given.%s" % multi, (), "DataFrame"))

    def std(self, multi, x):
        """(scenario, name, value) of column x of the standard form"""
        return (SCN(x), NAME(x), V(ROW, x)) if multi else (z3.IntVal(0), NAME1(x), V1(ROW, x))


def start(eng):
    x = Frames(eng)
    x.rng = lf.install(eng)
    x.base = list(eng.log)
    return x


def unchanged(o):
    for w in o.log:
        if isinstance(w, W) and w.ref.site.startswith("given."):
            raise Fail("the data given are modified: %r" % (w,))


def rows_kept(eng, st):
    if st.index != "time":
        raise Fail("the time index is not kept: %s" % (st.index,))
    need(eng, st.rows == H, "number of rows")


def positional(eng, st, label, value, keep=None):
    """the frame has, in the order of the columns x of the standard form (those with keep(x)), the column label(x), value(x)"""
    if not st.multi:
        raise Fail("columns without scenario")
    if len(st.segs) != 1 or len(st.segs[0].binders) != 1:
        raise Unsupported("columns in another form")
    s = st.segs[0]
    b = s.binders[0]
    if s.index is None or not s.index.eq(b):
        raise Unsupported("columns in an unknown order")
    eng2 = list(eng.pc)
    need(eng, conj(list(s.guard)) == z3.And(inrange(b), keep(b) if keep else z3.BoolVal(True)), "columns kept")
    eng.pc = eng2 + list(s.guard)
    lab, v = s.elem.items
    sc, nm = label(b)
    need(eng, lf.lib_eq(eng, lab.items[0], Sc(sc, "int")), "scenario of a column")
    need(eng, lf.lib_eq(eng, lab.items[1], Sc(nm, "str")), "name of a column")
    need(eng, term(v) == value(b), "values of a column")
    eng.pc = eng2


def runs(eng, x, build, multi, inputs, check, what, facts=(), pre=None):
    """stage = build(); stage(timeline): ValueError exactly when an input is missing, else check(outcome)"""
    eng.reset()
    eng.load(x.base, list(facts))
    stage = build()
    if eng.alts is not None:
        raise Unsupported("constructor forks")
    base, pc0 = list(eng.log), list(eng.pc)
    df = x.given(multi)
    outs = eng.explore(lambda: eng.call(stage, [df], {}))
    kinds = set()
    for o in outs:
        eng.load(base + o.log, pc0 + o.pc)
        if eng.prove(z3.BoolVal(False)):
            continue
        unchanged(o)
        names = Labels([Seg([j], [j >= 0, j < M], Sc(x.std(multi, j)[1], "str"), j, M)], False)
        avail = lambda nm: names.member(eng, Sc(nm, "str"))
        ok = inputs(avail)
        if o.kind == "raise":
            if "ValueError" not in lib.exc_names(eng, o.val.cls):
                raise Fail("%s raises %s %s" % (what, o.val.cls, o.val.where))
            need(eng, z3.Not(ok), "raises only when an input is missing")
            kinds.add("raise")
            continue
        kinds.add("ok")
        need(eng, ok, "inputs are checked")
        r = force(eng, o.val)
        if not isinstance(r, DF):
            raise Fail("%s returns %r" % (what, r))
        if r.ref.site.startswith("given."):
            raise Fail("%s returns the data given themselves" % what)
        check(o, r.state(eng), stage)
    if "ok" not in kinds:
        raise Fail("%s always raises" % what)


def both(rep, name, fn):
    for multi in (True, False):
        rep.run("%s: %s" % (name, "several scenarios" if multi else "one scenario"), lambda: fn(multi))


# ------------------------------------------------------------------------------------------- the stages
def clip(eng, rep, prop):
    x = start(eng)
    lo, up = z3.Real("lower"), z3.Real("upper")
    for hl in (True, False):
        for hu in (True, False):
            def one(multi):
                def val(v):
                    c = v
                    if hu:
                        c = z3.If(c > up, up, c)
                    if hl:
                        c = z3.If(v < lo, lo, c)
                    return c

                def check(o, st, stage):
                    rows_kept(eng, st)
                    positional(eng, st, lambda b: x.std(multi, b)[:2], lambda b: val(x.std(multi, b)[2]))

                C = eng.cls(MOD + "Clip")
                runs(eng, x, lambda: eng.instantiate(C, [], {"lower": Sc(lo, "float") if hl else None, "upper": Sc(up, "float") if hu else None}), multi, lambda av: z3.BoolVal(True), check, "Clip", [lo <= up] if hl and hu else [])

            both(rep, "C15 Clip(%s)" % ", ".join((["lower"] if hl else []) + (["upper"] if hu else [])), one)


DOM, NEW = z3.Function("renamed", S, B), z3.Function("new_name", S, S)


def rename(eng, rep, prop):
    x = start(eng)
    n = z3.Const("n_renamed", I)
    pos, at = z3.Function("pos_renamed", S, I), z3.Function("at_renamed", I, S)
    eng.schema["renames"] = DictT("ren", DOM, pos, at, lambda: n, lambda k: Sc(NEW(k), "str"))
    nm = z3.Const("nm!", S)
    C = eng.cls(MOD + "Rename")

    def one(multi):
        def check(o, st, stage):
            rows_kept(eng, st)

            def lab(b):
                s, n_, _ = x.std(multi, b)
                return s, z3.If(DOM(n_), NEW(n_), n_)

            positional(eng, st, lab, lambda b: x.std(multi, b)[2])

        runs(eng, x, lambda: eng.instantiate(C, [], {"**": Ref("renames", (), "dict")}), multi, lambda av: z3.ForAll([nm], z3.Implies(DOM(nm), av(nm))), check, "Rename")

    both(rep, "C15 Rename(any names)", one)
    old = z3.Const("result_name", S)

    def shuf(multi):
        def check(o, st, stage):
            rows_kept(eng, st)

            def lab(b):
                s, n_, _ = x.std(multi, b)
                return s, z3.If(n_ == old, sconst(eng_const), n_)

            positional(eng, st, lab, lambda b: x.std(multi, b)[2])

        eng_const = eng.glob(eng.module(MOD[:-1]), "TO_SHUFFLER")
        if not isinstance(eng_const, str):
            raise Unsupported("TO_SHUFFLER")
        runs(eng, x, lambda: eng.instantiate(eng.cls(MOD + "ToShuffler"), [Sc(old, "str")], {}), multi, lambda av: av(old), check, "ToShuffler")

    both(rep, "C15 ToShuffler(any name)", shuf)


def drop(eng, rep, prop):
    x = start(eng)
    C = eng.cls(MOD + "Drop")
    T = NamesT(eng, "dropped")
    eng.schema["dropped"] = T
    one_name = z3.Const("one_name", S)
    nm = z3.Const("nm!", S)
    for kind in ("a list of names", "one name"):
        dropped = (lambda n_: T.l.has(n_)) if kind != "one name" else (lambda n_: n_ == one_name)

        def one(multi):
            def check(o, st, stage):
                rows_kept(eng, st)
                positional(eng, st, lambda b: x.std(multi, b)[:2], lambda b: x.std(multi, b)[2], keep=lambda b: z3.Not(dropped(x.std(multi, b)[1])))

            arg = Ref("dropped", (), "list") if kind != "one name" else Sc(one_name, "str")
            runs(eng, x, lambda: eng.instantiate(C, [arg], {}), multi, lambda av: z3.ForAll([nm], z3.Implies(dropped(nm), av(nm))), check, "Drop")

        both(rep, "C15 Drop(%s)" % kind, one)


def repeat(eng, rep, prop):
    x = start(eng)
    C = eng.cls(MOD + "RepeatScenario")
    n = z3.Const("n_repeat", I)

    def one(multi):
        def check(o, st, stage):
            rows_kept(eng, st)
            if not st.multi:
                raise Fail("columns without scenario")
            if len(st.segs) != 1 or len(st.segs[0].binders) != 2 or lf.lex_of(st.segs[0]) is None:
                raise Unsupported("columns in another form")
            s = st.segs[0]
            (i, ni), (b, nb) = lf.lex_of(s)
            need(eng, z3.And(ni == n, nb == M), "n copies of every column")
            need(eng, conj(list(s.guard)) == z3.And(i >= 0, i < n, inrange(b)), "n copies of every column, and none else")
            eng.pc += list(s.guard)
            lab, v = s.elem.items
            sc, nm, val = x.std(multi, b)
            need(eng, lf.lib_eq(eng, lab.items[1], Sc(nm, "str")), "name of a column")
            need(eng, term(v) == val, "values of a column")
            # rank of the scenario among those of the timeline
            if multi:
                u = [q for q in lf.UNIQ.values() if q[3] == I]
                if len(u) != 1:
                    raise Unsupported("rank of the scenario")
                num, rank = u[0][0], u[0][2](sc)
            else:
                num, rank = z3.IntVal(1), z3.IntVal(0)
            need(eng, lf.lib_eq(eng, lab.items[0], Sc(i * num + rank, "int")), "number of a scenario: copy * scenarios + rank")

        lf.UNIQ.clear()
        runs(eng, x, lambda: eng.instantiate(C, [Sc(n, "int")], {}), multi, lambda av: z3.BoolVal(True), check, "RepeatScenario", [n >= 1])

    both(rep, "C15 RepeatScenario(any n)", one)


# processed scenario s: any number of columns, any labels and values
PM, PN, PV = z3.Function("p_columns", I, I), z3.Function("p_name", I, I, S), z3.Function("p_value", I, I, I, R)


def focus(eng, rep, prop):
    """FocusStage over any _process_scenarios: each scenario is processed once with its own data, the results are put together
    under the same scenario"""
    x = start(eng)
    F = eng.cls(MOD + "FocusStage")
    outs_T = NamesT(eng, "f_out")
    eng.schema["f_out"] = outs_T
    s_ = z3.Const("s!", I)
    nm = z3.Const("nm!", S)
    c_ = z3.Const("c!", I)
    eng.assumptions.add("FocusStage._process_scenarios of a user's stage gives the columns it announces (distinct names) and keeps the rows")
    k_ = z3.Const("k!", I)
    pos = z3.Function("p_where", I, S, I)
    eng.prover.axiom(z3.ForAll([s_, nm], z3.Implies(outs_T.l.has(nm), z3.And(pos(s_, nm) >= 0, pos(s_, nm) < PM(s_), PN(s_, pos(s_, nm)) == nm)), patterns=[z3.MultiPattern(PM(s_), outs_T.l.has(nm))]))
    eng.prover.axiom(z3.ForAll([s_], PM(s_) >= 0, patterns=[PM(s_)]))

    def process(eng, args, kw):
        a = dict(zip(["self", "n_scn", "scenario"], args), **kw)
        n, df = force(eng, a["n_scn"]), force(eng, a["scenario"])
        if not isinstance(df, DF) or not is_scalar(n) or term(n).sort() != I:
            raise Fail("_process_scenarios(%r, %r)" % (n, df))
        if df.ref.site.startswith("given.") or not all(any(b.eq(y) for y in df.ref.args) for b in eng.binders):
            raise Fail("a stage receives data that are not its own copy")
        st = df.state(eng)
        t = term(n)
        if st.multi or st.index != "time" or len(st.segs) != 1 or len(st.segs[0].binders) != 1:
            raise Unsupported("data of a scenario")
        q = st.segs[0]
        b = q.binders[0]
        m = process.multi
        sc, na, va = x.std(m, b)
        need(eng, conj(list(q.guard)) == z3.And(inrange(b), sc == t), "a scenario receives its own columns")
        pc = list(eng.pc)
        eng.pc += list(q.guard)
        need(eng, z3.And(lf.lib_eq(eng, q.elem.items[0], Sc(na, "str")), term(q.elem.items[1]) == va), "a scenario receives its own values")
        eng.pc = pc
        # it may modify what it received
        df.put(eng, Unknown("data given to a stage"))
        c = eng.fresh("c", I)
        i = z3.Const("i!", I)
        e = outs_T.l.e(i)
        eng.pc.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < outs_T.l.n), z3.And(pos(t, e) >= 0, pos(t, e) < PM(t), PN(t, pos(t, e)) == e)), patterns=[e]))
        return lf.make(eng, State(H, "time", [Seg([c], [c >= 0, c < PM(t)], Tup([Sc(PN(t, c), "str"), Sc(PV(ROW, t, c), "float")]), c, PM(t))], False))

    f, _ = F.find("_process_scenarios")
    if f is None:
        rep.add("C15 FocusStage", "unsupported", "no _process_scenarios")
        return
    eng.contracts[f.name] = process

    def one(multi):
        process.multi = multi

        def build():
            plug = eng.instantiate(eng.cls(MOD + "RestrictedPlug"), [names_list(eng, "f_in"), Ref("f_out", (), "list")], {})
            return eng.instantiate(F, [plug], {})

        def check(o, st, stage):
            rows_kept(eng, st)
            if not st.multi:
                raise Fail("columns without scenario")
            scn = lambda a: z3.Exists([k_], z3.And(inrange(k_), x.std(multi, k_)[0] == a))
            # every column of the result is one of the scenario it is under
            for q in lf.freshen(eng, st.segs):
                pc = list(eng.pc)
                eng.pc += list(q.guard)
                lab, v = q.elem.items
                a, n = term(force(eng, lab.items[0])), term(force(eng, lab.items[1]))
                need(eng, z3.Exists([c_], z3.And(c_ >= 0, c_ < PM(a), PN(a, c_) == n, PV(ROW, a, c_) == term(v))), "a column under a scenario comes from that scenario")
                eng.pc = pc
            # every column of every processed scenario is there
            kk, cc = z3.Const("a_column", I), z3.Const("a_result", I)
            pc = list(eng.pc)
            a = x.std(multi, kk)[0]
            eng.pc += [inrange(kk), cc >= 0, cc < PM(a)]
            alts = []
            for q in lf.freshen(eng, st.segs):
                lab, v = q.elem.items
                g = conj(list(q.guard) + [term(force(eng, lab.items[0])) == a, term(force(eng, lab.items[1])) == PN(a, cc), term(v) == PV(ROW, a, cc)])
                # witnesses
                u = [y for y in lf.UNIQ.values() if y[3] == I]
                cand = [cc, kk, z3.Function("pos_f_out", S, I)(PN(a, cc))] + [y[2](a) for y in u]
                for c in itertools.product(cand, repeat=len(q.binders)):
                    alts.append(z3.simplify(z3.substitute(g, *zip(q.binders, c)) if q.binders else g))
            need(eng, disj(alts), "every column of a processed scenario is in the result, under the same scenario")
            eng.pc = pc

        fin = lambda: eng.schema["f_in"].l
        lf.UNIQ.clear()
        runs(eng, x, build, multi, lambda av: z3.ForAll([nm], z3.Implies(fin().has(nm), av(nm))), check, "FocusStage")

    both(rep, "C15 FocusStage(any stage, any number of scenarios)", one)


def fault(eng, rep, prop):
    x = start(eng)
    C = eng.cls(MOD + "Fault")
    loss, freq = z3.Real("loss"), z3.Real("freq")
    dmin, dmax, seed = z3.Ints("downtime_min downtime_max seed")
    facts = [freq >= 0, freq <= 1, dmin >= 0, dmin < dmax]
    q = sconst("quantity")
    jq = z3.Const("column_quantity", I)
    for seeded in (True, False):
        def one():
            lf.UNIQ.clear()
            eng.reset()
            eng.load(x.base, facts + [inrange(jq), NAME1(jq) == q])
            st0 = x.states[False]
            stage = eng.instantiate(C, [], {"loss": Sc(loss, "float"), "occur_freq": Sc(freq, "float"), "downtime_min": Sc(dmin, "int"), "downtime_max": Sc(dmax, "int"), "seed": Sc(seed, "int") if seeded else None})
            for what in ("inputs", "outputs"):
                l = [s.elem for s in eng.contents(eng.getattr(eng.getattr(stage, "plug"), what)).segs]
                if l != ["quantity"]:
                    raise Fail("%s of Fault are %s" % (what, l))
            df = lf.make(eng, st0)
            base, pc0 = list(eng.log), list(eng.pc)
            outs = eng.explore(lambda: eng.call(eng.getattr(stage, "_process_scenarios"), [Sc(z3.Const("scn_number", I), "int"), df], {}))
            n = 0
            for o in outs:
                eng.load(base + o.log, pc0 + o.pc)
                if eng.prove(z3.BoolVal(False)):
                    continue
                unchanged(o)
                if o.kind == "raise":
                    raise Fail("Fault raises %s %s" % (o.val.cls, o.val.where))
                n += 1
                r = force(eng, o.val)
                if not isinstance(r, DF):
                    raise Fail("Fault returns %r" % (r,))
                st = r.state(eng)
                rows_kept(eng, st)
                if st.multi or len(st.segs) != 1 or len(st.segs[0].binders) != 1:
                    raise Unsupported("columns in another form")
                s = st.segs[0]
                b = s.binders[0]
                need(eng, conj(list(s.guard)) == inrange(b), "columns kept")
                pc = eng.pc = list(eng.pc) + list(s.guard)
                need(eng, lf.lib_eq(eng, s.elem.items[0], Sc(NAME1(b), "str")), "names kept")
                v = term(s.elem.items[1])
                need(eng, z3.Implies(NAME1(b) != q, v == V1(ROW, b)), "other columns are not touched")
                eng.pc = pc + [NAME1(b) == q]
                draws = x.rng.draws()
                why = None
                done = False
                for db in draws:
                    for dd in draws:
                        if db is dd or done:
                            continue
                        if not (eng.prove(z3.And(db.lo == 0, db.hi == H, dd.lo == dmin, dd.hi == dmax, db.n == dd.n))):
                            continue
                        k = eng.fresh("k", I)
                        total = eng.sum_term([k], [k >= 0, k < db.n, db.at(k) <= ROW, ROW < db.at(k) + dd.at(k)], loss)
                        if eng.prove(v == V1(ROW, b) - total, timeout=6000):
                            done = True
                if not done:
                    raise Fail("quantity is not the one given less the losses of windows that start in the horizon and last [min, max): %s" % str(v)[:600])
                eng.pc = pc + [NAME1(b) == q, freq == 0]
                need(eng, v == V1(ROW, b), "frequency 0: nothing changes")
                eng.pc = pc
                if seeded and (mentions(v, lf.RNG0) or mentions(v, z3.Const("entropy", I))):
                    raise Fail("with a seed the result still depends on the random state before")
                if not seeded and not mentions(v, lf.RNG0):
                    raise Fail("without seed the result does not depend on the random state")
            if not n:
                raise Fail("Fault never returns")

        rep.run("C15 Fault._process_scenarios, %s" % ("with seed" if seeded else "without seed"), one)


# ------------------------------------------------------------------------------------------- C14
class Token(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Token(%s)" % self.name


def stage_call(eng, rep, prop):
    """contract of Stage.__call__, standardize_column, get_names used by the pipeline"""
    x = start(eng)
    St = eng.cls(MOD + "Stage")

    def std(multi):
        eng.reset()
        eng.load(x.base, [])
        outs = eng.explore(lambda: eng.call(St.find("standardize_column")[0], [x.given(multi)], {}))
        for o in outs:
            eng.load(x.base + o.log, o.pc)
            unchanged(o)
            if o.kind == "raise":
                raise Fail("standardize_column raises %s" % o.val.cls)
            r = force(eng, o.val)
            if not isinstance(r, DF):
                raise Fail("standardize_column returns %r" % (r,))
            st = r.state(eng)
            rows_kept(eng, st)
            positional(eng, st, lambda b: x.std(multi, b)[:2], lambda b: x.std(multi, b)[2])

    both(rep, "C14 Stage.standardize_column", std)
    nm = Sc(z3.Const("any_name", S), "str")

    def names():
        lf.UNIQ.clear()
        eng.reset()
        eng.load(x.base, [])
        for o in eng.explore(lambda: eng.call(St.find("get_names")[0], [x.given(True)], {})):
            eng.load(x.base + o.log, o.pc)
            unchanged(o)
            if o.kind == "raise":
                raise Fail("get_names raises %s" % o.val.cls)
            k = z3.Const("k!", I)
            need(eng, boolt(eng, eng.wrap(lf.boolterm(eng.member(nm, o.val)))) == z3.Exists([k], z3.And(inrange(k), NAME(k) == nm.t)), "names are those of the columns")

    rep.run("C14 Stage.get_names", names)
    f, _ = St.find("_process_timeline")
    calls = eng.alloc("ghost", "calls")

    def process(eng, args, kw):
        df = force(eng, (list(args[1:]) + list(kw.values()))[0])
        if not isinstance(df, DF):
            raise Fail("_process_timeline receives %r" % (df,))
        if df.ref.site.startswith("given."):
            raise Fail("a stage receives the data given, not a copy")
        n = eng.getattr_raw(calls, "n")
        eng.write("attr", calls, ("n",), (0 if n is _NONE else n) + 1)
        st = df.state(eng)
        rows_kept(eng, st)
        positional(eng, st, lambda b: x.std(process.multi, b)[:2], lambda b: x.std(process.multi, b)[2])
        df.put(eng, Unknown("data given to a stage"))
        return Token("result")

    eng.contracts[f.name] = process
    for free in (True, False):
        def call(multi):
            process.multi = multi
            lf.UNIQ.clear()
            eng.reset()
            eng.load(x.base, [])
            plug = eng.instantiate(eng.cls(MOD + "FreePlug"), [], {}) if free else eng.instantiate(eng.cls(MOD + "RestrictedPlug"), [names_list(eng, "s_in"), names_list(eng, "s_out")], {})
            stage = eng.instantiate(St, [plug], {})
            base = list(eng.log)
            names = Labels([Seg([j], [j >= 0, j < M], Sc(x.std(multi, j)[1], "str"), j, M)], False)
            n = z3.Const("nm!", S)
            ok = z3.BoolVal(True) if free else z3.ForAll([n], z3.Implies(eng.schema["s_in"].l.has(n), names.member(eng, Sc(n, "str"))))
            kinds = set()
            for o in eng.explore(lambda: eng.call(stage, [x.given(multi)], {})):
                eng.load(base + o.log, o.pc)
                if eng.prove(z3.BoolVal(False)):
                    continue
                unchanged(o)
                kinds.add(o.kind)
                c = eng.getattr_raw(calls, "n")
                if o.kind == "raise":
                    if "ValueError" not in lib.exc_names(eng, o.val.cls):
                        raise Fail("a stage raises %s" % o.val.cls)
                    need(eng, z3.Not(ok), "raises only when an input is missing")
                    continue
                need(eng, ok, "inputs are checked")
                if c != 1:
                    raise Fail("_process_timeline is called %s times" % (c,))
                if not isinstance(force(eng, o.val), Token):
                    raise Fail("a stage returns %r" % (o.val,))
            if kinds != ({"ok"} if free else {"ok", "raise"}):
                raise Fail("outcomes %s" % kinds)

        both(rep, "C14 stage(timeline), %s stage" % ("free" if free else "restricted"), call)
    eng.contracts.pop(f.name)


def parts(prop):
    return [clip, rename, drop, repeat, focus, fault] if prop == "C15" else [stage_call]
