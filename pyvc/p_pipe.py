"""C14: plugs, linking of stages, running of a pipeline.

Contracts of the plugs (proved for all lists of names): p.linkable_to(q) = ok(p, q), p + q = link(p, q),
p.computable(names).  Over them, for any list of stages of any length: G(0) = plug of stage 0, G(k + 1) = link(G(k), plug of
stage k + 1); Pipeline(stages) raises ValueError exactly when ok(G(k), plug of stage k + 1) fails for some k, otherwise its plug
is G(n - 1).  The loops are cut by the invariants "the plug after k iterations is G(k)" and "the timeline after k iterations
is T(k)"."""
import ast

import z3

import lib
from core import *  # noqa
from engine import NeedCarry, BreakEx, ContinueEx, ReturnEx, _NONE
from lib import Val, force
from report import *  # noqa
from schema import ListT, Obj

MOD = "hadar.workflow.pipeline."
PL, D = z3.DeclareSort("Plug"), z3.DeclareSort("Data")
LINK, OK = z3.Function("link", PL, PL, PL), z3.Function("ok", PL, PL, B)
COMP = z3.Function("computable", PL, D, B)
HAS = z3.Function("has_name", D, S, B)
STD = z3.Function("standard", D, D)


def frame_of(rep_sites, log, allowed=()):
    """writes to objects that existed before"""
    for w in log:
        if isinstance(w, W) and w.ref.site in rep_sites and w.ref.site not in allowed:
            raise Fail("operand modified: %r" % (w,))


# ------------------------------------------------------------------------------------------- plugs
class NamesT(ListT):
    """list of names given by the caller, any length; member(x) names the membership"""

    def __init__(self, eng, tag):
        self.l = lib.AnyList(eng, tag, S)
        ListT.__init__(self, tag, lambda: self.l.n, lambda i: Sc(self.l.e(i), "str"))

    def member(self, eng, ref, x):
        return self.l.has(term(x)) if term(x).sort() == S else z3.BoolVal(False)


def names_list(eng, tag):
    eng.schema[tag] = NamesT(eng, tag)
    return Ref(tag, (), "list")


def boolt(eng, v):
    v = eng.truth(force(eng, v))
    return z3.BoolVal(v) if isinstance(v, bool) else v


def has(eng, l, x):
    c = eng.member(x, l)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def subset(eng, a, b):
    cs = []
    for s in eng.contents(a).segs:
        c = z3.Implies(conj(list(s.guard)), has(eng, b, s.elem))
        cs.append(z3.ForAll(s.binders, c) if s.binders else c)
    return conj(cs)


def mkplug(eng, tag, free):
    if free:
        return eng.instantiate(eng.cls(MOD + "FreePlug"), [], {})
    return eng.instantiate(eng.cls(MOD + "RestrictedPlug"), [names_list(eng, tag + "_in"), names_list(eng, tag + "_out")], {})


def plugs(eng, rep, prop):
    F, Rr = eng.cls(MOD + "FreePlug"), eng.cls(MOD + "RestrictedPlug")
    s = Sc(z3.Const("any_name", S), "str")

    def is_free(r):
        return isinstance(r, Ref) and isinstance(r.cls, Cls) and F in r.cls.mro()

    def same(eng, a, b, what):
        need(eng, has(eng, a, s) == has(eng, b, s), what)

    # constructors
    def build(kind):
        eng.reset()
        p = mkplug(eng, "p", kind)
        i, o = eng.getattr(p, "inputs"), eng.getattr(p, "outputs")
        if kind:
            need(eng, z3.Not(z3.Or(has(eng, i, s), has(eng, o, s))), "a free plug has no inputs and no outputs")
        else:
            same(eng, i, Ref("p_in", (), "list"), "inputs of a plug are those given")
            same(eng, o, Ref("p_out", (), "list"), "outputs of a plug are those given")

    rep.run("C14 FreePlug()", lambda: build(True))
    rep.run("C14 RestrictedPlug(inputs, outputs)", lambda: build(False))

    def default():
        eng.reset()
        p = eng.instantiate(Rr, [], {})
        need(eng, z3.Not(z3.Or(has(eng, eng.getattr(p, "inputs"), s), has(eng, eng.getattr(p, "outputs"), s))), "RestrictedPlug() has no inputs and no outputs")

    rep.run("C14 RestrictedPlug()", default)

    for fp in (True, False):
        for fq in (True, False):
            nm = "%s, %s" % ("free" if fp else "restricted", "free" if fq else "restricted")

            def linkable():
                eng.reset()
                p, q = mkplug(eng, "p", fp), mkplug(eng, "q", fq)
                base = list(eng.log)
                old = {w.ref.site for w in base if isinstance(w, W)} | {"p_in", "p_out", "q_in", "q_out"}
                spec = z3.BoolVal(True) if fp or fq else subset(eng, eng.getattr(q, "inputs"), eng.getattr(p, "outputs"))
                for o in eng.explore(lambda: eng.call(eng.getattr(p, "linkable_to"), [q], {})):
                    eng.load(base + o.log, o.pc)
                    if o.kind == "raise":
                        raise Fail("linkable_to raises %s" % o.val.cls)
                    frame_of(old, o.log)
                    need(eng, boolt(eng, o.val) == spec, "linkable exactly when the next stage is free, or this one is, or its inputs are all among the outputs")

            rep.run("C14 Plug.linkable_to: %s" % nm, linkable)

            def add():
                eng.reset()
                p, q = mkplug(eng, "p", fp), mkplug(eng, "q", fq)
                base = list(eng.log)
                old = {w.ref.site for w in base if isinstance(w, W)} | {"p_in", "p_out", "q_in", "q_out"}
                pi, po, qi, qo = (eng.getattr(x, a) for x in (p, q) for a in ("inputs", "outputs"))
                for o in eng.explore(lambda: eng.aug(ast.Add(), p, q)):
                    eng.load(base + o.log, o.pc)
                    if o.kind == "raise":
                        raise Fail("p + q raises %s" % o.val.cls)
                    frame_of(old, o.log)
                    r = o.val
                    if not (isinstance(r, Ref) and isinstance(r.cls, Cls) and (Rr in r.cls.mro() or is_free(r))):
                        raise Fail("p + q gives %r" % (r,))
                    if is_free(r) != (fp and fq):
                        raise Fail("p + q is %s" % ("free" if is_free(r) else "restricted"))
                    ri, ro = eng.getattr(r, "inputs"), eng.getattr(r, "outputs")
                    hi, ho = has(eng, ri, s), has(eng, ro, s)
                    if fp and fq:
                        need(eng, z3.Not(z3.Or(hi, ho)), "a free plug has no inputs and no outputs")
                        continue
                    a = q if fp else p
                    need(eng, hi == has(eng, eng.getattr(a, "inputs"), s), "inputs are those of the first restricted plug")
                    if fp or fq:
                        b = q if fp else p
                        need(eng, ho == has(eng, eng.getattr(b, "outputs"), s), "outputs go through a free plug")
                    else:
                        need(eng, ho == z3.Or(has(eng, qo, s), z3.And(has(eng, po, s), z3.Not(has(eng, qi, s)))), "outputs = next outputs and the outputs not consumed")

            rep.run("C14 p + q: %s" % nm, add)

        def computable():
            eng.reset()
            p = mkplug(eng, "p", fp)
            names = lib.AnyList(eng, "columns", S)
            base = list(eng.log)
            for o in eng.explore(lambda: eng.call(eng.getattr(p, "computable"), [names], {})):
                eng.load(base + o.log, o.pc)
                if o.kind == "raise":
                    raise Fail("computable raises %s" % o.val.cls)
                need(eng, boolt(eng, o.val) == subset(eng, eng.getattr(p, "inputs"), names), "computable exactly when every input is among the names")

        rep.run("C14 Plug.computable: %s" % ("free" if fp else "restricted"), computable)
    eng.reset()


# ------------------------------------------------------------------------------------------- linking
class PlugVal(Val):
    """any plug, used through its contract"""

    immutable = True

    def __init__(self, t, eng):
        self.t, self.pytype = t, eng.cls(MOD + "Plug")
        for c in ("Plug", "FreePlug", "RestrictedPlug"):
            if eng.cls(MOD + c).find("__iadd__")[0] is not None:
                raise Unsupported("in place addition of plugs")
        self.eng = eng

    def subst(self, pairs):
        return PlugVal(z3.substitute(self.t, *pairs), self.eng)

    def mentions(self, c):
        return mentions(self.t, c)

    def binop(self, eng, op, other):
        if isinstance(op, ast.Add) and isinstance(other, PlugVal):
            return PlugVal(LINK(self.t, other.t), eng)
        self._no("operator")

    def getattr(self, eng, name):
        if name in ("linkable_to", "computable"):
            return PlugCall(self.t, name)
        if name == "__add__":
            return PlugCall(self.t, name, eng)
        self._no("attribute " + name)

    def __repr__(self):
        return "PlugVal(%s)" % self.t


class PlugCall(Val):
    def __init__(self, t, name, eng=None):
        self.t, self.name = t, name

    def call(self, eng, args, kw):
        x = force(eng, (list(args) + list(kw.values()))[0])
        if self.name == "computable":
            if not isinstance(x, Names):
                raise Unsupported("computable(%r)" % (x,))
            return Sc(COMP(self.t, x.d), "bool")
        if not isinstance(x, PlugVal):
            raise Unsupported("%s(%r)" % (self.name, x))
        if self.name == "__add__":
            return PlugVal(LINK(self.t, x.t), eng)
        return Sc(OK(self.t, x.t), "bool")


class TL(Val):
    """a timeline, used through the contracts of the stages: content d, object number ident (None: not the caller's)"""

    pytype = "pandas.DataFrame"

    def __init__(self, d, given=False):
        self.d, self.given = d, given

    def subst(self, pairs):
        return TL(z3.substitute(self.d, *pairs), self.given)

    def mentions(self, c):
        return mentions(self.d, c)

    def getattr(self, eng, name):
        if name == "copy":
            return Copy(self.d)
        self._no("attribute " + name)

    def __repr__(self):
        return "TL(%s%s)" % (self.d, ", given" if self.given else "")


class Copy(TL):
    def call(self, eng, args, kw):
        return TL(self.d)


class Names(Val):
    def __init__(self, d):
        self.d = d

    def member(self, eng, x):
        return HAS(self.d, term(x))


class Fold:
    """ghost sequence g(0), g(1), ... with g(k + 1) = step(g(k), k)"""

    def __init__(self, g, step):
        self.g, self.step = g, step

    def axiom(self, k):
        return self.g(k + 1) == self.step(self.g(k), k)


class Linking:
    """stages of any number n >= 1, with their plugs"""

    def __init__(self, eng, tag="stages"):
        self.eng = eng
        self.n = z3.Const("n_" + tag, I)
        self.plug = z3.Function("plug_" + tag, I, PL)
        self.G = z3.Function("G_" + tag, I, PL)
        st = eng.cls(MOD + "Stage")
        eng.schema[tag + ".list"] = ListT(tag, lambda: self.n, lambda i: Ref(tag + ".stage", [i], st))
        eng.schema[tag + ".stage"] = Obj(st, {"plug": lambda i: PlugVal(self.plug(i), eng)})
        self.tag, self.st = tag, st
        self.list = Ref(tag + ".list", (), "list")
        self.fold = Fold(self.G, lambda p, k: LINK(p, self.plug(k + 1)))
        eng.prover.axiom(self.n >= 1)
        eng.prover.axiom(self.G(0) == self.plug(0))

    def ok(self, k):
        return OK(self.G(k), self.plug(k + 1))

    def all_ok(self, upto):
        k = z3.Const("k!", I)
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < upto), self.ok(k)))


def fold_rule(folds, watched):
    """loop rule: the values (locals, attributes of the objects in watched()) equal to g(c) before the loop are g(c + k) at
    iteration k, for one ghost sequence g"""

    def match(eng, v, folds):
        t = getattr(v, "t", None) if isinstance(v, PlugVal) else v.d if isinstance(v, TL) else None
        if t is None:
            return None
        for f in folds:
            if t.sort() == f.g.range():
                if eng.prove(t == f.g(0)):
                    return f
        return None

    def rule(eng, s, seq, fr, it, names):
        segs = [x for x in seq.segs if x.binders]
        if not segs:
            return False
        # concrete first elements of a sequence are run as they are
        if len(seq.segs) != 1 or len(segs[0].binders) != 1 or segs[0].index is None or segs[0].count is None or segs[0].src is not None:
            return False
        seg = segs[0]
        k = eng.fresh("k", I)
        b = seg.binders[0]
        if not z3.simplify(seg.index).eq(b):
            # iteration number -> binder
            d = z3.simplify(seg.index - b)
            if mentions(d, b):
                return False
            bk = z3.simplify(k - d)
        else:
            bk = k
        pairs = [(b, bk)]
        guard = [z3.substitute(g, *pairs) for g in seg.guard] + [k >= 0, k < seg.count]
        elem = subst(seg.elem, pairs)
        locs = []
        for n in sorted(names):
            if n in fr.env:
                f = match(eng, fr.env[n], folds)
                if f is not None:
                    locs.append(("local", n, f, fr.env[n]))
        for ref in watched(eng, fr):
            for a in eng.attr_names(ref):
                v = eng.getattr_raw(ref, a)
                f = match(eng, v, folds)
                if f is not None:
                    locs.append((ref, a, f, v))
        if not locs:
            return False
        env0 = dict(fr.env)
        base = eng.snap()
        mark = len(eng.log)

        def put(loc, t):
            where, a, f, v = loc
            w = PlugVal(t, eng) if isinstance(v, PlugVal) else TL(t)
            if where == "local":
                fr.env[a] = w
            else:
                eng.setattr(where, a, w)

        def at(loc, env):
            where, a, f, v = loc
            return env.get(a, _NONE) if where == "local" else eng.getattr_raw(where, a)

        def body():
            eng.pc += guard + [f.axiom(k) for _, _, f, _ in locs]
            for n in names:
                if n in fr.env and not any(l[0] == "local" and l[1] == n for l in locs):
                    fr.env[n] = Unknown("%s in a loop" % n)
            for l in locs:
                put(l, l[2].g(k))
            fr.env["#mark"] = len(eng.log)
            try:
                eng.assign(s.target, elem, fr)
                eng.exec_block(s.body, fr)
            except ContinueEx:
                pass

        body_env = fr
        outs = eng.explore(body, fr)
        fr.env.clear()
        fr.env.update(env0)
        bad = []
        own = {r.site for r in [l[0] for l in locs] if isinstance(r, Ref)}
        for o in outs:
            o.pc = [c for c in o.pc if not any(c.eq(f.axiom(k)) for _, _, f, _ in locs)]
            if o.kind == "raise":
                bad.append(o)
                continue
            if o.kind != "ok":
                raise Unsupported("%s in a loop over stages" % o.kind)
            save = eng.snap()
            for w in o.log:
                eng.emit(w) if isinstance(w, W) else eng.mark(w)
            eng.pc += o.pc + [f.axiom(k) for _, _, f, _ in locs]
            def old(site):
                n, _, i = site.rpartition("#")
                return site in eng.schema or site in base[3] or (i.isdigit() and base[3].get(n, 0) > int(i)) or any(isinstance(w, W) and w.ref.site == site for w in eng.log[:mark])

            for w in o.log:
                if isinstance(w, W) and old(w.ref.site) and w.ref.site not in own:
                    raise Unsupported("object modified in a loop over stages: %r" % (w,))
            for l in locs:
                v = at(l, o.env)
                t = v.t if isinstance(v, PlugVal) else v.d if isinstance(v, TL) else None
                if t is None or not eng.prove(t == l[2].g(k + 1)):
                    raise Unsupported("%s is not the next of the sequence: %r" % (l[1], v))
            eng.restore(save)
        for o in bad:
            c = z3.substitute(conj(guard + o.pc), (k, z3.Const("k!r", I)))
            if eng.choose(z3.Exists([z3.Const("k!r", I)], c)):
                raise PyRaise(o.val.cls, o.val.exc_args, o.val.where)
        for n in names:
            if n in fr.env:
                fr.env[n] = Unknown("%s after a loop" % n)
        for n in names:
            fr.env.setdefault(n, Unknown("%s after a loop" % n))
        for l in locs:
            put(l, l[2].g(z3.simplify(seg.count)))
        return True

    return rule


def watched_self(eng, fr):
    return [v for n, v in fr.env.items() if isinstance(v, Ref) and isinstance(v.cls, Cls) and v.cls.name == MOD + "Pipeline" and eng.schema.get(v.site) is None]


def linking(eng, rep, prop):
    L = Linking(eng)
    P = eng.cls(MOD + "Pipeline")
    eng.for_rule = fold_rule([L.fold], watched_self)
    eng.trusted.add("FreePlug / RestrictedPlug by their contracts (proved in the same check)")
    given = set(eng.schema)

    def same_stages(eng, l, extra=None, n=None):
        """l holds the stages 0..n-1 in order, then extra"""
        segs = eng.contents(l).segs
        rest = list(segs)
        s = rest.pop(0)
        if not (len(s.binders) == 1 and s.src is None and isinstance(s.elem, Ref) and s.elem.site == L.tag + ".stage"):
            raise Unsupported("stages of the pipeline: %r" % (s.elem,))
        b = s.binders[0]
        if mentions(s.count, b):
            raise Unsupported("stages of the pipeline")
        need(eng, z3.And(s.elem.args[0] == s.index, s.count == L.n), "the stages of the pipeline are those given, in order")
        if len(rest) != (0 if extra is None else 1):
            raise Fail("%d stages too many or missing" % len(rest))
        if extra is not None and not (isinstance(rest[0].elem, Ref) and rest[0].elem.site == extra.site):
            raise Fail("last stage is %r" % (rest[0].elem,))

    # Pipeline(stages)
    def init():
        base = list(eng.log)
        outs = eng.explore(lambda: eng.instantiate(P, [L.list], {}))
        k = z3.Const("k!", I)
        kinds = set()
        for o in outs:
            eng.load(base + o.log, o.pc)
            frame_of(given, o.log)
            if o.kind == "raise":
                kinds.add("raise")
                if "ValueError" not in lib.exc_names(eng, o.val.cls):
                    raise Fail("Pipeline raises %s" % o.val.cls)
                need(eng, z3.Exists([k], z3.And(k >= 0, k < L.n - 1, z3.Not(L.ok(k)))), "refused only when a stage is not linkable to the ones before")
                continue
            kinds.add("ok")
            need(eng, L.all_ok(L.n - 1), "accepted only when every stage is linkable to the ones before")
            r = o.val
            p = eng.getattr(r, "plug")
            if not isinstance(p, PlugVal):
                raise Unsupported("plug of the pipeline: %r" % (p,))
            need(eng, p.t == L.G(L.n - 1), "the plug of the pipeline is the sum of those of the stages")
            same_stages(eng, eng.getattr(r, "stages"))
        if kinds != {"ok", "raise"}:
            raise Fail("outcomes of Pipeline(stages): %s" % sorted(kinds))

    rep.run("C14 Pipeline(stages), any number of stages", init)
    eng.reset()

    # by its contract for the callers
    def pipeline_contract(eng, args, kw):
        l = (list(args) + list(kw.values()))[0]
        segs = eng.contents(l).segs
        plug, cond = None, []
        for s in segs:
            if s.binders:
                if plug is not None or not (isinstance(s.elem, Ref) and s.elem.site == L.tag + ".stage" and s.src is None and len(s.binders) == 1) or not eng.prove(s.count == L.n) or not z3.simplify(s.elem.args[0] - s.index).eq(z3.IntVal(0)):
                    raise Unsupported("stages of a pipeline")
                plug = L.G(L.n - 1)
                cond.append(L.all_ok(L.n - 1))
            else:
                if s.guard:
                    raise Unsupported("stages of a pipeline")
                q = eng.getattr(s.elem, "plug")
                if plug is None:
                    plug = q.t
                else:
                    cond.append(OK(plug, q.t))
                    plug = LINK(plug, q.t)
        if not eng.choose(conj(cond)):
            raise PyRaise("ValueError", ("not linkable",))
        r = eng.alloc(P)
        eng.setattr(r, "stages", l)
        eng.setattr(r, "plug", PlugVal(plug, eng))
        return r

    # lemma used by the contract for stages + [other]: the sums of a list and of its prefix agree
    def lemma():
        k, G2, pl2 = z3.Const("k", I), z3.Function("G_longer", I, PL), z3.Function("plug_longer", I, PL)
        same = lambda j: pl2(j) == L.plug(j)
        need(eng, z3.Implies(z3.And(G2(0) == pl2(0), same(0)), G2(0) == L.G(0)), "base")
        need(eng, z3.Implies(z3.And(G2(k) == L.G(k), same(k + 1), G2(k + 1) == LINK(G2(k), pl2(k + 1)), L.fold.axiom(k)), G2(k + 1) == L.G(k + 1)), "step")

    rep.run("C14 lemma: the plug of the first n stages does not depend on the later ones (base, step)", lemma)
    eng.schema["pipe"] = Obj(P, {"stages": lambda: L.list, "plug": lambda: PlugVal(L.G(L.n - 1), eng)})
    other_plug = z3.Const("plug_other", PL)
    one_plug = z3.Const("plug_one", PL)
    eng.schema["other"] = Obj(L.st, {"plug": lambda: PlugVal(other_plug, eng)})
    eng.schema["one"] = Obj(L.st, {"plug": lambda: PlugVal(one_plug, eng)})
    eng.schema["pipe2"] = eng.schema["pipe"]
    pipe, other, one, pipe2 = Ref("pipe", (), P), Ref("other", (), L.st), Ref("one", (), L.st), Ref("pipe2", (), P)
    inv = [L.all_ok(L.n - 1)]
    given2 = set(eng.schema)
    eng.contracts[P.name] = pipeline_contract

    def add(left, right, p, what):
        eng.load([], inv)
        outs = eng.explore(lambda: eng.binop(ast.Add(), left, right))
        kinds = set()
        for o in outs:
            eng.load(o.log, inv + o.pc)
            frame_of(given2, o.log)
            if o.kind == "raise":
                kinds.add("raise")
                if "ValueError" not in lib.exc_names(eng, o.val.cls):
                    raise Fail("%s raises %s" % (what, o.val.cls))
                if p is not None:
                    need(eng, z3.Not(OK(p, other_plug)), "refused only when not linkable")
                continue
            kinds.add("ok")
            r = o.val
            if p is None or not (isinstance(r, Ref) and r.cls is P and r.site not in given2):
                raise Fail("%s gives %r" % (what, r))
            need(eng, OK(p, other_plug), "accepted only when linkable")
            q = eng.getattr(r, "plug")
            need(eng, q.t == LINK(p, other_plug), "plug of the sum")
            l = eng.getattr(r, "stages")
            if isinstance(l, Ref) and l.site in given2:
                raise Fail("the stages of the sum are the list of an operand")
            if left is pipe:
                same_stages(eng, l, extra=other)
            else:
                e = [s.elem.site if isinstance(s.elem, Ref) else None for s in eng.contents(l).segs]
                if e != ["one", "other"]:
                    raise Fail("stages of the sum are %s" % e)
        if kinds != ({"ok", "raise"} if p is not None else {"raise"}):
            raise Fail("%s: outcomes %s" % (what, sorted(kinds)))

    rep.run("C14 pipeline + stage", lambda: add(pipe, other, L.G(L.n - 1), "pipeline + stage"))
    rep.run("C14 stage + stage", lambda: add(one, other, one_plug, "stage + stage"))
    rep.run("C14 stage + something else", lambda: add(one, Sc(z3.Const("x_str", S), "str"), None, "stage + str"))
    rep.run("C14 pipeline + something else", lambda: add(pipe, Sc(z3.Const("x_str", S), "str"), None, "pipeline + str"))
    eng.contracts.pop(P.name)
    eng.reset()


# ------------------------------------------------------------------------------------------- running
def running(eng, rep, prop):
    """Pipeline.__call__: T(0) = standard(timeline), T(k + 1) = stage k applied to T(k)"""
    L = Linking(eng)
    P, St = eng.cls(MOD + "Pipeline"), L.st
    T = z3.Function("T", I, D)
    APPLY, ERR = z3.Function("apply", I, D, D), z3.Function("stage_raises", I, D, B)
    d0 = z3.Const("data", D)
    fold = Fold(T, lambda d, k: APPLY(k, d))
    eng.prover.axiom(T(0) == STD(d0))
    x = z3.Const("d!", D)
    eng.prover.axiom(z3.ForAll([x], STD(STD(x)) == STD(x), patterns=[STD(STD(x))]))
    eng.for_rule = fold_rule([fold], lambda e, fr: [])
    eng.schema["pipe"] = Obj(P, {"stages": lambda: L.list, "plug": lambda: PlugVal(L.G(L.n - 1), eng)})
    pipe = Ref("pipe", (), P)
    given = set(eng.schema)
    eng.trusted.add("Stage.__call__, standardize_column, get_names by their contracts (proved in the same check)")

    def std(eng, args, kw):
        v = force(eng, (list(args) + list(kw.values()))[-1])
        if not isinstance(v, TL):
            raise Unsupported("standardize_column of %r" % (v,))
        # the same object when it is standard already
        return TL(STD(v.d), v.given)

    def get_names(eng, args, kw):
        v = force(eng, (list(args) + list(kw.values()))[-1])
        if not isinstance(v, TL):
            raise Unsupported("get_names of %r" % (v,))
        return Names(v.d)

    def stage_call(eng, args, kw):
        st, v = args[0], force(eng, (list(args[1:]) + list(kw.values()))[0])
        if not (isinstance(st, Ref) and st.site == L.tag + ".stage" and isinstance(v, TL)):
            raise Unsupported("call of a stage")
        k = st.args[0]
        if eng.choose(ERR(k, v.d)):
            raise PyRaise("ValueError", ("stage",))
        return TL(APPLY(k, v.d))

    for n, h in (("standardize_column", std), ("get_names", get_names), ("__call__", stage_call)):
        f, _ = St.find(n)
        if f is None:
            rep.add("C14 pipeline(timeline)", "unsupported", "no Stage." + n)
            return
        eng.contracts[f.name] = h

    def call():
        eng.load([], [])
        outs = eng.explore(lambda: eng.call(pipe, [TL(d0, True)], {}))
        k = z3.Const("k!", I)
        total = L.G(L.n - 1)
        kinds = set()
        for o in outs:
            eng.load(o.log, o.pc)
            frame_of(given, o.log)
            comp = COMP(total, STD(d0))
            err = z3.Exists([k], z3.And(k >= 0, k < L.n, ERR(k, T(k))))
            if o.kind == "raise":
                kinds.add("raise")
                if "ValueError" not in lib.exc_names(eng, o.val.cls):
                    raise Fail("raises %s" % o.val.cls)
                need(eng, z3.Or(z3.Not(comp), err), "raises only when the columns do not fit or a stage raises")
                continue
            kinds.add("ok")
            v = o.val
            if not isinstance(v, TL):
                raise Fail("returns %r" % (v,))
            need(eng, comp, "inputs are checked")
            need(eng, z3.Not(err), "an error of a stage is not hidden")
            need(eng, v.d == T(L.n), "every stage is applied once, in order, to the result of the previous one")
        if kinds != {"ok", "raise"}:
            raise Fail("outcomes %s" % sorted(kinds))

    rep.run("C14 pipeline(timeline), any number of stages", call)
    eng.reset()


def parts(prop):
    import p_stage

    return [plugs, linking, running] + p_stage.parts("C14")
