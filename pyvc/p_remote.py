"""C13: RemoteOptimizer.solve / solve_remote against any server.

The server is a sequence of answers: answer i has code(i), and a document with status(i), message(i), job(i), result(i).
Ghost state: number of the last answer received.  requests.get may only be called while the last answer is good and
pending; the polling loop is cut by the invariant "the locals that hold the last answer hold answer K, the last received",
for any K."""
import ast

import z3

import lib
from core import *  # noqa
from engine import NeedCarry, PathEnd, BreakEx, ContinueEx, assigned_names, _NONE
from lib import Opaque, Val, force
from report import *  # noqa

CODE, STATUS, MESSAGE, JOB, PROGRESS, ISJSON = (z3.Function(n, I, s) for n, s in (("code", I), ("status", S), ("message", S), ("job", S), ("progress", I), ("isjson", B)))
FIRST = z3.Const("answer0", I)


def good(i):
    return z3.And(CODE(i) != 404, CODE(i) != 403, CODE(i) != 500)


def pending(i):
    return z3.Or(STATUS(i) == sconst("QUEUED"), STATUS(i) == sconst("COMPUTING"))


class Answer(Val):
    def __init__(self, i):
        self.i = i

    def subst(self, pairs):
        return type(self)(z3.substitute(self.i, *pairs))

    def mentions(self, c):
        return mentions(self.i, c)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, self.i)


class Response(Answer):
    def getattr(self, eng, name):
        if name == "status_code":
            return Sc(CODE(self.i), "int")
        if name == "json":
            return Json(self.i)
        self._no("attribute " + name)


class Json(Answer):
    def call(self, eng, args, kw):
        if not eng.prove(good(self.i)) and eng.choose(z3.And(z3.Not(good(self.i)), z3.Not(ISJSON(self.i)))):
            raise PyRaise("ValueError", ("not JSON",))
        return Doc(self.i)


class Doc(Answer):
    pytype = "builtins.dict"

    def getitem(self, eng, k):
        k = force(eng, k)
        f = {"status": (STATUS, "str"), "message": (MESSAGE, "str"), "job": (JOB, "str"), "progress": (PROGRESS, "int")}
        if k in f:
            return Sc(f[k][0](self.i), f[k][1])
        if k == "result":
            return ResultDoc(self.i)
        raise PyRaise("KeyError", (k,))

    def getattr(self, eng, name):
        if name == "get":
            return DocGet(self.i)
        self._no("attribute " + name)

    def truth(self, eng):
        return True


class DocGet(Answer):
    def call(self, eng, args, kw):
        return Doc(self.i).getitem(eng, args[0])


class ResultDoc(Answer):
    """the document of the result in answer i"""


class TheResult(Answer):
    """the result of answer i"""


class StudyDoc(Val):
    def __init__(self, ref):
        self.ref = ref


def pieces(v):
    """a formatted string as literals and terms"""
    t = lib.strterm(v)
    out = []

    def go(t):
        n = t.decl().name()
        if n.startswith("str:"):
            out.append(n[4:])
        elif n.startswith("fmt:"):
            i, args, pat = 0, list(t.children()), n[4:]
            while i < len(pat):
                if pat.startswith("%s", i):
                    go(args.pop(0))
                    i += 2
                elif pat.startswith("%%", i):
                    out.append("%")
                    i += 2
                elif pat[i] == "%":
                    raise Unsupported("format %s" % pat)
                else:
                    out.append(pat[i])
                    i += 1
        elif n == "concat":
            for x in t.children():
                go(x)
        else:
            out.append(t)

    go(t)
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return [x for x in r if not isinstance(x, str) or x]


def same_string(a, b):
    p, q = pieces(a), pieces(b)
    return len(p) == len(q) and all((x == y) if isinstance(x, str) or isinstance(y, str) else x.eq(y) for x, y in zip(p, q))


class Retry(Exception):
    pass


class Remote:
    def __init__(self, eng):
        self.eng, self.dropped = eng, set()
        self.url, self.token = Sc(z3.Const("url", S), "str"), Sc(z3.Const("token", S), "str")
        self.study = eng.alloc(eng.cls("hadar.optimizer.domain.input.Study"), "study")
        self.ghost = eng.alloc("ghost", "server")
        self.set(None)
        self.base = list(eng.log)
        R_ = eng.cls("hadar.optimizer.domain.output.Result")
        f, _ = R_.find("from_json")
        t, _ = self.study.cls.find("to_json")
        if f is None or t is None:
            raise Unsupported("no to_json / from_json")
        eng.contracts[f.name] = self.from_json
        eng.contracts[t.name] = self.to_json
        eng.trusted |= {"Study.to_json, Result.from_json by their contract (proved in C09)", "requests.post / requests.get: one answer per call", "progress.Bar, progress.Spinner, time.sleep, sys.stdout: no effect"}
        eng.assumptions.add("an answer whose HTTP code is not 403, 404 or 500 is a JSON document with job, status and progress, result when terminated, message when in error")
        for n in ("progress.bar.Bar", "progress.spinner.Spinner"):
            lib.TABLE[n] = lambda eng, args, kw, n=n: Opaque(n)
        lib.TABLE["time.sleep"] = lambda eng, args, kw: None
        lib.TABLE["requests.post"] = self.post
        lib.TABLE["requests.get"] = self.get
        eng.while_rule = self.while_rule

    def last(self):
        return self.eng.getattr_raw(self.ghost, "last")

    def set(self, i):
        self.eng.write("attr", self.ghost, ("last",), i if i is None else Sc(i, "int"))

    def from_json(self, eng, args, kw):
        a = [force(eng, x) for x in list(args) + list(kw.values())]
        d = [x for x in a if isinstance(x, Answer)]
        if len(d) != 1 or not isinstance(d[0], ResultDoc):
            raise Fail("Result.from_json is called with %r" % (a,))
        return TheResult(d[0].i)

    def to_json(self, eng, args, kw):
        if not (isinstance(args[0], Ref) and args[0].site == self.study.site):
            raise Unsupported("to_json of %r" % (args[0],))
        return StudyDoc(args[0])

    def request(self, eng, args, kw, url, names):
        d = dict(zip(names, args))
        d.update(kw)
        if "url" not in d or not is_scalar(force(eng, d["url"])):
            raise Unsupported("url of a request")
        if not same_string(force(eng, d["url"]), url):
            raise Fail("request to %s instead of %s" % (pieces(force(eng, d["url"])), pieces(url)))
        p = d.get("params")
        if not (isinstance(p, Ref) and p.cls == "dict"):
            raise Fail("request without token")
        v = force(eng, eng.dict_get(p, "token"))
        if not is_scalar(v) or not z3.is_true(z3.simplify(eqt(term(v), term(self.token)))):
            raise Fail("request with token %r" % (v,))
        return d

    def post(self, eng, args, kw):
        d = self.request(eng, args, kw, lib.fmt(eng, "%s/api/v1/study", self.url), ["url", "data", "json"])
        if not isinstance(force(eng, d.get("json")), StudyDoc):
            raise Fail("the posted document is not the study's")
        if self.last() is not None:
            raise Fail("the study is posted twice")
        self.set(FIRST)
        return Response(FIRST)

    def get(self, eng, args, kw):
        l = self.last()
        if l is None:
            raise Fail("polling before the study is posted")
        l = l.t
        self.request(eng, args, kw, lib.fmt(eng, "%s/api/v1/result/%s", Tup([self.url, Sc(JOB(FIRST), "str")])), ["url", "params"])
        need(eng, z3.And(good(l), pending(l)), "polls only while the last answer is QUEUED or COMPUTING")
        i = z3.simplify(l + 1)
        self.set(i)
        return Response(i)

    # ---------------------------------------------------------------------------------- loop
    def while_rule(self, eng, s, fr):
        l = self.last()
        if l is None:
            raise Unsupported("loop before the first request")
        l0 = l.t
        names = assigned_names(s.body) | assigned_names([ast.Expr(s.test)])
        tag = "L%d" % s.lineno
        K = z3.Const("K_" + tag, I)
        before = {}
        for n in sorted(names):
            if n in fr.env:
                before[n] = v = fr.env[n]
                fr.env[n] = self.abstract(v, l0, K, n + "_" + tag)
        start = {n: fr.env.get(n, _NONE) for n in names}
        eng.pc.append(K >= l0)
        # candidates of the invariant: those that hold on entry, less those found not to hold again at the head
        inv = [(n, f) for n, f in (("good", good), ("pending", pending)) if (tag, n) not in self.dropped and eng.prove(f(l0))]
        eng.pc += [f(K) for _, f in inv]
        self.set(K)
        mark, old = len(eng.log), {w.ref.site for w in eng.log if isinstance(w, W)}
        try:
            if not eng.test(s.test, fr):
                eng.exec_block(s.orelse, fr)
                return
            try:
                eng.exec_block(s.body, fr)
            except ContinueEx:
                pass
        except BreakEx:
            return
        # back at the head: the invariant holds again
        K2 = self.last().t
        for n, f in inv:
            if not eng.prove(f(K2)):
                self.dropped.add((tag, n))
                raise Retry()
        for n in names:
            v, w = fr.env.get(n, _NONE), start[n]
            if w is _NONE:
                continue
            if isinstance(w, Answer) or (isinstance(w, Sc) and mentions(w, K)):
                x = subst(w, [(K, K2)])
                if isinstance(w, Answer):
                    if not (type(v) is type(w) and eng.prove(v.i == x.i)):
                        raise Unsupported("local %s does not hold the last answer in every iteration" % n)
                elif not (isinstance(v, Sc) and v.t.sort() == w.t.sort() and eng.prove(v.t == x.t)):
                    raise Unsupported("local %s does not hold the last answer in every iteration" % n)
            elif isinstance(w, lib.MaybeNone):
                if not (v is None or isinstance(v, (Opaque, lib.MaybeNone))):
                    raise Unsupported("local %s" % n)
            elif isinstance(w, Sc):
                if not is_scalar(v) or term(v).sort() != w.t.sort():
                    raise Unsupported("local %s" % n)
        for w in eng.log[mark:]:
            if isinstance(w, W) and w.ref.site in old and w.ref.site != self.ghost.site:
                raise Unsupported("object modified in the polling loop")
        raise PathEnd()

    def abstract(self, v, l0, K, tag):
        if isinstance(v, (Answer, Sc)) and mentions(v, l0) if z3.is_const(l0) else False:
            return subst(v, [(l0, K)])
        if v is None or isinstance(v, (Opaque, lib.MaybeNone)):
            return lib.MaybeNone(tag)
        if isinstance(v, bool):
            return Sc(z3.Const(tag, B), "bool")
        if isinstance(v, int):
            return Sc(z3.Const(tag, I), "int")
        if isinstance(v, float):
            return Sc(z3.Const(tag, R), "float")
        if isinstance(v, Sc):
            return Sc(z3.Const(tag, v.t.sort()), v.py)
        if isinstance(v, str):
            return Sc(z3.Const(tag, S), "str")
        return Unknown("%s in a loop" % tag)


def solve(eng, rep, prop):
    x = Remote(eng)
    O = eng.cls("hadar.optimizer.optimizer.RemoteOptimizer")
    calls = {"RemoteOptimizer.solve": lambda: eng.call(eng.getattr(eng.instantiate(O, [], {"url": x.url, "token": x.token}), "solve"), [x.study], {}),
             "solve_remote": lambda: eng.call(eng.func("hadar.optimizer.remote.optimizer.solve_remote"), [x.study, x.url, x.token], {})}
    for name, call in calls.items():
        pre = "C13 " + name
        try:
            while True:
                try:
                    outs = eng.explore(call)
                    break
                except Retry:
                    eng.reset()
                    eng.load(x.base, [])
        except (Unsupported, NeedCarry) as e:
            rep.add(pre, "unsupported", e)
            eng.reset()
            eng.load(x.base, [])
            continue
        except Fail as e:
            rep.add(pre, e.status, e)
            eng.reset()
            eng.load(x.base, [])
            continue
        rep.add(pre + ": every request goes to the right place with the token, polling continues exactly while the job is pending", "proved")
        kinds = set()
        for j, o in enumerate(outs):
            eng.load(x.base + o.log, o.pc)
            if eng.prove(z3.BoolVal(False)):
                continue
            l = x.last()
            kinds.add(o.kind)
            rep.run("%s, exit %d (%s)" % (pre, j, "returns" if o.kind != "raise" else "raises"), lambda: check(eng, x, o, l))
        if kinds != {"ok", "raise"}:
            rep.add(pre + ": returns a result or raises", "refuted", "outcomes %s" % sorted(kinds))
        eng.reset()
        eng.load(x.base, [])


def check(eng, x, o, l):
    for w in o.log:
        if isinstance(w, W) and w.ref.site == x.study.site:
            raise Fail("the study is modified: %r" % (w,))
    if l is None:
        raise Fail("ends without any request: %s %s" % (o.kind, o.val))
    l = l.t
    if o.kind != "raise":
        if not isinstance(o.val, TheResult):
            raise Fail("returns %r" % (o.val,))
        need(eng, o.val.i == l, "the result returned is that of the last answer")
        need(eng, z3.And(good(l), z3.Not(pending(l)), STATUS(l) != sconst("ERROR")), "a result is returned only when the last answer is final and not an error")
        return
    e = o.val
    names = lib.exc_names(eng, e.cls)
    msg = [a for a in e.exc_args if is_scalar(a) and term(a).sort() == S and term(a).eq(MESSAGE(l))]
    alts = []
    if "ValueError" in names:
        alts.append(z3.Or(CODE(l) == 404, CODE(l) == 403))
    if "OSError" in names or "IOError" in names:
        alts.append(CODE(l) == 500)
    if msg:
        alts.append(z3.And(good(l), STATUS(l) == sconst("ERROR")))
    need(eng, disj(alts), "%s raised %s" % (sorted(names)[:3], e.where))


def parts(prop):
    return [solve]
