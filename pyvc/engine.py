"""pyvc engine: symbolic execution of the real Python functions of /repo.

Each run parses the current source.  Functions of the repository are executed on symbolic inputs; a loop over a
symbolic collection is executed once for an arbitrary iteration and summarised as quantified writes (the engine
proves that iterations do not interfere, or computes the inductive family of the writes of earlier iterations);
calls outside the repository use the assumed contracts of lib.py, and everything else is Unsupported."""
import ast
import os
from itertools import permutations

import z3

from core import *  # noqa

REPO = os.environ.get("PYVC_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class PathEnd(Exception):
    """the path ends here: it is covered by a loop invariant"""


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class NeedCarry(Exception):
    def __init__(self, name):
        self.name = name


class Carried:
    """value of a local at the start of an iteration, not known"""

    def __init__(self, name):
        self.name = name


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Frame:
    def __init__(self, env, module, closure=None, cls=None, name="", self_=None):
        self.env, self.module, self.closure, self.cls, self.name, self.self_ = env, module, closure, cls, name, self_

    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.closure
        return None


class Outcome:
    def __init__(self, kind, val, pc, log, env):
        self.kind, self.val, self.pc, self.log, self.env = kind, val, pc, log, env


_NONE = object()
EXC = ["BaseException", "Exception", "ValueError", "KeyError", "IndexError", "TypeError", "IOError", "OSError", "ZeroDivisionError", "AttributeError", "StopIteration", "NotImplementedError", "AssertionError", "LookupError", "RuntimeError", "ArithmeticError"]
EXC_UP = {"KeyError": ["LookupError", "Exception", "BaseException"], "IndexError": ["LookupError", "Exception", "BaseException"], "ZeroDivisionError": ["ArithmeticError", "Exception", "BaseException"], "IOError": ["OSError", "Exception", "BaseException"]}


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def comp(self, n):
            pass

        visit_ListComp = visit_DictComp = visit_SetComp = visit_GeneratorExp = comp

    for s in stmts:
        V().visit(s)
    return out


def distinct(a, b):
    """keys that are different constants"""
    for x, y in zip(a, b):
        if isinstance(x, (str, int)) and isinstance(y, (str, int)) and type(x) == type(y):
            if x != y:
                return True
        elif isinstance(x, Ref) and isinstance(y, Ref) and x.site != y.site:
            return True
    return False


def fo_match(x, y, binders, th):
    """first order matching of term x with variables binders against y"""
    for b in binders:
        if b.eq(x):
            k = b.get_id()
            if k in th:
                return th[k][1].eq(y)
            if b.sort() != y.sort():
                return False
            th[k] = (b, y)
            return True
    if x.eq(y) and not any(mentions(x, b) for b in binders):
        return True
    if not (z3.is_app(x) and z3.is_app(y)) or not x.decl().eq(y.decl()) or x.num_args() != y.num_args():
        return False
    if z3.is_add(x) or z3.is_mul(x):
        xs, ys = x.children(), y.children()
        return match_ac(xs, ys, binders, th)
    return all(fo_match(a, b, binders, th) for a, b in zip(x.children(), y.children()))


def match_ac(xs, ys, binders, th):
    if not xs:
        return not ys
    # most structured first
    xs = sorted(xs, key=lambda t: (z3.is_const(t), -t.num_args()))
    x = xs[0]
    for i, y in enumerate(ys):
        t2 = dict(th)
        if fo_match(x, y, binders, t2) and match_ac(xs[1:], ys[:i] + ys[i + 1:], binders, t2):
            th.clear()
            th.update(t2)
            return True
    return False


def may_assign(cls, name):
    for c in cls.mro():
        for n in ast.walk(c.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars"):
                return True
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return True
    return False


class Engine:
    def __init__(self, schema=None, prover=None):
        self.modules = {}
        self.prover = prover or Prover()
        self.schema = schema or {}
        self.log, self.index, self.marks = [], {}, []
        self.pc, self.binders = [], []
        self.sites, self.stack = {}, []
        self.trace, self.tpos, self.alts, self.pid = [], 0, None, ""
        self.cnt = 0
        self.functions = set()  # functions executed
        self.trusted = set()  # assumed contracts used
        self.assumptions = set()
        self.events = []  # (name, data) recorded by contracts
        self.contracts = {}  # qualified function name -> handler (contract used at call sites)
        self.sums = {}
        self.injcache = {}
        self.radix = None
        self.probing = False  # executing with unknown values of the carried locals: the writes are discarded
        self.final = True
        self.depth = 0
        self.max_paths = 400
        import lib

        self.lib = lib
        self.ext = lib.TABLE
        self.methods = lib.METHODS

    # ------------------------------------------------------------------------------ fresh names, sites
    def fresh(self, name, sort):
        self.cnt += 1
        return z3.Const("%s!%s%d" % (name, self.pid, self.cnt), sort)

    def indexed(self, name, sort, ref=None):
        """unknown value of this call: a function of the enclosing iterations"""
        st = self.site(name)
        a = list(self.binders)
        return z3.Function(st, *([b.sort() for b in a] + [sort]))(*a) if a else z3.Const(st, sort)

    def site(self, what):
        base = "%s@%s" % (what, "/".join(self.stack))
        n = self.sites.get(base, 0)
        self.sites[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    def alloc(self, cls, what=None):
        r = Ref(self.site(what or (cls.name if isinstance(cls, Cls) else cls)), self.binders, cls)
        return r

    # ------------------------------------------------------------------------------ state
    def snap(self):
        return (len(self.log), list(self.pc), list(self.binders), dict(self.sites), list(self.stack), self.cnt, self.pid, self.trace, self.tpos, self.alts, self.depth, len(self.events))

    def restore(self, s, trace=True):
        n = s[0]
        while len(self.log) > n:
            w = self.log.pop()
            i = len(self.log)
            if isinstance(w, Marker):
                self.marks.pop()
            else:
                l = self.index[self.ikey(w.kind, w.ref, w.key)]
                assert l[-1] == i
                l.pop()
        self.pc, self.binders, self.sites, self.stack, self.cnt, self.pid = list(s[1]), list(s[2]), dict(s[3]), list(s[4]), s[5], s[6]
        self.depth = s[10]
        del self.events[s[11]:]
        if trace:
            self.trace, self.tpos, self.alts = s[7], s[8], s[9]

    @staticmethod
    def ikey(kind, ref, key):
        return (kind, ref.site, key[0] if kind == "attr" else None)

    def emit(self, w):
        self.index.setdefault(self.ikey(w.kind, w.ref, w.key), []).append(len(self.log))
        self.log.append(w)

    def mark(self, m):
        self.marks.append(len(self.log))
        self.log.append(m)

    def write(self, kind, ref, key, val, **kw):
        if isinstance(val, (Carried,)):
            raise NeedCarry(val.name)
        w = W((), (), kind, ref, key, val, "/".join(self.stack[-2:]))
        for k, v in kw.items():
            setattr(w, k, v)
        self.emit(w)

    def load(self, log, pc, binders=()):
        """make a recorded state the current one"""
        self.log, self.index, self.marks = [], {}, []
        for w in log:
            if isinstance(w, Marker):
                self.mark(w)
            else:
                self.emit(w)
        self.pc, self.binders = list(pc), list(binders)
        self.trace, self.tpos, self.alts = [], 0, None

    def reset(self):
        """empty heap (after an exploration was abandoned)"""
        self.load([], [])
        self.stack, self.depth, self.pid, self.probing = [], 0, "", False

    # ------------------------------------------------------------------------------ choices
    def choose(self, cond):
        """decide a condition, forking the path when both ways are possible"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.prover.prove(self.pc, c):
            return True
        if self.prover.prove(self.pc, z3.Not(c)):
            return False
        if self.alts is None:
            raise Unsupported("fork outside exploration")
        if self.tpos < len(self.trace):
            d = self.trace[self.tpos]
        else:
            d = True
            self.alts.append(self.trace[: self.tpos] + [False])
            self.trace = self.trace + [True]
        self.tpos += 1
        self.pid += "T" if d else "F"
        self.pc.append(c if d else z3.simplify(z3.Not(c)))
        return d

    def explore(self, fn, frame=None):
        """all paths of fn; state is restored to the starting one afterwards"""
        base = self.snap()
        env0 = dict(frame.env) if frame is not None else None
        todo, outs = [[]], []
        cmax = self.cnt
        smax = dict(self.sites)
        while todo:
            tr = todo.pop()
            self.restore(base)
            if frame is not None:
                frame.env.clear()
                frame.env.update(env0)
            self.trace, self.tpos, self.alts = tr, 0, todo
            self.pid = base[6] + "."
            kind, val = "ok", None
            try:
                val = fn()
            except PyRaise as e:
                kind, val = "raise", e
            except ReturnEx as e:
                kind, val = "return", e.v
            except BreakEx:
                kind = "break"
            except ContinueEx:
                kind = "continue"
            except PathEnd:
                cmax = max(cmax, self.cnt)
                continue
            cmax = max(cmax, self.cnt)
            for k, n in self.sites.items():
                if n > smax.get(k, 0):
                    smax[k] = n
            outs.append(Outcome(kind, val, self.pc[len(base[1]):], self.log[base[0]:], dict(frame.env) if frame is not None else None))
            outs[-1].events = self.events[base[11]:]
            if len(outs) > self.max_paths:
                raise Unsupported("too many paths")
        self.restore(base)
        self.cnt = cmax
        self.smax = smax
        if frame is not None:
            frame.env.clear()
            frame.env.update(env0)
        return outs

    # ------------------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        p = os.path.join(REPO, *name.split("."))
        path = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported("module %s" % name)
        m = Module(name, ast.parse(open(path).read()))
        self.modules[name] = m
        m.lazy = {}
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                m.lazy[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    m.lazy[(a.asname or a.name.split(".")[0])] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    m.lazy[a.asname or a.name] = ("from", st.module, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.lazy[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.lazy[st.target.id] = st.value
        return m

    def glob(self, m, name):
        if name in m.globals:
            return m.globals[name]
        if name not in m.lazy:
            return None
        d = m.lazy[name]
        if isinstance(d, ast.FunctionDef):
            v = Func(m.name + "." + name, d, m)
        elif isinstance(d, ast.ClassDef):
            v = self.mkclass(m, d)
        elif isinstance(d, tuple) and d[0] == "import":
            v = self.module(d[1]) if d[1] == "hadar" or d[1].startswith("hadar.") else Ext(d[1])
        elif isinstance(d, tuple):
            if d[1] == "hadar" or d[1].startswith("hadar."):
                mm = self.module(d[1])
                v = self.glob(mm, d[2])
                if v is None:
                    v = self.module(d[1] + "." + d[2])
            else:
                v = Ext(d[1] + "." + d[2])
        else:
            v = self.eval(d, Frame({}, m))
        m.globals[name] = v
        return v

    def mkclass(self, m, d):
        c = Cls(m.name + "." + d.name, d, m)
        m.globals[d.name] = c
        for b in d.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            try:
                c.bases.append(self.eval(b, Frame({}, m)))
            except Unsupported:
                pass
        for st in d.body:
            if isinstance(st, ast.FunctionDef):
                kind = "method"
                for dec in st.decorator_list:
                    if isinstance(dec, ast.Name) and dec.id in ("staticmethod", "property", "classmethod", "abstractmethod"):
                        if dec.id != "abstractmethod":
                            kind = dec.id
                    else:
                        kind = "other"
                c.attrs[st.name] = Func("%s.%s" % (c.name, st.name), st, m, cls=c, kind=kind)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                c.attrs[st.targets[0].id] = ("expr", st.value)
        return c

    def cls(self, qual):
        mod, name = qual.rsplit(".", 1)
        v = self.glob(self.module(mod), name)
        if v is None:
            raise Unsupported("no %s" % qual)
        return v

    def func(self, qual):
        """hadar.mod.f or hadar.mod.Class.f"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            try:
                m = self.module(".".join(parts[:i]))
            except Unsupported:
                continue
            v = self.glob(m, parts[i])
            if v is None:
                raise Unsupported("no %s" % qual)
            for a in parts[i + 1:]:
                f, _ = v.find(a)
                if f is None:
                    raise Unsupported("no %s" % qual)
                v = f
            return v
        raise Unsupported("no %s" % qual)

    # ------------------------------------------------------------------------------ equality
    def eq(self, a, b):
        """z3 condition of a == b (by identity on objects without __eq__)"""
        if isinstance(a, Carried) or isinstance(b, Carried):
            raise NeedCarry((a if isinstance(a, Carried) else b).name)
        if is_scalar(a) and is_scalar(b):
            return eqt(term(a), term(b))
        if a is None or b is None:
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                raise Unsupported("comparing unknown value")
            return z3.BoolVal(a is None and b is None)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.site != b.site:
                return z3.BoolVal(False)
            return conj([eqt(x, y) for x, y in zip(a.args, b.args)])
        if isinstance(a, (Cls, Ext, Func)) or isinstance(b, (Cls, Ext, Func)):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                raise Unsupported("comparing unknown value")
            same = a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name)
            return z3.BoolVal(same)
        if isinstance(a, (Tup, Ref)) != isinstance(b, (Tup, Ref)) or isinstance(a, Tup) != isinstance(b, Tup):
            if not isinstance(a, Unknown) and not isinstance(b, Unknown):
                return z3.BoolVal(False)
        raise Unsupported("equality of %r and %r" % (a, b))

    # ------------------------------------------------------------------------------ unification of a write with a read
    def equations(self, a, b, out):
        """structural equations between write side a and read side b; False when they can't be equal"""
        if is_scalar(a) and is_scalar(b):
            x, y = term(a), term(b)
            if x.sort() != y.sort():
                if S in (x.sort(), y.sort()):
                    return False
                x, y = num2(x, y)
            out.append((x, y))
            return True
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.equations(x, y, out) for x, y in zip(a.items, b.items))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.site != b.site:
                return False
            out += list(zip(a.args, b.args))
            return True
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            return a.name == b.name
        if type(a) != type(b) and not isinstance(a, Unknown) and not isinstance(b, Unknown):
            return False
        raise Unsupported("key %r vs %r" % (a, b))

    INJ = {}  # z3 function name -> number of leading arguments that are the context (injective in the others given these)

    def solve(self, binders, eqs):
        """solve equations for binders: (substitution, residual conditions, unsolved binders)"""
        sub, res = [], []
        todo = list(eqs)
        unsolved = list(binders)
        progress = True
        while progress:
            progress = False
            nxt = []
            for x, y in todo:
                x = z3.simplify(z3.substitute(x, *sub)) if sub else x
                if x.eq(y):
                    progress = True
                    continue
                hit = next((b for b in unsolved if b.eq(x)), None)
                if hit is not None:
                    if y.sort() != hit.sort():
                        res.append(z3.BoolVal(False))
                        continue
                    sub.append((hit, y))
                    unsolved = [b for b in unsolved if not b.eq(hit)]
                    progress = True
                    continue
                # b + c == y
                if z3.is_add(x) and x.num_args() == 2:
                    ch = x.children()
                    for i in (0, 1):
                        h = next((b for b in unsolved if b.eq(ch[i])), None)
                        if h is not None and not any(any(b.eq(c) for b in unsolved) for c in consts(ch[1 - i])):
                            sub.append((h, z3.simplify(y - ch[1 - i])))
                            unsolved = [b for b in unsolved if not b.eq(h)]
                            progress = True
                            break
                    else:
                        nxt.append((x, y))
                    continue
                nxt.append((x, y))
            todo = nxt
        # injective functions: f(ctx, x') == f(ctx, y)
        progress = True
        while progress and unsolved:
            progress = False
            nxt = []
            for x, y in todo:
                x = z3.simplify(z3.substitute(x, *sub)) if sub else x
                done = False
                if z3.is_app(x) and z3.is_app(y) and x.num_args() and x.decl().eq(y.decl()) and x.decl().name() in self.INJ:
                    k = self.INJ[x.decl().name()]
                    cx, cy = x.children(), y.children()
                    if all(a.eq(b) for a, b in zip(cx[:k], cy[:k])):
                        if all(any(b.eq(a) for b in unsolved) or not any(any(b.eq(c) for b in unsolved) for c in consts(a)) for a in cx[k:]):
                            for a, b in zip(cx[k:], cy[k:]):
                                h = next((u for u in unsolved if u.eq(a)), None)
                                if h is not None:
                                    sub.append((h, b))
                                    unsolved = [u for u in unsolved if not u.eq(h)]
                                else:
                                    res.append(a == b)
                            done = progress = True
                if not done:
                    nxt.append((x, y))
            todo = nxt
            # solved some: simple equations may be available again
            if progress and unsolved:
                s2, r2, unsolved = self.solve(unsolved, [(z3.substitute(x, *sub), y) for x, y in todo])
                sub, todo = sub + s2, []
                res += r2
        for x, y in todo:
            x = z3.simplify(z3.substitute(x, *sub)) if sub else x
            res.append(x == y)
        # inverse functions for what remains: y == f(ctx, b)
        return sub, res, unsolved

    def match(self, w, ref, key, extra=()):
        """(condition, substitution) under which write w hits (ref, key); None when it can't"""
        eqs = []
        if len(w.key) != len(key) or len(w.ref.args) != len(ref.args) or distinct(w.key, key):
            return None
        eqs += list(zip(w.ref.args, ref.args))
        for a, b in zip(w.key, key):
            if not self.equations(a, b, eqs):
                return None
        if not w.binders:
            cond = conj([eqt(x, y) for x, y in eqs] + list(w.guard))
            return cond, []
        eqs += self.structural(w, eqs)
        sub, res, unsolved = self.solve(w.binders, eqs)
        for b in list(unsolved):
            inv = self.invert(b, res)
            if inv is not None:
                sub = [(x, z3.substitute(y, (b, inv))) for x, y in sub] + [(b, inv)]
                res = [z3.substitute(r, (b, inv)) for r in res]
                unsolved = [u for u in unsolved if not u.eq(b)]
        g = [z3.simplify(z3.substitute(c, *sub)) for c in w.guard] + res
        cond = z3.simplify(conj(g))
        if unsolved:
            if z3.is_false(cond):
                return None
            val = subst(w.val, sub)
            if any(mentions(val, u) for u in unsolved):
                if self.prover.prove(self.pc, z3.Not(cond)):
                    return None
                raise Unsupported("read of a location written by several iterations (%s) [%s]" % (w, [str(u) for u in unsolved]))
            q = [u for u in unsolved if mentions(cond, u)]
            if q:
                cond = z3.Exists(q, cond)
        return cond, sub

    def structural(self, w, eqs):
        """x[binders] == x[values] where x is injective in the binders under the guard: equations binders == values"""
        out = []
        for x, y in eqs:
            if z3.is_const(x) or x.sort() != I or x.decl().name() in self.INJ or not any(mentions(x, b) for b in w.binders):
                continue
            th = {}
            if not fo_match(x, y, w.binders, th) or all(b.eq(v) for b, v in th.values()):
                continue
            pairs = list(th.values())
            bs = [b for b, _ in pairs]
            key = ("inj", x.get_id(), tuple(g.get_id() for g in w.guard))
            if key not in self.injcache:
                # lemma on two arbitrary tuples of binders
                ren = [(b, z3.Const(b.decl().name() + "~i", b.sort())) for b in w.binders]
                mine = [r for r in ren if any(r[0].eq(b) for b in bs)]
                g2 = [z3.substitute(g, *ren) for g in w.guard]
                ok = self.prover.prove(list(w.guard) + g2 + [x == z3.substitute(x, *ren)], conj([a == b for a, b in mine]), 4000)
                self.injcache[key] = (ok, x, w.guard)
            if not self.injcache[key][0]:
                continue
            # the values satisfy the guard (the conditions about these binders only)
            gs = [g for g in w.guard if not any(mentions(g, b) and not any(b.eq(c) for c in bs) for b in w.binders)]
            if len(gs) < len(w.guard):
                # other binders are in the guard: the lemma is about all of them, give up unless they are independent
                rest = [g for g in w.guard if not any(g.eq(k) for k in gs)]
                if any(mentions(g, b) for g in rest for b in bs):
                    continue
            if self.prover.prove(self.pc, conj([z3.substitute(g, *pairs) for g in gs])):
                out += pairs
        return out

    def invert(self, b, res):
        """from f(ctx, b) == y with f injective in its last argument: b = inv_f(ctx, y)"""
        for r in res:
            if not z3.is_eq(r):
                continue
            x, y = r.children()
            for x, y in ((x, y), (y, x)):
                if z3.is_app(x) and x.num_args() and x.decl().name() in self.INV:
                    cx = x.children()
                    k = self.INJ.get(x.decl().name(), len(cx) - 1)
                    if len(cx) == k + 1 and cx[-1].eq(b) and not mentions(y, b) and not any(mentions(a, b) for a in cx[:-1]):
                        return self.INV[x.decl().name()](*(cx[:-1] + [y]))
        return None

    INV = {}

    # ------------------------------------------------------------------------------ reads
    def positions(self, kind, ref, attr):
        l = self.index.get((kind, ref.site, attr), ())
        return l

    def scan(self, kind, ref, key):
        """newest to oldest: yields W entries that may concern (kind, ref), and markers"""
        l = self.positions(kind, ref, key[0] if kind == "attr" else None)
        i, j = len(l) - 1, len(self.marks) - 1
        while i >= 0 or j >= 0:
            if j < 0 or (i >= 0 and l[i] > self.marks[j]):
                yield self.log[l[i]]
                i -= 1
            else:
                yield self.log[self.marks[j]]
                j -= 1

    def lookup(self, kind, ref, key):
        """value last written at (ref, key), or _NONE"""
        for w in self.scan(kind, ref, key):
            if isinstance(w, Marker):
                v = self.at_marker(w, kind, ref, key)
                if v is not _NONE:
                    return v
                continue
            m = self.match(w, ref, key)
            if m is None:
                continue
            cond, sub = m
            if self.choose(cond):
                if getattr(w, "ambig", None):
                    raise Unsupported("write order between iterations: %s / %s" % w.ambig)
                return subst(w.val, sub)
        return _NONE

    def at_marker(self, m, kind, ref, key):
        if m.families is not None:
            for w in reversed(m.families):
                if w.kind != kind or w.ref.site != ref.site or (kind == "attr" and w.key[0] != key[0]):
                    continue
                w2 = self.previous(m, w)
                if w2 is None:
                    raise Unsupported("value carried between iterations of an unordered loop: %s" % w)
                mt = self.match(w2, ref, key)
                if mt is None:
                    continue
                cond, sub = mt
                if self.choose(cond):
                    if getattr(w, "ambig", None):
                        raise Unsupported("write order between iterations: %s / %s" % w.ambig)
                    return subst(w2.val, sub)
        else:
            m.reads.append((kind, ref, key, list(self.pc)))
        return _NONE

    def previous(self, m, w):
        """write w of an earlier iteration of the loop of marker m"""
        if m.idx is None:
            return None
        pairs = [(b, z3.Const(b.decl().name() + "'", b.sort())) for b in w.binders]
        w2 = W([p[1] for p in pairs], [z3.substitute(g, *pairs) for g in w.guard], w.kind, subst(w.ref, pairs), subst(w.key, pairs), subst(w.val, pairs), w.where)
        w2.guard = w2.guard + (z3.substitute(m.idx, *pairs) < m.idx,)
        return w2

    # ------------------------------------------------------------------------------ objects
    def attr_names(self, ref):
        """attribute names of an object, in order of first assignment"""
        T = self.schema.get(ref.site)
        out = list(T.attrs) if T is not None else []
        for k, l in self.index.items():
            if k[0] == "attr" and k[1] == ref.site and l and k[2] not in out:
                out.append(k[2])
        # order: position of the first write
        first = {n: (self.index[("attr", ref.site, n)][0] if ("attr", ref.site, n) in self.index and self.index[("attr", ref.site, n)] else -1) for n in out}
        if T is None:
            out.sort(key=lambda n: first[n])
        return out

    def getattr_raw(self, ref, name):
        v = self.lookup("attr", ref, (name,))
        if v is not _NONE:
            return v
        T = self.schema.get(ref.site)
        if T is not None:
            return T.attr(self, ref, name)
        return _NONE

    def getattr(self, o, name):
        if isinstance(o, Carried):
            raise NeedCarry(o.name)
        if isinstance(o, slice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, Ref):
            if isinstance(o.cls, Cls):
                if name == "__dict__":
                    return ExtBound("__dict__", o)
                if name == "__class__":
                    return o.cls
                a, c = o.cls.find(name)
                if isinstance(a, Func) and a.kind == "property":
                    return self.call(Bound(a, o), [], {})
                v = self.getattr_raw(o, name)
                if v is not _NONE:
                    return v
                if isinstance(a, Func):
                    if a.kind == "staticmethod":
                        return a
                    if a.kind == "classmethod":
                        return Bound(a, o.cls)
                    if a.kind == "other":
                        raise Unsupported("decorator on %s" % a.name)
                    return Bound(a, o)
                if isinstance(a, tuple):
                    return self.eval(a[1], Frame({}, c.module))
                T = self.schema.get(o.site)
                if T is not None and getattr(T, "method", None) and name in T.method:
                    return ExtBound(T.method[name], o)
                if may_assign(o.cls, name):
                    # an attribute the code sets on its objects but that the object of this proof,
                    # made from the contract's data invariant and not by __init__, does not have
                    raise Unsupported("attribute %s of %s, outside the data invariant" % (name, o.cls.name))
                raise PyRaise("AttributeError", (name,))
            v = self.getattr_raw(o, name)
            if v is not _NONE:
                return v
            h = "%s.%s" % (o.cls, name)
            if h in self.methods:
                m = self.methods[h]
                return m(self, o) if getattr(m, "is_prop", False) else ExtBound(h, o)
            raise Unsupported("attribute %s of %s" % (name, o.cls))
        if isinstance(o, Module):
            v = self.glob(o, name)
            if v is None:
                try:
                    return self.module(o.name + "." + name)
                except Unsupported:
                    raise Unsupported("%s.%s" % (o.name, name))
            return v
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name.rsplit(".", 1)[1]
            a, c = o.find(name)
            if isinstance(a, Func):
                return Bound(a, o) if a.kind == "classmethod" else a
            if isinstance(a, tuple):
                return self.eval(a[1], Frame({}, c.module))
            raise Unsupported("class attribute %s.%s" % (o.name, name))
        if isinstance(o, Super):
            for c in o.cls.mro()[1:]:
                if name in c.attrs:
                    return Bound(c.attrs[name], o.self_)
            if name == "__init__" and isinstance(o.self_, Ref) and any(isinstance(b, Ext) and b.name.startswith("builtins.") and b.name[9:] in EXC for k in o.cls.mro() for b in k.bases):
                return self.lib.ExcInit(o.self_)
            raise Unsupported("super().%s" % name)
        if isinstance(o, Ext):
            full = o.name + "." + name
            if full in self.lib.CONST:
                return self.lib.CONST[full]
            return Ext(full)
        if isinstance(o, (str, Tup, Sc, int, float, bool)) or isinstance(o, (Seq, ExtBound)):
            return ExtBound(self.lib.pykind(o) + "." + name, o)
        if isinstance(o, self.lib.Val):
            return o.getattr(self, name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def setattr(self, o, name, v):
        if isinstance(o, Ref):
            self.write("attr", o, (name,), v)
        elif isinstance(o, Ext) or isinstance(o, Cls):
            self.events.append(("setattr", o, name, v))
        elif isinstance(o, Carried):
            raise NeedCarry(o.name)
        elif isinstance(o, self.lib.Val):
            o.setattr(self, name, v)
        else:
            raise Unsupported("assignment to attribute of %r" % (o,))

    # ------------------------------------------------------------------------------ containers
    def new_list(self, items=(), cls="list"):
        r = self.alloc(cls)
        for x in items:
            self.append(r, x)
        return r

    def append(self, ref, v):
        self.write("seg", ref, (), v)

    def new_dict(self, items=()):
        r = self.alloc("dict")
        for k, v in items:
            self.setitem(r, k, v)
        return r

    def segs(self, ref):
        """segments of a list object, oldest first: (binders, guard, elem, idx, count, group)"""
        out = []
        for w in self.scan("seg", ref, ()):
            if isinstance(w, Marker):
                if w.families is None:
                    w.reads.append(("seg", ref, (), list(self.pc)))
                else:
                    for f in w.families:
                        if f.kind == "seg" and f.ref.site == ref.site:
                            f2 = self.previous(w, f)
                            if f2 is None:
                                raise Unsupported("list read while it is built")
                            eqs = list(zip(f2.ref.args, ref.args))
                            sub, res, unsolved = self.solve(f2.binders, eqs)
                            if not self.prover.prove(self.pc, z3.Not(conj([z3.substitute(g, *sub) for g in f2.guard] + res))):
                                raise Unsupported("list read while it is built")
                continue
            if len(w.ref.args) != len(ref.args):
                continue
            sub, res, unsolved = self.solve(w.binders, list(zip(w.ref.args, ref.args))) if w.binders else ([], [eqt(a, b) for a, b in zip(w.ref.args, ref.args)], [])
            g = [z3.simplify(z3.substitute(c, *sub)) for c in w.guard] + res
            g = [c for c in g if not z3.is_true(c)]
            if any(z3.is_false(c) for c in g):
                continue
            pairs = [(b, self.fresh(b.decl().name().split("!")[0], b.sort())) for b in unsolved]
            allsub = sub + pairs
            idx = getattr(w, "idx", None)
            cnt = getattr(w, "count", None)
            s = Seg([p[1] for p in pairs], [z3.substitute(c, *pairs) for c in g], subst(subst(w.val, sub), pairs), subst(subst(idx, sub), pairs) if idx is not None else None, subst(subst(cnt, sub), pairs) if cnt is not None else None, getattr(w, "grp", None))
            # guards not about the binders: decide now
            keep = []
            dead = False
            for c in s.guard:
                if not any(mentions(c, b) for b in s.binders) and not self.keep_guards:
                    if not self.choose(c):
                        dead = True
                        break
                else:
                    keep.append(c)
            if dead:
                continue
            s.guard = keep
            if not s.binders:
                s.index, s.count = z3.IntVal(0), z3.IntVal(1)
            lex = getattr(w, "lex", None)
            if lex is not None:
                s.lex = [(subst(subst(a, sub), pairs), subst(subst(c, sub), pairs)) for a, c in lex]
            out.append(s)
        out.reverse()
        return out

    keep_guards = False

    def contents(self, v):
        """Seq of the elements of an iterable value"""
        if isinstance(v, Carried):
            raise NeedCarry(v.name)
        if isinstance(v, Seq):
            return v
        if isinstance(v, Tup):
            return Seq([Seg([], [], x, z3.IntVal(0), z3.IntVal(1)) for x in v.items])
        if isinstance(v, Ref):
            T = self.schema.get(v.site)
            if v.cls in ("list", "tuple"):
                if T is not None:
                    if self.positions("seg", v, None):
                        base = T.seq(self, v).segs
                        return Seq(base + self.segs(v))
                    return T.seq(self, v)
                return Seq(self.segs(v))
            if v.cls == "set":
                q = self.set_seq(v)
                if len(q.segs) > 1:
                    raise Unsupported("order of the elements of a set")
                return q
            if v.cls in ("dict", "keys"):
                return Seq([Seg(s.binders, s.guard, s.elem.items[0], s.index, s.count, s.src) for s in self.items(v).segs])
            if v.cls == "ndarray":
                return self.lib.array_seq(self, v)
        if isinstance(v, ExtBound) and v.name == "__dict__":
            return Seq([Seg([], [], n, z3.IntVal(0), z3.IntVal(1)) for n in self.attr_names(v.self_)])
        if isinstance(v, self.lib.Val):
            return v.iterate(self)
        raise Unsupported("iteration over %r" % (v,))

    def items(self, d):
        """Seq of Tup(key, None) of a dict; values are read when used"""
        if isinstance(d, ExtBound) and d.name == "__dict__":
            return Seq([Seg([], [], Tup([n, self.getattr_raw(d.self_, n)]), z3.IntVal(0), z3.IntVal(1)) for n in self.attr_names(d.self_) if self.getattr_raw(d.self_, n) is not _NONE])
        if isinstance(d, self.lib.Val):
            return d.items(self)
        if not (isinstance(d, Ref) and d.cls == "dict"):
            raise Unsupported("items of %r" % (d,))
        T = self.schema.get(d.site)
        out = []
        if T is not None:
            out += T.seq(self, d).segs
        found = []
        for w in self.scan("item", d, ()):
            if isinstance(w, Marker):
                if w.families is None:
                    w.reads.append(("item", d, None, list(self.pc)))
                else:
                    for f in w.families:
                        if f.kind == "item" and f.ref.site == d.site:
                            f2 = self.previous(w, f)
                            sub, res, unsolved = self.solve(f2.binders, list(zip(f2.ref.args, d.args))) if f2 is not None else ([], [], [])
                            if f2 is None or not self.prover.prove(self.pc, z3.Not(conj([z3.substitute(g, *sub) for g in f2.guard] + res))):
                                raise Unsupported("dict read while it is built")
                continue
            sub, res, unsolved = self.solve(w.binders, list(zip(w.ref.args, d.args))) if w.binders else ([], [eqt(a, b) for a, b in zip(w.ref.args, d.args)], [])
            g = [z3.simplify(z3.substitute(c, *sub)) for c in w.guard] + res
            if any(z3.is_false(c) for c in g):
                continue
            pairs = [(b, self.fresh(b.decl().name().split("!")[0].rstrip("'"), b.sort())) for b in unsolved]
            key = subst(subst(w.key, sub), pairs)[0]
            idx = getattr(w, "idx", None)
            cnt = getattr(w, "count", None)
            idx = subst(subst(idx, sub), pairs) if idx is not None else None
            cnt = subst(subst(cnt, sub), pairs) if cnt is not None else None
            sg = Seg([p[1] for p in pairs], [z3.simplify(z3.substitute(c, *pairs)) for c in g], key, idx, cnt, getattr(w, "grp", None))
            keep, dead = [], False
            for c in sg.guard:
                if z3.is_true(c):
                    continue
                if not any(mentions(c, b) for b in sg.binders):
                    if not self.choose(c):
                        dead = True
                        break
                else:
                    keep.append(c)
            if dead:
                continue
            sg.guard = keep
            if not sg.binders:
                sg.index, sg.count = z3.IntVal(0), z3.IntVal(1)
            found.append(sg)
        found.reverse()
        base = len(out)
        kept = [(s, s.elem.items[0]) for s in out]
        for sg in found:
            dup = False
            for s, k in kept:
                try:
                    c = self.eq(k, sg.elem)
                except Unsupported:
                    raise
                hyp = self.pc + s.guard + sg.guard
                if z3.is_false(z3.simplify(c)) or self.prover.prove(hyp, z3.Not(c)):
                    continue
                # same key written again: keep the first position if it covers all of the new ones
                if not sg.binders and not s.binders and self.prover.prove(self.pc, c):
                    dup = True
                    break
                if sg.binders and self.covers(s, k, sg):
                    dup = True
                    break
                if not sg.binders and s.binders:
                    ex = z3.Exists(s.binders, conj(s.guard + [c]))
                    if self.choose(ex):
                        dup = True
                        break
                    continue
                raise Unsupported("dict keys written twice: %r / %r" % (k, sg.elem))
            if not dup:
                kept.append((sg, sg.elem))
                out.append(Seg(sg.binders, sg.guard, Tup([sg.elem, None]), sg.index, sg.count, sg.src))
        res = []
        for i, s in enumerate(out):
            res.append(s)
        return Seq(res)

    def covers(self, s, k, sg):
        eqs = []
        if not self.equations(k, sg.elem, eqs):
            return False
        sub, res, unsolved = self.solve(s.binders, eqs)
        if unsolved:
            return False
        return self.prover.prove(self.pc + sg.guard, conj([z3.substitute(c, *sub) for c in s.guard] + res))

    def getitem(self, o, k):
        if isinstance(o, Carried):
            raise NeedCarry(o.name)
        if isinstance(k, Carried):
            raise NeedCarry(k.name)
        if isinstance(o, Ref):
            if isinstance(o.cls, Cls):
                T = self.schema.get(o.site)
                if T is not None and getattr(T, "getitem", None):
                    return T.getitem(self, o, k)
                f, _ = o.cls.find("__getitem__")
                if f is None:
                    raise Unsupported("no __getitem__ on %s" % o.cls.name)
                return self.call(Bound(f, o), [k], {})
            if o.cls == "dict":
                v = self.dict_get(o, k)
                if v is _NONE:
                    raise PyRaise("KeyError", (k,))
                return v
            if o.cls in ("list", "tuple"):
                return self.list_get(o, k)
            if o.cls == "ndarray":
                return self.lib.array_get(self, o, k)
            h = "%s.__getitem__" % o.cls
            if h in self.methods:
                return self.methods[h](self, o, [k], {})
        if isinstance(o, ExtBound) and o.name == "__dict__":
            if not isinstance(k, str):
                raise Unsupported("attribute name")
            v = self.getattr_raw(o.self_, k)
            if v is _NONE:
                raise PyRaise("KeyError", (k,))
            return v
        if isinstance(o, Tup):
            if isinstance(k, slice):
                return Tup(o.items[k])
            if isinstance(k, bool) or not isinstance(k, int):
                raise Unsupported("tuple index %r" % (k,))
            if not -len(o.items) <= k < len(o.items):
                raise PyRaise("IndexError")
            return o.items[k]
        if isinstance(o, self.lib.Val):
            return o.getitem(self, k)
        if isinstance(o, Seq):
            return self.seq_get(o, k)
        raise Unsupported("subscript of %r" % (o,))

    def dict_get(self, d, k):
        if isinstance(k, Unknown):
            raise Unsupported("unknown key (%s)" % k.why)
        v = self.lookup("item", d, (k,))
        if v is not _NONE:
            return v
        T = self.schema.get(d.site)
        if T is not None:
            return T.get(self, d, k)
        return _NONE

    def list_get(self, l, k):
        if isinstance(k, slice):
            return self.lib.list_slice(self, l, k)
        T = self.schema.get(l.site)
        # item assignments
        v = self.lookup("item", l, (k,))
        if v is not _NONE:
            return v
        if T is not None and not self.positions("seg", l, None):
            n = T.length(self, l)
            i = term(k)
            if not self.choose(z3.And(i >= 0, i < n)):
                if isinstance(k, int) and k < 0:
                    i = n + k
                    if self.choose(i >= 0):
                        return T.elem(self, l, i)
                raise PyRaise("IndexError")
            return T.elem(self, l, i)
        return self.seq_get(self.contents(l), k)

    def seq_get(self, seq, k):
        segs = seq.segs
        if isinstance(k, int) and all(not s.binders and not s.guard for s in segs):
            if not -len(segs) <= k < len(segs):
                raise PyRaise("IndexError")
            return segs[k].elem
        i = term(k)
        if isinstance(k, int) and k < 0:
            i = self.seq_len(seq) + k
        off = z3.IntVal(0)
        if not self.choose(i >= 0):
            raise Unsupported("negative index")
        done = set()
        for s in segs:
            if s.index is None or s.count is None:
                raise Unsupported("index into a list of unknown order")
            if not s.binders:
                if s.guard:
                    raise Unsupported("conditional element")
                if self.choose(i == off):
                    return s.elem
                off = off + 1
                continue
            if self.choose(z3.And(i >= off, i < off + s.count)):
                sub, res, un = self.solve(s.binders, [(s.index, z3.simplify(i - off))])
                if len(un) == 1 and len(s.binders) == 1:
                    v = self.invert(un[0], [s.index == z3.simplify(i - off)])
                    if v is not None:
                        sub, un = [(un[0], v)], []
                        res = [z3.substitute(s.index, *sub) == z3.simplify(i - off)]
                if un:
                    raise Unsupported("index order")
                g = conj([z3.substitute(c, *sub) for c in s.guard] + res)
                if self.choose(g):
                    return subst(s.elem, sub)
                if s.src is None:
                    raise Unsupported("hole in list")
                continue
            if s.src is None or s.src not in done:
                off = z3.simplify(off + s.count)
                done.add(s.src)
        raise PyRaise("IndexError")

    def set_seq(self, v):
        """elements of a set, each once: known elements proved equal or different; the order is unknown"""
        out = []
        for s in self.segs(v):
            if s.binders or s.guard or not is_scalar(s.elem):
                raise Unsupported("elements of a set")
            if not any(self.py_eq(s.elem, o.elem) is True for o in out):
                if any(self.py_eq(s.elem, o.elem) is not False for o in out):
                    raise Unsupported("elements of a set that may be equal")
                out.append(s)
        return Seq(out)

    def seq_len(self, seq):
        n, done = z3.IntVal(0), set()
        for s in seq.segs:
            if s.src is not None and s.src in done:
                continue
            if s.src is not None:
                done.add(s.src)
            if s.count is not None:
                n = n + s.count
            else:
                n = n + self.sum_term(s.binders, s.guard, z3.IntVal(1))
        return z3.simplify(n)

    def setitem(self, o, k, v):
        if isinstance(v, Carried):
            raise NeedCarry(v.name)
        if isinstance(o, Carried):
            raise NeedCarry(o.name)
        if isinstance(o, Ref):
            if o.cls == "dict":
                if isinstance(k, Unknown):
                    raise Unsupported("unknown key")
                self.write("item", o, (k,), v)
                return
            if o.cls == "list":
                self.list_get(o, k)  # bounds
                self.write("item", o, (k,), v)
                return
            if o.cls == "ndarray":
                return self.lib.array_set(self, o, k, v)
            if isinstance(o.cls, Cls):
                f, _ = o.cls.find("__setitem__")
                if f is not None:
                    return self.call(Bound(f, o), [k, v], {})
            elif "%s.__setitem__" % o.cls in self.methods:
                return self.methods["%s.__setitem__" % o.cls](self, o, [k, v], {})
        if isinstance(o, self.lib.Val):
            return o.setitem(self, k, v)
        raise Unsupported("item assignment on %r" % (o,))

    # ------------------------------------------------------------------------------ sums
    def sum_term(self, binders, guard, body):
        """term of the sum of body over binders with guard"""
        bs, guard = list(binders), list(guard)
        body = z3.simplify(body)
        sort = body.sort()
        if str(body) in ("0", "0.0"):
            return body
        if z3.is_app_of(body, z3.Z3_OP_ITE):
            c, x, y = body.children()
            if str(y) in ("0", "0.0"):
                return self.sum_term(bs, guard + [c], x)
            if str(x) in ("0", "0.0"):
                return self.sum_term(bs, guard + [z3.Not(c)], y)
        # one point rule: binders given by an equation
        flat = []
        todo = guard
        while todo:
            c = todo.pop(0)
            if z3.is_and(c):
                todo = c.children() + todo
            elif not z3.is_true(c):
                flat.append(c)
        guard = flat
        for c in guard:
            if z3.is_eq(c):
                x, y = c.children()
                for x, y in ((x, y), (y, x)):
                    b = next((b for b in bs if b.eq(x)), None)
                    if b is not None and not mentions(y, b) and x.sort() == y.sort():
                        rest = [z3.substitute(d, (b, y)) for d in guard if not d.eq(c)]
                        left = [k for k in bs if not k.eq(b)]
                        body = z3.substitute(body, (b, y))
                        if left:
                            return self.sum_term(left, rest, body)
                        return z3.If(conj(rest), body, z3.IntVal(0) if sort == I else z3.RealVal(0)) if rest else body
        # a binder over an interval that the body does not mention
        for b in bs:
            if b.sort() != I or mentions(body, b):
                continue
            own = [c for c in guard if mentions(c, b)]
            if len(own) != 2:
                continue
            up = None
            for lo, hi in (own, own[::-1]):
                if z3.is_ge(lo) and lo.arg(0).eq(b) and str(lo.arg(1)) == "0" and z3.is_lt(hi) and hi.arg(0).eq(b) and not mentions(hi.arg(1), b):
                    up = hi.arg(1)
            rest = [c for c in guard if not mentions(c, b)]
            if up is not None and self.prover.prove(self.pc + rest, up >= 0):
                left, body = [k for k in bs if not k.eq(b)], body * (up if sort == I else z3.ToReal(up))
                if left:
                    return self.sum_term(left, rest, body)
                return z3.If(conj(rest), body, z3.IntVal(0) if sort == I else z3.RealVal(0)) if rest else z3.simplify(body)
        if sort == R:
            # sum of a polynomial: one sum per monomial, factors without binders outside
            p = z3.simplify(body, som=True)
            ms = p.children() if z3.is_add(p) else [p]
            parts = []
            for m in ms:
                out, ins = [], []
                for x in m.children() if z3.is_mul(m) else [m]:
                    (ins if any(mentions(x, b) for b in bs) else out).append(x)
                if len(ms) == 1 and (not out or m.eq(z3.RealVal(1))):
                    parts = None
                    break
                t = self.prod(ins)
                u = self.sum_term(bs, guard, t)
                parts.append(self.prod(out + [u]))
            if parts is not None:
                return z3.simplify(z3.Sum(parts) if len(parts) > 1 else parts[0])
            body = p
        for f, cb, ps, gk, bk in list(self.sums.values()):
            # sum of a sum: one sum over all binders
            if z3.is_app(body) and body.decl().name() == (f.name() if isinstance(f, z3.FuncDeclRef) else f.decl().name()) and z3.is_app(body):
                pr = list(zip(ps, body.children()))
                new = [self.fresh(c.decl().name().split(":")[0].strip("#") + "i", c.sort()) for c in cb]
                pr += list(zip(cb, new))
                return self.sum_term(bs + new, guard + [subst_term(gk, pr)], subst_term(bk, pr))
        g = conj(guard)
        canon = [(b, z3.Const("#%d:%s" % (i, b.sort()), b.sort())) for i, b in enumerate(bs)]
        g, body = z3.simplify(z3.substitute(g, *canon)), z3.simplify(z3.substitute(body, *canon))
        fv = []
        for c in consts(g) + consts(body):
            if not any(c.eq(x) for x in fv) and not any(c.eq(x[1]) for x in canon):
                fv.append(c)
        fv.sort(key=lambda c: c.decl().name())
        pat = [(c, z3.Const("$%d:%s" % (i, c.sort()), c.sort())) for i, c in enumerate(fv)]
        gk, bk = z3.substitute(g, *pat), z3.substitute(body, *pat)
        key = (gk.sexpr(), bk.sexpr(), str(sort))
        if key not in self.sums:
            name = "sum%d" % len(self.sums)
            f = z3.Function(name, *([c.sort() for c in fv] + [sort])) if fv else z3.Const(name, sort)
            self.sums[key] = (f, [c[1] for c in canon], [p[1] for p in pat], gk, bk)
            if self.prover.prove([gk], bk >= 0):
                ps = [p[1] for p in pat]
                a = f(*ps) if ps else f
                fa = lambda vs, b, pat: z3.ForAll(vs, b, patterns=[pat]) if vs else b
                self.prover.axiom(fa(ps, a >= 0, a))
                if sort == I:
                    # a positive sum has a positive summand, and bounds each of them
                    wit = [z3.Function("%s_wit%d" % (name, i), *([c.sort() for c in ps] + [b[1].sort()]))(*ps) if ps else z3.Const("%s_wit%d" % (name, i), b[1].sort()) for i, b in enumerate(canon)]
                    pw = [(b[1], w_) for b, w_ in zip(canon, wit)]
                    self.prover.axiom(fa(ps, z3.Implies(a > 0, z3.And(z3.substitute(gk, *pw), z3.substitute(bk, *pw) > 0)), a))
                    pats = self.triggers(gk, [b[1] for b in canon])
                    if pats is not None:
                        vs = ps + [b[1] for b in canon]
                        self.prover.axiom(z3.ForAll(vs, z3.Implies(gk, bk <= a), patterns=[z3.MultiPattern(a, *pats) if ps else (z3.MultiPattern(*pats) if len(pats) > 1 else pats[0])]))
        f, cb, ps, _, _ = self.sums[key]
        return f(*fv) if fv else f

    @staticmethod
    def prod(l):
        t = None
        for x in l:
            t = x if t is None else t * x
        return t if t is not None else z3.RealVal(1)

    def triggers(self, g, binders):
        """terms of g that cover the binders, the simplest ones"""
        cand = []
        todo, seen = [g], set()
        while todo:
            x = todo.pop(0)
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                c = [b for b in binders if mentions(x, b)]
                if c:
                    cand.append((not all(z3.is_const(y) for y in x.children()), -len(c), len(cand), x, c))
            todo += x.children()
        got, out = [], []
        for _, _, _, x, c in sorted(cand, key=lambda e: e[:3]):
            new = [b for b in c if not any(b.eq(y) for y in got)]
            if new:
                got += new
                out.append(x)
        return out if len(got) == len(binders) and out else None

    def sum_axioms(self, goal_terms):
        """extensionality: equal sums for pairs of sum terms in the goal"""
        apps = {}
        byname = {(v[0].name() if isinstance(v[0], z3.FuncDeclRef) else v[0].decl().name()): v for v in self.sums.values()}
        todo = list(goal_terms)
        seen = set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x) and x.decl().name() in byname:
                apps[x.get_id()] = x
            todo += x.children()
        out = []
        l = list(apps.values())
        for a in l:
            fa = byname[a.decl().name()]
            pa = list(zip(fa[2], a.children()))
            if self.prover.prove(self.pc, z3.Not(subst_term(fa[3], pa))):
                out.append(a == 0)
        for i in range(len(l)):
            for j in range(i):
                a, b = l[i], l[j]
                if a.sort() != b.sort():
                    continue
                fa, fb = byname[a.decl().name()], byname[b.decl().name()]
                pa = list(zip(fa[2], a.children()))
                ga, ba = subst_term(fa[3], pa), subst_term(fa[4], pa)
                for perm in permutations(fb[1]):
                    if [x.sort() for x in fa[1]] != [x.sort() for x in perm]:
                        continue
                    pb = list(zip(fb[2], b.children())) + list(zip(perm, fa[1]))
                    gb, bb = subst_term(fb[3], pb), subst_term(fb[4], pb)
                    if self.prover.prove(self.pc, z3.And(ga == gb, z3.Implies(ga, ba == bb))):
                        out.append(a == b)
                        break
        return out

    def prove(self, goal, pc=None, timeout=None):
        pc = self.pc if pc is None else pc
        if self.prover.prove(pc, goal, timeout):
            return True
        if self.sums:
            ax = self.sum_axioms(list(pc) + [goal])
            if ax:
                return self.prover.prove(list(pc) + ax, goal, timeout)
        return False
