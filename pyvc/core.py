"""pyvc core: values, heap log, prover.

The engine symbolically executes the real function bodies of /repo (parsed on every run).  Values are z3 terms,
object references or structured Python values; the heap is an ordered log of (quantified) writes."""
import time

import z3

S = z3.DeclareSort("Str")
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """construct outside the subset: the obligation stays undecided (never a violation)"""


class PyRaise(Exception):
    """a Python exception raised by the executed code"""

    def __init__(self, cls, args=(), where=""):
        Exception.__init__(self, cls)
        self.cls, self.exc_args, self.where = cls, args, where


_n = [0]


def fresh(name, sort):
    _n[0] += 1
    return z3.Const("%s!%d" % (name, _n[0]), sort)


# ------------------------------------------------------------------------------------------- values
class Sc:
    """scalar: z3 term and its Python type: int, float, bool, str, num (some number, type not known)"""

    __slots__ = ("t", "py")

    def __init__(self, t, py):
        self.t, self.py = t, py

    def __repr__(self):
        return "%s:%s" % (self.t, self.py)


class Ref:
    """object: allocation site (or access path of an input), index vector, class name, chain of copies"""

    __slots__ = ("site", "args", "cls", "via")

    def __init__(self, site, args, cls, via=()):
        self.site, self.args, self.cls, self.via = site, tuple(args), cls, tuple(via)

    def key(self):
        return (self.site, tuple(v[0] for v in self.via))

    def allargs(self):
        out = list(self.args)
        for _, a in self.via:
            out += list(a)
        return out

    def __repr__(self):
        return "<%s %s(%s)%s>" % (self.cls, self.site, ",".join(map(str, self.args)), "".join("^%s(%s)" % (c, ",".join(map(str, a))) for c, a in self.via))


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Unknown:
    """a value the engine does not know: using it is Unsupported"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Unknown(%s)" % self.why


class Func:
    def __init__(self, name, node, module, closure=None, cls=None, kind="function"):
        self.name, self.node, self.module, self.closure, self.cls, self.kind = name, node, module, closure, cls, kind

    def __repr__(self):
        return "Func(%s)" % self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    """class of the repository"""

    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []
        self.attrs = {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return "Cls(%s)" % self.name


class Ext:
    """external name (assumed contract in lib.py)"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class ExtBound:
    def __init__(self, name, self_):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return "ExtBound(%s)" % self.name


class Module:
    def __init__(self, name, tree):
        self.name, self.tree, self.globals = name, tree, {}


class Seq:
    """iterable: list of segments, each a family (binders, guard, elem function) in order.
    binders: list of z3 consts; guard: list of z3 Bool; elem: value; order: 'index' term when the segment is a list"""

    def __init__(self, segs):
        self.segs = segs


class Seg:
    __slots__ = ("binders", "guard", "elem", "index", "count", "src", "lex")

    def __init__(self, binders, guard, elem, index=None, count=None, src=None):
        self.lex = None
        self.binders, self.guard, self.elem, self.index, self.count, self.src = list(binders), list(guard), elem, index, count, src


# ------------------------------------------------------------------------------------------- constants
_strs = {}


def sconst(s):
    if s not in _strs:
        _strs[s] = z3.Const("str:%s" % s, S)
    return _strs[s]


def str_axioms():
    v = list(_strs.values())
    return [z3.Distinct(*v)] if len(v) > 1 else []


def term(v):
    """z3 term of a scalar value"""
    if isinstance(v, Sc):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("infinite constant")
        from fractions import Fraction

        f = Fraction(str(v))
        return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
    if isinstance(v, str):
        return sconst(v)
    if z3.is_expr(v):
        return v
    raise Unsupported("not a scalar: %r" % (v,))


def is_scalar(v):
    return isinstance(v, (Sc, bool, int, float, str))


def real(t):
    return z3.ToReal(t) if t.sort() == I else t


def num2(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == B:
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if b.sort() == B:
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == b.sort():
        return a, b
    if {a.sort().name(), b.sort().name()} == {"Int", "Real"}:
        return real(a), real(b)
    raise Unsupported("mixed sorts %s %s" % (a.sort(), b.sort()))


def eqt(a, b):
    """z3 equality of two scalar terms (False when of different kinds)"""
    if a.sort() != b.sort():
        if S in (a.sort(), b.sort()):
            return z3.BoolVal(False)
        a, b = num2(a, b)
    if a.eq(b):
        return z3.BoolVal(True)
    if a.sort() == S and is_sconst(a) and is_sconst(b):
        return z3.BoolVal(False)
    return a == b


def is_sconst(t):
    return z3.is_const(t) and t.decl().name().startswith("str:")


def conj(cs):
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return z3.BoolVal(True)
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def disj(cs):
    cs = [c for c in cs if not z3.is_false(c)]
    if not cs:
        return z3.BoolVal(False)
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


def subst_term(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def subst(v, pairs):
    """substitute constants inside a value"""
    if not pairs:
        return v
    if isinstance(v, Sc):
        return Sc(z3.substitute(v.t, *pairs), v.py)
    if isinstance(v, Ref):
        return Ref(v.site, [z3.substitute(a, *pairs) for a in v.args], v.cls, [(c, tuple(z3.substitute(a, *pairs) for a in aa)) for c, aa in v.via])
    if isinstance(v, Tup):
        return Tup([subst(x, pairs) for x in v.items])
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Seq):
        return Seq([Seg(s.binders, [z3.substitute(g, *pairs) for g in s.guard], subst(s.elem, pairs), subst(s.index, pairs) if s.index is not None else None, subst(s.count, pairs) if s.count is not None else None, s.src) for s in v.segs])
    if isinstance(v, Bound):
        return Bound(v.func, subst(v.self_, pairs))
    if isinstance(v, ExtBound):
        return ExtBound(v.name, subst(v.self_, pairs))
    if hasattr(v, "subst"):
        return v.subst(pairs)
    return v


_consts_cache = {}


def consts(t, acc=None):
    """uninterpreted constants of a term that are not string literals"""
    k = t.get_id()
    hit = _consts_cache.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.decl().name().startswith("str:"):
            out.append(x)
        todo += x.children()
    _consts_cache[k] = (t, out)
    return out


def mentions(v, c):
    """does a value mention the constant c"""
    if isinstance(v, Sc):
        return any(x.eq(c) for x in consts(v.t))
    if z3.is_expr(v):
        return any(x.eq(c) for x in consts(v))
    if isinstance(v, Ref):
        return any(mentions(a, c) for a in v.allargs())
    if isinstance(v, Tup):
        return any(mentions(a, c) for a in v.items)
    if isinstance(v, (list, tuple)):
        return any(mentions(a, c) for a in v)
    if isinstance(v, Seq):
        return any(mentions(s.guard, c) or mentions(s.elem, c) for s in v.segs)
    if isinstance(v, (Bound, ExtBound)):
        return mentions(v.self_, c)
    if hasattr(v, "mentions"):
        return v.mentions(c)
    return False


def skey(v):
    """structural key of a value (z3 terms are hash-consed; keep the value alive while the key is used)"""
    if isinstance(v, Sc):
        return ("s", v.t.get_id(), v.py)
    if z3.is_expr(v):
        return ("t", v.get_id())
    if isinstance(v, Ref):
        return ("r", v.site, tuple(a.get_id() for a in v.args), tuple((c, tuple(a.get_id() for a in aa)) for c, aa in v.via))
    if isinstance(v, Tup):
        return ("T",) + tuple(skey(x) for x in v.items)
    if isinstance(v, (list, tuple)):
        return tuple(skey(x) for x in v)
    if isinstance(v, W):
        return (v.kind, skey(v.ref), skey(v.key), skey(v.val), skey(v.binders), skey(v.guard), skey(getattr(v, "idx", None)), skey(getattr(v, "count", None)))
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__, v)
    return repr(v)


# ------------------------------------------------------------------------------------------- log
class W:
    """quantified write: for all binders with guard, map kind at (ref, key) := val"""

    def __init__(self, binders, guard, kind, ref, key, val, where=""):
        self.binders, self.guard, self.kind, self.ref, self.key, self.val, self.where = tuple(binders), tuple(guard), kind, ref, tuple(key), val, where

    def __repr__(self):
        return "W[%s | %s] %s %s%s := %s  (%s)" % (",".join(map(str, self.binders)), " & ".join(str(g) for g in self.guard), self.kind, self.ref, list(self.key), self.val, self.where)

    def sub(self, pairs):
        return W(self.binders, [z3.substitute(g, *pairs) for g in self.guard], self.kind, subst(self.ref, pairs), subst(self.key, pairs), subst(self.val, pairs), self.where) if pairs else self


class Marker:
    """start of an iteration of a symbolic loop: writes of previous iterations come here"""

    def __init__(self, binders, idx, families=None):
        self.binders, self.idx = list(binders), idx
        self.families = families  # list of W once known
        self.reads = []  # (kind, ref, key, pc) that fell through while the families were not known


# ------------------------------------------------------------------------------------------- prover
class Prover:
    def __init__(self, timeout=4000):
        self.axioms = []
        self.timeout = timeout
        self.cache = {}
        self.queries = 0
        self.time = 0.0
        self.solver = None
        self.nax = -1

    def axiom(self, a):
        self.axioms.append(a)

    def _check(self, assertions, timeout=None):
        ns = (len(self.axioms), len(_strs))
        if self.solver is None or self.nax != ns:
            self.solver = z3.Solver()
            self.solver.set("auto_config", False)
            self.solver.set("smt.mbqi", False)
            self.solver.set("random_seed", 7)
            for a in self.axioms + str_axioms():
                self.solver.add(a)
            self.nax = ns
        s = self.solver
        s.set("timeout", timeout or self.timeout)
        t = time.monotonic()
        s.push()
        for a in assertions:
            s.add(a)
        r = s.check()
        self.reason = "" if r != z3.unknown else s.reason_unknown()
        s.pop()
        self.time += time.monotonic() - t
        self.queries += 1
        return r

    def prove(self, pc, goal, timeout=None):
        """True when goal follows from pc and the axioms"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        pc = [p for p in pc if not z3.is_true(p)]
        key = (tuple(sorted(p.get_id() for p in pc)), g.get_id(), len(self.axioms), len(_strs))
        hit = self.cache.get(key)
        if hit is not None and not (timeout and timeout > hit[3] and not hit[0]):
            return hit[0]
        r = self._check(list(pc) + [z3.Not(g)], timeout) == z3.unsat
        self.cache[key] = (r, list(pc), g, timeout or self.timeout)
        return r

    def feasible(self, pc, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        return not self.prove(pc, z3.Not(c), 1500)
