"""assumed contracts: builtins, numpy, ortools, msgpack, multiprocessing, ... (everything outside the repository)"""
import ast

import z3

from core import *  # noqa
from core import _strs  # noqa

TABLE, METHODS, CONST = {}, {}, {}
BUILTINS = {"len", "range", "enumerate", "zip", "isinstance", "type", "list", "dict", "tuple", "set", "all", "any", "max", "min", "sum", "float", "int", "str", "bool", "complex", "abs", "sorted", "reversed", "print", "map", "filter", "object", "hasattr", "getattr", "round", "slice", "bytes", "super", "iter", "next", "divmod", "id", "repr", "callable"}
_NONE = None  # set by engine import below


def none():
    import engine

    return engine._NONE


def ext(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f

    return d


def meth(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f

    return d


class Val:
    """structured value with its own rules"""

    def _no(self, what):
        raise Unsupported("%s of %s" % (what, type(self).__name__))

    def getattr(self, eng, name):
        self._no("attribute " + name)

    def setattr(self, eng, name, v):
        self._no("attribute assignment")

    def iterate(self, eng):
        self._no("iteration")

    def items(self, eng):
        self._no("items")

    def length(self, eng):
        self._no("len")

    def member(self, eng, x):
        self._no("membership")

    def truth(self, eng):
        self._no("truth")

    def call(self, eng, args, kw):
        self._no("call")

    def getitem(self, eng, k):
        self._no("subscript")

    def setitem(self, eng, k, v):
        self._no("item assignment")


class Lazy(Val):
    """value d[key], read when it is used"""

    def __init__(self, d, key):
        self.d, self.key = d, key

    def force(self, eng):
        return eng.getitem(self.d, self.key)

    def subst(self, pairs):
        return Lazy(subst(self.d, pairs), subst(self.key, pairs))

    def mentions(self, c):
        return mentions(self.d, c) or mentions(self.key, c)

    def __repr__(self):
        return "Lazy(%r,%r)" % (self.d, self.key)


class Sel(Val):
    """element selected from a sequence by position, read when used"""

    def __init__(self, seq, k):
        self.seq, self.k = seq, k

    def force(self, eng):
        return eng.seq_get(self.seq, self.k)

    def subst(self, pairs):
        return Sel(subst(self.seq, pairs), subst(self.k, pairs))

    def mentions(self, c):
        return mentions(self.seq, c) or mentions(self.k, c)

    def __repr__(self):
        return "Sel(%r,%r)" % (self.seq, self.k)


class View(Val):
    def __init__(self, d, what):
        self.d, self.what = d, what

    def iterate(self, eng):
        out = []
        for s in eng.items(self.d).segs:
            k = s.elem.items[0]
            v = s.elem.items[1] if s.elem.items[1] is not None else Lazy(self.d, k)
            e = {"items": Tup([k, v]), "values": v, "keys": k}[self.what]
            out.append(Seg(s.binders, s.guard, e, s.index, s.count, s.src))
        return Seq(out)

    def length(self, eng):
        return eng.seq_len(eng.items(self.d))

    def truth(self, eng):
        return self.length(eng) > 0

    def member(self, eng, x):
        if self.what == "keys":
            return eng.member(x, self.d)
        return eng.member(x, self.iterate(eng))

    def subst(self, pairs):
        return View(subst(self.d, pairs), self.what)

    def mentions(self, c):
        return mentions(self.d, c)

    def __repr__(self):
        return "View(%r,%s)" % (self.d, self.what)


class Packed(Val):
    """bytes of msgpack: the document they hold"""

    def __init__(self, v):
        self.v = v

    def subst(self, pairs):
        return Packed(subst(self.v, pairs))

    def mentions(self, c):
        return mentions(self.v, c)

    def __repr__(self):
        return "Packed(%r)" % (self.v,)


class MaybeNone(Val):
    """None or an object whose methods have no effect"""

    def __init__(self, name):
        self.is_none = z3.Const("none_" + name, B)
        self.name = name

    def getattr(self, eng, name):
        if eng.choose(self.is_none):
            raise PyRaise("AttributeError", (name,))
        return Opaque(self.name + "." + name)

    def truth(self, eng):
        return z3.Not(self.is_none)


class Opaque(Val):
    """object whose methods do nothing the properties depend on (logger, progress bar)"""

    def __init__(self, name):
        self.name = name

    def getattr(self, eng, name):
        return Opaque(self.name + "." + name)

    def setattr(self, eng, name, v):
        pass

    def call(self, eng, args, kw):
        eng.trusted.add(self.name + " (no effect)")
        return None

    def __repr__(self):
        return "Opaque(%s)" % self.name


def force(eng, v):
    while isinstance(v, (Lazy, Sel)):
        v = v.force(eng)
    if isinstance(v, Tup) and any(isinstance(x, (Lazy, Sel, Tup)) for x in v.items):
        return Tup([force(eng, x) for x in v.items])
    return v


def pykind(v):
    if isinstance(v, str) or (isinstance(v, Sc) and v.t.sort() == S):
        return "str"
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, bool) or (isinstance(v, Sc) and v.t.sort() == B):
        return "bool"
    if isinstance(v, (int, float, Sc)):
        return "num"
    if isinstance(v, ExtBound) and v.name == "__dict__":
        return "dict"
    if isinstance(v, Seq):
        return "seq"
    return "?"


def is_noop(fn):
    return isinstance(fn, Opaque) and fn.name.startswith("logger.") or isinstance(fn, ExtBound) and fn.name in ("Solver.EnableOutput", "Solver.SuppressOutput") or isinstance(fn, Ext) and fn.name in ("builtins.print", "logging.debug", "logging.info", "logging.warning")


# ------------------------------------------------------------------------------------------- strings
_fn = {}


def ufun(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _fn:
        _fn[k] = z3.Function(name, *sorts)
    return _fn[k]


def strterm(v):
    """term of str(v) used inside formatted strings: any injection will do"""
    t = term(v)
    if t.sort() == S:
        return t
    return ufun("str_of_%s" % t.sort(), t.sort(), S)(t)


def fmt(eng, pat, args):
    if isinstance(args, Carriedlike):
        raise Unsupported("format")
    items = args.items if isinstance(args, Tup) else (args,)
    if not isinstance(pat, str):
        raise Unsupported("format pattern")
    if all(isinstance(x, (str, int)) and not isinstance(x, bool) for x in items):
        try:
            return pat % tuple(items)
        except (TypeError, ValueError):
            raise PyRaise("TypeError")
    ts = []
    for x in items:
        x = force(eng, x)
        if not is_scalar(x):
            return Unknown("formatted %r" % (x,))
        ts.append(strterm(x))
    if pat == "%s" and len(ts) == 1:
        return Sc(ts[0], "str")
    eng.strfuns = getattr(eng, "strfuns", set())
    f = ufun("fmt:%s" % pat, *([S] * len(ts) + [S]))
    return Sc(f(*ts), "str")


class Carriedlike:
    pass


def concat(eng, a, b):
    return Sc(ufun("concat", S, S, S)(strterm(a), strterm(b)), "str")


def join2(sep):
    return ufun("join:%s" % sep, S, S, S)


@meth("str.join")
def str_join(eng, s, args, kw):
    if not isinstance(s, str):
        raise Unsupported("join")
    seq = eng.contents(args[0])
    if any(x.binders or x.guard for x in seq.segs):
        return Unknown("join of a symbolic list")
    parts = [force(eng, x.elem) for x in seq.segs]
    if all(isinstance(p, str) for p in parts):
        return s.join(parts)
    ts = [strterm(p) for p in parts]
    f = ufun("join%d:%s" % (len(ts), s), *([S] * len(ts) + [S]))
    eng.INJ.setdefault("join%d:%s" % (len(ts), s), 0)
    return Sc(f(*ts), "str")


@meth("str.split")
def str_split(eng, s, args, kw):
    if isinstance(s, str) and all(isinstance(a, str) for a in args):
        return eng.new_list(s.split(*args))
    sep = args[0] if args else None
    t = s.t
    if not isinstance(sep, str):
        raise Unsupported("split")
    if z3.is_app(t) and t.decl().name().startswith("join") and t.decl().name().endswith(":" + sep):
        eng.assumptions.add("network and node names do not contain '%s' (join and split are inverse)" % sep)
        return eng.new_list([Sc(c, "str") for c in t.children()])
    raise Unsupported("split of %s" % t)


@meth("str.format")
def str_format(eng, s, args, kw):
    if isinstance(s, str) and not kw and "{{" not in s and "}}" not in s and s.count("{}") == len(args) == s.count("{") == s.count("}"):
        return fmt(eng, s.replace("%", "%%").replace("{}", "%s"), Tup(args))
    return Unknown("format")


@meth("str.replace", "str.lower", "str.upper", "str.strip")
def str_any(eng, s, args, kw):
    if isinstance(s, str) and all(isinstance(a, str) for a in args):
        return s.replace(*args) if len(args) == 2 else Unknown("str")
    return Unknown("string method")


@meth("str.startswith", "str.endswith")
def str_sw(eng, s, args, kw):
    raise Unsupported("string prefix")


# ------------------------------------------------------------------------------------------- containers
@meth("dict.items")
def d_items(eng, d, args, kw):
    return View(d, "items")


@meth("dict.values")
def d_values(eng, d, args, kw):
    return View(d, "values")


@meth("dict.keys")
def d_keys(eng, d, args, kw):
    return View(d, "keys")


@meth("dict.get")
def d_get(eng, d, args, kw):
    if isinstance(d, ExtBound):
        v = eng.getattr_raw(d.self_, args[0])
    else:
        v = eng.dict_get(d, args[0])
    if v is none():
        return args[1] if len(args) > 1 else None
    return v


@meth("dict.copy")
def d_copy(eng, d, args, kw):
    r = eng.new_dict()
    eng.loop(View(d, "items").iterate(eng), lambda e: eng.setitem(r, e.items[0], force(eng, e.items[1])), frame(), set())
    return r


@meth("dict.update")
def d_update(eng, d, args, kw):
    if args:
        eng.loop(View(args[0], "items").iterate(eng), lambda e: eng.setitem(d, e.items[0], force(eng, e.items[1])), frame(), set())
    for k, v in kw.items():
        eng.setitem(d, k, v)


@meth("dict.setdefault")
def d_setdefault(eng, d, args, kw):
    v = eng.dict_get(d, args[0])
    if v is none():
        eng.setitem(d, args[0], args[1] if len(args) > 1 else None)
        return args[1] if len(args) > 1 else None
    return v


def frame():
    import engine

    return engine.Frame({}, None)


@meth("list.append")
def l_append(eng, l, args, kw):
    eng.append(l, force(eng, args[0]))


@meth("list.extend")
def l_extend(eng, l, args, kw):
    eng.loop(eng.contents(args[0]), lambda e: eng.append(l, force(eng, e)), frame(), set())


@meth("list.copy")
def l_copy(eng, l, args, kw):
    return to_list(eng, l)


@meth("list.__len__")
def l_len(eng, l, args, kw):
    return wrap_int(eng.length(l))


def to_list(eng, v, cls="list"):
    r = eng.alloc(cls)
    eng.loop(eng.contents(v), lambda e: eng.append(r, force(eng, e)), frame(), set())
    return r


def flipped(eng, seq):
    """the same elements in reverse order"""
    out = []
    for s in reversed(seq.segs):
        if s.binders:
            if s.index is None or s.count is None or s.src is not None:
                raise Unsupported("reverse order of %r" % (s.elem,))
            s = Seg(s.binders, s.guard, s.elem, z3.simplify(s.count - 1 - s.index), s.count)
        out.append(s)
    return Seq(out)


def list_slice(eng, l, k):
    seq = eng.contents(l)
    if all(not s.binders and not s.guard for s in seq.segs) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
        return eng.new_list([s.elem for s in seq.segs][k])
    if k.start is None and k.stop is None and k.step is None:
        return to_list(eng, l)
    if k.step == -1 and k.start is None and k.stop is None:
        return to_list(eng, flipped(eng, seq))
    if k.step not in (None, 1):
        raise Unsupported("list slice with a step")
    n = eng.seq_len(seq)

    def bound(x, default):
        if x is None:
            return default
        t = term(x)
        if t.sort() != I:
            raise Unsupported("slice bound")
        if not eng.choose(t >= 0):
            t = z3.simplify(n + t)
            return t if eng.choose(t >= 0) else z3.IntVal(0)
        return t if eng.choose(t <= n) else n

    a, b = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
    r = eng.alloc("list")
    if not eng.choose(a < b):
        return r
    i = eng.fresh("i", I)
    cnt = z3.simplify(b - a)
    eng.loop(Seq([Seg([i], [i >= 0, i < cnt], Sc(i, "int"), i, cnt)]), lambda e: eng.append(r, eng.getitem(l, wrap_int(e.t + a))), frame(), set())
    return r


def wrap_int(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else Sc(t, "int")


# ------------------------------------------------------------------------------------------- builtins
@ext("builtins.len")
def b_len(eng, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(v.cls, Cls):
        f, _ = v.cls.find("__len__")
        return eng.call(Bound(f, v), [], {})
    return wrap_int(eng.length(v))


@ext("builtins.range")
def b_range(eng, args, kw):
    a, b, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
    if all(isinstance(x, int) for x in (a, b, st)):
        r = range(a, b, st)
        if len(r) <= 200:
            return Seq([Seg([], [], i, z3.IntVal(0), z3.IntVal(1)) for i in r])
    if not (isinstance(st, int) and st == 1):
        return Range(eng, term(a), term(b), term(st))
    x, y = term(a), term(b)
    i = eng.fresh("i", I)
    n = z3.simplify(y - x)
    if not eng.prover.prove(eng.pc, n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    return Seq([Seg([i], [i >= x, i < y], Sc(i, "int"), z3.simplify(i - x), n)])


class Range(Val):
    """range(a, b, step) with a step not known, proved positive"""

    pytype, immutable = "builtins.range", True

    def __init__(self, eng, a, b, st):
        if not eng.prover.prove(eng.pc, st > 0):
            raise Unsupported("range step")
        self.a, self.b, self.st = a, b, st
        n = self.n = z3.Function("range_len", I, I, I, I)(a, b, st)
        for x in (n >= 0, (n == 0) == (b <= a), (n == 1) == z3.And(a < b, b <= a + st)):
            if not any(x.eq(y) for y in eng.prover.axioms):
                eng.prover.axiom(x)
        z = z3.Const("z!", I)
        self.has = z3.Function("in_range", I, I, I, I, B)
        h = self.has(a, b, st, z)
        x = z3.ForAll([z], h == z3.And(a <= z, z < b, (z - a) % st == 0), patterns=[h])
        y = z3.ForAll([z], z3.Implies(z3.And(h, n == 1), z == a), patterns=[h])
        if not any(x.eq(k) for k in eng.prover.axioms):
            eng.prover.axiom(x)
            eng.prover.axiom(y)

    def as_tuple(self, eng):
        r = Range(eng, self.a, self.b, self.st)
        r.pytype = "builtins.tuple"
        return r

    def as_list(self, eng):
        r = Range(eng, self.a, self.b, self.st)
        r.pytype = "builtins.list"
        return r

    def truth(self, eng):
        return self.n > 0

    def length(self, eng):
        return self.n

    def member(self, eng, x):
        if term(x).sort() != I:
            raise Unsupported("membership in a range")
        return self.has(self.a, self.b, self.st, term(x))

    def getitem(self, eng, k):
        k = term(force(eng, k))
        if not eng.choose(z3.And(k >= 0, k < self.n)):
            raise Unsupported("index of a range")
        return Sc(z3.simplify(self.a + k * self.st), "int")


class AnyList(Val):
    """a list (or tuple) given by the caller: any length, any elements of one type"""

    immutable = True

    def __init__(self, eng, name, sort, pytype="builtins.list"):
        self.name, self.sort, self.pytype = name, sort, pytype
        self.n = z3.Const("len_" + name, I)
        self.e = z3.Function("elem_" + name, I, sort)
        self.has = z3.Function("in_" + name, sort, B)
        w = z3.Function("pos_" + name, sort, I)
        i, x = z3.Const("i!", I), z3.Const("x!", sort)
        ax = [self.n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.n), self.has(self.e(i))), patterns=[self.e(i)]),
              z3.ForAll([x], z3.Implies(self.has(x), z3.And(w(x) >= 0, w(x) < self.n, self.e(w(x)) == x)), patterns=[self.has(x)])]
        for a in ax:
            if not any(a.eq(y) for y in eng.prover.axioms):
                eng.prover.axiom(a)

    def as_tuple(self, eng):
        return AnyList(eng, self.name, self.sort, "builtins.tuple")

    def as_list(self, eng):
        return AnyList(eng, self.name, self.sort, "builtins.list")

    def length(self, eng):
        return self.n

    def truth(self, eng):
        return self.n > 0

    def member(self, eng, x):
        return self.has(term(x)) if term(x).sort() == self.sort else False

    def wrap(self, t):
        return Sc(t, "str" if self.sort == S else "int")

    def getitem(self, eng, k):
        k = term(force(eng, k))
        if not eng.choose(z3.And(k >= 0, k < self.n)):
            if eng.prove(k >= self.n):
                raise PyRaise("IndexError")
            raise Unsupported("index of a list")
        return self.wrap(self.e(k))

    def iterate(self, eng):
        i = eng.fresh("i", I)
        return Seq([Seg([i], [i >= 0, i < self.n], self.wrap(self.e(i)), i, self.n)])

    def __repr__(self):
        return "AnyList(%s)" % self.name


@ext("builtins.enumerate")
def b_enumerate(eng, args, kw):
    seq = eng.contents(args[0])
    start = term(args[1]) if len(args) > 1 else term(kw.get("start", 0))
    out, off = [], start
    for s in seq.segs:
        if s.index is None or s.count is None or s.src is not None:
            raise Unsupported("enumerate of a sequence of unknown order")
        out.append(Seg(s.binders, s.guard, Tup([wrap_int(off + s.index), s.elem]), s.index, s.count))
        off = off + s.count
    return Seq(out)


@ext("builtins.zip")
def b_zip(eng, args, kw):
    seqs = [eng.contents(a) for a in args]
    if all(not s.binders and not s.guard for q in seqs for s in q.segs):
        n = min(len(q.segs) for q in seqs)
        return Seq([Seg([], [], Tup([q.segs[i].elem for q in seqs]), z3.IntVal(0), z3.IntVal(1)) for i in range(n)])
    a = seqs[0]
    if len(a.segs) != 1 or a.segs[0].index is None or a.segs[0].src is not None:
        raise Unsupported("zip")
    s = a.segs[0]
    for q in seqs[1:]:
        if not eng.prover.prove(eng.pc, eng.seq_len(q) == s.count):
            raise Unsupported("zip of sequences of different lengths")
    return Seq([Seg(s.binders, s.guard, Tup([s.elem] + [Sel(q, Sc(s.index, "int")) for q in seqs[1:]]), s.index, s.count)])


@ext("builtins.list")
def b_list(eng, args, kw):
    if args and hasattr(args[0], "as_list"):
        return args[0].as_list(eng)
    return to_list(eng, args[0]) if args else eng.new_list()


@ext("builtins.tuple")
def b_tuple(eng, args, kw):
    if not args:
        return Tup([])
    if isinstance(args[0], Tup):
        return args[0]
    if hasattr(args[0], "as_tuple"):
        return args[0].as_tuple(eng)
    seq = eng.contents(args[0])
    if all(not s.binders and not s.guard for s in seq.segs):
        return Tup([force(eng, s.elem) for s in seq.segs])
    return to_list(eng, args[0], "tuple")


@ext("builtins.dict")
def b_dict(eng, args, kw):
    r = eng.new_dict()
    if args:
        a = args[0]
        if (isinstance(a, Ref) and a.cls == "dict") or (isinstance(a, ExtBound) and a.name == "__dict__"):
            seq = View(a, "items").iterate(eng)
        else:
            seq = eng.contents(a)

        def body(e):
            k, v = eng.unpack(force(eng, e), 2)
            eng.setitem(r, k, v)

        eng.loop(seq, body, frame(), set())
    for k, v in kw.items():
        eng.setitem(r, k, v)
    return r


@ext("builtins.set")
def b_set(eng, args, kw):
    r = eng.alloc("set")
    if args:
        eng.loop(eng.contents(args[0]), lambda e: eng.append(r, force(eng, e)), frame(), set())
    return r


@ext("builtins.float")
def b_float(eng, args, kw):
    v = force(eng, args[0]) if args else 0.0
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, Sc) and v.t.sort() in (I, R):
        return Sc(real(v.t), "float")
    if isinstance(v, Sc) and v.t.sort() == B:
        return Sc(z3.If(v.t, z3.RealVal(1), z3.RealVal(0)), "float")
    raise Unsupported("float of %r" % (v,))


@ext("builtins.int")
def b_int(eng, args, kw):
    v = args[0] if args else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, Sc) and v.t.sort() == I:
        return Sc(v.t, "int")
    if isinstance(v, Sc) and v.t.sort() == R:
        return Sc(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)), "int")
    raise Unsupported("int of %r" % (v,))


@ext("builtins.str")
def b_str(eng, args, kw):
    v = args[0]
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        return str(v)
    if is_scalar(v):
        return Sc(strterm(v), "str")
    return Unknown("str()")


@ext("builtins.bool")
def b_bool(eng, args, kw):
    t = eng.truth(args[0])
    return t if isinstance(t, bool) else eng.wrap(t)


@ext("builtins.abs")
def b_abs(eng, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Sc):
        return Sc(z3.If(v.t >= 0, v.t, -v.t), v.py)
    raise Unsupported("abs")


@ext("builtins.sum")
def b_sum(eng, args, kw):
    seq = eng.contents(args[0])
    tot = args[1] if len(args) > 1 else 0
    for s in seq.segs:
        if not s.binders:
            if not all(eng.choose(g) for g in s.guard):
                continue
            e = force(eng, s.elem)
            tot = eng.binop(ast.Add(), tot, e)
        else:
            e = force_in(eng, s)
            if isinstance(e, Ref) and e.cls == "ndarray":
                r = array_family_sum(eng, s, e)
                # without elements the sum is what it starts with: an array of the same shape
                if not (isinstance(tot, Ref) and tot.cls == "ndarray") or len(array_shape(eng, tot)) != len(array_shape(eng, r)) or not all(eng.prover.prove(eng.pc, x == y) for x, y in zip(array_shape(eng, tot), array_shape(eng, r))):
                    raise Unsupported("sum of arrays that starts with a number")
                tot = eng.binop(ast.Add(), tot, r)
                continue
            if not is_scalar(e):
                raise Unsupported("sum of %r" % (e,))
            t = term(e)
            if t.sort() == B:
                t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
            tot = eng.binop(ast.Add(), tot, Sc(eng.sum_term(s.binders, s.guard, t), "int" if t.sort() == I else "float"))
    return tot


class Thunk(Sel):
    """value computed when used (for force_in)"""

    def __init__(self, f):
        self.f = f

    def force(self, eng):
        return self.f()


def array_family_sum(eng, s, a):
    """sum, cell by cell, of the arrays of a family segment"""
    pc = list(eng.pc)
    eng.pc = pc + list(s.guard)
    try:
        sh = array_shape(eng, a)
    finally:
        eng.pc = pc
    if any(mentions(d, b) for d in sh for b in s.binders):
        raise Unsupported("sum of arrays of different shapes")

    def at(idx):
        v = force_in(eng, Seg(s.binders, s.guard, Thunk(lambda: force(eng, cell(eng, a, idx)))))
        t = term(v)
        if t.sort() == B:
            t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        return Sc(eng.sum_term(s.binders, s.guard, t), "int" if t.sort() == I else "float")

    return new_array(eng, [wrap_int(d) for d in sh], at)


def quant(eng, seq, want_all):
    """all / any over a sequence of truth values"""
    conds = []
    for s in seq.segs:
        c = forall_cond(eng, s.binders, s.guard, lambda: force(eng, s.elem), want_all)
        conds.append(c)
    c = conj(conds) if want_all else disj(conds)
    return eng.wrap(c)


def forall_cond(eng, binders, guard, thunk, want_all=True):
    """z3 condition: for all (or: for some) binders with guard, thunk() is true"""
    base = len(eng.pc)
    save = eng.snap()
    eng.pc = eng.pc + list(guard)
    ob = eng.binders
    eng.binders = ob + list(binders)

    def f():
        t = eng.truth(thunk())
        return z3.BoolVal(t) if isinstance(t, bool) else t

    try:
        outs = eng.explore(f)
    finally:
        eng.restore(save)
    if any(o.kind != "ok" for o in outs):
        raise Unsupported("exception inside a quantified condition")
    if any(not isinstance(w, Marker) for o in outs for w in o.log if not isinstance(w, Marker)):
        pass
    t = disj([conj(o.pc + [o.val]) for o in outs])
    g = conj(guard)
    if not binders:
        return z3.simplify(z3.Implies(g, t) if want_all else z3.And(g, t))
    return z3.ForAll(binders, z3.Implies(g, t)) if want_all else z3.Exists(binders, z3.And(g, t))


@ext("builtins.all")
def b_all(eng, args, kw):
    return quant(eng, eng.contents(args[0]), True)


@ext("builtins.any")
def b_any(eng, args, kw):
    return quant(eng, eng.contents(args[0]), False)


def extremum(eng, args, up):
    vals = args
    if len(args) == 1:
        seq = eng.contents(args[0])
        if any(s.binders or s.guard for s in seq.segs):
            raise Unsupported("max/min of a symbolic sequence")
        vals = [force(eng, s.elem) for s in seq.segs]
    if not vals:
        raise PyRaise("ValueError")
    if all(isinstance(v, (int, float)) for v in vals):
        return max(vals) if up else min(vals)
    r = vals[0]
    for v in vals[1:]:
        a, b = num2(term(r), term(v))
        t = z3.If(a >= b, a, b) if up else z3.If(a <= b, a, b)
        r = Sc(z3.simplify(t), "int" if t.sort() == I else "float")
    return r


@ext("builtins.max")
def b_max(eng, args, kw):
    return extremum(eng, args, True)


@ext("builtins.min")
def b_min(eng, args, kw):
    return extremum(eng, args, False)


@ext("builtins.reversed")
def b_reversed(eng, args, kw):
    seq = eng.contents(args[0])
    if any(s.binders for s in seq.segs):
        # the order of a symbolic segment is turned around
        segs = []
        for s in reversed(seq.segs):
            idx = z3.simplify(s.count - 1 - s.index) if s.index is not None and s.count is not None else None
            segs.append(Seg(s.binders, s.guard, s.elem, idx, s.count, s.src))
        return Seq(segs)
    return Seq(list(reversed(seq.segs)))


@ext("builtins.map")
def b_map(eng, args, kw):
    r = eng.new_list()
    eng.loop(eng.contents(args[1]), lambda e: eng.append(r, eng.call(args[0], [force(eng, e)], {})), frame(), set())
    return r


@ext("builtins.print")
def b_print(eng, args, kw):
    return None


TYPES = {"list": "builtins.list", "dict": "builtins.dict", "tuple": "builtins.tuple", "ndarray": "numpy.ndarray", "Variable": "ortools.linear_solver.pywraplp.Variable", "Constraint": "ortools.linear_solver.pywraplp.Constraint", "Solver": "ortools.linear_solver.pywraplp.Solver", "Objective": "ortools.linear_solver.pywraplp.Objective", "DataFrame": "pandas.DataFrame", "Series": "pandas.Series"}
PY = {"int": "builtins.int", "float": "builtins.float", "bool": "builtins.bool", "str": "builtins.str", "np.float64": "numpy.float64", "np.int64": "numpy.int64"}
SUPER = {"builtins.bool": ["builtins.int"], "numpy.float64": ["builtins.float", "numpy.floating", "numpy.number", "numpy.generic"], "numpy.int64": ["numpy.integer", "numpy.number", "numpy.generic"]}


def type_of(eng, v):
    if isinstance(v, Ref):
        if isinstance(v.cls, Cls):
            return v.cls
        if v.cls in TYPES:
            return Ext(TYPES[v.cls])
        raise Unsupported("type of %s" % v.cls)
    if v is None:
        return Ext("builtins.NoneType")
    if isinstance(v, bool):
        return Ext("builtins.bool")
    if isinstance(v, (int, float, str)):
        return Ext("builtins." + type(v).__name__)
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, Sc):
        if v.py in PY:
            return Ext(PY[v.py])
        raise Unsupported("type of a number of unknown type")
    if isinstance(v, ExtBound) and v.name == "__dict__":
        return Ext("builtins.dict")
    if isinstance(v, slice):
        return Ext("builtins.slice")
    if isinstance(v, (Func, Bound)):
        return Ext("builtins.function")
    if hasattr(v, "pytype"):
        return Ext(v.pytype) if isinstance(v.pytype, str) else v.pytype
    raise Unsupported("type of %r" % (v,))


@ext("builtins.type")
def b_type(eng, args, kw):
    return type_of(eng, force(eng, args[0]))


@ext("builtins.isinstance")
def b_isinstance(eng, args, kw):
    v, t = force(eng, args[0]), args[1]
    if isinstance(t, Tup):
        return any(b_isinstance(eng, [v, x], {}) for x in t.items)
    ty = type_of(eng, v)
    if isinstance(t, Cls):
        return isinstance(ty, Cls) and t in ty.mro()
    if isinstance(t, Ext):
        if t.name == "builtins.object":
            return True
        if isinstance(ty, Cls):
            return any(isinstance(b, Ext) and b.name == t.name for c in ty.mro() for b in c.bases)
        n = {"typing.List": "builtins.list", "typing.Dict": "builtins.dict", "typing.Tuple": "builtins.tuple"}.get(t.name, t.name)
        return ty.name == n or n in SUPER.get(ty.name, [])
    raise Unsupported("isinstance %r" % (t,))


@ext("builtins.hasattr")
def b_hasattr(eng, args, kw):
    if isinstance(args[0], Ref) and isinstance(args[1], str):
        try:
            eng.getattr(args[0], args[1])
            return True
        except PyRaise as e:
            if e.cls == "AttributeError":
                return False
            raise
    raise Unsupported("hasattr")


@ext("builtins.getattr")
def b_getattr(eng, args, kw):
    if isinstance(args[1], str):
        if len(args) == 2:
            return eng.getattr(args[0], args[1])
        try:
            return eng.getattr(args[0], args[1])
        except PyRaise as e:
            if e.cls == "AttributeError":
                return args[2]
            raise
    raise Unsupported("getattr")


@ext("builtins.round")
def b_round(eng, args, kw):
    raise Unsupported("round")


@ext("functools.partial")
def f_partial(eng, args, kw):
    import engine

    return engine.Partial(args[0], list(args[1:]), dict(kw))


# ------------------------------------------------------------------------------------------- copies
def deepcopy(eng, v, seqcls=None):
    """fresh copy of a value, object by object (aliases inside the value are copied separately)"""
    v = force(eng, v)
    if v is None or is_scalar(v) or isinstance(v, (Cls, Func, Ext, slice)) or getattr(v, "immutable", False):
        return v
    if isinstance(v, Tup):
        return Tup([deepcopy(eng, x, seqcls) for x in v.items])
    if isinstance(v, ExtBound) and v.name == "__dict__":
        r = eng.new_dict()
        for n in eng.attr_names(v.self_):
            x = eng.getattr_raw(v.self_, n)
            if x is not none():
                eng.setitem(r, n, deepcopy(eng, x, seqcls))
        return r
    if isinstance(v, Ref):
        T = eng.schema.get(v.site)
        if T is not None and getattr(T, "immutable", False):
            return v
        if v.cls in ("list", "tuple"):
            r = eng.alloc(seqcls or v.cls)
            eng.loop(eng.contents(v), lambda e: eng.append(r, deepcopy(eng, e, seqcls)), frame(), set())
            return r
        if v.cls == "dict":
            r = eng.alloc("dict")
            eng.loop(View(v, "items").iterate(eng), lambda e: eng.setitem(r, e.items[0], deepcopy(eng, e.items[1], seqcls)), frame(), set())
            return r
        if v.cls == "ndarray":
            return array_copy(eng, v)
        if isinstance(v.cls, Cls) and seqcls is None:
            r = eng.alloc(v.cls)
            for n in eng.attr_names(v):
                x = eng.getattr_raw(v, n)
                if x is not none():
                    eng.setattr(r, n, deepcopy(eng, x))
            return r
    raise Unsupported("copy of %r" % (v,))


@ext("copy.deepcopy")
def c_deepcopy(eng, args, kw):
    return deepcopy(eng, args[0])


@ext("copy.copy")
def c_copy(eng, args, kw):
    v = args[0]
    if isinstance(v, Ref) and v.cls == "list":
        return to_list(eng, v)
    if (isinstance(v, Ref) and v.cls == "dict") or isinstance(v, ExtBound):
        return d_copy(eng, v, [], {})
    raise Unsupported("copy.copy")


@ext("msgpack.packb")
def m_packb(eng, args, kw):
    eng.assumptions.add("a document given to msgpack.packb is not modified afterwards")
    return Packed(args[0])


@ext("msgpack.unpackb")
def m_unpackb(eng, args, kw):
    if not isinstance(args[0], Packed):
        raise Unsupported("unpackb of %r" % (args[0],))
    ul = kw.get("use_list", True)
    if not isinstance(ul, bool):
        raise Unsupported("use_list")

    def cp(v):
        v = force(eng, v)
        if isinstance(v, Tup):
            xs = [cp(x) for x in v.items]
            return eng.new_list(xs) if ul else Tup(xs)
        if isinstance(v, Ref) and v.cls in ("list", "tuple"):
            r = eng.alloc("list" if ul else "tuple")
            eng.loop(eng.contents(v), lambda e: eng.append(r, cp(e)), frame(), set())
            return r
        if isinstance(v, Ref) and v.cls == "dict":
            r = eng.alloc("dict")
            eng.loop(View(v, "items").iterate(eng), lambda e: eng.setitem(r, e.items[0], cp(e.items[1])), frame(), set())
            return r
        if isinstance(v, Sc) and v.py not in ("int", "float", "bool", "str"):
            raise Unsupported("msgpack of %r" % (v,))
        if isinstance(v, Ref):
            raise PyRaise("TypeError", ("msgpack",))
        return v

    return cp(args[0].v)


# ------------------------------------------------------------------------------------------- processes, time, logs
@ext("multiprocessing.Pool", "multiprocessing.pool.ThreadPool")
def mp_pool(eng, args, kw):
    return eng.alloc("Pool")


@ext("multiprocessing.cpu_count", "os.cpu_count")
def mp_cpu(eng, args, kw):
    n = eng.fresh("cpus", I)
    eng.pc.append(n >= 1)
    return Sc(n, "int")


class NoShare(Exception):
    pass


def pool_run(eng, f, seq, unordered=False):
    """f in another process on a copy of each argument: results in order; the worker's writes to the caller's objects are not seen"""
    known = set(k[1] for k, l in eng.index.items() if l) | set(eng.schema)
    n0 = len(eng.log)
    r = eng.alloc("list")
    known.discard(r.site)
    eng.loop(seq, lambda e: eng.append(r, eng.call(f, [force(eng, e)], {})), frame(), set())
    for w in eng.log[n0:]:
        if not isinstance(w, Marker) and w.ref.site in known and w.ref.site != r.site:
            raise Unsupported("worker process writes to an object of the caller")
    if unordered:
        c = eng.contents(r)
        if len(c.segs) != 1 or c.segs[0].index is None or not c.segs[0].binders:
            raise Unsupported("imap_unordered")
        s = c.segs[0]
        perm = ufun("perm@" + r.site, I, I)
        i, j = z3.Const("i", I), z3.Const("j", I)
        eng.prover.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.count), z3.And(perm(i) >= 0, perm(i) < s.count)), patterns=[perm(i)]))
        q = eng.alloc("list")
        k = eng.fresh("i", I)
        eng.loop(Seq([Seg([k], [k >= 0, k < s.count], Sc(k, "int"), k, s.count)]), lambda e: eng.append(q, eng.list_get(r, Sc(perm(e.t), "int"))), frame(), set())
        return q
    return r


@meth("Pool.map", "Pool.imap")
def pool_map(eng, p, args, kw):
    return pool_run(eng, args[0], eng.contents(args[1]))


@meth("Pool.imap_unordered")
def pool_imu(eng, p, args, kw):
    return pool_run(eng, args[0], eng.contents(args[1]), True)


@meth("Pool.starmap")
def pool_starmap(eng, p, args, kw):
    f = args[0]

    class Star(Val):
        def call(self, eng, a, kw):
            t = force(eng, a[0])
            return eng.call(f, list(t.items), {})

    return pool_run(eng, Star(), eng.contents(args[1]))


@meth("Pool.close", "Pool.join", "Pool.terminate", "Pool.__exit__")
def pool_close(eng, p, args, kw):
    return None


@meth("Pool.__enter__")
def pool_enter(eng, p, args, kw):
    return p


@ext("time.time", "time.perf_counter", "time.monotonic")
def t_time(eng, args, kw):
    return Sc(eng.indexed("time", R), "float")


@ext("time.sleep")
def t_sleep(eng, args, kw):
    return None


@ext("logging.getLogger")
def lg(eng, args, kw):
    return Opaque("logger")


# ------------------------------------------------------------------------------------------- ortools
PW = "ortools.linear_solver.pywraplp."
for _i, _n in enumerate(["OPTIMAL", "FEASIBLE", "INFEASIBLE", "UNBOUNDED", "ABNORMAL", "MODEL_INVALID", "NOT_SOLVED"]):
    CONST[PW + "Solver." + _n] = _i
for _n in ("GLOP_LINEAR_PROGRAMMING", "CLP_LINEAR_PROGRAMMING"):
    CONST[PW + "Solver." + _n] = "solver:" + _n


@ext(PW + "Solver")
def or_solver(eng, args, kw):
    if "solver:GLOP_LINEAR_PROGRAMMING" not in list(args) + list(kw.values()):
        raise Unsupported("solver kind")
    return eng.alloc("Solver")


@ext(PW + "Solver.CreateSolver")
def or_create(eng, args, kw):
    if list(args) + list(kw.values()) != ["GLOP"]:
        raise Unsupported("solver kind")
    return eng.alloc("Solver")


def kwarg(args, kw, i, name, default=None):
    return args[i] if len(args) > i else kw.get(name, default)


@meth("Solver.NumVar")
def or_numvar(eng, s, args, kw):
    r = eng.alloc("Variable")
    eng.write("attr", r, ("lb",), asreal(kwarg(args, kw, 0, "lb")))
    eng.write("attr", r, ("ub",), asreal(kwarg(args, kw, 1, "ub")))
    eng.write("attr", r, ("solver",), s)
    return r


def asreal(v):
    t = term(v)
    if t.sort() not in (I, R):
        raise Unsupported("number expected: %r" % (v,))
    return Sc(z3.simplify(real(t)), "float")


@meth("Solver.Constraint", "Solver.RowConstraint")
def or_constraint(eng, s, args, kw):
    if len(args) < 2:
        raise Unsupported("Constraint()")
    r = eng.alloc("Constraint")
    eng.write("attr", r, ("lb",), asreal(args[0]))
    eng.write("attr", r, ("ub",), asreal(args[1]))
    eng.write("attr", r, ("solver",), s)
    return r


@meth("Constraint.SetBounds")
def or_setbounds(eng, c, args, kw):
    eng.write("attr", c, ("lb",), asreal(args[0]))
    eng.write("attr", c, ("ub",), asreal(args[1]))


@meth("Variable.SetBounds")
def or_vbounds(eng, c, args, kw):
    or_setbounds(eng, c, args, kw)


@meth("Variable.SetLb", "Variable.SetLB", "Constraint.SetLb", "Constraint.SetLB")
def or_setlb(eng, c, args, kw):
    eng.write("attr", c, ("lb",), asreal(args[0]))


@meth("Variable.SetUb", "Variable.SetUB", "Constraint.SetUb", "Constraint.SetUB")
def or_setub(eng, c, args, kw):
    eng.write("attr", c, ("ub",), asreal(args[0]))


@meth("Variable.name")
def or_vname(eng, c, args, kw):
    return Unknown("variable name")


@meth("Constraint.SetCoefficient", "Objective.SetCoefficient")
def or_coef(eng, c, args, kw):
    v = force(eng, args[0])
    if not (isinstance(v, Ref) and v.cls == "Variable"):
        raise Unsupported("coefficient of %r" % (v,))
    eng.write("coef", c, (v,), asreal(force(eng, args[1])))


@meth("Solver.Objective")
def or_objective(eng, s, args, kw):
    return Ref("Objective|" + s.site, s.args, "Objective", s.via)


@meth("Objective.SetMinimization")
def or_min(eng, o, args, kw):
    eng.write("attr", o, ("sense",), "min")


@meth("Objective.SetMaximization")
def or_max(eng, o, args, kw):
    eng.write("attr", o, ("sense",), "max")


@meth("Objective.SetOffset")
def or_off(eng, o, args, kw):
    return None


@meth("Objective.Value")
def or_value(eng, o, args, kw):
    return Unknown("objective value")


@meth("Solver.EnableOutput", "Solver.SuppressOutput")
def or_noop(eng, s, args, kw):
    return None


@meth("Solver.ExportModelAsLpFormat")
def or_export(eng, s, args, kw):
    return Unknown("model text")


@meth("Solver.Solve")
def or_solve(eng, s, args, kw):
    if args or kw:
        raise Unsupported("Solve with parameters")
    st = eng.indexed("status", I, s)
    r = z3.Or(*[st == k for k in (0, 2, 3, 4, 6)])
    r = z3.ForAll(st.children(), r, patterns=[st]) if st.num_args() else r
    if not any(a.eq(r) for a in eng.prover.axioms):
        eng.prover.axiom(r)
    eng.assumptions.add("Solver.Solve returns OPTIMAL, INFEASIBLE, UNBOUNDED, ABNORMAL or NOT_SOLVED; on OPTIMAL solution_value() gives a point within all variable bounds and rows that minimises (SetMinimization) the objective among all such points, up to the solver's tolerance")
    eng.events.append(("solve", s, st, list(eng.log), list(eng.pc), list(eng.binders)))
    return Sc(st, "int")


def sol_fun(site, sorts):
    return ufun("sol@" + site, *(list(sorts) + [R])) if sorts else z3.Const("sol@" + site, R)


@meth("Variable.solution_value", "Variable.SolutionValue")
def or_sol(eng, v, args, kw):
    a = v.allargs()
    f = sol_fun(v.site, [x.sort() for x in a])
    return Sc(f(*a) if a else f, "float")


# ------------------------------------------------------------------------------------------- numpy
def dims(eng, v):
    v = force(eng, v)
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref) and v.cls in ("list", "tuple"):
        return list(eng.unpack(v, len(eng.contents(v).segs)))
    return [v]


def new_array(eng, shape, f, dtype="float"):
    """array of the given shape with cell idx = f(idx)"""
    r = eng.alloc("ndarray")
    eng.write("attr", r, ("shape",), Tup(shape))
    fill_array(eng, r, shape, f)
    return r


def fill_array(eng, r, shape, f):
    bs = [eng.fresh("ix", I) for _ in shape]
    guard = []
    for b, d in zip(bs, shape):
        guard += [b >= 0, b < term(d)]
    if not bs:
        eng.write("cell", r, (), f(()))
        return
    n = 1
    for d in shape:
        n = n * d if isinstance(d, int) and not isinstance(d, bool) and n is not None else None
    if n is not None and 0 < n <= 8:
        import itertools

        vals = [(e, force(eng, f(e))) for e in itertools.product(*[range(d) for d in shape])]
        for e, v in vals:
            eng.write("cell", r, e, v)
        return
    seg = Seg(bs, guard, Tup([Sc(b, "int") for b in bs]))
    eng.sym_loop(seg, lambda e: eng.write("cell", r, e.items, force(eng, f(e.items))), frame(), set())


def array_shape(eng, a):
    T = eng.schema.get(a.site)
    if T is not None and hasattr(T, "shape"):
        return [term(x) for x in T.shape(eng, a)]
    s = eng.lookup("attr", a, ("shape",))
    if s is none():
        raise Unsupported("shape of %r" % (a,))
    return [term(x) for x in s.items]


def shape_vals(eng, a):
    return [wrap_int(t) for t in array_shape(eng, a)]


def arr_shape_prop(eng, a):
    return Tup(shape_vals(eng, a))


arr_shape_prop.is_prop = True
METHODS["ndarray.shape"] = arr_shape_prop


def arr_size_prop(eng, a):
    t = z3.IntVal(1)
    for d in array_shape(eng, a):
        t = t * d
    return wrap_int(t)


arr_size_prop.is_prop = True
METHODS["ndarray.size"] = arr_size_prop


def arr_ndim_prop(eng, a):
    return len(array_shape(eng, a))


arr_ndim_prop.is_prop = True
METHODS["ndarray.ndim"] = arr_ndim_prop


def accumulated(eng, a, idx):
    """sum of the += of loops on this cell (None: there is none)"""
    tot = None
    last = -1
    for w in eng.scan("acc", a, ()):
        if isinstance(w, Marker):
            if w.families is None:
                w.reads.append(("acc", a, None, list(eng.pc)))
                continue
            fs = [eng.previous(w, f) for f in w.families if f.kind == "acc" and f.ref.site == a.site]
            if any(f is None for f in fs):
                raise Unsupported("array read while it is accumulated")
        else:
            fs = [w]
        for w in fs:
            tot = add_up(eng, a, idx, w, tot)
    return tot


def add_up(eng, a, idx, w, tot):
    eqs = list(zip(w.ref.args, a.args))
    for x, y in zip(w.key, idx):
        eqs.append((term(x), term(y)))
    sub, res, un = eng.solve(w.binders, eqs) if w.binders else ([], [x == y for x, y in eqs], [])
    g = [z3.simplify(z3.substitute(c, *sub) if sub else c) for c in w.guard] + res
    g = [c for c in g if not z3.is_true(c)]
    if any(z3.is_false(z3.simplify(c)) for c in g):
        return tot
    v = term(subst(w.val, sub))
    if un:
        out = [c for c in g if not any(mentions(c, b) for b in un)]
        if out and not eng.choose(conj(out)):
            return tot
        v = eng.sum_term(un, [c for c in g if any(mentions(c, b) for b in un)], v)
    elif g and not eng.choose(conj(g)):
        return tot
    return v if tot is None else sum(num2(tot, v)[1:], num2(tot, v)[0])


def cell(eng, a, idx):
    acc = None
    la = eng.index.get(("acc", a.site, None))
    if la or any(m.families and any(f.kind == "acc" and f.ref.site == a.site for f in m.families) for m in (eng.log[i] for i in eng.marks)):
        lc = eng.index.get(("cell", a.site, None))
        if la and lc and lc[-1] > la[0]:
            raise Unsupported("array assigned while it is accumulated")
        acc = accumulated(eng, a, idx)
    elif eng.marks:
        accumulated(eng, a, idx)  # records the read
    v = eng.lookup("cell", a, tuple(idx))
    if v is not none():
        if acc is not None:
            x, y = num2(term(v), acc)
            return Sc(z3.simplify(x + y), "float")
        return v
    if acc is not None:
        raise Unsupported("accumulated array")
    T = eng.schema.get(a.site)
    if T is not None and hasattr(T, "cell"):
        return T.cell(eng, a, idx)
    raise Unsupported("cell of %r not written" % (a,))


def norm_index(eng, k, d):
    """bounds check of one index; returns the non negative index value"""
    t = term(k)
    if t.sort() != I:
        raise PyRaise("IndexError", ("index type",))
    if eng.choose(z3.And(t >= 0, t < d)):
        return k
    if eng.choose(z3.And(t < 0, t >= -d)):
        return wrap_int(t + d)
    raise PyRaise("IndexError", ("out of bounds",))


def full_slice(k):
    return isinstance(k, slice) and k.start is None and k.stop is None and k.step is None


def array_get(eng, a, k):
    ks = list(k.items) if isinstance(k, Tup) else [k]
    sh = array_shape(eng, a)
    if len(ks) > len(sh):
        raise PyRaise("IndexError", ("too many indices",))
    ks += [slice(None)] * (len(sh) - len(ks))
    if all(is_scalar(x) for x in ks):
        return cell(eng, a, [norm_index(eng, x, d) for x, d in zip(ks, sh)])
    idx, out = [], []
    for x, d in zip(ks, sh):
        if is_scalar(x):
            idx.append(norm_index(eng, x, d))
        elif full_slice(x):
            idx.append(None)
            out.append(wrap_int(d))
        elif isinstance(x, Ref) and x.cls == "ndarray" and len(array_shape(eng, x)) == 1 and not any(isinstance(y, tuple) for y in idx):
            # integer array: a copy of the rows
            idx.append((x, d))
            out.append(wrap_int(array_shape(eng, x)[0]))
        else:
            raise Unsupported("array slice")

    def f(e):
        it = iter(e)
        at = lambda x: next(it) if x is None else norm_index(eng, force(eng, cell(eng, x[0], [next(it)])), x[1]) if isinstance(x, tuple) else x
        return cell(eng, a, [at(x) for x in idx])

    eng.assumptions.add("views of arrays taken by slicing are not written through")
    return new_array(eng, out, f)


def array_set(eng, a, k, v):
    writable(eng, a)
    ks = list(k.items) if isinstance(k, Tup) else [k]
    sh = array_shape(eng, a)
    if len(ks) > len(sh):
        raise PyRaise("IndexError", ("too many indices",))
    ks += [slice(None)] * (len(sh) - len(ks))
    if all(is_scalar(x) for x in ks):
        if not is_scalar(v):
            raise Unsupported("array cell := %r" % (v,))
        eng.write("cell", a, [norm_index(eng, x, d) for x, d in zip(ks, sh)], v)
        return
    idx, out = [], []
    for x, d in zip(ks, sh):
        if is_scalar(x):
            idx.append(norm_index(eng, x, d))
        elif full_slice(x):
            idx.append(None)
            out.append(wrap_int(d))
        else:
            raise Unsupported("array slice assignment")
    bs = [eng.fresh("ix", I) for _ in out]
    guard = []
    for b, d in zip(bs, out):
        guard += [b >= 0, b < term(d)]
    src = arrayish(eng, v)

    def body(e):
        it = iter(e.items)
        eng.write("cell", a, [next(it) if x is None else x for x in idx], bcast(eng, src, out, list(e.items)))

    eng.sym_loop(Seg(bs, guard, Tup([Sc(b, "int") for b in bs])), body, frame(), set())


def arrayish(eng, v):
    """scalar or array from a value"""
    v = force(eng, v)
    if is_scalar(v) or (isinstance(v, Ref) and v.cls == "ndarray"):
        return v
    if (isinstance(v, Ref) and v.cls in ("list", "tuple")) or isinstance(v, (Tup, Seq)):
        return np_array(eng, [v], {})
    raise Unsupported("array operand %r" % (v,))


def bcast(eng, v, shape, idx):
    """cell idx of v broadcast to shape"""
    if is_scalar(v):
        return v
    sh = array_shape(eng, v)
    if len(sh) > len(shape):
        raise Unsupported("broadcast")
    off = len(shape) - len(sh)
    k = []
    for d, s, i in zip(sh, shape[off:], idx[off:]):
        s = term(s)
        if eng.choose(d == s):
            k.append(i)
        elif eng.choose(d == 1):
            k.append(0)
        else:
            raise PyRaise("ValueError", ("broadcast",))
    return cell(eng, v, k)


def bshape(eng, a, b):
    sa = [] if is_scalar(a) else array_shape(eng, a)
    sb = [] if is_scalar(b) else array_shape(eng, b)
    n = max(len(sa), len(sb))
    sa, sb = [z3.IntVal(1)] * (n - len(sa)) + sa, [z3.IntVal(1)] * (n - len(sb)) + sb
    out = []
    for x, y in zip(sa, sb):
        if x.eq(y) or eng.choose(x == y):
            out.append(wrap_int(x))
        elif eng.choose(x == 1):
            out.append(wrap_int(y))
        elif eng.choose(y == 1):
            out.append(wrap_int(x))
        else:
            raise PyRaise("ValueError", ("broadcast",))
    return out


def array_binop(eng, op, a, b):
    a, b = arrayish(eng, a), arrayish(eng, b)
    sh = bshape(eng, a, b)
    r = new_array(eng, sh, lambda i: eng.binop(op, bcast(eng, a, sh, list(i)), bcast(eng, b, sh, list(i))))
    # a new array; of floats when one of the two is
    floats = any(isinstance(x, Ref) and x.cls == "ndarray" and eng.lookup("attr", x, ("own",)) is True for x in (a, b))
    return owned(eng, r) if sh and floats and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) else r


def array_iadd(eng, a, op, b):
    writable(eng, a)
    b = arrayish(eng, b)
    sh = shape_vals(eng, a)
    if isinstance(op, (ast.Add, ast.Sub)) and any(not any(x.eq(y) for y in a.args) for x in eng.binders):
        # sum over the iterations of a loop
        def put(e):
            v = bcast(eng, b, sh, list(e))
            eng.write("acc", a, tuple(e), v if isinstance(op, ast.Add) else eng.binop(ast.Sub(), 0, v))

        if all(isinstance(d, int) and d <= 8 for d in sh) and len(sh) == 1:
            for i in range(sh[0]):
                put((i,))
        else:
            bs = [eng.fresh("ix", I) for _ in sh]
            guard = [c for x, d in zip(bs, sh) for c in (x >= 0, x < term(d))]
            eng.sym_loop(Seg(bs, guard, Tup([Sc(x, "int") for x in bs])), lambda e: put(e.items), frame(), set())
        return a
    fill_array(eng, a, sh, lambda i: eng.binop(op, cell(eng, a, i), bcast(eng, b, sh, list(i))))
    return a


def array_copy(eng, a):
    r = new_array(eng, shape_vals(eng, a), lambda i: cell(eng, a, i))
    return owned(eng, r) if eng.lookup("attr", a, ("own",)) is True else r


def array_seq(eng, a):
    sh = array_shape(eng, a)
    i = eng.fresh("i", I)
    return Seq([Seg([i], [i >= 0, i < sh[0]], Lazy(a, Sc(i, "int")), i, sh[0])])


def aug_item(eng, o, k, op, node, fr):
    """array[a:b] += x in place"""
    if not (isinstance(o, Ref) and o.cls == "ndarray" and isinstance(k, slice) and k.step is None and isinstance(op, (ast.Add, ast.Sub))):
        return False
    writable(eng, o)
    sh = shape_vals(eng, o)
    if len(sh) != 1:
        return False
    n = term(sh[0])
    lo = term(force(eng, k.start)) if k.start is not None else z3.IntVal(0)
    hi = term(force(eng, k.stop)) if k.stop is not None else n
    if lo.sort() != I or hi.sort() != I or not (eng.prove(lo >= 0) and eng.prove(hi >= 0)):
        raise Unsupported("slice with bounds that may be negative")
    x = force(eng, eng.eval(node, fr))
    if not is_scalar(x):
        raise Unsupported("array added to a slice")
    b = eng.fresh("ix", I)
    guard = [b >= 0, b < n, b >= lo, b < hi]
    i = Sc(b, "int")
    if any(not any(y.eq(z) for z in o.args) for y in eng.binders):
        v = x if isinstance(op, ast.Add) else eng.binop(ast.Sub(), 0, x)
        eng.sym_loop(Seg([b], guard, Tup([i])), lambda e: eng.write("acc", o, tuple(e.items), v), frame(), set())
    else:
        old = array_copy(eng, o)
        eng.sym_loop(Seg([b], guard, Tup([i])), lambda e: eng.write("cell", o, tuple(e.items), eng.binop(op, cell(eng, old, e.items), x)), frame(), set())
    return True


def unary(eng, op, v):
    if isinstance(v, Ref) and v.cls == "ndarray" and isinstance(op, ast.USub):
        return new_array(eng, shape_vals(eng, v), lambda i: eng.binop(ast.Sub(), 0, cell(eng, v, i)))
    raise Unsupported("unary operator")


OPS = {"__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE}


def order(eng, nm, a, b):
    if isinstance(b, Ref) and isinstance(b.cls, Cls) and not (isinstance(a, Ref) and a.cls == "ndarray"):
        raise Unsupported("order")
    a, b = arrayish(eng, a), arrayish(eng, b)
    sh = bshape(eng, a, b)
    return new_array(eng, sh, lambda i: eng.compare(OPS[nm](), bcast(eng, a, sh, list(i)), bcast(eng, b, sh, list(i))))


def val_eq(eng, a, b):
    raise Unsupported("equality of %r and %r" % (a, b))


def val_binop(eng, op, a, b):
    if hasattr(a, "binop"):
        return a.binop(eng, op, b)
    if hasattr(b, "rbinop"):
        return b.rbinop(eng, op, a)
    raise Unsupported("operator on %r and %r" % (a, b))


def container_eq(eng, a, b):
    if isinstance(a, Ref) and a.cls == "ndarray" or isinstance(b, Ref) and b.cls == "ndarray":
        a, b = arrayish(eng, a), arrayish(eng, b)
        sh = bshape(eng, a, b)
        return new_array(eng, sh, lambda i: eng.compare(ast.Eq(), bcast(eng, a, sh, list(i)), bcast(eng, b, sh, list(i))))
    if a.cls != b.cls:
        return False
    if a.cls == "list":
        x, y = eng.contents(a), eng.contents(b)
        if all(not s.binders and not s.guard for s in x.segs + y.segs):
            if len(x.segs) != len(y.segs):
                return False
            cs = [eng.truth(eng.py_eq(p.elem, q.elem)) for p, q in zip(x.segs, y.segs)]
            return conj([z3.BoolVal(c) if isinstance(c, bool) else c for c in cs])
    raise Unsupported("equality of containers")


FLOAT_TYPES = ("builtins.float", "numpy.float64", "numpy.double", "numpy.float_")


def float_type(args, kw, pos):
    """whether a dtype is given (at this position, or by name), which must be the one of Python's floats"""
    if set(kw) - {"dtype", "shape", "fill_value"} or len(args) > pos + 1:
        raise Unsupported("array options %s" % sorted(kw))
    d = kw.get("dtype", args[pos] if len(args) > pos else None)
    if d is None:
        return False
    if isinstance(d, Ext) and d.name in FLOAT_TYPES or d in ("float", "float64", "f8", "d"):
        return True
    raise Unsupported("dtype %r" % (d,))


def owned(eng, a):
    """an array that owns its cells, of floats: it can be written"""
    eng.write("attr", a, ("own",), True)
    return a


def writable(eng, a):
    v = eng.lookup("attr", a, ("own",))
    if v is not True:
        raise Unsupported("write to an array that may be a view, or hold integers")


def shape_arg(eng, args, kw):
    return dims(eng, args[0] if args else kw["shape"])


@ext("numpy.zeros")
def np_zeros(eng, args, kw):
    float_type(args, kw, 1)
    return owned(eng, new_array(eng, shape_arg(eng, args, kw), lambda i: 0.0))


@ext("numpy.ones")
def np_ones(eng, args, kw):
    float_type(args, kw, 1)
    return owned(eng, new_array(eng, shape_arg(eng, args, kw), lambda i: 1.0))


@ext("numpy.full")
def np_full(eng, args, kw):
    v = args[1] if len(args) > 1 else kw["fill_value"]
    if not is_scalar(v) or isinstance(v, str):
        raise Unsupported("np.full")
    r = new_array(eng, shape_arg(eng, args, kw), lambda i: v)
    return owned(eng, r) if float_type(args, kw, 2) or isinstance(v, float) else r


@ext("numpy.zeros_like", "numpy.ones_like")
def np_zl(eng, args, kw, v=0.0):
    r = new_array(eng, shape_vals(eng, args[0]), lambda i: v)
    return owned(eng, r) if float_type(args, kw, 1) else r


TABLE["numpy.ones_like"] = lambda eng, args, kw: np_zl(eng, args, kw, 1.0)


@ext("numpy.array", "numpy.asarray", "numpy.copy")
def np_array(eng, args, kw):
    v = force(eng, args[0])
    if set(kw) - {"copy", "dtype"} or len(args) > 2:
        raise Unsupported("np.array with %s" % list(kw))
    float_type(args, {k: x for k, x in kw.items() if k == "dtype"}, 1)
    if isinstance(v, Ref) and v.cls == "ndarray":
        return array_copy(eng, v)
    if is_scalar(v) and not isinstance(v, str):
        return new_array(eng, [], lambda i: v)
    if isinstance(v, Ref) and isinstance(v.cls, str) and ("%s.__array__" % v.cls) in METHODS:
        return METHODS["%s.__array__" % v.cls](eng, v, [], {})
    if isinstance(v, Val) and hasattr(v, "as_array"):
        return v.as_array(eng)
    if isinstance(v, (Tup, Seq)) or (isinstance(v, Ref) and v.cls in ("list", "tuple")):
        n = eng.length(v)
        seq = eng.contents(v)
        if not seq.segs:
            return new_array(eng, [0], lambda i: 0.0)
        e = force_in(eng, seq.segs[0])
        T = eng.schema.get(v.site) if isinstance(v, Ref) else None
        if T is not None and hasattr(T, "as_array"):
            return T.as_array(eng, v)
        if is_scalar(e):
            if len(seq.segs) == 1 and seq.segs[0].binders:
                return new_array(eng, [wrap_int(n)], lambda i: force(eng, eng.seq_get(seq, i[0])))
            if all(not s.binders and not s.guard for s in seq.segs):
                r = eng.alloc("ndarray")
                eng.write("attr", r, ("shape",), Tup([len(seq.segs)]))
                for j, s in enumerate(seq.segs):
                    eng.write("cell", r, (j,), force(eng, s.elem))
                return r
        return np_nested(eng, v, seq)
    raise Unsupported("np.array of %r" % (v,))


def np_nested(eng, v, seq):
    """array of a list of lists of the same length (one more dimension per level)"""
    if len(seq.segs) != 1 or not seq.segs[0].binders or seq.segs[0].index is None:
        raise Unsupported("array of a nested list")
    sg = seq.segs[0]
    pc = list(eng.pc)
    eng.pc = pc + list(sg.guard)
    try:
        e = force_in(eng, sg)
        if isinstance(e, Tup) and e.items and all(is_scalar(x) for x in e.items):
            k = len(e.items)

            def at(i):
                row = force(eng, eng.seq_get(seq, i[0])).items
                if isinstance(i[1], int):
                    return row[i[1]]
                t = term(row[-1])
                for q in range(k - 2, -1, -1):
                    p, t = num2(term(row[q]), t)
                    t = z3.If(term(i[1]) == q, p, t)
                return Sc(t, "float" if t.sort() == R else "int")

            eng.pc = pc
            return new_array(eng, [wrap_int(eng.length(v)), k], at)
        if not (isinstance(e, Ref) and e.cls in ("list", "tuple")):
            raise Unsupported("array of a list of %r" % (e,))
        inner = eng.contents(e)
        if len(inner.segs) != 1 or inner.segs[0].index is None or not is_scalar(force_in(eng, inner.segs[0])):
            raise Unsupported("array of a nested list")
        m = eng.seq_len(inner)
        if any(mentions(m, b) for b in sg.binders):
            raise Unsupported("rows of different lengths")
    finally:
        eng.pc = pc
    if not eng.prover.prove(eng.pc, sg.count >= 1):
        raise Unsupported("array of a list that may be empty")
    return new_array(eng, [wrap_int(sg.count), wrap_int(m)], lambda i: force(eng, eng.getitem(force(eng, eng.getitem(v, i[0])), i[1])))


def is_lazy(v):
    return isinstance(v, (Lazy, Sel)) or isinstance(v, Tup) and any(is_lazy(x) for x in v.items)


def force_in(eng, sg):
    """the element of a segment, read for arbitrary values of its binders within its guard; what is read must not depend on
    a choice that is left open by these (a missing key, say): such a read is not decided here"""
    if not is_lazy(sg.elem):
        return sg.elem
    save = eng.snap()
    eng.pc = eng.pc + list(sg.guard)
    eng.binders = eng.binders + [b for b in sg.binders if not any(b.eq(c) for c in eng.binders)]
    try:
        outs = eng.explore(lambda: force(eng, sg.elem))
    finally:
        eng.restore(save)
    if any(o.kind != "ok" for o in outs):
        raise Unsupported("an element of a family that may not be there")
    if len(outs) == 1:
        if not outs[0].log:
            return outs[0].val
        pc = list(eng.pc)
        eng.pc = pc + list(sg.guard)
        try:
            return force(eng, sg.elem)
        finally:
            eng.pc = pc
    if not outs or not all(is_scalar(o.val) for o in outs):
        raise Unsupported("element of a family by cases")
    r = outs[-1].val
    for o in outs[-2::-1]:
        a, b = term(o.val), term(r)
        if a.sort() != b.sort():
            a, b = num2(a, b)
        r = Sc(z3.If(conj(o.pc), a, b), "float" if a.sort() == R else r.py if isinstance(r, Sc) else {B: "bool", I: "int"}.get(a.sort(), "str"))
    return r


@meth("ndarray.copy")
def a_copy(eng, a, args, kw):
    return array_copy(eng, a)


@meth("ndarray.tolist")
def a_tolist(eng, a, args, kw):
    sh = array_shape(eng, a)

    def build(prefix, depth):
        if depth == len(sh):
            v = cell(eng, a, prefix)
            if isinstance(v, Sc) and v.py.startswith("np."):
                return Sc(v.t, v.py[3:].rstrip("64"))
            return v
        r = eng.alloc("list")
        i = eng.fresh("i", I)
        eng.loop(Seq([Seg([i], [i >= 0, i < sh[depth]], Sc(i, "int"), i, sh[depth])]), lambda e: eng.append(r, build(prefix + [e], depth + 1)), frame(), set())
        return r

    return build([], 0)


def np_quant(eng, a, want_all):
    a = force(eng, a)
    if is_scalar(a):
        t = eng.truth(a)
        return t if isinstance(t, bool) else eng.wrap(t)
    if not (isinstance(a, Ref) and a.cls == "ndarray"):
        raise Unsupported("np.all of %r" % (a,))
    sh = array_shape(eng, a)
    bs = [eng.fresh("ix", I) for _ in sh]
    guard = []
    for b, d in zip(bs, sh):
        guard += [b >= 0, b < d]
    return eng.wrap(forall_cond(eng, bs, guard, lambda: cell(eng, a, [Sc(b, "int") for b in bs]), want_all))


@ext("numpy.all", "numpy.alltrue")
def np_all(eng, args, kw):
    if kw or len(args) > 1:
        raise Unsupported("np.all with axis")
    return np_quant(eng, args[0], True)


@ext("numpy.any")
def np_any(eng, args, kw):
    if kw or len(args) > 1:
        raise Unsupported("np.any with axis")
    return np_quant(eng, args[0], False)


METHODS["ndarray.all"] = lambda eng, a, args, kw: np_all(eng, [a] + list(args), kw)
METHODS["ndarray.any"] = lambda eng, a, args, kw: np_any(eng, [a] + list(args), kw)


def divmod_idx(eng, q, n):
    """q = (q // n) * n + q % n with named quotient and remainder"""
    d, m = ufun("quot", I, I, I)(q, n), ufun("rem", I, I, I)(q, n)
    return d, m


def split_axiom(eng):
    """0 <= i, 0 <= j < n:  quot(i*n+j, n) = i, rem(i*n+j, n) = j; and q = quot*n + rem"""
    if getattr(eng, "_split", False):
        return
    eng._split = True
    q, n = z3.Consts("q n", I)
    d, m = ufun("quot", I, I, I)(q, n), ufun("rem", I, I, I)(q, n)
    eng.prover.axiom(z3.ForAll([q, n], z3.Implies(z3.And(n > 0, q >= 0), z3.And(q == d * n + m, m >= 0, m < n, d >= 0)), patterns=[d]))
    eng.prover.axiom(z3.ForAll([q, n], z3.Implies(z3.And(n > 0, q >= 0), z3.And(q == d * n + m, m >= 0, m < n, d >= 0)), patterns=[m]))


@meth("ndarray.flatten", "ndarray.ravel")
def a_flatten(eng, a, args, kw):
    if args or kw:
        raise Unsupported("flatten order")
    sh = array_shape(eng, a)
    if len(sh) == 1:
        return array_copy(eng, a)
    if len(sh) != 2:
        raise Unsupported("flatten")
    if sh[1].eq(z3.IntVal(1)):
        return new_array(eng, [wrap_int(sh[0])], lambda i: cell(eng, a, [i[0], 0]))
    split_axiom(eng)

    def f(i):
        d, m = divmod_idx(eng, term(i[0]), sh[1])
        return cell(eng, a, [Sc(d, "int"), Sc(m, "int")])

    return new_array(eng, [wrap_int(sh[0] * sh[1])], f)


@ext("numpy.tile")
def np_tile(eng, args, kw):
    a, n = arrayish(eng, args[0]), args[1]
    sh = array_shape(eng, a)
    if len(sh) != 1 or not is_scalar(n):
        raise Unsupported("np.tile")
    split_axiom(eng)
    return new_array(eng, [wrap_int(sh[0] * term(n))], lambda i: cell(eng, a, [Sc(divmod_idx(eng, term(i[0]), sh[0])[1], "int")]))


@ext("numpy.repeat")
def np_repeat(eng, args, kw):
    a, n = arrayish(eng, args[0]), args[1]
    if is_scalar(a):
        a = new_array(eng, [1], lambda i: args[0])
    sh = array_shape(eng, a)
    if len(sh) != 1 or not is_scalar(n) or kw:
        raise Unsupported("np.repeat")
    split_axiom(eng)
    return new_array(eng, [wrap_int(sh[0] * term(n))], lambda i: cell(eng, a, [Sc(divmod_idx(eng, term(i[0]), term(n))[0], "int")]))


@ext("numpy.arange")
def np_arange(eng, args, kw):
    float_type([], kw, 1)
    if len(args) != 1:
        raise Unsupported("np.arange")
    return new_array(eng, [args[0]], lambda i: i[0])


@meth("ndarray.__bool__")
def a_bool(eng, a, args, kw):
    sh = array_shape(eng, a)
    if not sh:
        return eng.truth(cell(eng, a, []))
    n = z3.IntVal(1)
    for d in sh:
        n = n * d
    if eng.choose(n == 1):
        return eng.truth(cell(eng, a, [0] * len(sh)))
    raise PyRaise("ValueError", ("ambiguous truth value",))


class ExcInit(Val):
    """Exception.__init__ of an instance"""

    def __init__(self, ref):
        self.ref = ref

    def call(self, eng, args, kw):
        eng.write("attr", self.ref, ("args",), Tup(list(args)))


def exc_names(eng, cls):
    """names of the class of an exception and of its ancestors"""
    import builtins
    out = set()

    def add(n):
        c = getattr(builtins, n, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            out.update(k.__name__ for k in c.__mro__)
        out.add(n)
    if isinstance(cls, str):
        add(cls)
    else:
        for c in cls.mro():
            out.add(c.name)
            for b in c.bases:
                if isinstance(b, Ext) and b.name.startswith("builtins."):
                    add(b.name[9:])
    return out
