"""assumed contracts for the viewer: columns of query results as arrays, labels of an index, plotly figures as records
of the traces given to them, sorting, prefix sums, masks"""
import ast

import z3

import lib
import lib_rel
from core import *  # noqa
from lib import METHODS, TABLE, Val, ext, force, meth
from lib_rel import RIndex, RLoc, RSer, Rel, RValues, flat, fixed
from report import Fail


# ------------------------------------------------------------------------------------------- rows and arrays
def pinned(eng, rel, keep):
    """(binder, value) of the binders not in keep that the guard determines"""
    sub, guard, todo = [], flat(rel.guard), [b for b in rel.binders if not any(b.eq(k) for k in keep)]
    again = True
    while todo and again:
        again = False
        for b in list(todo):
            t = None
            e = fixed([b], guard)
            if e is not None:
                t = e[1]
            else:
                t = eng.invert(b, guard)
            if t is None or any(mentions(t, x) for x in todo):
                continue
            sub = [(x, z3.substitute(y, (b, t))) for x, y in sub] + [(b, t)]
            guard = [z3.substitute(g, (b, t)) for g in guard]
            todo = [x for x in todo if not x.eq(b)]
            again = True
    return sub, guard, todo


def column_array(eng, rel, val):
    """1-D array of a column in index order, None when not recognised"""
    if len(rel.levels) != 1 or not rel.sorted:
        return None
    r = rel.new(cols={"": val}).norm()
    val = r.cols[""]
    k = term(r.lv[r.levels[0]])
    if k.sort() != I or not any(k.eq(b) for b in r.binders):
        return None
    sub, guard, left = pinned(eng, r, [k])
    if left:
        return None
    for d in eng.radix:
        inr = z3.And(k >= 0, k < d)
        if eng.prove(z3.Implies(conj(guard), inr)) and eng.prove(z3.Implies(inr, conj(guard))):
            val = subst(val, sub)
            return lib.new_array(eng, [lib.wrap_int(d)], lambda i: subst(val, [(k, term(i[0]))]))
    return None


_ser_getattr, _rel_getitem = RSer.getattr, Rel.getitem


def ser_getattr(self, eng, name):
    if name == "values":
        a = column_array(eng, self.rel, self.val)
        if a is not None:
            return a
    return _ser_getattr(self, eng, name)


def ser_getitem(self, eng, k):
    """label of the only level"""
    k = force(eng, k)
    if isinstance(k, RSer):
        r = self.rel.new(cols={"": self.val}).getitem(eng, k)
        return RSer(r, r.cols[""])
    if not is_scalar(k):
        raise Unsupported("subscript of a column")
    return at_key(eng, self.rel, [k], self.val)


def at_key(eng, rel, keys, val):
    """value of the row of the whole key; KeyError without such a row"""
    if len(keys) != len(rel.levels):
        raise Unsupported("partial key")
    r = rel.new(cols={"": val}, guard=list(rel.guard) + [eqt(term(rel.lv[l]), term(k)) for l, k in zip(rel.levels, keys)])
    sub, guard, left = pinned(eng, r, [])
    if left:
        raise Unsupported("row of a key")
    if not eng.choose(conj(guard)):
        raise PyRaise("KeyError", tuple(keys))
    return subst(val, sub)


def has_key(eng, rel, keys):
    r = rel.new(guard=list(rel.guard) + [eqt(term(rel.lv[l]), term(k)) for l, k in zip(rel.levels, keys)])
    sub, guard, left = pinned(eng, r, [])
    return conj(guard) if not left else r.some(eng)


class RRow(Val):
    """one row: a series of the columns"""

    def __init__(self, eng, rel, keys):
        self.rel, self.keys = rel, keys
        if not eng.choose(has_key(eng, rel, keys)):
            raise PyRaise("KeyError", tuple(keys))

    def getitem(self, eng, k):
        k = force(eng, k)
        if not isinstance(k, str):
            raise Unsupported("column of a row")
        if k not in self.rel.cols:
            raise PyRaise("KeyError", (k,))
        return at_key(eng, self.rel, self.keys, self.rel.cols[k])

    def getattr(self, eng, name):
        return self.getitem(eng, name) if name in self.rel.cols else self._no(name)


_loc_getitem = RLoc.getitem


def loc_getitem(self, eng, k):
    k = force(eng, k)
    r = self.rel
    if isinstance(r, RSer):
        if is_scalar(k) and len(r.rel.levels) > 1:
            x = _loc_getitem(RLoc(r.rel.new(cols={"": r.val})), eng, k)
            return RSer(x, x.cols[""])
        keys = list(k.items) if isinstance(k, Tup) else [k]
        if len(keys) == len(r.rel.levels) and all(is_scalar(force(eng, x)) for x in keys):
            return at_key(eng, r.rel, keys, r.val)
        raise Unsupported("loc of a column")
    if isinstance(k, Tup) and all(is_scalar(force(eng, x)) for x in k.items):
        ks = [force(eng, x) for x in k.items]
        n = len(r.levels)
        if len(ks) == n and n > 1:
            return RRow(eng, r, ks)
        if len(ks) == n + 1 and isinstance(ks[-1], str) and ks[-1] in r.cols:
            return at_key(eng, r, ks[:-1], r.cols[ks[-1]])
    if is_scalar(k) and len(r.levels) == 1:
        return RRow(eng, r, [k])
    return _loc_getitem(self, eng, k)


_idx_getattr, _idx_member = RIndex.getattr, RIndex.member


def idx_getattr(self, eng, name):
    if name in ("get_level_values", "unique"):
        return ExtBound("RIndex." + name, self)
    return _idx_getattr(self, eng, name)


def idx_member(self, eng, x):
    x = force(eng, x)
    if isinstance(x, Tup):
        ks = [force(eng, k) for k in x.items]
        if len(ks) == len(self.rel.levels) and all(is_scalar(k) for k in ks):
            return has_key(eng, self.rel, ks)
        raise Unsupported("membership in an index")
    return _idx_member(self, eng, x)


class RLevel(Val):
    """values of one level of an index, row by row (distinct: each once, in an order that is not specified)"""

    def __init__(self, rel, level, distinct=False):
        self.rel, self.level, self.distinct = rel, level, distinct

    def subst(self, pairs):
        return RLevel(self.rel.subst(pairs), self.level, self.distinct)

    def mentions(self, c):
        return self.rel.mentions(c)

    def getattr(self, eng, name):
        if name == "size":
            return wrap_len(eng, self)
        return ExtBound("RLevel." + name, self)

    def length(self, eng):
        if not self.distinct:
            return self.rel.rows(eng)
        sg = self.iterate(eng).segs[0]
        if sg.count is not None:
            return sg.count
        return eng.sum_term(sg.binders, sg.guard, z3.IntVal(1))

    def iterate(self, eng):
        if not self.distinct:
            raise Unsupported("iteration over the labels of all rows")
        r = self.rel.norm()
        k = term(r.lv[self.level])
        need = [b for b in r.binders if mentions(k, b)]
        rest = [b for b in r.binders if not mentions(k, b)]
        inner = [g for g in r.guard if any(mentions(g, b) for b in rest)]
        outer = [g for g in r.guard if not any(mentions(g, b) for b in rest)]
        for b in list(rest):
            g = [c for c in inner if mentions(c, b)]
            if b.sort() == I and not any(mentions(c, x) for c in g for x in rest if not x.eq(b)):
                for c in g:
                    up = c.arg(1) if z3.is_lt(c) and c.arg(0).eq(b) else None
                    if up is not None and not mentions(up, b) and eng.prove(z3.And(b >= 0, b < up) == conj(g)):
                        outer.append(up > 0)
                        inner = [c for c in inner if not any(c.eq(x) for x in g)]
                        rest = [x for x in rest if not x.eq(b)]
                        break
        if rest:
            outer.append(lib_rel.nonempty(eng, rest, inner))
        if not need:
            raise Unsupported("labels of a constant level")
        p = Rel(need, outer, {}, [self.level], {self.level: r.lv[self.level]})
        if not lib_rel.unique(eng, p, [self.level]):
            # the label itself is the element
            raise Unsupported("labels shared by several elements")
        pr = [(b, eng.fresh(b.decl().name().split("!")[0], b.sort())) for b in need]
        gs = flat([z3.substitute(g, *pr) for g in outer])
        idx = cnt = None
        if len(need) == 1 and k.eq(need[0]) and k.sort() == I and r.sorted and self.level == r.levels[0]:
            for d in eng.radix:
                if eng.prove(z3.And(k >= 0, k < d) == conj(outer)):
                    idx, cnt = pr[0][1], d
        return Seq([Seg([p[1] for p in pr], gs, subst(r.lv[self.level], pr), idx, cnt)])


def wrap_len(eng, v):
    n = v.length(eng)
    return lib.wrap_int(n)


@meth("RIndex.get_level_values")
def idx_glv(eng, x, args, kw):
    l = force(eng, args[0] if args else kw.get("level"))
    r = x.rel
    if isinstance(l, int) and not isinstance(l, bool):
        if not -len(r.levels) <= l < len(r.levels):
            raise PyRaise("IndexError")
        l = r.levels[l]
    if l not in r.levels:
        raise PyRaise("KeyError", (l,))
    return RLevel(r, l)


@meth("RIndex.unique")
def idx_unique(eng, x, args, kw):
    if args or set(kw) - {"level"}:
        if len(args) == 1 and not kw:
            kw = {"level": args[0]}
        else:
            raise Unsupported("unique")
    l = kw.get("level", x.rel.levels[0] if len(x.rel.levels) == 1 else None)
    if l is None:
        raise Unsupported("unique keys")
    v = idx_glv(eng, x, [l], {})
    return RLevel(v.rel, v.level, True)


METHODS["RLevel.unique"] = METHODS["RLevel.drop_duplicates"] = lambda eng, v, args, kw: RLevel(v.rel, v.level, True)
METHODS["RLevel.tolist"] = METHODS["RLevel.to_list"] = METHODS["RLevel.to_numpy"] = lambda eng, v, args, kw: v


@ext("numpy.unique")
def np_unique(eng, args, kw):
    v = force(eng, args[0])
    if isinstance(v, RLevel) and not kw:
        return RLevel(v.rel, v.level, True)
    raise Unsupported("np.unique")


@meth("Rel.sort_values")
def r_sort_values(eng, r, args, kw):
    kw = dict(kw)
    by = lib_rel.keysof(eng, kw.pop("by") if "by" in kw else args[0])
    for k in by:
        if k not in r.cols and k not in r.levels:
            raise PyRaise("KeyError", (k,))
    inp = kw.pop("inplace", False)
    kw.pop("ascending", None), kw.pop("kind", None)
    if kw:
        raise Unsupported("sort_values options")
    srt = by == r.levels and False
    if inp is True:
        if r.table:
            raise Fail("the table %s is modified" % r.table)
        r.sorted = srt
        return None
    return r.new(sorted_=srt)


_sort_index = METHODS["Rel.sort_index"]


def sort_index(eng, s, args, kw):
    kw = dict(kw)
    asc = kw.pop("ascending", True)
    if asc is not True:
        raise Unsupported("descending index")
    inp = kw.pop("inplace", False)
    if args:
        raise Unsupported("sort_index options")
    if inp is True:
        r = s.rel if isinstance(s, RSer) else s
        if r.table:
            raise Fail("the table %s is modified" % r.table)
        if kw:
            raise Unsupported("sort_index options")
        r.sorted = True
        return None
    return _sort_index(eng, s, [], kw)


def rel_getitem(self, eng, k):
    v = _rel_getitem(self, eng, k)
    if isinstance(v, RSer) and v.rel is self:
        return RSer(self.new(table=None), v.val)
    return v


def ser_loc(self, eng, name):
    return RLoc(self) if name == "loc" else ser_getattr(self, eng, name)


# ------------------------------------------------------------------------------------------- arrays
@ext("numpy.append")
def np_append(eng, args, kw):
    a, b = [one_d(eng, x) for x in args]
    na, nb = [lib.array_shape(eng, x)[0] for x in (a, b)]
    if kw:
        raise Unsupported("append axis")
    return join(eng, a, b, na, nb)


def join(eng, a, b, na, nb):
    def f(i):
        t = term(i[0])
        if eng.choose(t < na):
            return lib.cell(eng, a, [i[0]])
        return lib.cell(eng, b, [lib.wrap_int(z3.simplify(t - na))])

    return lib.new_array(eng, [lib.wrap_int(z3.simplify(na + nb))], f)


def one_d(eng, v):
    v = force(eng, v)
    if is_scalar(v):
        return lib.new_array(eng, [1], lambda i: v)
    a = lib.arrayish(eng, v)
    if len(lib.array_shape(eng, a)) != 1:
        raise Unsupported("array of other dimensions")
    return a


@ext("numpy.concatenate", "numpy.hstack")
def np_concat(eng, args, kw):
    if kw:
        raise Unsupported("concatenate axis")
    l = [force(eng, s.elem) for s in eng.contents(args[0]).segs]
    if any(s.binders or s.guard for s in eng.contents(args[0]).segs) or not l:
        raise Unsupported("concatenate")
    r = one_d(eng, l[0])
    for x in l[1:]:
        x = one_d(eng, x)
        r = join(eng, r, x, lib.array_shape(eng, r)[0], lib.array_shape(eng, x)[0])
    return r


@meth("ndarray.cumsum")
def a_cumsum(eng, a, args, kw):
    sh = lib.array_shape(eng, a)
    if args or kw or len(sh) != 1:
        raise Unsupported("cumsum")
    ctx = list(eng.binders)
    P = z3.Function("cumsum!%s" % eng.fresh("cs", I).decl().name(), *([b.sort() for b in ctx] + [I, R]))
    j = eng.fresh("j", I)
    p = lambda t: P(*(ctx + [t]))
    n = sh[0]

    def at(t, facts):
        """cell as one term"""
        out = []
        pc = list(eng.pc)
        eng.pc = pc + facts
        tr = (eng.trace, eng.tpos, eng.alts)
        try:
            for o in eng.explore(lambda: lib.cell(eng, a, [Sc(t, "int")])):
                if o.kind == "raise":
                    raise Unsupported("cumsum")
                out.append((o.pc, real(term(force(eng, o.val)))))
        finally:
            eng.pc = pc
            eng.trace, eng.tpos, eng.alts = tr
        v = out[-1][1]
        for c, x in reversed(out[:-1]):
            v = z3.If(conj(c), x, v)
        return v

    v = at(j, [j >= 0, j < n])
    eng.prover.axiom(z3.ForAll(ctx + [j], z3.Implies(z3.And(conj(eng.pc), j > 0, j < n), p(j) == p(j - 1) + v), patterns=[p(j)]))
    eng.prover.axiom(z3.ForAll(ctx, z3.Implies(z3.And(conj(eng.pc), n > 0), p(z3.IntVal(0)) == z3.substitute(v, (j, z3.IntVal(0)))), patterns=[p(z3.IntVal(0))]) if ctx else z3.Implies(z3.And(conj(eng.pc), n > 0), p(z3.IntVal(0)) == z3.substitute(v, (j, z3.IntVal(0)))))
    return lib.new_array(eng, [lib.wrap_int(n)], lambda i: Sc(p(term(i[0])), "float"))


TABLE["numpy.cumsum"] = lambda eng, args, kw: a_cumsum(eng, lib.arrayish(eng, args[0]), args[1:], kw)

_array_get = lib.array_get


def array_get(eng, a, k):
    """a[p:q], a[::-1] of one dimension; a[mask]"""
    k = force(eng, k)
    sh = lib.array_shape(eng, a)
    if isinstance(k, slice) and len(sh) == 1 and not lib.full_slice(k):
        n = sh[0]
        st = force(eng, k.step)
        if st == -1 and k.start is None and k.stop is None:
            return lib.new_array(eng, [lib.wrap_int(n)], lambda i: lib.cell(eng, a, [lib.wrap_int(z3.simplify(n - 1 - term(i[0])))]))
        if st not in (None, 1):
            raise Unsupported("array slice")

        def bound(x, d):
            if x is None:
                return d
            x = term(force(eng, x))
            if eng.choose(x < 0):
                x = z3.simplify(x + n)
                if not eng.choose(x >= 0):
                    return z3.IntVal(0)
                return x
            return x if eng.choose(x <= n) else n

        lo, hi = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
        if not eng.choose(hi >= lo):
            hi = lo
        return lib.new_array(eng, [lib.wrap_int(z3.simplify(hi - lo))], lambda i: lib.cell(eng, a, [lib.wrap_int(z3.simplify(lo + term(i[0])))]))
    if isinstance(k, Ref) and k.cls == "ndarray" and mask_like(eng, k):
        return Picked(eng, lib.array_copy(eng, a), lib.array_copy(eng, k))
    return _array_get(eng, a, k)


_array_set = lib.array_set


def array_set(eng, a, k, v):
    """a[mask] = scalar, or elements selected by the same mask"""
    k = force(eng, k)
    if not (isinstance(k, Ref) and k.cls == "ndarray" and mask_like(eng, k)):
        return _array_set(eng, a, k, v)
    v = force(eng, v)
    lib.writable(eng, a)
    sh = lib.array_shape(eng, a)
    whole = Picked(eng, a, k)
    if isinstance(v, Picked):
        bs = [eng.fresh("m", I) for _ in sh]
        pc = list(eng.pc)
        eng.pc = pc + [c for b, d in zip(bs, sh) for c in (b >= 0, b < d)]
        try:
            idx = [Sc(b, "int") for b in bs]
            x, y = [term(force(eng, lib.cell(eng, m, idx))) for m in (k, v.mask)]
            same = len(v.shape) == len(sh) and eng.prove(x == y)
        finally:
            eng.pc = pc
        if not same or not all(eng.prove(p == q) for p, q in zip(v.shape, sh)):
            raise Unsupported("elements selected by another mask")
        val = lambda i: v.at(eng, i)[1]
    elif is_scalar(v):
        val = lambda i: v
    else:
        raise Unsupported("assignment to selected elements")

    def f(i):
        old, new = num2(term(force(eng, lib.cell(eng, a, i))), term(force(eng, val(i))))
        return Sc(z3.If(term(force(eng, lib.cell(eng, k, i))), new, old), "float")

    lib.fill_array(eng, a, lib.shape_vals(eng, a), f)


lib.array_set = array_set


def mask_like(eng, k):
    sh = lib.array_shape(eng, k)
    bs = [eng.fresh("m", I) for _ in sh]
    pc = list(eng.pc)
    eng.pc = pc + [c for b, d in zip(bs, sh) for c in (b >= 0, b < d)]
    tr = (eng.trace, eng.tpos, eng.alts)
    try:
        outs = eng.explore(lambda: lib.cell(eng, k, [Sc(b, "int") for b in bs]))
    except Unsupported:
        return False
    finally:
        eng.pc = pc
        eng.trace, eng.tpos, eng.alts = tr
    return bool(outs) and all(o.kind != "raise" and is_scalar(force(eng, o.val)) and term(force(eng, o.val)).sort() == B for o in outs)


class Picked(Val):
    """the elements of an array where a mask holds, in order; val(cell) applied to each"""

    pytype = "numpy.ndarray"

    def __init__(self, eng, a, mask, ops=()):
        self.a, self.mask, self.ops = a, mask, list(ops)
        x, y = lib.array_shape(eng, a), lib.array_shape(eng, mask)
        if len(x) != len(y):
            raise Unsupported("mask of other dimensions")
        for p, q in zip(x, y):
            if not eng.choose(p == q):
                raise PyRaise("IndexError", ("mask",))
        self.shape = x

    def subst(self, pairs):
        r = Picked.__new__(Picked)
        r.a, r.mask, r.ops, r.shape = subst(self.a, pairs), subst(self.mask, pairs), [(o, subst(x, pairs), s) for o, x, s in self.ops], subst(self.shape, pairs)
        return r

    def mentions(self, c):
        return mentions(self.a, c) or mentions(self.mask, c) or mentions(self.shape, c) or any(mentions(x, c) for _, x, _ in self.ops)

    def at(self, eng, idx):
        """(kept, value) at a place of the array"""
        m = term(force(eng, lib.cell(eng, self.mask, idx)))
        v = force(eng, lib.cell(eng, self.a, idx))
        for op, x, side in self.ops:
            if isinstance(op, ast.Div):
                # of numpy: a null divisor does not raise, the quotient is then not specified
                p, q = [real(term(force(eng, y))) for y in ((v, x) if side == "l" else (x, v))]
                v = Sc(p / q, "float")
            else:
                v = eng.binop(op, v, x) if side == "l" else eng.binop(op, x, v)
        return m, v

    def binop(self, eng, op, a, b):
        side, other = ("l", b) if a is self else ("r", a)
        other = force(eng, other)
        if hasattr(other, "rbinop") and not is_scalar(other):
            return other.rbinop(eng, op, self)
        if not is_scalar(other):
            raise Unsupported("operator on selected elements")
        return Picked(eng, self.a, self.mask, self.ops + [(op, other, side)])


    def getattr(self, eng, name):
        return ExtBound("Picked." + name, self)


@ext("numpy.clip")
def np_clip(eng, args, kw):
    a = force(eng, args[0])
    lo = force(eng, args[1] if len(args) > 1 else kw.get("a_min"))
    hi = force(eng, args[2] if len(args) > 2 else kw.get("a_max"))
    if set(kw) - {"a_min", "a_max"} or len(args) > 3:
        raise Unsupported("clip options")
    if lo is not None and not is_scalar(lo) or hi is not None and not is_scalar(hi):
        raise Unsupported("clip by arrays")
    if lo is None and hi is None:
        raise PyRaise("ValueError")

    def f(v):
        t = real(term(force(eng, v)))
        if lo is not None:
            l = real(term(lo))
            t = z3.If(t < l, l, t)
        if hi is not None:
            h = real(term(hi))
            t = z3.If(t > h, h, t)
        return Sc(t, "float")

    if is_scalar(a):
        return f(a)
    a = lib.arrayish(eng, a)
    return lib.new_array(eng, lib.shape_vals(eng, a), lambda i: f(lib.cell(eng, a, i)))


METHODS["ndarray.clip"] = lambda eng, a, args, kw: np_clip(eng, [a] + list(args), {{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()})


def pairwise(up):
    def h(eng, args, kw):
        if kw or len(args) != 2:
            raise Unsupported("maximum")
        a, b = [lib.arrayish(eng, x) for x in args]
        sh = lib.bshape(eng, a, b)

        def f(i):
            x, y = [real(term(force(eng, lib.bcast(eng, v, sh, list(i))))) for v in (a, b)]
            return Sc(z3.If(x >= y, x, y) if up else z3.If(x <= y, x, y), "float")

        return lib.new_array(eng, sh, f)

    return h


TABLE["numpy.maximum"], TABLE["numpy.minimum"] = pairwise(True), pairwise(False)


@meth("ndarray.sum")
def a_sum(eng, a, args, kw):
    if args or kw:
        raise Unsupported("sum over an axis")
    # only used in titles: some number
    return Sc(eng.fresh("sum", R), "float")


def extreme(eng, args, up):
    """largest or smallest of a family: a bound that is attained (only the bound is used)"""
    if len(args) == 1:
        seq = eng.contents(args[0])
        if any(s.binders for s in seq.segs):
            m = eng.fresh("extremum", R)
            for s in seq.segs:
                v = real(term(lib.force_in(eng, s)))
                eng.prover.axiom(z3.ForAll(s.binders, z3.Implies(z3.And(conj(eng.pc), conj(s.guard)), v <= m if up else v >= m)) if s.binders else z3.Implies(conj(eng.pc + s.guard), v <= m if up else v >= m))
            return Sc(m, "float")
    return _extremum(eng, args, up)


_extremum = lib.extremum
lib.extremum = extreme
lib.array_get = array_get
Rel.getitem = rel_getitem
RSer.getattr, RSer.getitem = ser_loc, ser_getitem
RLoc.getitem = loc_getitem
RIndex.getattr, RIndex.member = idx_getattr, idx_member
METHODS["Rel.sort_index"] = METHODS["RSer.sort_index"] = sort_index
_nonempty = lib_rel.nonempty


def nonempty(eng, binders, guard):
    sub, guard, left = pinned(eng, Rel(binders, guard, {}), [])
    return _nonempty(eng, left, guard) if left else conj(guard)


lib_rel.nonempty = nonempty
