"""assumed contracts of pandas queries on a table given as a relation: rows are a family (binders, guard), each column a
value per row.  Filtering, projection, arithmetic, pivot_table, groupby(level).sum, loc on the first index level,
values.reshape follow pandas' documentation; numeric data is finite (no NaN)."""
import ast

import z3

import lib
from core import *  # noqa
from lib import METHODS, TABLE, Val, ext, force, meth
from report import Fail

REFAIL = Fail


def keysof(eng, v):
    v = force(eng, v)
    if isinstance(v, str):
        return [v]
    l = [force(eng, s.elem) for s in eng.contents(v).segs if not s.binders and not s.guard]
    if not all(isinstance(x, str) for x in l) or len(l) != len(eng.contents(v).segs):
        raise Unsupported("column names %r" % (v,))
    return l


def numeric(v):
    return not (isinstance(v, str) or isinstance(v, Sc) and v.t.sort() in (S, B))


def flat(guard):
    out, todo = [], list(guard)
    while todo:
        c = todo.pop(0)
        if z3.is_and(c):
            todo = c.children() + todo
        elif not z3.is_true(c):
            out.append(c)
    return out


def fixed(binders, guard):
    """(binder, its value, the equation)"""
    for c in guard:
        if z3.is_eq(c):
            x, y = c.children()
            for x, y in ((x, y), (y, x)):
                b = next((b for b in binders if b.eq(x)), None)
                if b is not None and not mentions(y, b) and x.sort() == y.sort():
                    return b, y, c
    return None


def split_ranges(eng, binders, guard):
    """binders that range over their own non-empty interval are left out: (others, guard, {binder: guards})"""
    guard = flat(guard)
    own = {}
    for b in binders:
        g = [c for c in guard if mentions(c, b)]
        if b.sort() == I and g and not any(mentions(c, o) for c in g for o in binders if not o.eq(b)) and eng.prover.prove(eng.pc, z3.substitute(conj(g), (b, z3.IntVal(0)))):
            own[b] = g
    rest = [b for b in binders if b not in own]
    return rest, [c for c in guard if not any(c in g for g in own.values())], own


def nonempty(eng, binders, guard):
    rest, g, _ = split_ranges(eng, binders, guard)
    return eng.sum_term(rest, g, z3.IntVal(1)) > 0 if rest else conj(g)


def number(eng, binders, guard, k=1):
    """number of rows (times k)"""
    rest, g, own = split_ranges(eng, binders, guard)
    n = eng.sum_term(rest, g, z3.IntVal(k)) if rest else z3.If(conj(g), z3.IntVal(k), z3.IntVal(0)) if g else z3.IntVal(k)
    p = n
    for b, gs in own.items():
        up = None
        for c in gs:
            if z3.is_lt(c) and c.arg(0).eq(b):
                up = c.arg(1)
        if up is None or not eng.prover.prove(eng.pc, z3.And(b >= 0, b < up) == conj(gs)):
            return eng.sum_term(binders, guard, z3.IntVal(k))
        p = p * up
    if own:
        # the product is only known to be positive when every factor is
        z = z3.Const("rows:" + p.sexpr(), I)
        a = z3.And(z >= 0, (n > 0) == (z > 0))
        if not any(a.eq(x) for x in eng.prover.axioms):
            eng.prover.axiom(a)
        return z
    return p


class Rel(Val):
    def __init__(self, binders, guard, cols, levels=(), lv=None, table=None, sorted_=False, elim=()):
        self.elim = list(elim)  # equations of the binders left out
        self.binders, self.guard, self.cols, self.levels, self.lv = list(binders), list(guard), dict(cols), list(levels), dict(lv or {})
        self.table, self.sorted = table, sorted_

    def new(self, **kw):
        d = {"binders": self.binders, "guard": self.guard, "cols": self.cols, "levels": self.levels, "lv": self.lv, "table": None, "sorted_": self.sorted, "elim": self.elim}
        d.update(kw)
        return Rel(**d)

    def subst(self, pairs):
        return self.new(guard=[z3.substitute(g, *pairs) for g in self.guard], cols={k: subst(v, pairs) for k, v in self.cols.items()}, lv={k: subst(v, pairs) for k, v in self.lv.items()}, table=self.table)

    def mentions(self, c):
        return mentions(self.guard, c) or any(mentions(v, c) for v in list(self.cols.values()) + list(self.lv.values()))

    def __repr__(self):
        return "Rel(%s levels=%s cols=%s)" % (self.table, self.levels, list(self.cols))

    def same(self, other):
        return len(self.binders) == len(other.binders) and all(a.eq(b) for a, b in zip(self.binders, other.binders))

    def rows(self, eng):
        return number(eng, self.binders, self.guard)

    def some(self, eng, extra=()):
        """there is a row (with extra)"""
        return nonempty(eng, self.binders, self.guard + list(extra))

    def norm(self):
        """without the binders given by an equation of the guard"""
        r = self
        while True:
            g = flat(r.guard)
            e = fixed(r.binders, g)
            if e is None:
                return r.new(guard=g, table=r.table)
            b, t, c = e
            r = r.new(binders=[x for x in r.binders if not x.eq(b)], guard=[x for x in g if not x.eq(c)]).subst([(b, t)])
            r.elim = r.elim + [(b, t)]

    def val(self, name):
        if name in self.lv:
            return self.lv[name]
        if name in self.cols:
            return self.cols[name]
        raise PyRaise("KeyError", (name,))

    # ------------------------------------------------------------------ access
    def getitem(self, eng, k):
        k = force(eng, k)
        if isinstance(k, str):
            if k not in self.cols:
                raise PyRaise("KeyError", (k,))
            return RSer(self, self.cols[k])
        if isinstance(k, RSer):
            if not self.same(k.rel):
                raise Unsupported("mask of another table")
            t = term(k.val)
            if t.sort() != B:
                raise Unsupported("mask")
            return self.new(guard=self.guard + [t])
        ks = keysof(eng, k)
        for x in ks:
            if x not in self.cols:
                raise PyRaise("KeyError", (x,))
        return self.new(cols={x: self.cols[x] for x in ks})

    def setitem(self, eng, k, v):
        if self.table:
            raise Fail("the table %s is modified" % self.table)
        raise Unsupported("column assigned in a query result")

    def member(self, eng, x):
        return x in self.cols if isinstance(x, str) else self._no("membership")

    def length(self, eng):
        return self.rows(eng)

    def iterate(self, eng):
        return Seq([Seg([], [], c, z3.IntVal(0), z3.IntVal(1)) for c in self.cols])

    def getattr(self, eng, name):
        if name in ("index",):
            return RIndex(self)
        if name == "loc":
            return RLoc(self)
        if name == "values":
            return RValues(self)
        if name == "size":
            return Sc(number(eng, self.binders, self.guard, len(self.cols)), "int") if self.cols else 0
        if name == "empty":
            return eng.wrap(z3.Not(self.some(eng))) if self.cols else True
        if name == "columns":
            return Tup(list(self.cols))
        if name in self.cols and "Rel." + name not in METHODS:
            return RSer(self, self.cols[name])
        return ExtBound("Rel." + name, self)


class RSer(Val):
    def __init__(self, rel, val):
        self.rel, self.val = rel, val

    def subst(self, pairs):
        return RSer(self.rel.subst(pairs), subst(self.val, pairs))

    def mentions(self, c):
        return self.rel.mentions(c) or mentions(self.val, c)

    def __repr__(self):
        return "RSer(%r,%r)" % (self.rel, self.val)

    def other(self, x):
        if isinstance(x, RSer):
            if not self.rel.same(x.rel) or not conj(self.rel.guard).eq(conj(x.rel.guard)):
                raise Unsupported("columns of different tables")
            return x.val
        if is_scalar(x):
            return x
        raise Unsupported("column operand %r" % (x,))

    def binop(self, eng, op, a, b):
        x, y = self.other(a), self.other(b)
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            p, q = term(x), term(y)
            if p.sort() != B or q.sort() != B:
                raise Unsupported("& on numbers")
            return RSer(self.rel, Sc(z3.And(p, q) if isinstance(op, ast.BitAnd) else z3.Or(p, q), "bool"))
        if isinstance(op, ast.Div):
            return RSer(self.rel, Sc(real(term(x)) / real(term(y)), "float"))
        if isinstance(op, ast.Mod):
            if term(x).sort() != I or term(y).sort() != I or not eng.prove(term(y) > 0):
                raise Unsupported("%")
            return RSer(self.rel, Sc(term(x) % term(y), "int"))
        return RSer(self.rel, eng.binop(op, x, y))

    def compare(self, eng, op, a, b):
        x, y = self.other(a), self.other(b)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = eqt(term(x), term(y))
            return RSer(self.rel, Sc(c if isinstance(op, ast.Eq) else z3.Not(c), "bool"))
        r = eng.compare(op, x, y)
        return RSer(self.rel, Sc(z3.BoolVal(r), "bool") if isinstance(r, bool) else r)

    def unary(self, eng, op):
        t = term(self.val)
        if isinstance(op, ast.Invert) and t.sort() == B:
            return RSer(self.rel, Sc(z3.Not(t), "bool"))
        if isinstance(op, ast.USub):
            return RSer(self.rel, eng.binop(ast.Sub(), 0, self.val))
        raise Unsupported("unary operator on a column")

    def getattr(self, eng, name):
        if name == "values":
            return RValues(self)
        if name == "index":
            return RIndex(self.rel)
        if name == "size":
            return Sc(self.rel.rows(eng), "int")
        if name == "empty":
            return eng.wrap(z3.Not(self.rel.some(eng)))
        return ExtBound("RSer." + name, self)

    def length(self, eng):
        return self.rel.rows(eng)


class RIndex(Val):
    def __init__(self, rel):
        self.rel = rel

    def member(self, eng, x):
        if not self.rel.levels:
            raise Unsupported("membership in a plain index")
        c = self.rel
        return c.some(eng, [eqt(term(c.lv[c.levels[0]]), term(x))])

    def getattr(self, eng, name):
        if name == "names":
            return Tup(self.rel.levels)
        if name == "nlevels":
            return max(1, len(self.rel.levels))
        if name == "size":
            return Sc(self.rel.rows(eng), "int")
        self._no("attribute " + name)


class RLoc(Val):
    def __init__(self, rel):
        self.rel = rel

    def getitem(self, eng, k):
        r = self.rel
        k = force(eng, k)
        if isinstance(k, RSer):
            return r.getitem(eng, k)
        if isinstance(k, Tup) and len(k.items) == 2 and isinstance(force(eng, k.items[0]), RSer):
            return r.getitem(eng, force(eng, k.items[0])).getitem(eng, k.items[1])
        if isinstance(k, Tup) and len(k.items) == 2 and lib.full_slice(k.items[0]):
            return r.getitem(eng, k.items[1])
        if is_scalar(k) and len(r.levels) > 1:
            c = eqt(term(r.lv[r.levels[0]]), term(k))
            if not eng.choose(r.some(eng, [c])):
                raise PyRaise("KeyError", (k,))
            return r.new(guard=r.guard + [c], levels=r.levels[1:], lv={x: r.lv[x] for x in r.levels[1:]})
        raise Unsupported("loc[%r]" % (k,))

    def setitem(self, eng, k, v):
        return self.rel.setitem(eng, k, v)


class RValues(Val):
    def __init__(self, of):
        self.of = of

    def getattr(self, eng, name):
        if name == "size":
            return self.of.getattr(eng, "size")
        if name in ("flatten", "ravel", "copy") and isinstance(self.of, (RSer,)):
            return ExtBound("RValues." + name, self)
        return ExtBound("RValues." + name, self)


def one_column(v):
    if isinstance(v, RSer):
        return v.rel, v.val
    if len(v.cols) != 1:
        raise Unsupported("values of several columns")
    return v, list(v.cols.values())[0]


@meth("RValues.reshape")
def rv_reshape(eng, v, args, kw):
    d = [term(force(eng, x)) for a in args for x in (a.items if isinstance(a, Tup) else [a])]
    rel, val = one_column(v.of)
    rel, val = normcol(rel, val)
    if len(d) != 2 or len(rel.levels) != 2 or not rel.sorted:
        raise Unsupported("reshape of rows in an order not known")
    a, b = [term(rel.lv[l]) for l in rel.levels]
    if not all(any(x.eq(y) for y in rel.binders) for x in (a, b)) or len(rel.binders) != 2:
        raise Unsupported("reshape of rows not keyed by their index")
    inr = z3.And(a >= 0, a < d[0], b >= 0, b < d[1])
    indep = [g for g in rel.guard if not mentions(g, a) and not mentions(g, b)]
    if not eng.choose(conj(indep)):
        if eng.prove(z3.And(d[0] > 0, d[1] > 0)):
            raise PyRaise("ValueError", ("cannot reshape",))
        raise Unsupported("reshape of no rows")
    if not prove_iff(eng, rel.binders, conj(rel.guard), inr):
        raise Unsupported("reshape of some of the rows")
    return lib.new_array(eng, [lib.wrap_int(x) for x in d], lambda i: subst(val, [(a, term(i[0])), (b, term(i[1]))]))


def normcol(rel, val):
    r = rel.new(cols={"": val}).norm()
    return r, r.cols[""]


def prove_iff(eng, binders, a, b):
    return eng.prove(z3.Implies(a, b)) and eng.prove(z3.Implies(b, a))


METHODS["RValues.flatten"] = METHODS["RValues.ravel"] = METHODS["RValues.copy"] = lambda eng, v, args, kw: v


# ------------------------------------------------------------------------------------------- columns
@meth("RSer.isin")
def s_isin(eng, s, args, kw):
    c = eng.member(s.val, args[0])
    return RSer(s.rel, Sc(z3.BoolVal(c) if isinstance(c, bool) else c, "bool"))


@meth("RSer.notnull", "RSer.notna")
def s_notnull(eng, s, args, kw):
    return RSer(s.rel, Sc(z3.BoolVal(True), "bool"))


@meth("RSer.isnull", "RSer.isna")
def s_isnull(eng, s, args, kw):
    return RSer(s.rel, Sc(z3.BoolVal(False), "bool"))


@meth("RSer.sort_index", "Rel.sort_index")
def s_sort_index(eng, s, args, kw):
    r = s.rel if isinstance(s, RSer) else s
    if kw.get("inplace"):
        return inplace(r)
    lev = kw.get("level", args[0] if args else None)
    if lev is not None:
        lev = [force(eng, g.elem) for g in eng.contents(lev).segs] if not is_scalar(lev) else [lev]
        names = [r.levels[x] if isinstance(x, int) else x for x in lev]
        if names != r.levels[: len(names)]:
            raise Unsupported("sort_index of other levels")
    if set(kw) - {"level", "inplace"}:
        raise Unsupported("sort_index options")
    r = r.new(sorted_=True)
    return RSer(r, s.val) if isinstance(s, RSer) else r


def inplace(r):
    if r.table:
        raise Fail("the table %s is modified" % r.table)
    raise Unsupported("inplace")


@meth("RSer.copy", "Rel.copy")
def s_copy(eng, s, args, kw):
    return RSer(s.rel, s.val) if isinstance(s, RSer) else s.new()


@meth("RSer.sum")
def s_sum(eng, s, args, kw):
    if args or kw:
        raise Unsupported("sum options")
    t = real(term(s.val))
    return Sc(eng.sum_term(s.rel.binders, s.rel.guard, t), "float")


@meth("RSer.to_numpy")
def s_np(eng, s, args, kw):
    return RValues(s)


class RGroup(Val):
    def __init__(self, of, keys):
        self.of, self.keys = of, keys

    def getattr(self, eng, name):
        return ExtBound("RGroup." + name, self)

    def getitem(self, eng, k):
        return RGroup(self.of.getitem(eng, k), self.keys)


@meth("RSer.groupby", "Rel.groupby")
def s_groupby(eng, s, args, kw):
    r = s.rel if isinstance(s, RSer) else s
    kw = dict(kw)
    if kw.pop("axis", 0) != 0 or kw.pop("sort", True) is not True:
        raise Unsupported("groupby options")
    if "level" in kw and not args:
        lev = kw.pop("level")
        lev = [force(eng, g.elem) for g in eng.contents(lev).segs] if not is_scalar(lev) else [lev]
        ks = [r.levels[x] if isinstance(x, int) else x for x in lev]
        for k in ks:
            if k not in r.levels:
                raise PyRaise("KeyError", (k,))
    elif not isinstance(s, RSer):
        ks = keysof(eng, kw.pop("by") if "by" in kw else args[0])
    else:
        raise Unsupported("groupby")
    if kw or len(args) > 1:
        raise Unsupported("groupby options %s" % sorted(kw))
    return RGroup(s, ks)


@meth("RGroup.sum", "RGroup.mean")
def g_sum(eng, g, args, kw):
    raise Unsupported("group")


METHODS["RGroup.sum"] = lambda eng, g, args, kw: group(eng, g.of, g.keys, "sum")
METHODS["RGroup.mean"] = lambda eng, g, args, kw: group(eng, g.of, g.keys, "mean")


def unique(eng, rel, keys):
    """each group has one row"""
    ren = [(b, z3.Const(b.decl().name() + "~u", b.sort())) for b in rel.binders]
    same = [term(rel.val(k)) == z3.substitute(term(rel.val(k)), *ren) for k in keys]
    g2 = [z3.substitute(g, *ren) for g in rel.guard]
    return eng.prove(z3.Implies(conj(rel.guard + g2 + same), conj([a == b for a, b in ren])), timeout=4000)


def group(eng, of, keys, agg):
    """one row per combination of the keys present, sorted by the keys; numeric columns aggregated"""
    rel = of.rel if isinstance(of, RSer) else of
    lv = {k: rel.val(k) for k in keys}
    vals = {"": of.val} if isinstance(of, RSer) else {c: v for c, v in rel.cols.items() if c not in keys and numeric(v)}
    rel = rel.new(cols=vals, levels=keys, lv=lv).norm()
    vals, lv = rel.cols, rel.lv
    kb = [term(v) for v in lv.values()]
    rest = [b for b in rel.binders if not any(x.eq(b) for x in kb)]
    if not rest:
        out = rel.new(sorted_=True)
    elif all(any(x.eq(b) for b in rel.binders) or not any(mentions(x, b) for b in rel.binders) for x in kb):
        inner = [g for g in rel.guard if any(mentions(g, b) for b in rest)]
        outer = [g for g in rel.guard if not any(mentions(g, b) for b in rest)]
        cols = {}
        for c, v in vals.items():
            t = eng.sum_term(rest, inner, real(term(v)))
            if agg == "mean":
                t = t / z3.ToReal(eng.sum_term(rest, inner, z3.IntVal(1)))
            cols[c] = Sc(t, "float")
        order = [b for b in rel.binders if any(x.eq(b) for x in kb)]
        out = Rel(order, outer + [nonempty(eng, rest, inner)], cols, keys, lv, sorted_=True)
    elif unique(eng, rel, keys):
        out = rel.new(sorted_=True)
    else:
        raise Unsupported("groups by a computed key")
    if isinstance(of, RSer):
        v = out.cols.pop("")
        return RSer(out, v)
    return out


# ------------------------------------------------------------------------------------------- tables
@meth("Rel.drop")
def r_drop(eng, r, args, kw):
    if kw.get("inplace"):
        return inplace(r)
    ax = kw.get("axis", args[1] if len(args) > 1 else 0)
    if "columns" in kw:
        ks = keysof(eng, kw["columns"])
    elif ax in (1, "columns"):
        ks = keysof(eng, kw.get("labels", args[0] if args else None))
    else:
        raise Unsupported("drop rows")
    for k in ks:
        if k not in r.cols:
            raise PyRaise("KeyError", (k,))
    return r.new(cols={c: v for c, v in r.cols.items() if c not in ks})


def aggname(eng, f):
    f = force(eng, f)
    if isinstance(f, str):
        n = f
    elif isinstance(f, Ext):
        n = f.name.split(".")[-1]
    else:
        raise Unsupported("aggregation %r" % (f,))
    if n not in ("sum", "mean"):
        raise Unsupported("aggregation %s" % n)
    return n


@ext("pandas.pivot_table")
def pd_pivot(eng, args, kw):
    kw = dict(kw)
    r = force(eng, kw.pop("data") if "data" in kw else args[0])
    if len(args) > 1 or not isinstance(r, Rel):
        raise Unsupported("pivot_table")
    return r_pivot(eng, r, [], kw)


@meth("Rel.pivot_table")
def r_pivot(eng, r, args, kw):
    kw = dict(kw)
    if args:
        raise Unsupported("pivot_table")
    agg = aggname(eng, kw.pop("aggfunc", "mean"))
    index = keysof(eng, kw.pop("index"))
    cols = kw.pop("columns", None)
    if "values" in kw:
        vs = keysof(eng, kw.pop("values"))
        r = r.new(cols={c: v for c, v in r.cols.items() if c in vs or c in index or (cols is not None and c in keysof(eng, cols))})
    if kw:
        raise Unsupported("pivot_table options %s" % sorted(kw))
    for k in index:
        if k not in r.cols:
            raise PyRaise("KeyError", (k,))
    if cols is None:
        return group(eng, r, index, agg)
    cols = keysof(eng, cols)
    if len(index) != 1 or len(cols) != 1:
        raise Unsupported("pivot_table with several columns")
    return RMatrix(group(eng, r, index + cols, agg))


class RMatrix(Val):
    """pivot_table with one index and one columns key"""

    def __init__(self, rel):
        self.rel = rel

    def getattr(self, eng, name):
        if name == "values":
            rel = self.rel
            if len(rel.cols) == 0:
                return lib.new_array(eng, [0, 0], lambda i: 0.0)
            if len(rel.cols) != 1:
                raise Unsupported("values of a pivot table of several columns")
            if not eng.choose(rel.some(eng)):
                return lib.new_array(eng, [0, 0], lambda i: 0.0)
            if eng.radix is None:
                raise Unsupported("shape of a pivot table")
            d = eng.radix
            val = list(rel.cols.values())[0]
            a, b = [term(rel.lv[l]) for l in rel.levels]
            if len(rel.binders) != 2:
                raise Unsupported("pivot table keys")
            for x, y in ((a, d[0]), (b, d[1])):
                pass
            # rows are the values of the index key, columns those of the columns key
            for dims in ((d[0], d[1]), (d[1], d[0])):
                inr = z3.And(a >= 0, a < dims[0], b >= 0, b < dims[1])
                if prove_iff(eng, rel.binders, conj(rel.guard), inr):
                    return lib.new_array(eng, [lib.wrap_int(x) for x in dims], lambda i: subst(val, [(a, term(i[0])), (b, term(i[1]))]))
            raise Unsupported("shape of a pivot table")
        if name == "size":
            return self.rel.getattr(eng, "size")
        self._no("attribute " + name)


# ------------------------------------------------------------------------------------------- operators
_order, _eq, _unary = lib.order, lib.val_eq, lib.unary


def order(eng, nm, a, b):
    a, b = force(eng, a), force(eng, b)
    for x in (a, b):
        if isinstance(x, RSer):
            return x.compare(eng, lib.OPS[nm](), a, b)
    return _order(eng, nm, a, b)


def val_eq(eng, a, b):
    a, b = force(eng, a), force(eng, b)
    for x in (a, b):
        if isinstance(x, RSer):
            return x.compare(eng, ast.Eq(), a, b)
    if not isinstance(a, Val) and not isinstance(b, Val):
        return eng.py_eq(a, b)
    return _eq(eng, a, b)


def unary(eng, op, v):
    if isinstance(v, RSer):
        return v.unary(eng, op)
    return _unary(eng, op, v)


lib.order, lib.val_eq, lib.unary = order, val_eq, unary
import lib_pd  # noqa  (val_binop dispatch)


@ext("functools.reduce")
def f_reduce(eng, args, kw):
    seq = eng.contents(args[1])
    if any(s.binders or s.guard for s in seq.segs):
        raise Unsupported("reduce of a symbolic sequence")
    l = ([args[2]] if len(args) > 2 else []) + [force(eng, s.elem) for s in seq.segs]
    if not l:
        raise PyRaise("TypeError")
    v = l[0]
    for x in l[1:]:
        v = eng.call(args[0], [v, x], {})
    return v
