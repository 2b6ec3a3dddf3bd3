"""assumed contracts of pandas tables built by blocks of (scenario, step) rows.

A table or 1-D array whose length is m * nb_scn * horizon is read by the coordinates (block, scenario, step) of its rows:
row = block * nb_scn * horizon + scenario * horizon + step (a bijection)."""
import ast

import z3

import lib
from core import *  # noqa
from lib import METHODS, TABLE, Val, ext, force, meth, ufun


def poly(t):
    """polynomial of an integer term: {sorted tuple of atom ids: (coefficient, atoms)}"""
    p = z3.simplify(t, som=True)
    out = {}
    for m in p.children() if z3.is_add(p) else [p]:
        c, atoms = 1, []
        for x in m.children() if z3.is_mul(m) else [m]:
            if z3.is_int_value(x):
                c *= x.as_long()
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(x.children()[1]):
                atoms += [x.children()[0]] * x.children()[1].as_long()
            else:
                atoms.append(x)
        k = tuple(sorted(a.get_id() for a in atoms))
        c0 = out.get(k, (0, atoms))[0]
        out[k] = (c0 + c, atoms)
    return {k: v for k, v in out.items() if v[0] != 0}


def blocks(eng, t):
    """t / (nb_scn * horizon) when t is a multiple of it as a polynomial, else None"""
    nb, h = eng.radix
    tot = z3.IntVal(0)
    for c, atoms in poly(t).values():
        rest = list(atoms)
        for f in (nb, h):
            i = next((i for i, a in enumerate(rest) if a.eq(f)), None)
            if i is None:
                return None
            del rest[i]
        m = z3.IntVal(c)
        for a in rest:
            m = m * a
        tot = tot + m
    return z3.simplify(tot)


class Blk(Val):
    """1-D array of m blocks of rows: f(block, scenario, step)"""

    def __init__(self, m, f):
        self.m, self.f = m, f

    def subst(self, pairs):
        return Blk(subst(self.m, pairs), lambda b, s, t: subst(self.f(b, s, t), pairs))

    def mentions(self, c):
        b, s, t = z3.Ints("b? s? t?")
        return mentions(self.m, c) or mentions(self.f(b, s, t), c)

    def getattr(self, eng, name):
        if name == "size":
            return lib.wrap_int(self.m * eng.radix[0] * eng.radix[1])
        return ExtBound("Blk." + name, self)

    def length(self, eng):
        return self.m * eng.radix[0] * eng.radix[1]

    def binop(self, eng, op, a, b):
        if isinstance(a, Ser) or isinstance(b, Ser):
            return (a if isinstance(a, Ser) else b).binop(eng, op, a, b)
        for x in (a, b):
            if not (is_scalar(x) or isinstance(x, Blk) and eng.prover.prove(eng.pc, x.m == self.m)):
                raise Unsupported("array operand %r" % (x,))
        f = lambda x: x.f if isinstance(x, Blk) else lambda *i: x
        fa, fb = f(a), f(b)
        return Blk(self.m, lambda *i: column_op(eng, op, fa(*i), fb(*i)))


def column_op(eng, op, x, y):
    if isinstance(op, ast.Div):
        # arrays: x / 0 is inf or nan, no exception
        return Sc(real(term(x)) / real(term(y)), "float")
    return eng.binop(op, x, y)


class Empty(Val):
    """numpy.empty(size)"""

    def __init__(self, size, dtype):
        self.size, self.dtype = size, dtype

    def subst(self, pairs):
        return Empty(subst(self.size, pairs), self.dtype)


def as_blk(eng, v):
    v = force(eng, v)
    if isinstance(v, Blk):
        return v
    if is_scalar(v):
        return v
    if isinstance(v, Ref) and v.cls == "ndarray":
        sh = lib.array_shape(eng, v)
        if len(sh) == 2 and sh[0].eq(eng.radix[0]) and sh[1].eq(eng.radix[1]):
            raise PyRaise("ValueError", ("shape",))
    if isinstance(v, Ser):
        return Blk(v.m, v.f)
    raise Unsupported("column value %r" % (v,))


# ------------------------------------------------------------------------------------------- arrays
_flatten = METHODS["ndarray.flatten"]


@meth("ndarray.flatten", "ndarray.ravel")
def a_flatten(eng, a, args, kw):
    if eng.radix is not None and not kw and (not args or args == ["C"]):
        sh = lib.array_shape(eng, a)
        nb, h = eng.radix
        n = len(eng.positions("cell", a, None))
        if len(sh) == 2 and sh[0].eq(nb) and sh[1].eq(h):
            def f(b, s, t):
                if len(eng.positions("cell", a, None)) != n:
                    raise Unsupported("array modified after flatten")
                return lib.cell(eng, a, [Sc(s, "int"), Sc(t, "int")])

            return Blk(z3.IntVal(1), f)
    return _flatten(eng, a, args, kw)


def scrambled(eng, a, sh, index):
    """array repeated with another period than the rows: row q holds a[index(q)]"""
    nb, h = eng.radix

    def f(b, s, t):
        q = index((b * nb + s) * h + t)
        eng.pc.append(z3.And(q >= 0, q < sh[0]))
        return lib.cell(eng, a, [Sc(q, "int")])

    return f


_tile, _repeat = TABLE["numpy.tile"], TABLE["numpy.repeat"]


@ext("numpy.tile")
def np_tile(eng, args, kw):
    if eng.radix is None:
        return _tile(eng, args, kw)
    a, n = force(eng, args[0]), term(args[1])
    nb, h = eng.radix
    if isinstance(a, Blk):
        if z3.is_int_value(a.m) and a.m.as_long() == 1:
            return Blk(z3.simplify(n), lambda b, s, t: a.f(z3.IntVal(0), s, t))
        raise Unsupported("tile of blocks")
    if isinstance(a, Ref) and a.cls == "ndarray":
        sh = lib.array_shape(eng, a)
        m = blocks(eng, sh[0] * n) if len(sh) == 1 else None
        if m is not None:
            if sh[0].eq(h):
                return Blk(m, lambda b, s, t: lib.cell(eng, a, [Sc(t, "int")]))
            return Blk(m, scrambled(eng, a, sh, lambda q: ufun("rem", I, I, I)(q, sh[0])))
    return _tile(eng, args, kw)


@ext("numpy.repeat")
def np_repeat(eng, args, kw):
    if eng.radix is None:
        return _repeat(eng, args, kw)
    a, n = force(eng, args[0]), term(args[1])
    nb, h = eng.radix
    if isinstance(a, Ref) and a.cls == "ndarray" and not kw and len(args) == 2:
        sh = lib.array_shape(eng, a)
        m = blocks(eng, sh[0] * n) if len(sh) == 1 else None
        if m is not None:
            if sh[0].eq(nb) and n.eq(h):
                return Blk(m, lambda b, s, t: lib.cell(eng, a, [Sc(s, "int")]))
            k = blocks(eng, n)
            if k is not None and z3.is_int_value(k) and k.as_long() == 1:
                return Blk(m, lambda b, s, t: lib.cell(eng, a, [Sc(b, "int")]))
            return Blk(m, scrambled(eng, a, sh, lambda q: ufun("quot", I, I, I)(q, n)))
    if is_scalar(args[0]):
        m = blocks(eng, n)
        if m is not None:
            return Blk(m, lambda b, s, t: args[0])
    return _repeat(eng, args, kw)


@ext("numpy.empty")
def np_empty(eng, args, kw):
    if eng.radix is None or not is_scalar(args[0]):
        raise Unsupported("np.empty")
    return Empty(term(args[0]), kw.get("dtype", args[1] if len(args) > 1 else Ext("builtins.float")))


# ------------------------------------------------------------------------------------------- tables
@ext("pandas.DataFrame")
def pd_frame(eng, args, kw):
    if eng.radix is None:
        raise Unsupported("pd.DataFrame")
    d = force(eng, kw["data"] if "data" in kw else args[0])
    if not (isinstance(d, Ref) and d.cls == "dict") or set(kw) - {"data"}:
        raise Unsupported("pd.DataFrame of %r" % (d,))
    r = eng.alloc("DataFrame")
    n, cols = None, []
    for s in eng.items(d).segs:
        k = s.elem.items[0]
        if s.binders or s.guard or not isinstance(k, str):
            raise Unsupported("columns of a DataFrame")
        v = force(eng, eng.getitem(d, k))
        if isinstance(v, Empty):
            m = blocks(eng, v.size)
        elif isinstance(v, Blk):
            m = v.m
        else:
            raise Unsupported("column %r" % (v,))
        if m is None:
            raise Unsupported("number of rows %s" % v.size)
        if n is None:
            n = m
        elif not eng.prover.prove(eng.pc, n == m):
            raise Unsupported("columns of different lengths")
        cols.append(k)
        if isinstance(v, Blk):
            write_col(eng, r, k, z3.IntVal(0), m, v)
    eng.write("attr", r, ("nblocks",), Sc(n, "int"))
    eng.write("attr", r, ("columns",), Tup(cols))
    return r


def nblocks(eng, df):
    return term(eng.lookup("attr", df, ("nblocks",)))


def version(eng, df, col):
    v = eng.lookup("attr", df, ("ver:" + col,))
    return 0 if v is lib.none() else v


def vkey(col, ver):
    return "%s#%d" % (col, ver)


def write_col(eng, df, col, lo, hi, v):
    """rows of blocks lo <= b < hi of the column := v"""
    nb, h = eng.radix
    v = as_blk(eng, v)
    n = z3.simplify(hi - lo, som=True)
    if isinstance(v, Blk) and not eng.prover.prove(eng.pc, v.m == n):
        raise PyRaise("ValueError", ("length of the values",))
    one = z3.is_int_value(n) and n.as_long() == 1
    b, s, t = eng.fresh("b", I), eng.fresh("s", I), eng.fresh("t", I)
    guard = [s >= 0, s < nb, t >= 0, t < h] + ([] if one else [b >= 0, b < n])
    bs = [s, t] if one else [b, s, t]
    key = vkey(col, version(eng, df, col))

    def body(e):
        j = z3.IntVal(0) if one else term(e.items[0])
        s_, t_ = [term(x) for x in e.items[-2:]]
        val = v.f(j, s_, t_) if isinstance(v, Blk) else v
        eng.write("cell", df, (key, Sc(z3.simplify(lo + j, som=True), "int"), Sc(s_, "int"), Sc(t_, "int")), force(eng, val))

    eng.sym_loop(Seg(bs, guard, Tup([Sc(x, "int") for x in bs])), body, lib.frame(), set())


def read_cell(eng, df, col, b, s, t, ver=None):
    ver = version(eng, df, col) if ver is None else ver
    v = eng.lookup("cell", df, (vkey(col, ver), Sc(b, "int"), Sc(s, "int"), Sc(t, "int")))
    if v is not lib.none():
        return v
    if ver > 0:
        m = eng.lookup("attr", df, ("map:" + vkey(col, ver),))
        if m is not lib.none():
            return m.f(b, s, t)
    return Sc(ufun("uninit:%s:%s" % (df.site, col), I, I, I, R)(b, s, t), "float")


class Ser(Val):
    """column expression over the rows of a table"""

    def __init__(self, df, m, f):
        self.df, self.m, self.f = df, m, f

    def getattr(self, eng, name):
        if name == "values":
            return Blk(self.m, self.f)
        return ExtBound("Ser." + name, self)

    def subst(self, pairs):
        return Ser(subst(self.df, pairs), subst(self.m, pairs), lambda b, s, t: subst(self.f(b, s, t), pairs))

    def mentions(self, c):
        return mentions(self.df, c) or mentions(self.m, c)

    def binop(self, eng, op, a, b):
        def f(x):
            if is_scalar(x):
                return lambda *i: x
            if isinstance(x, (Ser, Blk)):
                if isinstance(x, Ser) and (x.df.site != self.df.site or not eng.prover.prove(eng.pc, x.m == self.m)):
                    raise Unsupported("columns of different tables")
                return x.f
            raise Unsupported("column operand %r" % (x,))

        fa, fb = f(a), f(b)

        def g(*i):
            return column_op(eng, op, fa(*i), fb(*i))

        return Ser(self.df, self.m, g)


_vb = lib.val_binop


def val_binop(eng, op, a, b):
    a, b = force(eng, a), force(eng, b)
    for x in (a, b):
        if hasattr(x, "binop"):
            return x.binop(eng, op, a, b)
    return _vb(eng, op, a, b)


lib.val_binop = val_binop


class Rows(Val):
    """df.index[lo:hi]"""

    def __init__(self, df, lo, hi):
        self.df, self.lo, self.hi = df, lo, hi

    def getitem(self, eng, k):
        if not isinstance(k, slice) or k.step is not None or self.lo is not None:
            raise Unsupported("index selection")
        lo = term(k.start) if k.start is not None else z3.IntVal(0)
        hi = term(k.stop) if k.stop is not None else None
        if eng.probing:
            return Rows(self.df, z3.IntVal(0), z3.IntVal(0))
        lo = blocks(eng, lo)
        hi = blocks(eng, hi) if hi is not None else nblocks(eng, self.df)
        if lo is None or hi is None:
            raise Unsupported("rows not aligned on blocks")
        n = nblocks(eng, self.df)
        if not eng.choose(z3.And(lo >= 0, lo <= hi, hi <= n)):
            if not eng.choose(lo >= 0):
                raise Unsupported("negative slice")
            # Python slicing keeps what exists
            lo, hi = z3.If(lo < n, lo, n), z3.If(hi < n, hi, n)
            hi = z3.If(hi < lo, lo, hi)
        return Rows(self.df, z3.simplify(lo, som=True), z3.simplify(hi, som=True))

    def length(self, eng):
        n = nblocks(eng, self.df) if self.lo is None else self.hi - self.lo
        return n * eng.radix[0] * eng.radix[1]

    def subst(self, pairs):
        return Rows(subst(self.df, pairs), subst(self.lo, pairs), subst(self.hi, pairs))

    def __repr__(self):
        return "Rows(%r,%s,%s)" % (self.df, self.lo, self.hi)


def prop(name):
    def d(f):
        f.is_prop = True
        METHODS[name] = f
        return f

    return d


@prop("DataFrame.index")
def df_index(eng, df):
    return Rows(df, None, None)


class Loc(Val):
    def __init__(self, df):
        self.df = df

    def sel(self, eng, k):
        if not (isinstance(k, Tup) and len(k.items) == 2 and isinstance(k.items[1], str)):
            raise Unsupported("loc[%r]" % (k,))
        return force(eng, k.items[0]), k.items[1]

    def getitem(self, eng, k):
        r, c = self.sel(eng, k)
        if lib.full_slice(r):
            return column(eng, self.df, c)
        raise Unsupported("loc read")

    def setitem(self, eng, k, v):
        r, c = self.sel(eng, k)
        if lib.full_slice(r):
            return set_column(eng, self.df, c, v)
        if isinstance(r, Rows) and r.df.site == self.df.site and r.lo is not None:
            check_col(eng, self.df, c)
            if eng.probing:
                return
            return write_col(eng, self.df, c, r.lo, r.hi, v)
        raise Unsupported("loc[%r] :=" % (k,))


def check_col(eng, df, c):
    if c not in eng.lookup("attr", df, ("columns",)).items:
        raise Unsupported("new column %s" % c)


@prop("DataFrame.loc")
def df_loc(eng, df):
    return Loc(df)


def column(eng, df, c):
    if c not in eng.lookup("attr", df, ("columns",)).items:
        raise PyRaise("KeyError", (c,))
    ver = version(eng, df, c)
    return Ser(df, nblocks(eng, df), lambda b, s, t: read_cell(eng, df, c, b, s, t, ver))


def set_column(eng, df, c, v):
    v = force(eng, v)
    if eng.binders:
        raise Unsupported("whole column assigned in a loop")
    cols = eng.lookup("attr", df, ("columns",)).items
    if c not in cols:
        eng.write("attr", df, ("columns",), Tup(list(cols) + [c]))
    if is_scalar(v):
        v = (lambda x: Ser(df, nblocks(eng, df), lambda *i: x))(v)
    if not isinstance(v, (Ser, Blk)) or not eng.prover.prove(eng.pc, v.m == nblocks(eng, df)):
        raise Unsupported("column := %r" % (v,))
    ver = version(eng, df, c) + 1
    eng.write("attr", df, ("ver:" + c,), ver)
    eng.write("attr", df, ("map:" + vkey(c, ver),), v)


@meth("DataFrame.__getitem__")
def df_getitem(eng, df, args, kw):
    k = args[0]
    if isinstance(k, str):
        return column(eng, df, k)
    raise Unsupported("table[%r]" % (k,))


@meth("DataFrame.__setitem__")
def df_setitem(eng, df, args, kw):
    if not isinstance(args[0], str):
        raise Unsupported("table[%r] :=" % (args[0],))
    set_column(eng, df, args[0], args[1])
