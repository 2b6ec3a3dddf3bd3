"""Assumed contracts of the pandas / numpy operations that the stages of a pipeline use.

A frame is an object whose state says, for any number of columns: the labels of the columns in order (segments with
binders), the values of a column as a function of the row ROW, the number of rows, the time index."""
import ast

import z3

import lib
from core import *  # noqa
from engine import _NONE
from lib import Val, force, wrap_int

ROW = z3.Const("row!", I)


def freshen(eng, segs):
    """segments with fresh binders"""
    out = []
    for s in segs:
        p = [(b, eng.fresh(b.decl().name().split("!")[0].rstrip("'"), b.sort())) for b in s.binders]
        out.append(reseg(s, p, [x[1] for x in p]))
    return out


def reseg(s, pairs, binders=None):
    r = Seg(s.binders if binders is None else binders, [subst(g, pairs) for g in s.guard], subst(s.elem, pairs), subst(s.index, pairs) if s.index is not None else None, subst(s.count, pairs) if s.count is not None else None, s.src)
    if getattr(s, "lex", None) is not None:
        r.lex = [(subst(a, pairs), subst(b, pairs)) for a, b in s.lex]
    return r


def with_elem(s, elem, guard=None):
    r = Seg(s.binders, s.guard if guard is None else guard, elem, s.index, s.count, s.src)
    r.lex = getattr(s, "lex", None)
    return r


class State:
    def __init__(self, rows, index, segs, multi):
        self.rows, self.index, self.segs, self.multi = rows, index, segs, multi

    def subst(self, pairs):
        return State(subst(self.rows, pairs), subst(self.index, pairs), [reseg(s, pairs) for s in self.segs], self.multi)

    def mentions(self, c):
        return mentions(self.rows, c) or any(mentions(s.guard, c) or mentions(s.elem, c) for s in self.segs)

    def __repr__(self):
        # binders are renamed: two states that differ by them only are the same
        out = []
        for s in self.segs:
            p = [(b, z3.Const("b!%d" % i, b.sort())) for i, b in enumerate(s.binders)]
            r = reseg(s, p)
            out.append(str((skey(tuple(r.guard)), skey(r.elem))))
            KEEP.append(r)
        return "State(%s,%s,%s,%s)" % (self.rows, self.index, out, self.multi)


KEEP = []


class DF(Val):
    pytype = "pandas.DataFrame"

    def __init__(self, ref):
        self.ref = ref

    def subst(self, pairs):
        return DF(subst(self.ref, pairs))

    def mentions(self, c):
        return mentions(self.ref, c)

    def __repr__(self):
        return "DF%s" % (skey(self.ref),)

    def state(self, eng):
        st = eng.getattr_raw(self.ref, "state")
        if not isinstance(st, State):
            raise Unsupported("frame of unknown content")
        return st

    def put(self, eng, st):
        eng.write("attr", self.ref, ("state",), st)

    def getattr(self, eng, name):
        st = self.state(eng)
        if name == "columns":
            return Labels([with_elem(s, s.elem.items[0]) for s in st.segs], st.multi)
        if name == "index":
            return Index(st.index, st.rows)
        if name == "values":
            return Mat(st)
        if name == "to_numpy":
            return Const(Mat(st))
        if name == "T":
            return Trans(Mat(st, True))
        if name == "loc":
            return Loc(self)
        if name == "shape":
            return Tup([wrap_int(st.rows), wrap_int(count(eng, st.segs))])
        if hasattr(self, "m_" + name):
            return Meth(self, name)
        self._no("attribute " + name)

    def setattr(self, eng, name, v):
        st = self.state(eng)
        if name == "_is_copy":
            return
        if name == "columns":
            lab = labels(eng, v)
            segs = align(eng, st.segs, lab.segs)
            self.put(eng, State(st.rows, st.index, [with_elem(s, Tup([l, s.elem.items[1]])) for s, l in segs], lab.multi))
            return
        self._no("attribute assignment " + name)

    def length(self, eng):
        return self.state(eng).rows

    def iterate(self, eng):
        return self.getattr(eng, "columns").iterate(eng)

    # ---------------------------------------------------------------------- selection
    def getitem(self, eng, k):
        st = self.state(eng)
        k = force(eng, k)
        if is_scalar(k):
            if st.multi:
                segs = []
                for s in st.segs:
                    lab, v = s.elem.items
                    c = lib_eq(eng, lab.items[0], k)
                    segs.append(with_elem(s, Tup([lab.items[1], v]), list(s.guard) + [c]))
                    segs[-1].count = None
                    segs[-1].lex = None
                ex = disj([z3.Exists(s.binders, conj(s.guard)) if s.binders else conj(s.guard) for s in segs])
                if not eng.choose(ex):
                    raise PyRaise("KeyError", (k,))
                return make(eng, State(st.rows, st.index, segs, False))
            return Col(st.index, st.rows, column(eng, st, k))
        if isinstance(k, Ref) and k.cls == "list" and not st.multi:
            eng.trusted.add("pandas.DataFrame.__getitem__ (list of names)")
            return self.m_reindex(eng, [], {"columns": k})
        self._no("subscript")

    def setitem(self, eng, k, v):
        st = self.state(eng)
        k = force(eng, k)
        if st.multi or not is_scalar(k):
            self._no("item assignment")
        t = as_column(eng, st, v)
        conds = [lib_eq(eng, s.elem.items[0], k) for s in st.segs]
        ex = disj([z3.Exists(s.binders, conj(list(s.guard) + [c])) if s.binders else conj(list(s.guard) + [c]) for s, c in zip(st.segs, conds)])
        if eng.choose(ex):
            self.put(eng, State(st.rows, st.index, [with_elem(s, Tup([s.elem.items[0], Sc(z3.If(c, t, term(s.elem.items[1])), "float")])) for s, c in zip(st.segs, conds)], False))
        else:
            self.put(eng, State(st.rows, st.index, st.segs + [Seg([], [], Tup([k, Sc(t, "float")]), z3.IntVal(0), z3.IntVal(1))], False))

    # ---------------------------------------------------------------------- methods
    def m_copy(self, eng, args, kw):
        if kw.get("deep", True) is not True or args:
            self._no("shallow copy")
        return make(eng, self.state(eng))

    def m_clip(self, eng, args, kw):
        a = dict(zip(["lower", "upper"], args), **kw)
        if set(a) - {"lower", "upper"}:
            self._no("clip arguments")
        st = self.state(eng)
        lo, up = force(eng, a.get("lower")), force(eng, a.get("upper"))

        def f(v):
            if lo is not None:
                x = real(term(lo))
                v = z3.If(v < x, x, v)
            if up is not None:
                x = real(term(up))
                v = z3.If(v > x, x, v)
            return v

        return make(eng, State(st.rows, st.index, [with_elem(s, Tup([s.elem.items[0], Sc(f(term(s.elem.items[1])), "float")])) for s in st.segs], st.multi))

    def m_drop(self, eng, args, kw):
        a = dict(zip(["labels", "axis", "index", "columns", "level"], args), **kw)
        names = a.get("columns") if a.get("columns") is not None else a.get("labels")
        if a.get("columns") is None and a.get("axis") not in (1, "columns") or a.get("inplace") or a.get("index") is not None or set(a) - {"labels", "axis", "columns", "level", "inplace"}:
            self._no("drop arguments")
        st, lvl = self.state(eng), a.get("level")
        names = force(eng, names)
        if is_scalar(names):
            names = Tup([names])
        segs, lab = [], []
        for s in st.segs:
            l = s.elem.items[0]
            if st.multi:
                if lvl not in (0, 1):
                    self._no("drop of whole labels")
                l = l.items[lvl]
            lab.append(with_elem(s, l))
            c = boolterm(eng.member(l, names))
            segs.append(with_elem(s, s.elem, list(s.guard) + [z3.Not(c)]))
            segs[-1].count = segs[-1].lex = None
        here = Labels(lab, False)
        if a.get("errors") != "ignore":
            miss = []
            for s in eng.contents(names).segs:
                c = z3.Implies(conj(list(s.guard)), boolterm(here.member(eng, s.elem)))
                miss.append(z3.ForAll(s.binders, c) if s.binders else c)
            if not eng.choose(conj(miss)):
                raise PyRaise("KeyError", ("drop",))
        return make(eng, State(st.rows, st.index, segs, st.multi))

    def m_reindex(self, eng, args, kw):
        if args or set(kw) != {"columns"}:
            self._no("reindex arguments")
        st = self.state(eng)
        if st.multi:
            self._no("reindex of a multi index")
        segs, here = [], Labels([with_elem(s, s.elem.items[0]) for s in st.segs], False)
        for l in eng.contents(kw["columns"]).segs:
            le = lib.force_in(eng, l)
            w = Sc(z3.FreshConst(term(le).sort(), "label"), le.py if isinstance(le, Sc) else "str")
            pc = list(eng.pc)
            eng.pc += list(l.guard) + [w.t == term(le)]
            found = eng.prove(boolterm(here.member(eng, w)))
            eng.pc = pc
            if not found:
                raise Unsupported("reindex with names that may be missing")
            for s in freshen(eng, st.segs):
                q = Seg(list(l.binders) + list(s.binders), list(l.guard) + list(s.guard) + [lib_eq(eng, s.elem.items[0], l.elem)], Tup([l.elem, s.elem.items[1]]))
                segs.append(q)
        return make(eng, State(st.rows, st.index, segs, False))

    def m_xs(self, eng, args, kw):
        a = dict(zip(["key", "axis", "level", "drop_level"], args), **kw)
        st, k = self.state(eng), force(eng, a.get("key"))
        if a.get("axis") not in (1, "columns") or a.get("level") not in (0, 1) or not st.multi or not is_scalar(k) or set(a) - {"key", "axis", "level", "drop_level"}:
            self._no("xs arguments")
        segs = []
        for s in st.segs:
            l, v = s.elem.items
            keep = l if a.get("drop_level") is False else l.items[1 - a["level"]]
            segs.append(with_elem(s, Tup([keep, v]), list(s.guard) + [lib_eq(eng, l.items[a["level"]], k)]))
            segs[-1].count = segs[-1].lex = None
        ex = disj([z3.Exists(s.binders, conj(s.guard)) if s.binders else conj(s.guard) for s in segs])
        if not eng.choose(ex):
            raise PyRaise("KeyError", (k,))
        return make(eng, State(st.rows, st.index, segs, a.get("drop_level") is False))

    def m_rename(self, eng, args, kw):
        self._no("rename")


class Trans(Val):
    """df.T, for its values"""

    def __init__(self, m):
        self.m = m

    def getattr(self, eng, name):
        if name == "values":
            return self.m
        if name == "to_numpy":
            return Const(self.m)
        self._no("attribute " + name)


class Mask(Val):
    """one condition per label, in order"""

    def __init__(self, segs):
        self.segs = segs  # elements: z3 conditions

    def subst(self, pairs):
        return Mask([reseg(s, pairs) for s in self.segs])

    def unary(self, eng, op):
        if not isinstance(op, (ast.Invert, ast.Not)):
            self._no("operator")
        return Mask([with_elem(s, Sc(z3.Not(s.elem.t), "bool")) for s in self.segs])


class Loc(Val):
    def __init__(self, df):
        self.df = df

    def getitem(self, eng, k):
        if not (isinstance(k, Tup) and len(k.items) == 2 and lib.full_slice(k.items[0]) and isinstance(force(eng, k.items[1]), Mask)):
            self._no("subscript")
        eng.trusted.add("pandas.DataFrame.loc (mask of columns)")
        st, m = self.df.state(eng), force(eng, k.items[1])
        segs = []
        for s, c in align(eng, st.segs, m.segs):
            segs.append(with_elem(s, s.elem, list(s.guard) + [c.t]))
            segs[-1].count = segs[-1].lex = None
        return make(eng, State(st.rows, st.index, segs, st.multi))


class Meth(Val):
    def __init__(self, df, name):
        self.df, self.name = df, name

    def call(self, eng, args, kw):
        eng.trusted.add("pandas.DataFrame." + self.name)
        return getattr(self.df, "m_" + self.name)(eng, args, kw)


class Index(Val):
    def __init__(self, tok, rows):
        self.tok, self.rows = tok, rows

    def length(self, eng):
        return self.rows

    def getattr(self, eng, name):
        if name == "size":
            return wrap_int(self.rows)
        self._no("attribute " + name)

    def __repr__(self):
        return "Index(%s)" % self.tok


class Col(Val):
    """a column: values by row"""

    pytype = "pandas.Series"

    def __init__(self, tok, rows, t):
        self.tok, self.rows, self.t = tok, rows, t

    def subst(self, pairs):
        return Col(self.tok, subst(self.rows, pairs), subst(self.t, pairs))

    def mentions(self, c):
        return mentions(self.t, c) or mentions(self.rows, c)

    def __repr__(self):
        return "Col(%s)" % self.t

    def getattr(self, eng, name):
        if name == "values":
            return self
        if name == "copy":
            return Const(self)
        if name == "shape":
            return Tup([wrap_int(self.rows)])
        self._no("attribute " + name)

    def length(self, eng):
        return self.rows

    def binop(self, eng, op, other, swap=False):
        b = col_term(eng, self.rows, other)
        a = Sc(self.t, "float")
        r = eng.binop(op, Sc(b, "float"), a) if swap else eng.binop(op, a, Sc(b, "float"))
        return Col(self.tok, self.rows, term(r))


class Const(Val):
    """method that returns a fixed value"""

    def __init__(self, v):
        self.v = v

    def subst(self, pairs):
        return Const(subst(self.v, pairs))

    def call(self, eng, args, kw):
        return self.v


def col_term(eng, rows, v):
    v = force(eng, v)
    if isinstance(v, Col):
        if not eng.prove(v.rows == rows):
            raise Unsupported("columns of different lengths")
        return v.t
    if is_scalar(v):
        return real(num2(term(v), z3.IntVal(0))[0])
    if isinstance(v, Ref) and v.cls == "ndarray":
        sh = lib.shape_vals(eng, v)
        if len(sh) != 1 or not eng.prove(term(sh[0]) == rows):
            raise Unsupported("array of another shape")
        return real(term(force(eng, lib.cell(eng, v, (Sc(ROW, "int"),)))))
    raise Unsupported("column from %r" % (v,))


def as_column(eng, st, v):
    if isinstance(v, Col) and v.tok != st.index:
        raise Unsupported("column of another index")
    return col_term(eng, st.rows, v)


def column(eng, st, k):
    """values of the column labelled k (labels are distinct)"""
    cs = []
    for s in st.segs:
        c = conj(list(s.guard) + [lib_eq(eng, s.elem.items[0], k)])
        cs.append((s, c, z3.Exists(s.binders, c) if s.binders else c))
    for s, c, ex in cs:
        if eng.choose(ex):
            p = [(b, eng.fresh("col", b.sort())) for b in s.binders]
            eng.pc.append(z3.substitute(c, *p) if p else c)
            return term(subst(s.elem.items[1], p))
    raise PyRaise("KeyError", (k,))


def boolterm(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def lib_eq(eng, a, b):
    a, b = force(eng, a), force(eng, b)
    if is_scalar(a) and is_scalar(b) and term(a).sort() != term(b).sort() and S in (term(a).sort(), term(b).sort()):
        return z3.BoolVal(False)
    return boolterm(eng.eq(a, b))


def make(eng, st):
    d = DF(eng.alloc("DataFrame"))
    d.put(eng, st)
    return d


def count(eng, segs):
    n = z3.IntVal(0)
    for s in segs:
        if not s.binders and not s.guard:
            n = n + 1
        elif s.count is not None and s.src is None:
            n = n + s.count
        else:
            n = n + eng.sum_term(list(s.binders), list(s.guard), z3.IntVal(1))
    return z3.simplify(n)


def align(eng, a, b):
    """pairs (segment of a, element of b at the same place)"""
    if len(a) != len(b):
        raise Unsupported("labels of another shape")
    out = []
    for s, l in zip(a, b):
        if len(s.binders) != len(l.binders):
            raise Unsupported("labels of another shape")
        ls, ll = lex_of(s), lex_of(l)
        if s.binders and (ls is None or ll is None or len(ls) != len(ll)):
            if not all(x.eq(y) for x, y in zip(s.binders, l.binders)):
                raise Unsupported("labels in an unknown order")
            pairs = []
        else:
            pairs = []
            for (i1, c1), (i2, c2) in zip(ls or [], ll or []):
                if not any(i2.eq(x) for x in l.binders):
                    raise Unsupported("labels in another order")
                pairs.append((i2, i1))
                if not eng.prove(c1 == z3.substitute(c2, *pairs)):
                    raise Unsupported("labels of another length")
        g1, g2 = conj(list(s.guard)), conj([subst(g, pairs) for g in l.guard])
        if not (g1.eq(g2) or eng.prove(g1 == g2)):
            raise Unsupported("labels of another length")
        out.append((s, subst(l.elem, pairs)))
    return out


def lex_of(s):
    if getattr(s, "lex", None) is not None:
        return s.lex
    if len(s.binders) == 1 and s.index is not None and s.count is not None and s.src is None:
        return [(s.index, s.count)]
    if not s.binders:
        return []
    return None


def ground(eng, segs):
    """segments whose elements do not depend on the binder, as one element (when there is any)"""
    out = []
    for s in segs:
        if len(s.binders) == 1 and not mentions(s.elem, s.binders[0]):
            p = [(s.binders[0], z3.IntVal(0))] if s.binders[0].sort() == I else None
            if p and eng.prove(conj([subst(g, p) for g in s.guard])):
                s = Seg([], [], s.elem)
        out.append(s)
    return out


MEMBER = {}


def membership(eng, s, x):
    """predicate "is an element of the segment", for segments over global functions only"""
    if len(s.binders) != 1 or not isinstance(s.elem, Sc) or not mentions(s.elem, s.binders[0]):
        return None
    b, e, t = s.binders[0], s.elem.t, term(x)
    if e.sort() != t.sort():
        return z3.BoolVal(False)
    g = conj(list(s.guard))
    if any("!" in c.decl().name() and not c.eq(b) for c in consts(e) + consts(g)):
        return None
    # the element as a pattern: an uninterpreted function of the binder
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() >= 1):
        return None
    v = z3.Const("b!m", b.sort())
    e, g = z3.substitute(e, (b, v)), z3.substitute(g, (b, v))
    key = (e.get_id(), g.get_id())
    if key not in MEMBER:
        n = len(MEMBER)
        MEMBER[key] = (z3.Function("is_label%d" % n, e.sort(), B), z3.Function("where_label%d" % n, e.sort(), b.sort()), e, g)
    P, w, _, _ = MEMBER[key]
    y = z3.Const("y!m", e.sort())
    for a in (z3.ForAll([v], z3.Implies(g, P(e)), patterns=[e]), z3.ForAll([y], z3.Implies(P(y), z3.And(z3.substitute(g, (v, w(y))), z3.substitute(e, (v, w(y))) == y)), patterns=[P(y)])):
        if not any(a.eq(q) for q in eng.prover.axioms):
            eng.prover.axiom(a)
    return P(t)


UNIQ = {}


class Labels(Val):
    """labels of columns, or one level of them, in order"""

    def __init__(self, segs, multi):
        self.segs, self.multi = segs, multi
        self.pytype = "pandas.MultiIndex" if multi else "pandas.Index"

    def subst(self, pairs):
        return Labels([reseg(s, pairs) for s in self.segs], self.multi)

    def mentions(self, c):
        return any(mentions(s.guard, c) or mentions(s.elem, c) for s in self.segs)

    def __repr__(self):
        return "Labels%r" % State(z3.IntVal(0), "", [with_elem(s, Tup([s.elem, None])) for s in self.segs], self.multi)

    def iterate(self, eng):
        return Seq(freshen(eng, self.segs))

    def length(self, eng):
        return count(eng, self.segs)

    def member(self, eng, x):
        x = force(eng, x)
        cs = []
        for s in freshen(eng, ground(eng, self.segs)):
            if is_scalar(x) and is_scalar(s.elem):
                p = membership(eng, s, x)
                if p is not None:
                    cs.append(p)
                    continue
            c = conj(list(s.guard) + [lib_eq(eng, s.elem, x)])
            cs.append(z3.Exists(s.binders, c) if s.binders else c)
        return disj(cs)

    def getattr(self, eng, name):
        if name in ("values", "array"):
            return self
        if name in ("tolist", "to_list", "copy", "to_numpy", "to_flat_index"):
            return Const(self)
        if name == "size":
            return wrap_int(self.length(eng))
        if name == "nlevels":
            return 2 if self.multi else 1
        if name in ("get_level_values", "unique", "map", "isin"):
            return LMeth(self, name)
        self._no("attribute " + name)

    def as_list(self, eng):
        return self

    def level(self, n):
        if not self.multi or n not in (0, 1):
            self._no("level")
        return Labels([with_elem(s, s.elem.items[n]) for s in self.segs], False)

    def unique(self, eng):
        return Uniq(eng, self)


class LMeth(Val):
    def __init__(self, l, name):
        self.l, self.name = l, name

    def subst(self, pairs):
        return LMeth(subst(self.l, pairs), self.name)

    def call(self, eng, args, kw):
        eng.trusted.add("pandas.Index." + self.name)
        a = [force(eng, x) for x in list(args) + list(kw.values())]
        if self.name == "get_level_values":
            return self.l.level(a[0])
        if self.name == "unique":
            if a:
                return self.l.level(a[0]).unique(eng)
            return self.l.unique(eng)
        if self.name == "isin":
            return Mask([with_elem(s, Sc(boolterm(eng.member(s.elem, a[0])), "bool")) for s in self.l.segs])
        # map
        segs, multi = [], set()
        for s in self.l.segs:
            e = merge(eng, lambda: eng.call(a[0], [s.elem], {}), list(s.guard))
            multi.add(isinstance(e, Tup))
            segs.append(with_elem(s, e))
        if len(multi) > 1:
            raise Unsupported("map")
        return Labels(segs, multi.pop() if multi else self.l.multi)


def merge(eng, fn, guard):
    """value of a pure function on all its paths, as one value"""
    pc = list(eng.pc)
    eng.pc = pc + guard
    tr = (eng.trace, eng.tpos, eng.alts)
    try:
        outs = eng.explore(fn)
    finally:
        eng.pc = pc
        eng.trace, eng.tpos, eng.alts = tr
    r = None
    for o in outs:
        if o.kind == "raise":
            raise Unsupported("function that raises %s" % o.val.cls)
        v = force(eng, o.val)
        r = v if r is None else ite(conj(o.pc), v, r)
    return r


def ite(c, a, b):
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if is_scalar(a) and is_scalar(b):
        x, y = term(a), term(b)
        if x.eq(y):
            return a
        if x.sort() == y.sort():
            return Sc(z3.If(c, x, y), a.py if isinstance(a, Sc) else "str" if x.sort() == S else "int" if x.sort() == I else "float")
    raise Unsupported("values of different kinds")


class Uniq(Val):
    """distinct values of labels, in order of first appearance"""

    pytype = "numpy.ndarray"
    immutable = True

    def __init__(self, eng, l):
        self.l = l
        key = repr(l)
        if key not in UNIQ:
            if not l.segs:
                raise Unsupported("unique of nothing")
            sorts = {str(term(s.elem).sort()): term(s.elem).sort() for s in l.segs}
            if len(sorts) != 1:
                raise Unsupported("unique of mixed labels")
            sort = list(sorts.values())[0]
            n = len(UNIQ)
            UNIQ[key] = (z3.Const("n_uniq%d" % n, I), z3.Function("uniq%d" % n, I, sort), z3.Function("rank%d" % n, sort, I), sort, l)
        self.n, self.u, self.rank, self.sort, _ = UNIQ[key]
        # distinct in their range; may be taken as distinct everywhere
        eng.INJ[self.u.name()], eng.INV[self.u.name()] = 0, self.rank
        facts = [self.n >= 0]
        free = set()
        for s in freshen(eng, ground(eng, l.segs)):
            e = term(s.elem)
            c = z3.Implies(conj(list(s.guard)), z3.And(self.rank(e) >= 0, self.rank(e) < self.n, self.u(self.rank(e)) == e))
            pat = [e] if len(s.binders) == 1 and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() else []
            facts.append(z3.ForAll(s.binders, c, patterns=pat) if s.binders else c)
        i = z3.Const("i!u", I)
        each = lambda i: z3.Implies(z3.And(i >= 0, i < self.n), z3.And(self.rank(self.u(i)) == i, boolterm(l.member(eng, Sc(self.u(i), "str" if self.sort == S else "int")))))
        facts += [z3.ForAll([i], each(i), patterns=[self.u(i)]), each(z3.IntVal(0)), each(self.n - 1)]
        for f in facts:
            if not any(f.eq(p) for p in eng.pc):
                eng.pc.append(f)

    def subst(self, pairs):
        raise Unsupported("unique labels in a loop")

    def mentions(self, c):
        return self.l.mentions(c)

    def __repr__(self):
        return "Uniq(%r)" % self.l

    def wrap(self, t):
        return Sc(t, "str" if self.sort == S else "int")

    def iterate(self, eng):
        i = eng.fresh("u", I)
        return Seq([Seg([i], [i >= 0, i < self.n], self.wrap(self.u(i)), i, self.n)])

    def length(self, eng):
        return self.n

    def member(self, eng, x):
        return self.l.member(eng, x)

    def as_list(self, eng):
        return self

    def getattr(self, eng, name):
        if name in ("values", "array"):
            return self
        if name in ("tolist", "to_list", "copy", "to_numpy", "unique"):
            return Const(self)
        if name == "size":
            return wrap_int(self.n)
        if name in ("index", "get_loc"):
            return RankOf(self)
        if name == "drop":
            return Without(self)
        if name == "shape":
            return Tup([wrap_int(self.n)])
        self._no("attribute " + name)

    def getitem(self, eng, k):
        t = term(force(eng, k))
        if not eng.choose(z3.And(t >= 0, t < self.n)):
            raise Unsupported("index of unique labels")
        return self.wrap(self.u(t))


class RankOf(Val):
    def __init__(self, u):
        self.u = u

    def call(self, eng, args, kw):
        x = force(eng, args[0])
        if not eng.choose(boolterm(self.u.member(eng, x))):
            raise PyRaise("ValueError", ("not in list",))
        return Sc(self.u.rank(term(x)), "int")


class Without(Val):
    """Index.drop(labels): the other labels"""

    def __init__(self, u):
        self.u = u

    def call(self, eng, args, kw):
        x = force(eng, args[0])
        if not is_scalar(x):
            raise Unsupported("drop of several labels")
        if not eng.choose(boolterm(self.u.member(eng, x))):
            raise PyRaise("KeyError", ("not in index",))
        return Others(eng, self.u, x)


class Others(Val):
    def __init__(self, eng, u, x):
        self.u, self.x = u, x

    def member(self, eng, y):
        return z3.And(boolterm(self.u.member(eng, y)), z3.Not(lib_eq(eng, y, self.x)))

    def length(self, eng):
        return self.u.n - 1

    def iterate(self, eng):
        i = eng.fresh("u", I)
        return Seq([Seg([i], [i >= 0, i < self.u.n, z3.Not(lib_eq(eng, self.u.wrap(self.u.u(i)), self.x))], self.u.wrap(self.u.u(i)))])

    def getattr(self, eng, name):
        if name == "size":
            return wrap_int(self.u.n - 1)
        if name in ("values", "array"):
            return self
        if name in ("tolist", "to_list"):
            return Const(self)
        self._no("attribute " + name)

    def as_list(self, eng):
        return self

    def truth(self, eng):
        return self.u.n - 1 > 0


class Mat(Val):
    """values of a frame: rows x columns (transposed: columns x rows)"""

    pytype = "numpy.ndarray"

    def __init__(self, st, transposed=False):
        self.st, self.tr = st, transposed

    def getattr(self, eng, name):
        if name == "T":
            return Mat(self.st, not self.tr)
        if name == "shape":
            s = [wrap_int(self.st.rows), wrap_int(count(eng, self.st.segs))]
            return Tup(s[::-1] if self.tr else s)
        if name == "copy":
            return Const(self)
        if name == "transpose":
            return Const(Mat(self.st, not self.tr))
        self._no("attribute " + name)

    def length(self, eng):
        return count(eng, self.st.segs) if self.tr else self.st.rows

    def getitem(self, eng, k):
        k = force(eng, k)
        if isinstance(k, Tup) and len(k.items) == 2 and lib.full_slice(k.items[1]):
            k = force(eng, k.items[0])
        if isinstance(k, Ref) and k.cls == "ndarray":
            return Picked(self, k)
        self._no("subscript")

    def __repr__(self):
        return "Mat(%r,%s)" % (self.st, self.tr)


class Picked(Val):
    """rows of a matrix, by an array of row numbers (in range)"""

    pytype = "numpy.ndarray"

    def __init__(self, m, ix):
        self.m, self.ix = m, ix

    def subst(self, pairs):
        return Picked(self.m, subst(self.ix, pairs))

    def __repr__(self):
        return "Picked(%r,%r)" % (self.m, self.ix)


def labels(eng, v):
    v = force(eng, v)
    if isinstance(v, Labels):
        return v
    if isinstance(v, (Ref, Seq, Tup)):
        segs = eng.contents(v).segs
        kinds = {isinstance(lib.force_in(eng, s), Tup) for s in segs}
        if len(kinds) == 1:
            return Labels([with_elem(s, lib.force_in(eng, s)) for s in segs], kinds.pop())
    raise Unsupported("labels from %r" % (v,))


def np_take(eng, args, kw):
    a = dict(zip(["a", "indices", "axis"], args), **kw)
    if a.get("axis") != 0 or set(a) - {"a", "indices", "axis"}:
        raise Unsupported("np.take")
    return eng.getitem(force(eng, a["a"]), a["indices"])


def np_tile(eng, args, kw):
    a = dict(zip(["A", "reps"], args), **kw)
    m, n = force(eng, a["A"]), force(eng, a["reps"])
    if isinstance(n, Tup) and len(n.items) == 2 and n.items[0] == 1:
        n = force(eng, n.items[1])
    if not isinstance(m, Mat) or m.tr or not is_scalar(n):
        raise Unsupported("np.tile")
    segs = []
    if len(m.st.segs) != 1:
        raise Unsupported("np.tile")
    i = eng.fresh("rep", I)
    for s in freshen(eng, m.st.segs):
        l = lex_of(s)
        if l is None:
            raise Unsupported("np.tile of columns in an unknown order")
        r = Seg([i] + list(s.binders), [i >= 0, i < term(n)] + list(s.guard), s.elem)
        r.lex = [(i, term(n))] + l
        segs.append(r)
    return Mat(State(m.st.rows, None, segs, m.st.multi))


def pd_frame(eng, args, kw):
    a = dict(zip(["data", "index", "columns"], args), **kw)
    d = force(eng, a.get("data"))
    if not isinstance(d, Mat) or d.tr or "columns" not in a or set(a) - {"data", "index", "columns"}:
        raise Unsupported("pd.DataFrame(%r)" % (d,))
    lab = labels(eng, a["columns"])
    ix = a.get("index")
    if not isinstance(ix, Index):
        raise Fail("the time index is lost") if ix is None else Unsupported("index")
    if not eng.prove(ix.rows == d.st.rows):
        raise Unsupported("index of another length")
    return make(eng, State(d.st.rows, ix.tok, [with_elem(s, Tup([l, s.elem.items[1]])) for s, l in align(eng, d.st.segs, lab.segs)], lab.multi))


def pd_concat(eng, args, kw):
    a = dict(zip(["objs", "axis"], args), **kw)
    if a.get("axis") not in (1, "columns") or set(a) - {"objs", "axis"}:
        raise Unsupported("pd.concat arguments")
    d = a["objs"]
    if not (isinstance(d, Ref) and d.cls == "dict"):
        raise Unsupported("pd.concat of %r" % (d,))
    segs, tok, rows = [], None, None
    for s in lib.View(d, "items").iterate(eng).segs:
        pc = list(eng.pc)
        eng.pc += list(s.guard)
        try:
            f = force(eng, s.elem.items[1])
            if not isinstance(f, DF):
                raise Unsupported("pd.concat of %r" % (f,))
            st = f.state(eng)
            if st.multi:
                raise Unsupported("pd.concat of multi indexed frames")
            if tok is None:
                tok, rows = st.index, st.rows
                if any(mentions(rows, b) for b in s.binders):
                    raise Unsupported("frames of different lengths")
            elif tok != st.index or not eng.prove(rows == st.rows):
                raise Unsupported("frames of different index")
        finally:
            eng.pc = pc
        for c in freshen(eng, st.segs):
            r = Seg(list(s.binders) + list(c.binders), list(s.guard) + list(c.guard), Tup([Tup([s.elem.items[0], c.elem.items[0]]), c.elem.items[1]]))
            segs.append(r)
    if tok is None:
        raise PyRaise("ValueError", ("No objects to concatenate",))
    return make(eng, State(rows, tok, segs, True))


def zeros_like(eng, args, kw):
    v = force(eng, args[0])
    if isinstance(v, Labels):
        return Labels([with_elem(s, 0) for s in v.segs], False)
    return _zeros_like(eng, args, kw)


_zeros_like = lib.TABLE.get("numpy.zeros_like", lambda eng, a, k: (_ for _ in ()).throw(Unsupported("zeros_like")))


def from_arrays(eng, args, kw):
    l = [s.elem for s in eng.contents((list(args) + list(kw.values()))[0]).segs]
    if len(l) != 2:
        raise Unsupported("MultiIndex of %d levels" % len(l))
    a, b = force(eng, l[0]), force(eng, l[1])
    if isinstance(b, Labels) and isinstance(a, Ref) and a.cls == "ndarray":
        # one scalar for all
        segs = []
        for s in b.segs:
            lx = lex_of(s)
            if lx is None or len(lx) != 1:
                raise Unsupported("from_arrays")
            pc = list(eng.pc)
            eng.pc += list(s.guard)
            segs.append(with_elem(s, Tup([lib.cell(eng, a, (Sc(lx[0][0], "int"),)), s.elem])))
            eng.pc = pc
        return Labels(segs, True)
    a, b = labels(eng, a), labels(eng, b)
    return Labels([with_elem(s, Tup([x, s.elem])) for (s, x) in align(eng, b.segs, a.segs)], True)


def from_tuples(eng, args, kw):
    l = labels(eng, (list(args) + list(kw.values()))[0])
    if not l.multi:
        raise Unsupported("from_tuples")
    return l


def from_product(eng, args, kw):
    l = [force(eng, s.elem) for s in eng.contents((list(args) + list(kw.values()))[0]).segs]
    if len(l) == 2:
        x = eng.contents(l[0]).segs
        if len(x) == 1 and not x[0].binders and not x[0].guard:
            return Labels([with_elem(s, Tup([x[0].elem, s.elem])) for s in labels(eng, l[1]).segs], True)
    raise Unsupported("from_product")


# ------------------------------------------------------------------------------------------- random numbers
U_ = z3.DeclareSort("Rng")
SEED, NEXT = z3.Function("seeded", I, U_), z3.Function("next_rng", U_, U_)
RNG0 = z3.Const("rng0", U_)
TOSS = z3.Function("tosses", U_, I, R, I)
RANDINT = z3.Function("randint", U_, I, I, I, I, I)
ENTROPY = z3.Function("urandom", I, I)


class Rng:
    """ghost state of np.random; draws are functions of it"""

    def __init__(self, eng):
        self.eng = eng
        self.ref = eng.alloc("ghost", "rng")
        eng.write("attr", self.ref, ("state",), Sc(RNG0, "rng"))
        eng.write("attr", self.ref, ("n",), 0)

    def state(self):
        return self.eng.getattr_raw(self.ref, "state").t

    def step(self):
        self.eng.write("attr", self.ref, ("state",), Sc(NEXT(self.state()), "rng"))

    def draws(self):
        """randint draws of the path: (low, high, size, state)"""
        n = self.eng.getattr_raw(self.ref, "n")
        return [self.eng.getattr_raw(self.ref, "draw%d" % i) for i in range(n)]

    def seed(self, eng, args, kw):
        x = force(eng, (list(args) + list(kw.values()))[0]) if args or kw else None
        if x is None:
            x = Sc(z3.Const("entropy", I), "int")
        if not is_scalar(x) or term(x).sort() != I:
            raise Unsupported("seed of %r" % (x,))
        eng.write("attr", self.ref, ("state",), Sc(SEED(term(x)), "rng"))

    def ints(self, l):
        s = self.eng.contents(l).segs
        return [x.elem for x in s] if all(not x.binders and not x.guard for x in s) else None

    def choice(self, eng, args, kw):
        a = dict(zip(["a", "size", "replace", "p"], args), **kw)
        pop, p, size = a.get("a"), a.get("p"), force(eng, a.get("size"))
        if pop == 2:
            pop = [0, 1]
        else:
            pop = self.ints(pop)
        p = self.ints(p) if p is not None else None
        if pop not in ([0, 1], [1, 0], [False, True]) or p is None or len(p) != 2 or not is_scalar(size):
            raise Unsupported("np.random.choice")
        f = real(term(p[0] if pop == [1, 0] else p[1]))
        return self.tosses(eng, term(size), f, True)

    def tosses(self, eng, size, f, arr):
        t = TOSS(self.state(), size, f)
        self.step()
        eng.pc += [t >= 0, t <= size, z3.Implies(f == 0, t == 0)]
        return Tosses(t, size) if arr else Sc(t, "int")

    def binomial(self, eng, args, kw):
        a = dict(zip(["n", "p", "size"], args), **kw)
        if a.get("size") is not None:
            raise Unsupported("np.random.binomial")
        return self.tosses(eng, term(force(eng, a["n"])), real(term(force(eng, a["p"]))), False)

    def randint(self, eng, args, kw):
        a = dict(zip(["low", "high", "size"], args), **kw)
        if "high" not in a or "size" not in a or set(a) - {"low", "high", "size"}:
            raise Unsupported("np.random.randint")
        if eng.binders:
            raise Unsupported("random number in a loop")
        lo, hi, n = (term(force(eng, a[k])) for k in ("low", "high", "size"))
        if not eng.choose(lo < hi):
            raise PyRaise("ValueError", ("low >= high",))
        lo, hi, n = plainly(eng, lo), plainly(eng, hi), plainly(eng, n)
        r = self.state()
        self.step()
        k = z3.Const("k!d", I)
        f = lambda i: RANDINT(r, lo, hi, n, i)
        eng.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(f(k) >= lo, f(k) < hi)), patterns=[f(k)]))
        c = eng.getattr_raw(self.ref, "n")
        eng.write("attr", self.ref, ("draw%d" % c,), Draw(lo, hi, n, r))
        eng.write("attr", self.ref, ("n",), c + 1)
        return lib.new_array(eng, [wrap_int(n)], lambda i: Sc(f(term(i[0])), "int"))


def plainly(eng, t):
    """t, or a constant equal to it, to be used in patterns"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            c = eng.fresh("arg", t.sort())
            eng.pc.append(c == t)
            return c
        todo += x.children()
    return t


class Draw(Val):
    def __init__(self, lo, hi, n, r):
        self.lo, self.hi, self.n, self.r = lo, hi, n, r

    def at(self, i):
        return RANDINT(self.r, self.lo, self.hi, self.n, i)


class Tosses(Val):
    def __init__(self, t, size):
        self.t, self.size = t, size

    def getattr(self, eng, name):
        if name == "sum":
            return Const(Sc(self.t, "int"))
        self._no("attribute " + name)


def np_sum(eng, args, kw):
    if len(args) == 1 and isinstance(args[0], Tosses):
        return Sc(args[0].t, "int")
    return _np_sum(eng, args, kw)


_np_sum = lib.TABLE.get("numpy.sum", lambda eng, a, k: (_ for _ in ()).throw(Unsupported("np.sum")))


def install(eng):
    T = lib.TABLE
    T["numpy.take"] = np_take
    T["numpy.tile"], T["pandas.DataFrame"], T["pandas.concat"] = np_tile, pd_frame, pd_concat
    T["numpy.zeros_like"], T["numpy.sum"] = zeros_like, np_sum
    for p in ("pandas.MultiIndex.", "pandas.core.indexes.multi.MultiIndex."):
        T[p + "from_arrays"], T[p + "from_tuples"], T[p + "from_product"] = from_arrays, from_tuples, from_product
    r = Rng(eng)
    for n in ("seed", "choice", "randint", "binomial"):
        T["numpy.random." + n] = getattr(r, n)
    T["os.urandom"] = lambda eng, a, k: lib.Opaque("entropy")
    T["builtins.int.from_bytes"] = lambda eng, a, k: Sc(z3.Const("entropy", I), "int")
    eng.prover.axiom(ROW >= 0)
    return r


_vb = lib.val_binop


def val_binop(eng, op, a, b):
    if isinstance(b, Col) and not isinstance(a, Col):
        return b.binop(eng, op, a, swap=True)
    return _vb(eng, op, a, b)


lib.val_binop = val_binop

_ve = lib.val_eq


def val_eq(eng, a, b):
    if isinstance(b, Labels) and is_scalar(a):
        a, b = b, a
    if isinstance(a, Labels) and not a.multi and is_scalar(b):
        return Mask([with_elem(s, Sc(lib_eq(eng, s.elem, b), "bool")) for s in a.segs])
    return _ve(eng, a, b)


lib.val_eq = val_eq


def Fail(msg):
    import report

    return report.Fail(msg)
