"""statements, expressions, calls and loops"""
import ast

import z3

from core import *  # noqa
from engine import *  # noqa
from engine import _NONE, EXC, EXC_UP, distinct


DEBUG = bool(__import__("os").environ.get("PYVC_DEBUG"))


def show(v):
    return repr(v)


def common_factor(d, binders):
    """(f, d') with d = f * d', f without binders"""
    if d.sort() != I:
        return z3.RealVal(1), d
    p = z3.simplify(d, som=True)
    ms = p.children() if z3.is_add(p) else [p]
    common = None
    for m in ms:
        fs = []
        for x in m.children() if z3.is_mul(m) else [m]:
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER:
                return z3.IntVal(1), d
            fs.append(x)
        fs = [x for x in fs if not z3.is_int_value(x) and not any(mentions(x, b) for b in binders)]
        common = fs if common is None else [x for x in common if any(x.eq(y) for y in fs)]
    if not common or len(set(x.get_id() for x in common)) != len(common):
        return z3.IntVal(1), d
    out = []
    for m in ms:
        fs = m.children() if z3.is_mul(m) else [m]
        rest = [x for x in fs if not any(x.eq(c) for c in common)]
        t = z3.IntVal(1)
        for x in rest:
            t = t * x
        out.append(t)
    f = common[0]
    for c in common[1:]:
        f = f * c
    return f, z3.simplify(z3.Sum(out) if len(out) > 1 else out[0])


def has_jump(body):
    """break, continue or return that leaves this loop's body"""
    for b in body:
        if isinstance(b, (ast.Break, ast.Continue, ast.Return)):
            return True
        if isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        for k in ("body", "orelse", "finalbody"):
            sub = getattr(b, k, None)
            if isinstance(sub, list):
                if isinstance(b, (ast.For, ast.While)) and k == "body":
                    if any(isinstance(n, ast.Return) for x in sub for n in ast.walk(x)):
                        return True
                elif has_jump(sub):
                    return True
        for hd in getattr(b, "handlers", []):
            if has_jump(hd.body):
                return True
    return False


class Interp(Engine):
    # ------------------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        k = type(s).__name__
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("statement %s" % k)
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        if self.merging and isinstance(s.value, ast.IfExp) and isinstance(s.target, ast.Name) and isinstance(fr.env.get(s.target.id), Ref) and fr.env[s.target.id].cls == "list":
            # xs += a if c else b  is  if c: xs += a  else: xs += b
            n = s.value
            go = lambda v: self.x_AugAssign(ast.copy_location(ast.AugAssign(s.target, s.op, v), s), fr)
            t = self.truth(self.eval(n.test, fr))
            if not isinstance(t, bool) and isinstance(n.orelse, ast.List) and not n.orelse.elts and self.merge_if(t, lambda: go(n.body), fr):
                return
            return go(n.body if self.choose(t) else n.orelse)
        t = s.target
        if isinstance(t, ast.Name):
            a = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            b = self.eval(s.value, fr)
            self.assign(t, self.aug(s.op, a, b), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            a = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(s.op, a, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.index_value(t.slice, fr)
            h = self.lib.aug_item(self, o, k, s.op, s.value, fr)
            if h:
                return
            a = self.getitem(o, k)
            self.setitem(o, k, self.aug(s.op, a, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, a, b):
        """in place operators: lists and arrays are modified"""
        if isinstance(a, Ref) and isinstance(op, ast.Add):
            if a.cls == "list":
                seq = self.contents(b)
                tmp = Frame({}, None)
                self.loop(seq, lambda e: self.append(a, e), tmp, set())
                return a
            if a.cls == "ndarray":
                return self.lib.array_iadd(self, a, op, b)
        if isinstance(a, Ref) and a.cls == "ndarray":
            return self.lib.array_iadd(self, a, op, b)
        if isinstance(a, Ref) and isinstance(a.cls, Cls):
            nm = {ast.Add: "__iadd__", ast.Sub: "__isub__"}.get(type(op))
            if nm and a.cls.find(nm)[0] is not None:
                return self.call(Bound(a.cls.find(nm)[0], a), [b], {})
        return self.binop(op, a, b)

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_If(self, s, fr):
        if self.merging and not s.orelse and all(isinstance(x, (ast.Expr, ast.AugAssign)) for x in s.body):
            t = self.truth(self.eval(s.test, fr))
            if not isinstance(t, bool) and self.merge_if(t, lambda: self.exec_block(s.body, fr), fr):
                return
            self.exec_block(s.body if self.choose(t) else s.orelse, fr)
            return
        if self.test(s.test, fr):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    merging = False

    def merge_if(self, cond, body, fr):
        """runs `if cond: body` without forking, its writes guarded; False (nothing done) when it changes locals or may not complete"""
        if self.alts is None or self.prover.prove(self.pc, cond) or self.prover.prove(self.pc, z3.Not(cond)):
            return False
        base, env0 = self.snap(), dict(fr.env)
        outer = (self.trace, self.tpos, self.alts)
        self.pc = self.pc + [cond]
        try:
            outs = self.explore(body, fr)
        except Unsupported:
            outs = None
        smax, cmax = (self.smax if outs is not None else None), self.cnt
        self.restore(base)
        self.cnt = cmax
        self.trace, self.tpos, self.alts = outer
        fr.env.clear()
        fr.env.update(env0)
        if outs is None or any(o.kind != "ok" or o.events or any(n not in env0 or v is not env0[n] and skey(v) != skey(env0[n]) for n, v in o.env.items()) for o in outs):
            return False
        self.sites = dict(smax)
        for w in self.collect(outs, [], [cond], None, None):
            self.emit(w)
        return True

    def x_Assert(self, s, fr):
        if not self.test(s.test, fr):
            raise PyRaise("AssertionError")

    def x_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported("re-raise")
        e = s.exc
        if isinstance(e, ast.Call):
            c = self.eval(e.func, fr)
            if not (isinstance(c, Cls) or isinstance(c, Ext) and c.name.startswith("builtins.")):
                c = self.eval(e, fr)  # a function that gives the exception
                if isinstance(c, PyRaise):
                    raise PyRaise(c.cls, c.exc_args, self.where())
                raise Unsupported("raise %r" % (c,))
            args = []
            for a in e.args:
                try:
                    args.append(self.eval(a, fr))
                except Unsupported:
                    args.append(Unknown("message"))
            kw = {k.arg: self.eval(k.value, fr) for k in e.keywords}
        else:
            c, args, kw = self.eval(e, fr), [], {}
        if isinstance(c, Ext) and c.name.startswith("builtins."):
            raise PyRaise(c.name[9:], args, self.where())
        if isinstance(c, PyRaise):
            raise PyRaise(c.cls, c.exc_args, self.where())
        if isinstance(c, Cls):
            c = self.instantiate(c, args, kw)
            if isinstance(c, PyRaise):
                raise PyRaise(c.cls, c.exc_args, self.where())
        raise Unsupported("raise %r" % (c,))

    def where(self):
        return "/".join(self.stack[-2:])

    def x_Delete(self, s, fr):
        raise Unsupported("del")

    def x_Import(self, s, fr):
        for a in s.names:
            n = a.name if a.asname else a.name.split(".")[0]
            fr.env[a.asname or a.name.split(".")[0]] = self.module(n) if n.split(".")[0] == "hadar" else Ext(n)

    def x_ImportFrom(self, s, fr):
        for a in s.names:
            if s.module.split(".")[0] == "hadar":
                m = self.module(s.module)
                v = self.glob(m, a.name)
                v = v if v is not None else self.module(s.module + "." + a.name)
            else:
                v = Ext(s.module + "." + a.name)
            fr.env[a.asname or a.name] = v

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorator")
        fr.env[s.name] = Func("%s.<locals>.%s" % (fr.name, s.name), s, fr.module, closure=fr)

    def x_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if not (isinstance(v, Ref) and not isinstance(v.cls, Cls) and "%s.__enter__" % v.cls in self.methods):
                raise Unsupported("with %r" % (v,))
            r = self.methods["%s.__enter__" % v.cls](self, v, [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, fr)
        self.exec_block(s.body, fr)

    def x_Try(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_match(e, self.eval(h.type, fr)):
                    if h.name:
                        fr.env[h.name] = Unknown("exception")
                    self.exec_block(h.body, fr)
                    break
            else:
                self.exec_block(s.finalbody, fr)
                raise
        else:
            self.exec_block(s.orelse, fr)
        self.exec_block(s.finalbody, fr)

    def exc_match(self, e, t):
        if isinstance(t, Tup):
            return any(self.exc_match(e, x) for x in t.items)
        if isinstance(t, Ext) and t.name.startswith("builtins."):
            n = t.name[9:]
            names = self.lib.exc_names(self, e.cls)
            n = {"IOError": "OSError", "EnvironmentError": "OSError"}.get(n, n)
            return n in names
        if isinstance(t, Cls):
            return isinstance(e.cls, Cls) and t in e.cls.mro()
        raise Unsupported("except %r" % (t,))

    def assign(self, t, v, fr):
        if isinstance(v, self.lib.Val):
            v = self.lib.force(self, v)
        if isinstance(t, ast.Name):
            fr.env[t.id] = self.lib.force(self, v) if isinstance(v, Tup) else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.index_value(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise PyRaise("ValueError", ("unpack",))
            return v.items
        if isinstance(v, Ref) and v.cls == "ndarray":
            sh = self.lib.array_shape(self, v)
            if z3.is_int_value(sh[0]):
                if sh[0].as_long() != n:
                    raise PyRaise("ValueError", ("unpack",))
                return [self.lib.array_get(self, v, i) for i in range(n)]
        seq = self.contents(v)
        if any(s.binders or s.guard for s in seq.segs) or len(seq.segs) != n:
            raise Unsupported("unpacking of a symbolic sequence")
        return [s.elem for s in seq.segs]

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)
        seq = self.contents(it)
        names = assigned_names(s.body) | assigned_names([s.target])

        def body(e):
            self.bind(s.target, e, fr, it)
            self.exec_block(s.body, fr)

        h = getattr(self, "for_rule", None)
        if h is not None and h(self, s, seq, fr, it, names):
            self.exec_block(s.orelse, fr)
            return
        try:
            self.loop(seq, body, fr, names)
        except BreakEx:
            return
        self.exec_block(s.orelse, fr)

    def bind(self, target, e, fr, it):
        self.assign(target, e, fr)

    def x_While(self, s, fr):
        h = getattr(self, "while_rule", None)
        if h is None:
            if self.counting_while(s, fr):
                return
            n = 0
            while True:
                at = self.tpos
                if not self.test(s.test, fr):
                    break
                n += 1
                if n > 60 or self.tpos != at:
                    raise Unsupported("while loop")
                try:
                    self.exec_block(s.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.exec_block(s.orelse, fr)
            return
        h(self, s, fr)

    def counting_while(self, s, fr):
        """while i < E: BODY; i += 1   is   for i in range(i, E): BODY   followed by   i = max(i, E)

        when BODY has no break or continue of this loop and does not assign i; that E keeps its value is proved
        by evaluating it again afterwards
        """
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and len(s.body) > 1):
            return False
        i, E = t.left.id, t.comparators[0]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i
                and isinstance(last.value, ast.Constant) and last.value.value == 1 and type(last.value.value) is int):
            return False
        body = s.body[:-1]
        if i in assigned_names(body) or has_jump(body) or s.orelse:
            return False
        if any(isinstance(n, (ast.Nonlocal, ast.Global, ast.Yield, ast.Await)) for b in body for n in ast.walk(b)):
            return False
        a, e0 = self.eval(t.left, fr), self.eval(E, fr)
        L = lambda n: ast.copy_location(n, s)
        cnt = "$while%d" % s.lineno
        lim = "$limit%d" % s.lineno
        fr.env[cnt], fr.env[lim] = a, e0
        loop = ast.For(L(ast.Name(i, ast.Store())), L(ast.Call(L(ast.Name("range", ast.Load())), [L(ast.Name(cnt, ast.Load())), L(ast.Name(lim, ast.Load()))], [])), body, [], None)
        self.x_For(L(loop), fr)
        e1 = self.eval(E, fr)
        same = self.truth(self.py_eq(e0, e1))
        if same is not True and not (not isinstance(same, bool) and self.prover.prove(self.pc, same)):
            raise Unsupported("while loop whose limit changes")
        less = self.truth(self.eval(L(ast.Compare(L(ast.Name(cnt, ast.Load())), [ast.Lt()], [L(ast.Name(lim, ast.Load()))])), fr))
        fr.env[i] = e0 if self.choose(less) else a
        del fr.env[cnt], fr.env[lim]
        return True

    # ------------------------------------------------------------------------------ loops
    def loop(self, seq, body, fr, assigned):
        for seg in seq.segs:
            if not seg.binders:
                if all(self.choose(g) for g in seg.guard):
                    try:
                        body(seg.elem)
                    except ContinueEx:
                        pass
            else:
                self.sym_loop(seg, body, fr, assigned)

    def sym_loop(self, seg, body, fr, assigned):
        pairs = [(b, self.fresh(b.decl().name().split("!")[0].rstrip("'"), b.sort())) for b in seg.binders]
        binders = [p[1] for p in pairs]
        guard = [z3.substitute(g, *pairs) for g in seg.guard]
        elem = subst(seg.elem, pairs)
        idx = subst(seg.index, pairs) if seg.index is not None else None
        count = seg.count
        if self.prover.prove(self.pc, z3.Not(conj(guard))):
            return
        families, probe, fixed = None, {}, {}
        cnt0 = self.cnt
        for attempt in range(10):
            self.cnt = cnt0
            base, env0 = self.snap(), dict(fr.env)
            m = Marker(binders, idx, families)
            self.mark(m)
            self.pc += guard
            self.binders = self.binders + binders
            for n in assigned:
                if n in fr.env:
                    fr.env[n] = fixed[n] if n in fixed else probe[n] if n in probe else Carried(n)
            start = dict(fr.env)
            probing = self.probing
            self.probing = probing or any(n not in fixed for n in probe)
            try:
                outs = self.explore(lambda: body(elem), fr)
                smax = self.smax
            except NeedCarry as e:
                self.restore(base)
                fr.env.clear()
                fr.env.update(env0)
                if e.name not in assigned or e.name in probe or e.name in fixed or e.name not in env0:
                    raise
                x0 = env0[e.name]
                if isinstance(x0, Carried):
                    raise
                probe[e.name] = self.acc_probe(e.name, x0)
                families = None
                continue
            finally:
                self.probing = probing
            self.restore(base)
            fr.env.clear()
            fr.env.update(env0)
            if any(n not in fixed for n in probe):
                for n in probe:
                    if n not in fixed:
                        fixed[n] = self.acc_fix(n, env0[n], probe[n], outs, binders, guard, idx, count)
                        fixed[n], probe[n] = fixed[n]
                families = None
                continue
            fams = self.collect(outs, binders, guard, idx, count)
            if families is None:
                if not getattr(m, "tentative", False) and not self.conflicts(m, fams, binders):
                    break
                families = fams
                continue
            if [skey(w) for w in fams] == [skey(w) for w in families]:
                break
            if DEBUG:
                ka, kb = [skey(w) for w in fams], [skey(w) for w in families]
                print("PASS", attempt, len(ka), len(kb), self.stack[-3:])
                for a, b in zip(fams, families):
                    if skey(a) != skey(b):
                        print("   new", str(a).replace("\n", " ")[:900])
                        print("   old", str(b).replace("\n", " ")[:900])
                        break
            families = fams
        else:
            raise Unsupported("loop: writes of earlier iterations not stable")
        self.sites = dict(smax)
        for o in outs:
            if o.kind == "break":
                raise Unsupported("break in a symbolic loop")
        rets = [o for o in outs if o.kind == "return"]
        if rets:
            vals = set(skey(o.val) for o in rets)
            if len(vals) != 1 or not (rets[0].val is None or isinstance(rets[0].val, (bool, int, str))) or fams:
                raise Unsupported("return inside a symbolic loop")
        bad = [o for o in outs if o.kind == "raise"]
        if bad and rets:
            raise Unsupported("raise and return inside a symbolic loop")
        if rets:
            if self.choose(z3.Exists(binders, conj(guard + [disj([conj(o.pc) for o in rets])]))):
                raise ReturnEx(rets[0].val)
        if bad:
            # a read that may be answered by earlier iterations not known yet: this pass is repeated, skip its exceptions
            pend = [self.log[i] for i in self.marks if self.log[i].families is None and self.log[i].reads]
            if pend:
                for p in pend:
                    p.tentative = True
                bad = []
        if bad:
            groups = {}
            for o in bad:
                groups.setdefault(repr(o.val.cls), []).append(o)
            for g in groups.values():
                if self.choose(z3.Exists(binders, conj(guard + [disj([conj(o.pc) for o in g])]))):
                    e = PyRaise(g[0].val.cls, g[0].val.exc_args, g[0].val.where)
                    e.inloop = True
                    raise e
        evs = []
        for o in outs:
            for e in o.events if o.kind in ("ok", "continue") else ():
                evs.append(("loop", binders, guard + o.pc, e))
        self.events += evs
        self.check_order(fams, binders)
        for w in fams:
            self.emit(w)
        for n in assigned:
            vals = [o.env.get(n, _NONE) for o in outs if o.kind in ("ok", "continue")]
            if n in fixed:
                fr.env[n] = probe[n]
            elif n in env0 and all(v is start[n] for v in vals):
                pass
            elif any(v is not _NONE for v in vals):
                fr.env[n] = self.last_value(n, env0, outs, binders, guard, idx, count)

    def last_value(self, n, env0, outs, binders, guard, idx, count):
        """value of a local assigned in every iteration, after the loop: that of the last iteration"""
        why = Unknown("%s after a loop" % n)
        live = [o for o in outs if o.kind in ("ok", "continue")]
        if len(live) != 1 or idx is None or count is None or n not in env0:
            return why
        v, v0 = live[0].env.get(n, _NONE), env0[n]
        if not (isinstance(v, Sc) and is_scalar(v0)) or v.t.sort() not in (I, R):
            return why
        k = z3.Const("last!", I)
        t = z3.substitute(v.t, (idx, k))
        if any(mentions(t, b) for b in binders):
            return why
        last = z3.simplify(z3.substitute(t, (k, count - 1)), som=True)
        x0 = term(v0)
        if x0.sort() != last.sort():
            return why
        zero = z3.simplify(z3.substitute(t, (k, z3.IntVal(-1))) - x0, som=True)
        if self.prover.prove(self.pc, count > 0) or z3.is_true(z3.simplify(last == x0, som=True)) or (z3.is_rational_value(zero) or z3.is_int_value(zero)) and str(zero) == "0":
            return Sc(last, v.py)
        if z3.simplify(last - x0, som=True).eq(z3.IntVal(0) if last.sort() == I else z3.RealVal(0)):
            return Sc(last, v.py)
        return Sc(z3.If(count > 0, last, x0), v.py)

    # accumulators: x = x + d(iteration)
    def acc_probe(self, name, x0):
        if isinstance(x0, bool):
            return Sc(self.fresh("acc_" + name, B), "bool")
        if isinstance(x0, (int, float)):
            s = I if isinstance(x0, int) else R
            return Sc(self.fresh("acc_" + name, s), "int" if s == I else "float")
        if isinstance(x0, Sc) and x0.py in ("int", "float", "bool"):
            return Sc(self.fresh("acc_" + name, x0.t.sort()), x0.py)
        if isinstance(x0, Ref) and x0.cls == "ndarray":
            return x0  # updated in place
        raise Unsupported("local %s carried between iterations (%r)" % (name, x0))

    def acc_fix(self, name, x0, pr, outs, binders, guard, idx, count):
        """(value at the start of an iteration, value after the loop)"""
        if isinstance(x0, Ref):
            for o in outs:
                v = o.env[name] if o.kind in ("ok", "continue") else x0
                if not (isinstance(v, Ref) and skey(v) == skey(x0)):
                    raise Unsupported("local %s carried between iterations" % name)
            return x0, x0
        a = pr.t
        if a.sort() == B:
            raise Unsupported("boolean accumulator")
        ds = []
        for o in outs:
            if o.kind not in ("ok", "continue"):
                continue
            v = term(o.env[name])
            if v.sort() == R and a.sort() == I:
                # becomes float: restart as float
                d = z3.simplify(v - z3.ToReal(a))
            else:
                d = z3.simplify(v - a)
            if mentions(d, a):
                raise Unsupported("accumulator %s" % name)
            ds.append((o.pc, d))
        if not ds:
            raise Unsupported("accumulator %s" % name)
        d = ds[-1][1]
        for pc, x in reversed(ds[:-1]):
            p, q = num2(x, d)
            d = z3.If(conj(pc), p, q) if not p.eq(q) else p
        d = z3.simplify(d)
        x, d = num2(term(x0), d)
        py = "float" if d.sort() == R else "int"
        if idx is not None and count is not None and not any(mentions(d, b) for b in binders):
            i, c = (z3.ToReal(idx), z3.ToReal(count)) if d.sort() == R else (idx, count)
            return Sc(z3.simplify(x + i * d), py), Sc(z3.simplify(x + c * d), py)
        # constant factor of the increments
        fac, d = common_factor(d, binders)
        total = self.sum_term(binders, guard, d)
        ctx = list(self.binders)
        P = z3.Function("prefix!%s%d" % (self.pid, self.cnt + 1), *([b.sort() for b in ctx + binders] + [d.sort()]))
        self.cnt += 1
        pb = P(*(ctx + binders))
        b2 = [z3.Const(b.decl().name() + "''", b.sort()) for b in binders]
        pr2 = list(zip(binders, b2))
        g1, g2 = conj(guard), z3.substitute(conj(guard), *pr2)
        if not self.prover.prove(self.pc + guard, d >= 0):
            raise Unsupported("decreasing accumulator %s" % name)
        p2, d2 = P(*(ctx + b2)), z3.substitute(d, *pr2)
        hyp = conj(self.pc)
        fv = ctx
        ax1 = z3.ForAll(fv + binders, z3.Implies(z3.And(hyp, g1), z3.And(pb >= 0, pb + d <= total)), patterns=[pb])
        ax2 = z3.ForAll(fv + binders + b2, z3.Implies(z3.And(hyp, g1, g2), z3.Or(conj([x == y for x, y in pr2]), pb + d <= p2, p2 + d2 <= pb)), patterns=[z3.MultiPattern(pb, p2)])
        if not any(a.eq(ax1) for a in self.prover.axioms):
            self.prover.axiom(ax1)
            self.prover.axiom(ax2)
        return Sc(z3.simplify(x + fac * pb), py), Sc(z3.simplify(x + fac * total), py)

    def collect(self, outs, binders, guard, idx, count):
        """writes of one arbitrary iteration as families over all iterations"""
        live = [o for o in outs if o.kind in ("ok", "continue")]
        merged = []  # [key, [pcs], W]
        for o in live:
            p = 0
            for w in o.log:
                if isinstance(w, Marker):
                    continue
                k = skey(w)
                j = next((q for q in range(p, len(merged)) if merged[q][0] == k and merged[q][3] is not o), None)
                if j is not None:
                    merged[j][1].append(o)
                    merged[j][3] = o
                    p = j + 1
                else:
                    merged.insert(p, [k, [o], w, o])
                    p += 1
        out = []
        nl = len(live)
        # appends per list in each outcome
        single = {}
        for o in live:
            seen = {}
            for w in o.log:
                if not isinstance(w, Marker) and w.kind in ("seg", "item"):
                    r = skey((w.kind, w.ref))
                    seen.setdefault(r, []).append(w)
            for r, l in seen.items():
                single.setdefault(r, []).append(len(l) == 1 and not l[0].binders and not l[0].guard)
        gid = self.fresh("grp", I).decl().name()
        for k, os_, w, _ in merged:
            pcs = []
            if len(os_) < nl:
                pcs = [z3.simplify(disj([conj(o.pc) for o in os_]))]
            w2 = W(tuple(binders) + w.binders, tuple(guard) + tuple(pcs) + w.guard, w.kind, w.ref, w.key, w.val, w.where)
            for a in ("ambig", "noninj"):
                if hasattr(w, a):
                    setattr(w2, a, getattr(w, a))
            if w.kind in ("seg", "item"):
                inside = all(any(x.eq(b) for x in w.ref.args) for b in binders)
                if inside:
                    for a in ("idx", "count", "grp"):
                        if hasattr(w, a):
                            setattr(w2, a, getattr(w, a))
                    if hasattr(w, "lex"):
                        w2.lex = w.lex
                else:
                    s = single.get(skey((w.kind, w.ref)), [])
                    if len(s) == len(live) and all(s):
                        w2.idx, w2.count = idx, count
                        if len(live) > 1:
                            w2.grp = gid + repr(w.ref)
                        elif idx is not None and count is not None:
                            w2.lex = [(idx, count)]
                    elif len(live) == 1 and len(s) == 1 and getattr(w, "lex", None) is not None and idx is not None and count is not None and sum(1 for x in live[0].log if not isinstance(x, Marker) and x.kind in ("seg", "item") and skey((x.kind, x.ref)) == skey((w.kind, w.ref))) == 1:
                        # nested loops, one append per innermost iteration: lexicographic order
                        w2.lex = [(idx, count)] + list(w.lex)
            out.append(w2)
        return out

    def rename(self, w, mark="~"):
        pairs = [(b, z3.Const(b.decl().name() + mark, b.sort())) for b in w.binders]
        w2 = W([p[1] for p in pairs], [z3.substitute(g, *pairs) for g in w.guard], w.kind, subst(w.ref, pairs), subst(w.key, pairs), w.val, w.where)
        return w2, dict((a.get_id(), b) for a, b in pairs)

    def apart(self, w, ref, key, pc, binders):
        """True when write w of another iteration can't touch (ref, key) of this one"""
        if len(w.ref.args) != len(ref.args) or (key is not None and (len(key) != len(w.key) or distinct(w.key, key))):
            return True
        if all(any(x.eq(b) and y.eq(b) for x, y in zip(w.ref.args, ref.args)) for b in binders):
            return True
        w2, ren = self.rename(w)
        eqs = list(zip(w2.ref.args, ref.args))
        if key is not None:
            if len(key) != len(w2.key):
                return True
            for a, b in zip(w2.key, key):
                if not self.equations(a, b, eqs):
                    return True
        forced = [b for b in binders if any((x.eq(ren[b.get_id()]) and y.eq(b)) for x, y in eqs)]
        if len(forced) == len(binders):
            return True
        other = z3.Not(conj([ren[b.get_id()] == b for b in binders]))
        return self.prover.prove(list(pc) + list(w2.guard) + [other], z3.Not(conj([x == y for x, y in eqs])))

    def conflicts(self, m, fams, binders):
        by = {}
        for w in fams:
            by.setdefault(self.ikey(w.kind, w.ref, w.key), []).append(w)
        seen = set()
        for kind, ref, key, pc in m.reads:
            k = (kind, ref.site, key[0] if kind == "attr" else None)
            for w in by.get(k, ()):
                z = (id(w), skey(ref), skey(key), tuple(p.get_id() for p in pc))
                if z in seen:
                    continue
                seen.add(z)
                if not self.apart(w, ref, key, pc, binders):
                    return True
        return False

    def check_order(self, fams, binders):
        by = {}
        for w in fams:
            if w.kind != "seg":
                by.setdefault(self.ikey(w.kind, w.ref, w.key), []).append(w)
        for l in by.values():
            for i, w in enumerate(l):
                pc = self.pc + list(w.guard)
                if not self.apart(w, w.ref, w.key, pc, binders):
                    if any(mentions(w.val, b) for b in binders) and not self.agree(w, w, pc):
                        w.noninj = True
                for v in l[:i]:
                    if not self.apart(v, w.ref, w.key, pc, binders):
                        if skey(v.val) == skey(w.val) and not any(mentions(w.val, b) for b in w.binders):
                            continue
                        if self.agree(v, w, pc):
                            continue
                        v.ambig = w.ambig = (v, w)

    def agree(self, v, w, pc):
        """writes v and w of any two iterations that hit the same place write the same value"""
        try:
            x, y = term(v.val), term(w.val)
        except Unsupported:
            return False
        if x.sort() != y.sort():
            return False
        pairs = [(b, z3.Const(b.decl().name() + "~", b.sort())) for b in v.binders]
        eqs = list(zip(subst(v.ref, pairs).args, w.ref.args))
        for a, b in zip(v.key, w.key):
            if not self.equations(subst(a, pairs), b, eqs):
                return True
        return self.prover.prove(list(pc) + [z3.substitute(g, *pairs) for g in v.guard] + [a == b for a, b in eqs], z3.substitute(x, *pairs) == y)

    # ------------------------------------------------------------------------------ expressions
    def test(self, node, fr):
        return self.choose(self.truth(self.eval(node, fr)))

    def truth(self, v):
        if isinstance(v, Carried):
            raise NeedCarry(v.name)
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Sc):
            if v.t.sort() == B:
                return v.t
            if v.t.sort() == S:
                return v.t != sconst("")
            return v.t != 0
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref):
            if isinstance(v.cls, Cls):
                for n in ("__bool__", "__len__"):
                    f, _ = v.cls.find(n)
                    if f is not None:
                        return self.truth(self.call(Bound(f, v), [], {}))
                return True
            if v.cls == "set":
                return self.seq_len(Seq(self.segs(v))) > 0
            if v.cls in ("list", "dict", "tuple"):
                return self.length(v) > 0
            h = "%s.__bool__" % v.cls
            if h in self.methods:
                return self.methods[h](self, v, [], {})
            raise Unsupported("truth of %s" % v.cls)
        if isinstance(v, (Cls, Func, Bound, Ext)):
            return True
        if z3.is_expr(v) and v.sort() == B:
            return v
        if isinstance(v, self.lib.Val):
            return v.truth(self)
        raise Unsupported("truth of %r" % (v,))

    def length(self, v):
        if isinstance(v, Ref):
            T = self.schema.get(v.site)
            if v.cls in ("list", "tuple"):
                if T is not None and not self.positions("seg", v, None):
                    return T.length(self, v)
                return self.seq_len(self.contents(v))
            if v.cls == "set":
                return self.seq_len(self.set_seq(v))
            if v.cls == "dict":
                return self.seq_len(self.items(v))
            if v.cls == "ndarray":
                return self.lib.array_shape(self, v)[0]
        if isinstance(v, Tup):
            return z3.IntVal(len(v.items))
        if isinstance(v, str):
            return z3.IntVal(len(v))
        if isinstance(v, Seq):
            return self.seq_len(v)
        if isinstance(v, self.lib.Val):
            return v.length(self)
        raise Unsupported("len of %r" % (v,))

    def eval(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n, fr)

    def e_Constant(self, n, fr):
        if n.value is Ellipsis or isinstance(n.value, bytes):
            raise Unsupported("constant")
        if isinstance(n.value, complex):
            raise Unsupported("complex")
        return n.value

    def e_Name(self, n, fr):
        f = fr
        while f is not None:
            if n.id in f.env:
                v = f.env[n.id]
                if isinstance(v, Carried):
                    raise NeedCarry(v.name)
                return v
            f = f.closure
        v = self.glob(fr.module, n.id) if fr.module is not None else None
        if v is not None:
            return v
        if fr.module is not None and n.id in fr.module.lazy:
            return None
        if n.id in ("__name__",):
            return fr.module.name
        if n.id in self.lib.BUILTINS or n.id in EXC:
            return Ext("builtins." + n.id)
        raise Unsupported("name %s" % n.id)

    def e_Attribute(self, n, fr):
        return self.getattr(self.eval(n.value, fr), n.attr)

    def e_Tuple(self, n, fr):
        return Tup(self.star_list(n.elts, fr))

    def star_list(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, fr)
                seq = self.contents(v)
                if any(s.binders or s.guard for s in seq.segs):
                    raise Unsupported("* of a symbolic sequence")
                out += [s.elem for s in seq.segs]
            else:
                out.append(self.eval(e, fr))
        return out

    def e_List(self, n, fr):
        self.at(n)
        return self.new_list(self.star_list(n.elts, fr))

    def e_Set(self, n, fr):
        return self.new_list(self.star_list(n.elts, fr), cls="set")

    def e_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, fr)
                for s in self.items(d).segs:
                    if s.binders or s.guard:
                        raise Unsupported("** of a symbolic dict")
                    items.append((s.elem.items[0], self.getitem(d, s.elem.items[0])))
            else:
                items.append((self.eval(k, fr), self.eval(v, fr)))
        return self.new_dict(items)

    def at(self, n):
        pass

    def e_BoolOp(self, n, fr):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, fr)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            c = self.choose(t)
            if isinstance(n.op, ast.And) and not c:
                return v if not isinstance(v, Sc) or v.t.sort() != B else False
            if isinstance(n.op, ast.Or) and c:
                return v if not isinstance(v, Sc) or v.t.sort() != B else True
        return v

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else Sc(z3.Not(t), "bool")
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else +v
        if isinstance(v, Sc) and v.t.sort() in (I, R):
            return Sc(-v.t, v.py) if isinstance(n.op, ast.USub) else v
        if isinstance(v, self.lib.Val) or isinstance(v, Ref):
            return self.lib.unary(self, n.op, v)
        raise Unsupported("unary operator on %r" % (v,))

    def e_IfExp(self, n, fr):
        t = self.truth(self.eval(n.test, fr))
        if isinstance(t, bool):
            return self.eval(n.body if t else n.orelse, fr)
        # pure scalar branches: conditional term, no fork
        if isinstance(n.body, (ast.Constant, ast.UnaryOp)) and isinstance(n.orelse, (ast.Constant, ast.UnaryOp)):
            a, b = self.eval(n.body, fr), self.eval(n.orelse, fr)
            if is_scalar(a) and is_scalar(b) and not isinstance(a, str) and not isinstance(b, str) and type(a) == type(b):
                x, y = term(a), term(b)
                return Sc(z3.If(t, x, y), "int" if x.sort() == I else "float" if x.sort() == R else "bool")
        return self.eval(n.body if self.choose(t) else n.orelse, fr)

    def e_Compare(self, n, fr):
        l = self.eval(n.left, fr)
        conds = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.eval(r, fr)
            c = self.compare(op, l, rv)
            if len(n.ops) == 1:
                return c
            conds.append(self.truth(c))
            l = rv
        if all(isinstance(c, bool) for c in conds):
            return all(conds)
        return Sc(conj([z3.BoolVal(c) if isinstance(c, bool) else c for c in conds]), "bool")

    def wrap(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return Sc(c, "bool")

    def compare(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Carried):
                raise NeedCarry(v.name)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.py_eq(a, b)
            if isinstance(c, (bool,)):
                return c if isinstance(op, ast.Eq) else not c
            if z3.is_expr(c):
                return self.wrap(c if isinstance(op, ast.Eq) else z3.Not(c))
            if isinstance(op, ast.Eq):
                return c
            if hasattr(c, "unary"):
                return c.unary(self, ast.Invert())
            if isinstance(c, Ref) and c.cls == "ndarray":
                def differs(i):
                    x = self.truth(self.lib.force(self, self.lib.cell(self, c, i)))
                    return (not x) if isinstance(x, bool) else self.wrap(z3.Not(x))

                return self.lib.new_array(self, self.lib.shape_vals(self, c), differs)
            t = self.truth(c)
            return self.wrap(z3.Not(t)) if not isinstance(t, bool) else not t
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                raise Unsupported("is on unknown value")
            mn = next((x for x in (a, b) if hasattr(x, "is_none")), None)
            if (a is None or b is None) and mn is not None:
                c = self.wrap(mn.is_none)
            elif a is None or b is None:
                c = a is None and b is None
            elif isinstance(a, bool) or isinstance(b, bool) or isinstance(a, (Ref, Cls, Ext)) or isinstance(b, (Ref, Cls, Ext)):
                c = self.wrap(self.eq(a, b))
            else:
                raise Unsupported("is")
            if isinstance(op, ast.Is):
                return c
            return (not c) if isinstance(c, bool) else self.wrap(z3.Not(c.t))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.member(a, b)
            if isinstance(c, bool):
                return c if isinstance(op, ast.In) else not c
            return self.wrap(c if isinstance(op, ast.In) else z3.Not(c))
        # order
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[type(op)]
        if isinstance(a, Ref) and isinstance(a.cls, Cls):
            T = self.schema.get(a.site)
            if T is not None and getattr(T, "order", None):
                return T.order(self, a, nm, b)
            f, _ = a.cls.find(nm)
            if f is None:
                raise Unsupported("order on %s" % a.cls.name)
            return self.call(Bound(f, a), [b], {})
        if isinstance(a, self.lib.Val) or isinstance(b, self.lib.Val) or isinstance(a, Ref) or isinstance(b, Ref):
            return self.lib.order(self, nm, a, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {"__lt__": a < b, "__le__": a <= b, "__gt__": a > b, "__ge__": a >= b}[nm]
        if is_scalar(a) and is_scalar(b):
            x, y = num2(term(a), term(b))
            if x.sort() not in (I, R):
                raise Unsupported("order on %s" % x.sort())
            return self.wrap({"__lt__": x < y, "__le__": x <= y, "__gt__": x > y, "__ge__": x >= y}[nm])
        raise Unsupported("order of %r and %r" % (a, b))

    def py_eq(self, a, b):
        if isinstance(a, self.lib.Val) or isinstance(b, self.lib.Val):
            return self.lib.val_eq(self, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(x.cls, Cls):
                f, _ = x.cls.find("__eq__")
                if f is not None and y is not None:
                    return self.call(Bound(f, x), [y], {})
        if isinstance(a, Ref) and isinstance(b, Ref) and (a.cls in ("list", "dict", "ndarray") or b.cls in ("list", "dict", "ndarray")):
            return self.lib.container_eq(self, a, b)
        if (isinstance(a, Ref) and a.cls == "ndarray") or (isinstance(b, Ref) and b.cls == "ndarray"):
            return self.lib.container_eq(self, a, b)
        return self.eq(a, b)

    def member(self, x, c):
        if isinstance(c, Ref) and c.cls in ("dict", "keys"):
            return self.dict_get(c, x) is not _NONE
        if isinstance(c, ExtBound) and c.name == "__dict__":
            return self.getattr_raw(c.self_, x) is not _NONE
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Unsupported("substring")
        if isinstance(c, self.lib.Val):
            return c.member(self, x)
        T = self.schema.get(c.site) if isinstance(c, Ref) else None
        if T is not None and hasattr(T, "member") and is_scalar(x):
            q = T.member(self, c, x)
            if not self.positions("seg", c, None):
                return q
            seq, conds = Seq(self.segs(c)), [q]
        else:
            seq, conds = Seq(self.segs(c)) if isinstance(c, Ref) and c.cls == "set" else self.contents(c), []
        for s in seq.segs:
            q = self.py_eq(x, s.elem)
            if not isinstance(q, bool) and not z3.is_expr(q):
                q = self.truth(q)
            if isinstance(q, bool):
                q = z3.BoolVal(q)
            q = conj(s.guard + [q])
            if s.binders and not z3.is_false(z3.simplify(q)):
                q = z3.Exists(s.binders, q)
            conds.append(q)
        c = z3.simplify(disj(conds))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        for v in (a, b):
            if isinstance(v, Carried):
                raise NeedCarry(v.name)
        if isinstance(op, ast.Mod) and (isinstance(a, str) or (isinstance(a, Sc) and a.t.sort() == S)):
            return self.lib.fmt(self, a, b)
        if isinstance(a, Ref) and isinstance(a.cls, Cls):
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}.get(type(op))
            f, _ = a.cls.find(nm) if nm else (None, None)
            if f is not None:
                return self.call(Bound(f, a), [b], {})
            raise Unsupported("operator on %s" % a.cls.name)
        if isinstance(a, self.lib.Val) or isinstance(b, self.lib.Val):
            return self.lib.val_binop(self, op, a, b)
        if isinstance(a, Ref) and a.cls == "list" and isinstance(op, ast.Add):
            r = self.new_list()
            tmp = Frame({}, None)
            for x in (a, b):
                self.loop(self.contents(x), lambda e: self.append(r, e), tmp, set())
            return r
        if (isinstance(a, Ref) and a.cls == "ndarray") or (isinstance(b, Ref) and b.cls == "ndarray"):
            return self.lib.array_binop(self, op, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add):
            return Tup(a.items + b.items)
        if isinstance(a, Ref) and a.cls == "list" and isinstance(op, ast.Mult):
            raise Unsupported("list repetition")
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError")
            except KeyError:
                raise Unsupported("operator")
        if is_scalar(a) and is_scalar(b):
            x, y = term(a), term(b)
            if S in (x.sort(), y.sort()):
                if isinstance(op, ast.Add) and x.sort() == y.sort():
                    return self.lib.concat(self, a, b)
                raise Unsupported("operator on str")
            if isinstance(op, ast.Div):
                x, y = real(num2(x, z3.IntVal(0))[0]), real(num2(y, z3.IntVal(0))[0])
                if not self.choose(y != 0):
                    raise PyRaise("ZeroDivisionError")
                return Sc(x / y, "float")
            x, y = num2(x, y)
            if x.sort() == B:
                x, y = z3.If(x, 1, 0), z3.If(y, 1, 0)
            py = "int" if x.sort() == I else "float"
            if isinstance(op, ast.Add):
                return self.num(x + y, py)
            if isinstance(op, ast.Sub):
                return self.num(x - y, py)
            if isinstance(op, ast.Mult):
                return self.num(x * y, py)
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and x.sort() == I:
                if not self.choose(y > 0):
                    raise Unsupported("modulo by a non positive number")
                return self.num(x % y if isinstance(op, ast.Mod) else x / y, py)
            raise Unsupported("operator %s" % type(op).__name__)
        raise Unsupported("operator on %r and %r" % (a, b))

    def num(self, t, py):
        t = z3.simplify(t)
        if z3.is_int_value(t) and py == "int":
            return t.as_long()
        return Sc(t, py)

    def e_Subscript(self, n, fr):
        o = self.eval(n.value, fr)
        return self.getitem(o, self.index_value(n.slice, fr))

    def index_value(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: self.eval(x, fr) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return Tup([self.index_value(e, fr) for e in s.elts])
        return self.eval(s, fr)

    def e_JoinedStr(self, n, fr):
        args, pat = [], ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                pat += str(v.value).replace("%", "%%")
            else:
                args.append(self.eval(v.value, fr))
                pat += "%s"
        return self.lib.fmt(self, pat, Tup(args))

    def e_Lambda(self, n, fr):
        d = {}
        return Func("%s.<lambda>" % fr.name, n, fr.module, closure=fr)

    def e_NamedExpr(self, n, fr):
        v = self.eval(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    # comprehensions
    def comp(self, gens, fr, emit):
        f2 = Frame({}, fr.module, closure=fr, cls=fr.cls, name=fr.name, self_=fr.self_)

        def run(i):
            if i == len(gens):
                emit(f2)
                return
            g = gens[i]
            it = self.eval(g.iter, f2 if i else fr)
            seq = self.contents(it)

            def body(e):
                self.assign(g.target, e, f2)
                for c in g.ifs:
                    if not self.test(c, f2):
                        return
                run(i + 1)

            self.loop(seq, body, f2, assigned_names([g.target]) if i == 0 else assigned_names([g.target]))

        run(0)

    def e_ListComp(self, n, fr):
        r = self.new_list()
        self.comp(n.generators, fr, lambda f: self.append(r, self.eval(n.elt, f)))
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr):
        r = self.alloc("set")
        self.comp(n.generators, fr, lambda f: self.append(r, self.eval(n.elt, f)))
        return r

    def e_DictComp(self, n, fr):
        r = self.new_dict()

        def emit(f):
            k = self.eval(n.key, f)
            self.setitem(r, k, self.eval(n.value, f))

        self.comp(n.generators, fr, emit)
        return r

    # ------------------------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and f.self_ is None:
                f = f.closure
            return Super(f.cls, f.self_)
        fn = self.eval(n.func, fr)
        if self.lib.is_noop(fn):
            for a in list(n.args) + [k.value for k in n.keywords]:
                try:
                    self.eval(a, fr)
                except Unsupported:
                    pass  # value of a log message: not used
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.star_list([a], fr)
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                for s in self.items(d).segs:
                    key = s.elem.items[0]
                    if s.binders or s.guard or not isinstance(key, str):
                        kw["**"] = d  # keyword arguments of unknown names
                        break
                    kw[key] = self.getitem(d, key)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        self.stack.append("%d:%d" % (n.lineno, n.col_offset))
        try:
            return self.call(fn, args, kw)
        finally:
            if self.stack:
                self.stack.pop()

    def call(self, fn, args, kw):
        if isinstance(fn, Carried):
            raise NeedCarry(fn.name)
        if isinstance(fn, Bound):
            f = fn.func
            if isinstance(f, Func) and f.kind == "staticmethod":
                return self.call(f, args, kw)
            return self.call(f, [fn.self_] + list(args), kw)
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Ext) and fn.name.startswith("builtins.") and fn.name[9:] in EXC and not kw:
            return PyRaise(fn.name[9:], args)
        if isinstance(fn, Ext):
            h = self.ext.get(fn.name)
            if h is None:
                raise Unsupported("call of %s" % fn.name)
            if not fn.name.startswith("builtins."):
                self.trusted.add(fn.name)
            return h(self, args, kw)
        if isinstance(fn, ExtBound):
            h = self.methods.get(fn.name)
            if h is None:
                raise Unsupported("call of %s" % fn.name)
            if fn.name.split(".")[0] not in ("dict", "list", "str", "tuple", "keys"):
                self.trusted.add(fn.name)
            return h(self, fn.self_, args, kw)
        if isinstance(fn, Partial):
            return self.call(fn.func, list(fn.args) + list(args), dict(fn.kw, **kw))
        if isinstance(fn, Ref) and isinstance(fn.cls, Cls):
            f, _ = fn.cls.find("__call__")
            if f is not None:
                return self.call(Bound(f, fn), args, kw)
        if isinstance(fn, self.lib.Val):
            return fn.call(self, args, kw)
        raise Unsupported("call of %r" % (fn,))

    def instantiate(self, c, args, kw):
        h = self.contracts.get(c.name)
        if h is not None:
            return h(self, args, kw)
        if any(isinstance(b, Ext) and b.name.startswith("builtins.") and b.name[9:] in EXC for k in c.mro() for b in k.bases):
            f, _ = c.find("__init__")
            if f is None:
                return PyRaise(c, args)
            r = self.alloc(c)
            self.call(Bound(f, r), args, kw)
            a = self.getattr_raw(r, "args")
            return PyRaise(c, list(a.items) if isinstance(a, Tup) else args)
        r = self.alloc(c)
        f, _ = c.find("__init__")
        if f is not None:
            self.call(Bound(f, r), args, kw)
        elif args or kw:
            raise Unsupported("constructor of %s" % c.name)
        return r

    def bind_args(self, fn, args, kw):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", ("arguments",))
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        star = kw.get("**")
        if star is not None:
            if a.kwarg is None or len(kw) > 1:
                raise Unsupported("** of a symbolic dict")
            kw = {}
        for k, v in kw.items():
            if k in env and k in names:
                raise PyRaise("TypeError", ("argument %s given twice" % k,))
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                raise PyRaise("TypeError", ("unexpected argument %s" % k,))
        if a.kwarg is not None:
            if star is not None:
                # a new dict with the same entries
                env[a.kwarg.arg] = self.lib.deepcopy(self, star)
            else:
                env[a.kwarg.arg] = self.new_dict(rest.items())
        dfr = Frame({}, fn.module, closure=fn.closure)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                env[n] = self.eval(d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval(d, dfr)
        for n in names + kwonly:
            if n not in env:
                raise PyRaise("TypeError", ("missing argument %s" % n,))
        return env

    def call_func(self, fn, args, kw):
        h = self.contracts.get(fn.name)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion in %s" % fn.name)
        env = self.bind_args(fn, args, kw)
        self_ = args[0] if fn.cls is not None and fn.kind in ("method", "property", "classmethod") and args else None
        fr = Frame(env, fn.module, closure=fn.closure, cls=fn.cls, name=fn.name, self_=self_)
        self.functions.add(fn.name)
        self.stack.append(fn.name.split(".")[-1])
        n = len(self.stack)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fn.node)):
                raise Unsupported("generator")
            self.exec_block(fn.node.body, fr)
            return None
        except ReturnEx as e:
            return e.v
        finally:
            self.depth -= 1
            del self.stack[n - 1:]
