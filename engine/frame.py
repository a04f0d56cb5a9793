"""Statements and expressions."""
import ast
from fractions import Fraction as Q

from . import terms as T
from .terms import Node, Unsupported, const
from . import tensor as TT
from .tensor import PyErr, Top, Tensor, J, MISSING, State, Slice
from . import interp as I


class Frame:
    def __init__(self, it, scope, func, mod):
        self.it, self.scope, self.func, self.mod = it, scope, func, mod
        self.yields = None
        self.cls = None

    # ------------------------------------------------------------ names
    def lookup(self, name):
        s = self.scope
        if name in s.local_names and name not in s.globals_decl:
            v = s.cells.get(name, MISSING)
            if v is not MISSING:
                return v
            if name not in s.nonlocals:
                if s is not s.glob:
                    raise PyErr("UnboundLocalError", "cannot access local variable '%s'" % name)
        if name in s.globals_decl:
            s = s.glob
        while s is not None:
            v = s.cells.get(name, MISSING)
            if v is not MISSING:
                return v
            s = s.parent
        if self.mod is not None:
            v = self.mod.cells.get(name, MISSING)
            if v is not MISSING:
                return v
        v = self.it.builtins.get(name, MISSING)
        if v is MISSING:
            raise PyErr("NameError", "name '%s' is not defined" % name)
        return v

    def store(self, name, v):
        s = self.scope
        if name in s.globals_decl:
            self.mod.cell_set(name, v)
            return
        if name in s.nonlocals:
            p = s.parent
            while p is not None:
                if name in p.cells:
                    p.cell_set(name, v)
                    return
                p = p.parent
        s.cell_set(name, v)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def body_block(self, stmts):
        """statements whose continuation is the return of the function"""
        it = self.it
        for k, s in enumerate(stmts):
            if isinstance(s, ast.If) and (I.has_jump(s.body) or I.has_jump(s.orelse)):
                it.steps += 1
                self.here(s)
                c = it.truth_node(self.expr(s.test))
                rest = list(stmts[k + 1:])
                if isinstance(c, bool):
                    return self.body_block(list(s.body if c else s.orelse) + rest)
                if c.fv and T.CTX.eqs.get(c) is None:
                    return self.branch_returns(c, list(s.body) + rest, list(s.orelse) + rest)
                return self.body_block(list(s.body if it.decide(c) else s.orelse) + rest)
            self.stmt(s)

    def branch_returns(self, c, b1, b2):
        """both continuations under a condition on an index variable, joined"""
        res = []
        for b in (b1, b2):
            J.mark()
            try:
                v = None
                try:
                    self.body_block(b)
                except I.ReturnEx as e:
                    v = e.v
                except PyErr as e:
                    raise Unsupported("exception under a condition on a loop variable: %s" % e)
                res.append((v, J.written()))
            finally:
                J.undo()
        (v1, w1), (v2, w2) = res
        keys = dict(w1)
        keys.update({k: v for k, v in w2.items() if k not in keys})
        for k, (cont, key, old, _) in keys.items():
            if cont is self.scope:
                continue
            a = w1[k][3] if k in w1 else cont.cell_get(key)
            b = w2[k][3] if k in w2 else cont.cell_get(key)
            cont.cell_set(key, self.merge(c, cont, key, a, b))
        raise I.ReturnEx(v1 if v1 is v2 else self.it.ite_value(c, v1, v2))

    def here(self, n):
        m = self.mod
        if m is not None and not getattr(m, "islib", False):
            T.CTX.cur_loc = (m.path, n.lineno, self.func.qual if self.func else "<module>")

    def stmt(self, s):
        it = self.it
        it.steps += 1
        if it.steps > it.maxsteps:
            raise Unsupported("step budget")
        self.here(s)
        getattr(self, "s_" + type(s).__name__, self.s_unknown)(s)

    def s_unknown(self, s):
        raise Unsupported("statement %s" % type(s).__name__)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            if self.yields is None:
                raise Unsupported("yield")
            self.yields.append(self.expr(s.value.value) if s.value.value else None)
            return
        if isinstance(s.value, ast.YieldFrom):
            self.yields.extend(self.it.concrete(self.expr(s.value.value)))
            return
        self.expr(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = I.OPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.store(t.id, self.aug(op, cur, self.expr(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            cur = self.it.getattr(o, t.attr)
            self.it.setattr(o, t.attr, self.aug(op, cur, self.expr(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.index_expr(t.slice)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.aug(op, cur, self.expr(s.value)))
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, cur, v):
        from . import torchmodel
        if isinstance(cur, Tensor):
            if isinstance(v, Top):
                raise Unsupported("in-place op with unknown")
            return torchmodel.inplace_bin(self.it, op, cur, v)
        if isinstance(cur, I.LList) and op == "+" and cur.kind == "list":
            items = v.items if isinstance(v, I.LList) else tuple(self.it.concrete(v))
            cur.set(cur.items + tuple(items))
            return cur
        if isinstance(cur, I.Obj):
            m, _ = cur.cls.lookup("__i%s__" % I.DUNDER[op])
            if m is not MISSING:
                return self.it.call(m, [cur, v])
        return I.binop(self.it, op, cur, v)

    def assign(self, t, v):
        it = self.it
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Top):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Top(v.why))
                return
            vals = it.concrete(v)
            n = len(t.elts)
            if star:
                k = star[0]
                if len(vals) < n - 1:
                    raise PyErr("ValueError", "not enough values to unpack")
                tail = n - k - 1
                mid = vals[k:len(vals) - tail]
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, I.LList(mid))
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x)
                return
            if len(vals) != n:
                raise PyErr("ValueError", "cannot unpack %d values into %d" % (len(vals), n))
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            it.setattr(self.expr(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value), self.index_expr(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.scope.cell_del(t.id)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                if isinstance(o, I.Obj):
                    if t.attr in o.cells:
                        o.cell_del(t.attr)
                    else:
                        for reg in ("_parameters", "_buffers", "_modules"):
                            d = o.cell_get(reg)
                            if isinstance(d, I.LDict) and d.get(t.attr) is not MISSING:
                                d.remove(t.attr)
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.index_expr(t.slice)
                if isinstance(o, I.LDict):
                    if o.get(k) is MISSING:
                        raise PyErr("KeyError", repr(k))
                    o.remove(k)
                elif isinstance(o, I.LList):
                    items = list(self.it.concrete(o))
                    if isinstance(k, Slice):
                        del items[self.pyslice(k)]
                    else:
                        del items[TT.int_of(k)]
                    o.set(items)
                else:
                    raise Unsupported("del item")

    def s_If(self, s):
        it = self.it
        c = it.truth_node(self.expr(s.test))
        if isinstance(c, bool):
            self.block(s.body if c else s.orelse)
            return
        if c.fv and T.CTX.eqs.get(c) is None:
            self.ifconvert(c, s.body, s.orelse)
            return
        self.block(s.body if it.decide(c) else s.orelse)

    def ifconvert(self, c, body, orelse):
        if I.has_jump(body) or I.has_jump(orelse):
            raise Unsupported("jump under a condition on a loop variable: %s" % T.show(c))
        it = self.it
        J.mark()
        self.block(body)
        w1 = J.written()
        J.undo()
        J.mark()
        self.block(orelse)
        w2 = J.written()
        J.undo()
        keys = dict(w1)
        keys.update({k: v for k, v in w2.items() if k not in keys})
        for k, (cont, key, old, _) in keys.items():
            a = w1[k][3] if k in w1 else cont.cell_get(key)
            b = w2[k][3] if k in w2 else cont.cell_get(key)
            cont.cell_set(key, self.merge(c, cont, key, a, b))

    def merge(self, c, cont, key, a, b):
        if a is b:
            return a
        if isinstance(cont, TT.Storage):
            if key == "fn":
                return TT.memo(lambda *i: T.ite(c, a(*i), b(*i)))
            if key == "shape":
                if len(a) == len(b) and all(TT.same_dim(x, y) for x, y in zip(a, b)):
                    return a
                raise Unsupported("merge of shapes")
        if a is MISSING or b is MISSING:
            return I.Poison()
        try:
            return self.it.ite_value(c, a, b)
        except Unsupported:
            return I.Poison()

    # ---- loops
    def s_For(self, s):
        it = self.it
        seq = it.iterate(self.expr(s.iter))
        if isinstance(seq, I.SymSeq):
            n = I.simp(seq.count, False)
            if isinstance(n, int):
                seq = [seq.at(const(k)) for k in range(n)]
        if isinstance(seq, I.SymSeq):
            self.symloop(seq, lambda j: self.assign(s.target, seq.at(j)), s.body, s)
            self.block(s.orelse)
            return
        broke = False
        for v in seq:
            it.steps += 1
            self.assign(s.target, v)
            try:
                self.block(s.body)
            except I.BreakEx:
                broke = True
                break
            except I.ContinueEx:
                continue
        if not broke:
            self.block(s.orelse)

    def s_While(self, s):
        it = self.it
        n = forks = 0
        self.here(s)
        if self.while_as_for(s):
            self.block(s.orelse)
            return
        while True:
            self.here(s)
            c = it.truth_node(self.expr(s.test))
            if not isinstance(c, bool):
                if c.fv:
                    raise Unsupported("while on a loop variable")
                c = it.decide(c)
                forks += 1
                if forks > 4:
                    raise Unsupported("while loop of symbolic length")
            if not c:
                self.block(s.orelse)
                return
            n += 1
            if n > 4000:
                raise Unsupported("while loop too long")
            it.steps += 1
            try:
                self.block(s.body)
            except I.BreakEx:
                return
            except I.ContinueEx:
                continue

    def while_as_for(self, s):
        """while i < N: ...; i += 1   summarised as a counted loop where N is symbolic"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))):
            return False
        left, right = t.left, t.comparators[0]
        if isinstance(t.ops[0], (ast.Gt, ast.GtE)):
            left, right = right, left
        if not isinstance(left, ast.Name) or not s.body:
            return False
        name = left.id
        x = s.body[-1]
        one = lambda e: isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1
        var = lambda e: isinstance(e, ast.Name) and e.id == name
        if isinstance(x, ast.AugAssign):
            if not (var(x.target) and isinstance(x.op, ast.Add) and one(x.value)):
                return False
        elif not (isinstance(x, ast.Assign) and len(x.targets) == 1 and var(x.targets[0]) and isinstance(x.value, ast.BinOp) and
                  isinstance(x.value.op, ast.Add) and (var(x.value.left) and one(x.value.right) or var(x.value.right) and one(x.value.left))):
            return False
        stored = {n.id for x in s.body[:-1] for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        called = {n.func.value.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                  isinstance(n.func.value, ast.Name)}
        used = {n.id for n in ast.walk(right) if isinstance(n, ast.Name)}
        if name in stored or used & stored or (used & called and not isinstance(right, ast.Name)) or name in used:
            return False
        for x in s.body[:-1]:
            if any(isinstance(n, (ast.Continue, ast.Break)) for n in ast.walk(x)):
                return False
        start = self.lookup(name)
        if not I.is_inty(start):
            return False
        hi = self.expr(right)
        if not I.is_inty(hi) or not isinstance(I.simp(I.node_of(hi), False), T.Node):
            return False
        hin, st = I.node_of(hi), I.node_of(start)
        if isinstance(t.ops[0], (ast.LtE, ast.GtE)):
            hin = T.add(hin, const(1))
        cnt = T.sub(hin, st)
        if not T.nonneg(cnt):
            cnt = T.app("max", const(0), cnt)
        seq = I.SymSeq(cnt, lambda k: I.simp(T.add(st, k), False))
        self.symloop(seq, lambda j: self.store(name, seq.at(j)), s.body[:-1], s)
        self.store(name, I.simp(T.add(st, cnt), False))
        return True

    def symloop(self, seq, bindt, body, s):
        it = self.it
        body = self.split_continue(body)
        if any(isinstance(x, ast.Raise) for x in body):
            # an unconditional raise: the first iteration decides
            c = it.truth_node(seq.count)
            if c is True or (c is not False and it.decide(c)):
                bindt(const(0))
                self.block(body)
            return
        if self.has_break(body):
            raise Unsupported("break/return inside a loop of symbolic length")
        # the number of iterations must be positive for "last value" semantics
        pos = T.positive(seq.count)
        if not pos:
            c = T.lt0(T.neg(seq.count))
            if c.op == "b":
                if not c.args[0]:
                    return
                pos = True
            elif not c.fv:
                if not it.decide(c):
                    return
                pos = True
        j = T.var(seq.count)
        # pass 1: which cells does an iteration write
        rand0 = it.rand
        snap_logs = len(it.logs)
        J.mark()
        it.loopvars.append(j)
        try:
            bindt(j)
            self.block(body)
            W = J.written()
        finally:
            it.loopvars.pop()
            J.undo()
        it.rand = rand0
        # pass 2: with placeholders for the values at the start of an iteration
        J.mark()
        ph = {}
        for k, (cont, key, old, new) in W.items():
            ph[k] = self.placeholder(cont, key, old, j)
            if ph[k] is not None:
                cont.cell_set(key, ph[k][0])
        it.loopvars.append(j)
        start = next(TT.Cells.births)
        try:
            bindt(j)
            self.block(body)
            W2 = J.written()
        finally:
            it.loopvars.pop()
        J.undo()
        for k, (cont, key, old, new) in list(W2.items()):
            if cont.birth > start and new is not MISSING:
                # created inside the iteration: keeps its final state, seen only through values that escape
                cont.cell_set(key, new)
                del W2[k]
        names = {p[1] for p in ph.values() if p is not None and p[1]}
        out = []
        for k, (cont, key, old, new) in W2.items():
            out.append((cont, key, self.summary(cont, key, old, new, ph.get(k), j, seq.count, names, pos)))
        for cont, key, v in out:
            if v is MISSING:
                continue
            cont.cell_set(key, v)

    def split_continue(self, body):
        """rewrite  `if c: continue; REST`  as  `if not c: REST`"""
        out = []
        for i, x in enumerate(body):
            if isinstance(x, ast.If) and not x.orelse and x.body and isinstance(x.body[-1], ast.Continue) and \
                    not any(isinstance(n, (ast.Break, ast.Return)) for b in x.body for n in ast.walk(b)):
                rest = self.split_continue(body[i + 1:])
                new = ast.If(test=x.test, body=x.body[:-1] or [ast.copy_location(ast.Pass(), x)], orelse=rest or [])
                ast.copy_location(new, x)
                out.append(new)
                return out
            out.append(x)
        return out

    def has_break(self, body):
        return any(isinstance(n, (ast.Break, ast.Return, ast.Continue)) for b in body for n in ast.walk(b)
                   if not isinstance(b, (ast.FunctionDef,)))

    def placeholder(self, cont, key, old, j):
        if old is MISSING:
            return None
        nm = "loopin%d" % TT.fresh_id()
        if isinstance(cont, TT.Storage):
            if key == "fn":
                ci, cb = cont.dtype == "long", cont.dtype == "bool"
                return (TT.memo(lambda *i: T.elem(nm, i, ci, cb)), nm)
            return None
        if isinstance(cont, I.LList) and key == "items":
            return ((I.ListMark(),), None)
        if isinstance(cont, I.LDict):
            return None
        if isinstance(old, bool):
            return (I.Poison(), None)
        if I.isnum(old):
            n = I.node_of(old)
            if n.isbool:
                return (I.Poison(), None)
            return (T.elem(nm, (), I.is_inty(old)), nm)
        if isinstance(old, Tensor):
            if old.mask is not None:
                return (I.Poison(), None)
            # a rebinding of the variable: same shape assumed, checked in the summary
            return (Tensor(TT.Storage(old.shape, lambda *i: T.elem(nm, i, old.dtype == "long", old.dtype == "bool"), old.dtype),
                           old.shape), nm)
        return (I.Poison(), None)

    def summary(self, cont, key, old, new, ph, j, count, names, pos):
        it = self.it
        lastj = T.sub(count, const(1))

        def atlast(v):
            return subst_value(v, {j: lastj})
        if isinstance(cont, TT.Storage):
            if key == "shape":
                if any(j in x.fv for x in new):
                    raise Unsupported("shape depends on the iteration")
                return new
            if old is MISSING:
                return new   # storage created inside the loop
            nm = ph[1]
            return TT.memo(lambda *i: elem_summary(new(*i), T.elem(nm, i, cont.dtype == "long", cont.dtype == "bool"),
                                                   lambda: old(*i), j, names, nm))
        if isinstance(cont, I.LList) and key == "items" and old is not MISSING:
            if new and isinstance(new[0], I.ListMark):
                app = new[1:]
                if any(isinstance(x, (I.Family, I.ListMark)) for x in app):
                    if len(app) == 1 and isinstance(app[0], I.Family):
                        raise Unsupported("nested list growth")
                    raise Unsupported("list growth")
                if not app:
                    return old
                for x in app:
                    if mentions(x, names):
                        raise Unsupported("appended value depends on loop-carried state")
                if len(app) == 1:
                    v = app[0]
                    return old + (I.Family(count, lambda k: subst_value(v, {j: k})),)
                m = len(app)

                def at(k):
                    q, r = T.app("fdiv", k, const(m)), T.app("mod", k, const(m))
                    if r.op == "q":
                        return subst_value(app[int(T.cval(r))], {j: q})
                    out = subst_value(app[-1], {j: q})
                    for z in reversed(range(m - 1)):
                        out = it.ite_value(T.eq(r, const(z)), subst_value(app[z], {j: q}), out)
                    return out
                return old + (I.Family(T.mul(count, const(m)), at),)
            raise Unsupported("list rewritten in a summarised loop")
        if isinstance(cont, I.LDict):
            raise Unsupported("dict written in a summarised loop")
        if ph is not None and new is ph[0]:
            return old
        if isinstance(new, (I.Poison, Top)):
            return new
        if old is MISSING or ph is None or ph[1] is None or not (I.isnum(new) or isinstance(new, Tensor)):
            if mentions(new, names):
                return I.Poison()
            try:
                return atlast(new)
            except Unsupported:
                return I.Poison()
        nm = ph[1]
        if I.isnum(new):
            n = I.node_of(new)
            if not I.isnum(old):
                return I.Poison()
            try:
                return I.simp(elem_summary(n, ph[0], lambda: I.node_of(old), j, names, nm), not (I.is_inty(old) and n.isint))
            except Unsupported:
                return I.Poison()
        if isinstance(new, Tensor) and isinstance(old, Tensor):
            if not mentions(new, names):
                return atlast(new)
            if len(new.shape) != len(old.shape) or any(not TT.same_dim(a, b) for a, b in zip(new.shape, old.shape)):
                raise Unsupported("loop-carried tensor changes shape")
            so, sn = old.snap(), new.snap()
            isl, isb = old.dtype == "long", old.dtype == "bool"
            return Tensor(TT.Storage(new.shape, lambda *i: elem_summary(sn(*i), T.elem(nm, i, isl, isb), lambda: so(*i), j,
                                                                      names, nm), new.dtype), new.shape)
        if isinstance(new, Tensor):
            # e.g. acc = 0; acc = acc + tensor
            if not I.isnum(old):
                return I.Poison()
            o = I.node_of(old)
            p = ph[0]
            sn = new.snap()
            if new.detached:
                raise Unsupported("detached accumulation")
            return Tensor(TT.Storage(new.shape, lambda *i: elem_summary(sn(*i), p, lambda: o, j, names, nm), new.dtype), new.shape)
        return I.Poison()

    def s_Return(self, s):
        raise I.ReturnEx(self.expr(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise I.BreakEx()

    def s_Continue(self, s):
        raise I.ContinueEx()

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self.it, "cur_exc", None)
            if cur is not None:
                raise cur
            raise PyErr("RuntimeError", "No active exception to reraise")
        raise self.it.make_exc(self.expr(s.exc))

    def s_Assert(self, s):
        c = self.it.truth_node(self.expr(s.test))
        if isinstance(c, bool):
            if not c:
                raise PyErr("AssertionError", "")
            return
        if c.fv:
            raise Unsupported("assert on loop variable")
        if not self.it.decide(c):
            raise PyErr("AssertionError", "")

    def s_Try(self, s):
        it = self.it
        ng, dep, st = State.nograd, it.depth, len(it.stack)
        try:
            try:
                self.block(s.body)
            except PyErr as e:
                for h in s.handlers:
                    if h.type is None or it.exc_matches(e, self.expr(h.type)):
                        State.nograd = ng
                        it.depth = dep
                        del it.stack[st:]
                        if h.name:
                            o = e.obj
                            if o is None:
                                o = I.Obj(it.builtins.get(e.name, it.builtins["Exception"]))
                                o.cells["args"] = (e.msg,)
                            self.store(h.name, o)
                        prev = getattr(it, "cur_exc", None)
                        it.cur_exc = e
                        try:
                            self.block(h.body)
                        finally:
                            it.cur_exc = prev
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        finally:
            if s.finalbody:
                self.block(s.finalbody)

    def s_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            self.block(body)
            return
        i = items[0]
        cm = self.expr(i.context_expr)
        from . import torchmodel
        if isinstance(cm, torchmodel.GradMode):
            old = State.nograd
            State.nograd = 1 if cm.off else 0
            try:
                self.with_items(items[1:], body)
            finally:
                State.nograd = old
            return
        if isinstance(cm, I.Obj):
            v = self.it.call(self.it.getattr(cm, "__enter__"), [])
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
            self.with_items(items[1:], body)
            self.it.call(self.it.getattr(cm, "__exit__"), [None, None, None])
            return
        if i.optional_vars is not None:
            self.assign(i.optional_vars, Top("context"))
        self.with_items(items[1:], body)

    def s_FunctionDef(self, s):
        self.store(s.name, self.decorate(s, self.make_func(s)))

    def decorate(self, s, f):
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ("setter",) and isinstance(d.value, ast.Name):
                p = self.scope.cells.get(d.value.id)
                f = I.Prop(p.fget, f)
                continue
            dv = self.expr(d)
            from . import torchmodel
            if isinstance(dv, torchmodel.GradMode):
                f = I.NoGradWrap(f) if dv.off else f
                continue
            if isinstance(dv, I.ExtMod):
                r = torchmodel.ext_decorator(self.it, dv.path, f)
                f = r
                continue
            if isinstance(dv, Top):
                continue
            f = self.it.call(dv, [f])
        return f

    def make_func(self, s):
        a = s.args
        defaults = [self.expr(d) for d in a.defaults]
        kwd = {}
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[n.arg] = self.expr(d)
        sc = self.scope
        if self.cls is not None or isinstance(sc, I.PyModule) is False and getattr(sc, "isclass", False):
            parent = sc.parent
        else:
            parent = sc
        name = getattr(s, "name", "<lambda>")
        q = name
        if getattr(sc, "isclass", False):
            q = sc.qual + "." + name
        elif self.func is not None:
            q = self.func.qual + "." + name
        f = I.Func(s, parent, self.mod, q, defaults, kwd)
        f.cls = getattr(sc, "clsref", None)
        if f.cls is None and self.func is not None:
            f.cls = self.func.cls
        return f

    def s_ClassDef(self, s):
        it = self.it
        from . import torchmodel
        bases = []
        for b in s.bases:
            v = self.expr(b)
            if isinstance(v, I.ExtMod):
                v = torchmodel.ext_class(it, v.path)
            if isinstance(v, I.BType):
                v = it.builtins["object"]
            if isinstance(v, Top):
                v = it.builtins["object"]
            if not isinstance(v, I.Class):
                raise Unsupported("base class %r" % (v,))
            bases.append(v)
        if not bases:
            bases = [it.builtins["object"]]
        qual = s.name if not getattr(self.scope, "isclass", False) else self.scope.qual + "." + s.name
        sc = I.Scope(self.scope, self.mod, set())
        sc.isclass = True
        sc.qual = qual
        sc.local_names = set()
        ref = [None]
        sc.clsref = ref
        fr = Frame(it, sc, self.func, self.mod)
        fr.block(s.body)
        c = I.Class(s.name, bases, self.mod, qual)
        ref[0] = c
        for k, v in sc.cells.items():
            c.cells[k] = v
        c.cells.setdefault("__name__", s.name)
        v = c
        for d in reversed(s.decorator_list):
            dv = self.expr(d)
            if isinstance(dv, (I.ExtMod, Top)):
                if isinstance(dv, I.ExtMod) and dv.path.startswith("dataclasses"):
                    torchmodel.make_dataclass(it, c, s)
                continue
            v = it.call(dv, [v])
        self.store(s.name, v)

    def s_Import(self, s):
        it = self.it
        for a in s.names:
            top = a.name.split(".")[0]
            if it.internal(a.name):
                m = it.module(a.name)
                self.store(a.asname or top, m if a.asname else it.module(top))
            else:
                self.store(a.asname or top, I.ExtMod(a.name if a.asname else top))

    def s_ImportFrom(self, s):
        it = self.it
        base = s.module or ""
        if s.level:
            parts = self.mod.name.split(".")
            if not self.mod.ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        if it.internal(base):
            m = it.module(base)
            for a in s.names:
                if a.name == "*":
                    al = m.cells.get("__all__", MISSING)
                    names = it.concrete(al) if al is not MISSING else [k for k in m.cells if not k.startswith("_")]
                    for k in names:
                        self.store(k, it.getattr(m, k))
                else:
                    v = m.cells.get(a.name, MISSING)
                    if v is MISSING:
                        if it.find(base + "." + a.name):
                            v = it.module(base + "." + a.name)
                        else:
                            raise PyErr("ImportError", "cannot import name '%s' from '%s'" % (a.name, base))
                    self.store(a.asname or a.name, v)
        else:
            from . import torchmodel
            for a in s.names:
                if a.name == "*":
                    continue
                self.store(a.asname or a.name, torchmodel.ext_attr(it, base, a.name))

    # ------------------------------------------------------------ expressions
    def expr(self, e):
        return getattr(self, "e_" + type(e).__name__, self.e_unknown)(e)

    def e_unknown(self, e):
        raise Unsupported("expression %s" % type(e).__name__)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return I.PF(v)
        if isinstance(v, complex):
            raise Unsupported("complex")
        return v

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        return I.LList(self.elts(e.elts, True))

    def e_Set(self, e):
        out, seen = [], set()
        for v in self.elts(e.elts):
            if I.dkey(v) not in seen:
                seen.add(I.dkey(v))
                out.append(v)
        return I.LSet(out)

    def elts(self, es, fam=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                if fam and isinstance(v, I.LList):
                    out.extend(v.items)
                else:
                    out.extend(self.it.concrete(v))
            else:
                out.append(self.expr(x))
        return out

    def e_Dict(self, e):
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.expr(v)
                if not isinstance(d, I.LDict):
                    raise Unsupported("dict splat")
                pairs.extend(d.pairs())
            else:
                pairs.append((self.expr(k), self.expr(v)))
        return I.LDict(pairs)

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.expr(v.value)
                out.append(self.fmt(x))
        return "".join(out)

    def fmt(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, (int, I.PF)) or x is None:
            return repr(x)
        if isinstance(x, Node):
            return T.show(x)
        return "<%s>" % I.typename(x)

    def e_FormattedValue(self, e):
        return self.fmt(self.expr(e.value))

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        self.here(e)
        return I.binop(self.it, I.OPS[type(e.op)], a, b)

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        r = self.unary(e, v)
        if isinstance(r, Tensor) and r.st is not v.st:
            r.st.dev, r.st.prec = v.st.dev, v.st.prec
        return r

    def unary(self, e, v):
        if isinstance(e.op, ast.Not):
            return I.negate(self.it.truth_node(v)) if not isinstance(v, Top) else Top("not")
        if isinstance(v, Top):
            return v
        if isinstance(e.op, ast.USub):
            if isinstance(v, Tensor):
                if v.dtype == "bool":
                    raise PyErr("RuntimeError", "Negation of a bool tensor")
                return TT.ew(T.neg, v)
            if I.isnum(v):
                return I.num_bin(self.it, "*", -1, v)
            if isinstance(v, I.Obj):
                return self.it.call(self.it.getattr(v, "__neg__"), [])
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Tensor) and v.dtype == "bool":
                return TT.ew(T.not_, v, dtype="bool")
            if isinstance(v, bool) or isinstance(v, int):
                return ~v
            if isinstance(v, Tensor) and v.dtype == "long":
                return TT.ew(lambda x: T.sub(T.neg(x), const(1)), v)
        raise PyErr("TypeError", "bad operand type for unary operator: %s" % I.typename(v))

    def e_BoolOp(self, e):
        it = self.it
        isand = isinstance(e.op, ast.And)
        acc = None
        for k, x in enumerate(e.values):
            v = self.expr(x)
            lastv = k == len(e.values) - 1
            t = it.truth_node(v) if not (lastv and acc is None) else None
            if lastv and acc is None:
                return v
            if isinstance(t, bool):
                if isand and not t or (not isand and t):
                    if acc is None:
                        return v
                    return False if isand else True   # acc and False
                if lastv:
                    if isinstance(v, (bool, Node)):
                        return I.simp(acc)
                    raise Unsupported("mixed boolean expression")
                continue
            # undecided
            if not isinstance(v, Node) or not v.isbool:
                if isinstance(v, Tensor) or (isinstance(v, Node)):
                    # value semantics: decide
                    if t.fv:
                        raise Unsupported("boolean operator on loop variable value")
                    d = it.decide(t)
                    if isand and not d or (not isand and d):
                        return v
                    if lastv:
                        return v
                    continue
            # short circuit effects: split when later operands might raise
            if not t.fv and not self.pure_tail(e.values[k + 1:]):
                d = it.decide(t)
                if isand and not d:
                    return False
                if not isand and d:
                    return True
                if lastv:
                    return d if acc is None else I.simp(acc)
                continue
            acc = t if acc is None else (T.and_(acc, t) if isand else T.or_(acc, t))
            if acc.op == "b" and acc.args[0] != isand:
                return acc.args[0]
        return I.simp(acc) if acc is not None else True

    def pure_tail(self, es):
        for x in es:
            for n in ast.walk(x):
                if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.Div, ast.Mod, ast.FloorDiv)):
                    return False
        return True

    def e_Compare(self, e):
        it = self.it
        left = self.expr(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c)
            self.here(e)
            r = I.compare(it, op, left, right)
            if len(e.ops) == 1:
                return r
            if isinstance(r, Tensor):
                r = it.truth_node(r)
            if r is False:
                return False
            if r is not True:
                if isinstance(r, Top):
                    raise Unsupported("chained comparison")
                res = r if res is None else T.and_(res, r)
            left = right
        return True if res is None else I.simp(res)

    def e_IfExp(self, e):
        it = self.it
        c = it.truth_node(self.expr(e.test))
        if isinstance(c, bool):
            return self.expr(e.body if c else e.orelse)
        if c.fv and T.CTX.eqs.get(c) is None:
            return it.ite_value(c, self.expr(e.body), self.expr(e.orelse))
        return self.expr(e.body if it.decide(c) else e.orelse)

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def e_Attribute(self, e):
        o = self.expr(e.value)
        return self.it.getattr(o, e.attr)

    def e_Call(self, e):
        it = self.it
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            fn = self.func
            ref = fn.cls
            if ref is None or ref[0] is None:
                raise PyErr("RuntimeError", "super(): no arguments")
            return I.Super(ref[0], self.first_arg())
        if isinstance(f, ast.Name) and f.id == "locals" and not e.args:
            return I.LDict([(k, v) for k, v in self.scope.cells.items()])
        fv = self.expr(f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(it.concrete(self.expr(a.value)))
            else:
                args.append(self.expr(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value)
                if isinstance(d, I.LDict):
                    for kk, vv in d.pairs():
                        if kk in kw:
                            raise PyErr("TypeError", "got multiple values for keyword argument '%s'" % kk)
                        kw[kk] = vv
                elif isinstance(d, I.Obj) and d.cls.lookup("keys")[0] is not MISSING:
                    for kk in it.concrete(it.call(it.getattr(d, "keys"))):
                        kw[kk] = it.call(it.getattr(d, "__getitem__"), [kk])
                else:
                    raise Unsupported("** of %s" % I.typename(d))
            else:
                if k.arg in kw:
                    raise PyErr("TypeError", "got multiple values for keyword argument '%s'" % k.arg)
                kw[k.arg] = self.expr(k.value)
        self.here(e)
        it.steps += 1
        if it.steps > it.maxsteps:
            raise Unsupported("step budget")
        return it.call(fv, args, kw)

    def first_arg(self):
        a = self.func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        sc = self.scope
        while getattr(sc, "func", None) is not self.func and sc.parent is not None:
            sc = sc.parent
        if names and names[0] in sc.cells:
            return sc.cells[names[0]]
        # closures inside methods
        raise Unsupported("super() without self")

    def e_Subscript(self, e):
        o = self.expr(e.value)
        if isinstance(o, (I.ExtMod, I.BType, I.Class)) and not isinstance(o, I.Obj):
            try:
                self.index_expr(e.slice)
            except (PyErr, Unsupported):
                pass
            return o if isinstance(o, (I.Class, I.BType)) else Top("generic")
        k = self.index_expr(e.slice)
        self.here(e)
        return self.getitem(o, k)

    def index_expr(self, s):
        if isinstance(s, ast.Slice):
            return Slice(self.expr(s.lower) if s.lower else None, self.expr(s.upper) if s.upper else None,
                         self.expr(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.it.concrete(self.expr(x.value)))
                else:
                    out.append(self.index_expr(x))
            return tuple(out)
        return self.expr(s)

    def pyslice(self, k):
        f = lambda v: None if v is None else TT.int_of(v)
        return slice(f(k.start), f(k.stop), f(k.step))

    def getitem(self, o, k):
        it = self.it
        if isinstance(o, Tensor):
            if isinstance(k, tuple) and any(isinstance(x, Top) for x in k) or isinstance(k, Top):
                raise Unsupported("unknown index")
            if isinstance(k, slice):
                k = Slice(k.start, k.stop, k.step)
            from .device import index
            return index(it, o, k, lambda: TT.index(o, k))
        if isinstance(o, (tuple, str)):
            if isinstance(k, Slice):
                return o[self.pyslice(k)]
            if isinstance(k, (tuple, str)) or k is None:
                raise PyErr("TypeError", "indices must be integers")
            i = TT.int_of(k)
            if not -len(o) <= i < len(o):
                raise PyErr("IndexError", "index out of range")
            return o[i]
        if isinstance(o, I.LList):
            if isinstance(k, (str, tuple)) or k is None or isinstance(k, I.PF):
                raise PyErr("TypeError", "list indices must be integers or slices")
            fam = any(isinstance(x, I.Family) for x in o.items)
            if isinstance(k, Slice):
                if fam:
                    return self.famslice(o, k)
                return I.LList(o.items[self.pyslice(k)])
            n = TT.idx_node(k)
            if n.op == "q" and not fam:
                i = int(T.cval(n))
                if not -len(o.items) <= i < len(o.items):
                    raise PyErr("IndexError", "list index out of range")
                v = o.items[i]
                if isinstance(v, I.ListMark):
                    raise Unsupported("index into a list inside its own summarised loop")
                return v
            if any(isinstance(x, I.ListMark) for x in o.items):
                raise Unsupported("index into a list inside its own summarised loop")
            L = const(it.length(o))
            n = TT.wrap_index(n, L)
            if not fam and n.op != "q":
                # literal list indexed by a symbolic number
                if not o.items:
                    raise PyErr("IndexError", "list index out of range")
            return it.seq_at(o, n)
        if isinstance(o, I.LDict):
            v = o.get(k)
            if v is MISSING:
                if o.default is not None:
                    v = it.call(o.default, [])
                    o.put(k, v)
                    return v
                raise PyErr("KeyError", repr(k))
            return v
        if isinstance(o, I.Range):
            n = TT.idx_node(k)
            if n.op == "q" and T.cval(n) < 0:
                n = T.add(n, const(it.length(o)))
            return I.simp(T.add(o.a, T.mul(n, o.s)), False)
        if isinstance(o, I.Obj):
            m, _ = o.cls.lookup("__getitem__")
            if m is not MISSING:
                if isinstance(k, Slice):
                    k = k
                return it.call(m, [o, k])
        if isinstance(o, Top):
            return Top(o.why + "[]")
        if isinstance(o, I.Poison):
            raise Unsupported("loop-carried container")
        if isinstance(o, I.SymSeq):
            return o.at(TT.idx_node(k))
        raise PyErr("TypeError", "'%s' object is not subscriptable" % I.typename(o))

    def famslice(self, o, k):
        L = const(self.it.length(o))
        st, sp, ln = TT.slice_params(k, L)
        return I.LList([I.Family(ln, lambda q: self.it.seq_at(o, T.add(st, T.mul(q, sp))))])

    def setitem(self, o, k, v):
        it = self.it
        if isinstance(o, Tensor):
            from . import torchmodel
            torchmodel.check_inplace(it, o)
            if isinstance(v, Top):
                raise Unsupported("unknown value stored into a tensor")
            if it.devices:
                from .device import check_index, check_put
                check_index(o, k)
                check_put(o, k, v)
            TT.setitem(o, k, v)
            return
        if isinstance(o, I.LList):
            if any(isinstance(x, I.ListMark) for x in o.items):
                raise Unsupported("store into a list inside its own summarised loop")
            if isinstance(k, Slice):
                items = list(it.concrete(o))
                items[self.pyslice(k)] = it.concrete(v)
                o.set(items)
                return
            n = TT.idx_node(k)
            fam = any(isinstance(x, I.Family) for x in o.items)
            if n.op == "q" and not fam:
                i = int(T.cval(n))
                if not -len(o.items) <= i < len(o.items):
                    raise PyErr("IndexError", "list assignment index out of range")
                items = list(o.items)
                items[i] = v
                o.set(items)
                return
            L = const(it.length(o))
            n = TT.wrap_index(n, L)
            old = o.items

            def at(q):
                c = T.eq(q, n)
                if c.op == "b" and c.args[0]:
                    return v
                return it.ite_value(c, v, it.seq_at(old, q))
            o.set((I.Family(L, at),))
            return
        if isinstance(o, I.LDict):
            o.put(k, v)
            return
        if isinstance(o, I.Obj):
            m, _ = o.cls.lookup("__setitem__")
            if m is not MISSING:
                it.call(m, [o, k, v])
                return
        if isinstance(o, Top):
            return
        raise PyErr("TypeError", "'%s' object does not support item assignment" % I.typename(o))

    # ---- comprehensions
    def comp_scope(self):
        sc = I.Scope(self.scope if not getattr(self.scope, "isclass", False) else self.scope.parent, self.mod, set())
        # names of an enclosing class body stay reachable for the first iterable only
        sc.parent = self.scope
        fr = Frame(self.it, sc, self.func, self.mod)
        return fr

    def comp(self, gens, emit):
        fr = self.comp_scope()
        tnames = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    tnames.add(n.id)
        fr.scope.local_names = tnames
        it = self.it
        out = []

        def rec(k):
            if k == len(gens):
                out.append(emit(fr))
                return
            g = gens[k]
            seq = it.iterate((self if k == 0 else fr).expr(g.iter))
            if isinstance(seq, I.SymSeq):
                n = I.simp(seq.count, False)
                if isinstance(n, int):
                    seq = [seq.at(const(q)) for q in range(n)]
            if isinstance(seq, I.SymSeq):
                if len(gens) != 1 or g.ifs:
                    raise Unsupported("comprehension over a symbolic range with conditions")
                j = T.var(seq.count)
                it.loopvars.append(j)
                try:
                    J.mark()
                    start = next(TT.Cells.births)
                    fr.assign(g.target, seq.at(j))
                    v = emit(fr)
                    w = {k for k, x in J.written().items() if x[0] is not fr.scope and x[2] is not MISSING and x[0].birth <= start}
                    J.commit()
                finally:
                    it.loopvars.pop()
                if w:
                    raise Unsupported("side effect in a symbolic comprehension")
                out.append(I.Family(seq.count, lambda q: subst_value(v, {j: q})))
                return
            for v in seq:
                fr.assign(g.target, v)
                ok = True
                for c in g.ifs:
                    if not it.truth(fr.expr(c)):
                        ok = False
                        break
                if ok:
                    rec(k + 1)
        rec(0)
        return out

    def e_ListComp(self, e):
        return I.LList(self.comp(e.generators, lambda fr: fr.expr(e.elt)))

    def e_GeneratorExp(self, e):
        return I.LList(self.comp(e.generators, lambda fr: fr.expr(e.elt)))

    def e_SetComp(self, e):
        vs = self.comp(e.generators, lambda fr: fr.expr(e.elt))
        out, seen = [], set()
        for v in vs:
            if I.dkey(v) not in seen:
                seen.add(I.dkey(v))
                out.append(v)
        return I.LSet(out)

    def e_DictComp(self, e):
        ps = self.comp(e.generators, lambda fr: (fr.expr(e.key), fr.expr(e.value)))
        if any(isinstance(p, I.Family) for p in ps):
            raise Unsupported("dict comprehension over a symbolic range")
        return I.LDict(ps)

    def e_Slice(self, e):
        return self.index_expr(e)


# ---------------------------------------------------------------- loop summaries
def has_elem(t, names):
    return any(n.op == "elem" and n.args[0] in names for n in T.walk(t))


def mentions(v, names):
    if not names:
        return False
    if isinstance(v, Node):
        return has_elem(v, names)
    if isinstance(v, Tensor):
        vs = [T.var(s) for s in v.shape]
        try:
            return has_elem(v.at(*vs), names)
        except Unsupported:
            return True
    if isinstance(v, tuple):
        return any(mentions(x, names) for x in v)
    return False


def subst_value(v, m):
    if isinstance(v, Node):
        return I.simp(T.subst(v, m), not v.isint)
    if isinstance(v, Tensor):
        if v.mask is not None:
            raise Unsupported("masked value in a family")
        sn = v.snap()
        shape = tuple(T.subst(s, m) for s in v.shape)
        # protect index terms that mention the substituted variable (nested use)
        ks = frozenset(m)

        def fn(*i):
            if any(x.fv & ks for x in i):
                vs = [T.var(s) for s in v.shape]
                return T.subst(T.subst(sn(*vs), m), dict(zip(vs, i)))
            return T.subst(sn(*i), m)
        return Tensor(TT.Storage(shape, fn, v.dtype), shape, contig=v.contig)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, (int, str, I.PF)) or v is None:
        return v
    if isinstance(v, I.LList):
        r = type(v)([x if isinstance(x, I.Family) else subst_value(x, m) for x in v.items])
        return r
    if isinstance(v, (I.Func, I.Builtin, I.Class, I.ExtMod, I.BType)):
        return v
    raise Unsupported("family of %s" % I.typename(v))


def step_of(t, p, kind, names):
    """d with t = p + d (sum) or t = p * d (prod), p not in d"""
    if t.op == "ite":
        c, a, b = t.args
        if has_elem(c, names):
            return None
        a, b = step_of(a, p, kind, names), step_of(b, p, kind, names)
        return None if a is None or b is None else T.ite(c, a, b)
    if t.isbool:
        return None
    if kind == "sum":
        d = T.sub(t, p)
        return None if has_elem(d, names) else d
    if t is p:
        return const(1)
    q = T.divexact(t, p)
    if q is None or has_elem(q, names):
        r = T.linear_in(t, p)
        if r is None or has_elem(r[0], names) or not (r[1].op == "q" and T.cval(r[1]) == 0):
            return None
        q = r[0]
    return q


def elem_summary(t, p, old, j, names, nm):
    """value after the loop of a cell whose value after one iteration is t, p being its value before it"""
    if t is p:
        return old()
    if not has_elem(t, names):
        # overwritten in every iteration: the last one counts
        lastj = T.sub(j.args[1], const(1))
        return T.subst(t, {j: lastj})
    det = False
    if t.op == "app" and t.args[0] == "detach":
        pass
    others = {n.args[0] for n in T.walk(t) if n.op == "elem" and n.args[0] in names}
    if others != {nm}:
        raise Unsupported("loop-carried values depend on each other")
    # accumulate
    d = T.sub(t, p) if not t.isbool else None
    if d is not None and not has_elem(d, names):
        return T.add(old(), T.red("sum", [j], d))
    if not t.isbool:
        q = T.divexact(t, p)
        if q is not None and not has_elem(q, names):
            return T.mul(old(), T.red("prod", [j], q))
    # a case distinction between steps of the same kind
    if t.op == "ite":
        for kind, neutral in (("sum", const(0)), ("prod", const(1))):
            d = step_of(t, p, kind, names)
            if d is not None:
                r = T.red(kind, [j], d)
                return T.add(old(), r) if kind == "sum" else T.mul(old(), r)
    # conditional overwrite
    r = select(t, p)
    if r is not None:
        vs, cond, val = r
        if not has_elem(cond, names) and not has_elem(val, names):
            return T.last([j] + vs, cond, val, old())
    if t.op == "app" and t.args[0] in ("max", "min") and p in t.args[1:]:
        rest = [a for a in t.args[1:] if a is not p]
        b = T.app(t.args[0], *rest) if len(rest) > 1 else rest[0]
        if not has_elem(b, names):
            return T.app(t.args[0], old(), T.red(t.args[0], [j], b))
    raise Unsupported("loop recurrence not recognised: %s" % T.show(t)[:200])


def select(t, p):
    """t == last(vs, cond, val, p) -> (vs, cond, val)"""
    if t.op == "last" and t.args[3] is p:
        vs, c, v = T.open_last(t)
        return list(vs), c, v
    if t.op != "ite":
        return None
    c, a, b = t.args
    if b is p:
        ra = select(a, p)
        if ra is not None:
            return ra[0], T.and_(c, ra[1]), ra[2]
        return [], c, a
    if a is p:
        rb = select(b, p)
        if rb is not None:
            return rb[0], T.and_(T.not_(c), rb[1]), rb[2]
        return [], T.not_(c), b
    rb = select(b, p)
    if rb is not None:
        vs, c2, v2 = rb
        if not vs:
            return [], T.or_(c, T.and_(T.not_(c), c2)), T.ite(c, a, v2)
        return None
    ra = select(a, p)
    if ra is not None:
        vs, c2, v2 = ra
        if not vs:
            return [], T.or_(T.and_(c, c2), T.not_(c)), T.ite(c, v2, b)
    return None
