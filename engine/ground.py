"""Ground instances of terms.

Used only to tell a real difference between two normal forms from an
incompleteness of the normaliser: a *difference certificate* is a valuation of
the symbols at which the two formulas have different values.  Works on terms,
never on the analysed program.
"""
from fractions import Fraction as Q
import math
import hashlib

from . import terms as T


class OutOfBounds(Exception):
    pass


class Ambiguous(Exception):
    """an inexact number sits on a decision boundary"""


class Undefined(Exception):
    """division by zero and the like"""


class TooBig(Exception):
    pass


def _hash(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


_fbv = {}


def free_bv(n):
    r = _fbv.get(n)
    if r is not None:
        return r
    if n.op == "bv":
        r = frozenset((n,))
    else:
        r = frozenset()
        for c in T.children(n):
            x = free_bv(c)
            if x:
                r = r | x
        if n.op == "red":
            r = r - frozenset(T.bv(n.args[3], i) for i in range(len(n.args[1])))
        elif n.op == "last":
            r = r - frozenset(T.bv(n.args[4], i) for i in range(len(n.args[0])))
        elif n.op == "uapp":
            r = r - frozenset(T.bv(n.args[3], i) for i in range(len(n.args[1])))
    _fbv[n] = r
    return r


def clear():
    _fbv.clear()


class Num:
    """value with derivative along a direction and a bound of the rounding error of the value"""
    __slots__ = ("v", "d", "e")

    def __init__(self, v, d=0, e=None):
        self.v = v
        self.d = d
        self.e = (EPS * abs(v) if isinstance(v, float) else 0.0) if e is None else e


EPS = 4e-16


def fabs(v):
    try:
        return abs(float(v))
    except OverflowError:
        return float("inf")


def add_(a, b):
    v = a.v + b.v
    e = a.e + b.e
    if isinstance(v, float):
        e += EPS * abs(v)
    return Num(v, a.d + b.d, e)


class Eval:
    def __init__(self, sizes, elem_fn, batom_fn=None, vars=None, tensors=None, direction=None, budget=400000):
        self.sizes = sizes
        self.elem_fn = elem_fn
        self.batom_fn = batom_fn
        self.vars = vars or {}
        self.memo = {}
        self.env = {}
        self.tensors = tensors or {}
        self.direction = direction
        self.budget = budget
        self.dmag = 0.0

    # -- helpers
    def note_d(self, d):
        if d:
            a = fabs(d)
            if a > self.dmag:
                self.dmag = a

    def val(self, n):
        return self.num(n).v

    def num(self, n):
        r = self.ev(n)
        if isinstance(r, bool):
            return Num(Q(int(r)))
        return r

    def integer(self, n):
        v = self.val(n)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-7:
                raise Undefined("non-integer index %r" % v)
            return int(round(v))
        if v.denominator != 1:
            raise Undefined("non-integer index %r" % v)
        return int(v)

    def ev(self, n):
        fb = free_bv(n)
        key = (n, tuple(sorted((b.id, self.env[b]) for b in fb))) if fb else n
        r = self.memo.get(key)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise TooBig()
            r = self._ev(n)
            self.memo[key] = r
        return r

    def _cmp0(self, num):
        v = num.v
        if isinstance(v, float):
            if math.isnan(v):
                raise Undefined("nan")
            if abs(v) < max(1e-9, 4 * num.e):
                raise Ambiguous()
        return v

    def _ev(self, n):
        op = n.op
        if op == "q":
            return Num(n.args[0])
        if op == "inf":
            return Num(float("inf") * n.args[0] if n.args[0] else float("nan"))
        if op == "sym":
            if n.args[0] == "pi":
                return Num(math.pi)
            return Num(self.sizes[n.args[0]])
        if op == "var":
            return Num(Q(self.vars[n]))
        if op == "bv":
            return Num(Q(self.env[n]))
        if op == "elem":
            idx = tuple(self.integer(x) for x in n.args[1:])
            info = self.tensors.get(n.args[0])
            if info is not None:
                for i, d in zip(idx, info["shape"]):
                    dv = self.integer(d)
                    if not 0 <= i < dv:
                        raise OutOfBounds("%s%r outside dimension %d" % (n.args[0], idx, dv))
            v = self.elem_fn(n.args[0], idx)
            if n.isbool:
                return bool(v)
            d = 0
            if self.direction is not None and not n.isint:
                d = self.direction(n.args[0], idx)
            return Num(v, d)
        if op == "poly":
            tv, td, te = Q(0), 0, 0.0
            for m, c in n.args[0]:
                pv, pd, pe = c, 0, 0.0
                for a, e in m:
                    x = self.num(a)
                    if e == 1:
                        xv, xd = x.v, x.d
                    else:
                        if e < 0 and x.v == 0:
                            raise Undefined("division by zero")
                        xv = self._pow(x.v, e)
                        xd = e * self._pow(x.v, e - 1) * x.d if x.d and (x.v != 0 or e > 1) else 0
                    xe = x.e
                    if e != 1 and xe:
                        xe = abs(e) * fabs(xv) * xe / max(fabs(x.v), 1e-300)
                    pd = pd * xv + pv * xd if (pd or xd) else 0
                    if pe or xe:
                        pe = pe * fabs(xv) + fabs(pv) * xe + pe * xe
                    pv = self._mul(pv, xv)
                    if isinstance(pv, float):
                        pe += EPS * abs(pv)
                tv = tv + pv
                te = te + pe
                if isinstance(tv, float):
                    te += EPS * abs(tv)
                td = td + pd
            self.note_d(td)
            return Num(tv, td, te)
        if op == "inv":
            x = self.num(n.args[0])
            if x.v == 0 or (isinstance(x.v, float) and abs(x.v) < 1e-12):
                raise Undefined("division by zero")
            if x.e and fabs(x.v) < 8 * x.e:
                raise Ambiguous()
            iv = 1 / x.v
            d = -iv * iv * x.d if x.d else 0
            self.note_d(d)
            return Num(iv, d, fabs(iv) * fabs(iv) * x.e * 1.2 + (EPS * abs(iv) if isinstance(iv, float) else 0.0))
        if op == "ite":
            return self.ev(n.args[1]) if self.ev(n.args[0]) else self.ev(n.args[2])
        if op == "b":
            return n.args[0]
        if op == "batom":
            return bool(self.batom_fn(n.args[0])) if self.batom_fn else bool(_hash(n.args[0]) & 1)
        if op == "le0":
            return self._cmp0(self.num(n.args[0])) <= 0
        if op == "eq0":
            return self._cmp0(self.num(n.args[0])) == 0
        if op == "not":
            return not self.ev(n.args[0])
        if op == "and":
            return all(self.ev(x) for x in n.args)
        if op == "or":
            return any(self.ev(x) for x in n.args)
        if op == "app":
            return self._app(n)
        if op == "red":
            return self._red(n)
        if op == "last":
            return self._last(n)
        if op == "uapp":
            fid, his, body, hh, oidx = n.args
            dims = [self.integer(h) for h in his]
            bvs = [T.bv(hh, i) for i in range(len(his))]
            vals = []

            def rec(k):
                if k == len(bvs):
                    v = self.ev(body)
                    vals.append(v if isinstance(v, bool) else "%.6g" % float(v.v))
                    return
                for i in range(dims[k]):
                    self.env[bvs[k]] = i
                    rec(k + 1)
                self.env.pop(bvs[k], None)
            saved = {b: self.env[b] for b in bvs if b in self.env}
            rec(0)
            self.env.update(saved)
            o = tuple(self.integer(x) for x in oidx)
            h = _hash(fid, tuple(dims), tuple(vals), o)
            return Num(Q(h % 2001 - 1000, 500))
        raise T.Unsupported("ground " + op)

    def _mul(self, a, b):
        if a == 0 or b == 0:
            if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
                raise Undefined("inf*0")
            return Q(0)
        return a * b

    def _pow(self, v, e):
        if isinstance(v, Q) and (v.numerator.bit_length() + v.denominator.bit_length()) * abs(e) > 4000:
            v = float(v)
        return v ** e

    def _app(self, n):
        f = n.args[0]
        xs = [self.num(a) for a in n.args[1:]]
        x = xs[0] if xs else None
        if f in ("trunc", "floor", "ceil", "round"):
            v = x.v
            if isinstance(v, float):
                if math.isnan(v) or math.isinf(v):
                    raise Undefined("trunc of non finite")
                if abs(v - round(v)) < max(1e-9, 4 * x.e) and f != "round":
                    raise Ambiguous()
                if f == "round" and abs(v - math.floor(v) - 0.5) < max(1e-9, 4 * x.e):
                    raise Ambiguous()
            if f == "trunc":
                return Num(Q(int(v)))
            if f == "floor":
                return Num(Q(math.floor(v)))
            if f == "ceil":
                return Num(Q(math.ceil(v)))
            return Num(Q(round(v)))
        if f in ("min", "max"):
            best = None
            for y in xs:
                if best is None or (y.v < best.v if f == "min" else y.v > best.v):
                    best = y
            return best
        if f == "abs":
            return Num(abs(x.v), x.d if x.v >= 0 else -x.d, x.e)
        if f == "sign":
            v = self._cmp0(x)
            return Num(Q(0 if v == 0 else 1 if v > 0 else -1))
        if f == "detach":
            return Num(x.v, 0, x.e)
        r = self._fn(n, f, xs, x)
        if r.e is not None and any(y.e for y in xs):
            # error of a smooth function: finite difference bound
            e = r.e
            for k, y in enumerate(xs):
                if y.e:
                    try:
                        moved = list(xs)
                        h = max(y.e, 1e-7 * max(1.0, fabs(y.v)))
                        moved[k] = Num(float(y.v) + h, 0, 0.0)
                        e += 4 * fabs(self._fn(n, f, moved, moved[0]).v - r.v) * (y.e / h)
                    except (Undefined, Ambiguous, ValueError, OverflowError):
                        e += 1e-3
            r = Num(r.v, r.d, e)
        return r

    def _fn(self, n, f, xs, x):
        if f == "cos":
            return Num(math.cos(x.v), -math.sin(x.v) * x.d if x.d else 0)
        if f == "sin":
            return Num(math.sin(x.v), math.cos(x.v) * x.d if x.d else 0)
        if f == "tan":
            return Num(math.tan(x.v))
        if f == "atan":
            return Num(math.atan(x.v))
        if f == "atan2":
            return Num(math.atan2(x.v, xs[1].v))
        if f == "acos":
            return Num(math.acos(max(-1, min(1, x.v))))
        if f == "exp":
            try:
                e = math.exp(x.v)
            except OverflowError:
                raise Undefined("overflow")
            return Num(Q(1) if x.v == 0 else e, e * x.d if x.d else 0)
        if f == "log":
            if x.v <= 0:
                raise Undefined("log")
            return Num(math.log(x.v), x.d / x.v if x.d else 0)
        if f == "sqrt":
            if x.v < 0:
                raise Undefined("sqrt")
            r = math.sqrt(x.v)
            if isinstance(x.v, Q):
                a, b = math.isqrt(x.v.numerator), math.isqrt(x.v.denominator)
                if a * a == x.v.numerator and b * b == x.v.denominator:
                    r = Q(a, b)
            return Num(r, (x.d / (2 * r) if x.d and r else 0))
        if f == "tanh":
            t = math.tanh(x.v)
            return Num(t, (1 - t * t) * x.d if x.d else 0)
        if f == "sigmoid":
            t = 1 / (1 + math.exp(-x.v)) if x.v > -500 else 0.0
            return Num(t, t * (1 - t) * x.d if x.d else 0)
        if f == "erf":
            return Num(math.erf(x.v))
        if f == "pow":
            b = xs[1].v
            if isinstance(b, Q) and b.denominator == 1:
                if x.v == 0 and b < 0:
                    raise Undefined("pow")
                return Num(self._pow(x.v, int(b)), b * self._pow(x.v, int(b) - 1) * x.d if x.d and x.v != 0 else 0)
            if x.v < 0:
                raise Undefined("pow")
            return Num(float(x.v) ** float(b))
        if f in ("fdiv", "mod", "rem"):
            d = xs[1].v
            if d == 0:
                raise Undefined("div 0")
            q = x.v / d
            if isinstance(q, float) and abs(q - round(q)) < max(1e-9, 4 * (x.e + fabs(q) * xs[1].e) / max(fabs(d), 1e-300)):
                raise Ambiguous()
            k = math.floor(q)
            if f == "fdiv":
                return Num(Q(k))
            return Num(x.v - d * k, x.d)
        if f == "round16":
            import struct
            v = float(x.v)
            try:
                return Num(Q(struct.unpack("e", struct.pack("e", v))[0]))
            except OverflowError:
                return Num(float("inf"))
        if f == "recip0":
            raise Undefined("1/0")
        # other opaque scalar functions: value by name and arguments
        return Num(Q(_hash(f, tuple("%.7g" % float(y.v) for y in xs)) % 2001 - 1000, 500))

    def _iter(self, his, hh, reverse=False):
        bvs = [T.bv(hh, i) for i in range(len(his))]
        saved = {b: self.env[b] for b in bvs if b in self.env}

        def rec(k):
            if k == len(his):
                yield
                return
            d = self.integer(his[k])
            rng = range(d - 1, -1, -1) if reverse else range(d)
            for i in rng:
                self.env[bvs[k]] = i
                yield from rec(k + 1)
            self.env.pop(bvs[k], None)
        try:
            yield from rec(0)
        finally:
            for b in bvs:
                self.env.pop(b, None)
            self.env.update(saved)

    def _red(self, n):
        kind, his, body, hh = n.args
        if kind == "any":
            r = False
            for _ in self._iter(his, hh):
                if self.ev(body):
                    r = True
            return r
        acc = None
        for _ in self._iter(his, hh):
            x = self.num(body)
            if acc is None:
                acc = x
            elif kind == "sum":
                acc = add_(acc, x)
            elif kind == "prod":
                pv = self._mul(acc.v, x.v)
                e = acc.e * fabs(x.v) + x.e * fabs(acc.v) + acc.e * x.e if (acc.e or x.e) else 0.0
                acc = Num(pv, acc.d * x.v + acc.v * x.d if (acc.d or x.d) else 0, e + (EPS * abs(pv) if isinstance(pv, float) else 0.0))
                self.note_d(acc.d)
            elif kind == "max":
                acc = x if x.v > acc.v else acc
            elif kind == "min":
                acc = x if x.v < acc.v else acc
        if acc is None:
            if kind == "sum":
                return Num(Q(0))
            if kind == "prod":
                return Num(Q(1))
            raise Undefined("empty reduction")
        return acc

    def _last(self, n):
        his, c, x, dflt, hh = n.args
        res = None
        it = self._iter(his, hh, reverse=True)
        for _ in it:
            if self.ev(c):
                res = self.ev(x)
                it.close()
                break
        return res if res is not None else self.ev(dflt)
