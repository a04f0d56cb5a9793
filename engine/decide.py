"""Deciding claims about normal forms.

A claim `lhs == rhs` is discharged when both sides have the same normal form.
Otherwise a difference certificate (a valuation of the symbols that satisfies
the path facts and at which the two formulas differ) is looked for; without
one the claim counts as validated on the instances tried.
"""
import math
import random
from fractions import Fraction as Q

from . import terms as T
from . import tensor as TT
from . import ground
from .terms import Unsupported, const, Node


class Eq:
    """for every index: tensor element == spec element"""

    def __init__(self, what, tensor, shape, spec, grad=True, anchor=None, tol=None):
        self.what, self.tensor, self.shape, self.spec, self.grad, self.anchor = what, tensor, shape, spec, grad, anchor
        self.tol = tol


class Holds:
    """a boolean term holds (for every valuation)"""

    def __init__(self, what, node, anchor=None):
        self.what, self.node, self.anchor = what, node, anchor


class Fact:
    """a structural fact computed by the analysis"""

    def __init__(self, what, ok, detail="", anchor=None):
        self.what, self.ok, self.detail, self.anchor = what, ok, detail, anchor


class Result:
    def __init__(self, status, detail="", cert=None, claim=None):
        self.status, self.detail, self.cert, self.claim = status, detail, cert, claim


def fingers(nodes):
    """numeric constants that occur in conditions: candidates for thresholds"""
    ints, reals = set(), set()
    seen = set()
    for n in nodes:
        for x in T.walk(n):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("le0", "eq0") or (x.op == "app" and x.args[0] in ("min", "max", "mod", "fdiv")):
                for y in T.walk(x):
                    if y.op == "q":
                        v = y.args[0]
                        note(v, ints, reals)
                    elif y.op == "poly":
                        cs = []
                        for m, c in y.args[0]:
                            if not m:
                                note(abs(c), ints, reals)
                                cs.append(c)
                        k0 = [c for m, c in y.args[0] if not m]
                        k1 = [c for m, c in y.args[0] if m]
                        if k0 and len(k1) == 1:
                            note(abs(k0[0] / k1[0]), ints, reals)
    return ints, reals


def note(v, ints, reals):
    if v.denominator == 1 and 3 <= abs(v) <= 4096:
        ints.add(int(abs(v)))
    if abs(v) < 10 ** 6:
        reals.add(v)


class Valuation:
    """deterministic valuation number k"""

    def __init__(self, k, nodes, facts_syms, ints, reals, seed=1):
        self.k = k
        rng = self.rng = random.Random((seed << 20) + k * 7919 + 13)
        names = facts_syms
        self.sizes = {}
        # one size at a time goes past the usual range: around a threshold in the formulas, or just larger
        bigs = sorted(ints | {2 * i for i in ints}) or [5]
        if rng.random() < 0.25:
            bigs = [5, 7]
        intn = [n for n in names if names[n]]
        big = rng.choice(intn) if intn and bigs and rng.random() < 0.4 else None
        small = big is not None
        for n in sorted(names):
            lo = T.CTX.lo.get(n)
            if names[n]:
                base = int(lo) if lo is not None else 0
                if n == big:
                    v = max(base, rng.choice(bigs) + rng.choice((-1, 0, 1, 1, 2, 3)))
                elif small:
                    v = base + rng.choice((0, 1, 1))
                else:
                    v = base + rng.choice((0, 0, 1, 1, 2, 2, 3, 4))
                self.sizes[n] = Q(v)
            else:
                h = T.CTX.hi.get(n)
                if lo is not None and h is not None and const(h).op == "q":
                    v = lo + (T.cval(const(h)) - lo) * Q(rng.choice((1, 3, 5, 9, 15, 16)), 16)
                elif lo is not None:
                    v = lo + Q(rng.choice((1, 2, 3, 4, 5, 6, 8, 12)), rng.choice((1, 2, 4)))
                else:
                    v = Q(rng.randint(-12, 12), rng.choice((1, 2, 4)))
                rr = [r for r in reals if lo is None or r > lo]
                if rr and rng.random() < 0.25:
                    v = rng.choice(sorted(rr))
                self.sizes[n] = v
        for n in sorted(names):
            h = T.CTX.hi.get(n)
            if h is not None:
                try:
                    hv = ground.Eval(self.sizes, None).val(const(h))
                    if self.sizes[n] > hv:
                        self.sizes[n] = Q(hv) if not isinstance(hv, float) else Q(int(hv))
                except Exception:
                    pass
        self.mode = rng.choice(("gen", "gen", "gen", "seg", "seg", "out", "outneg", "eq", "zero", "const", "wide", "small", "pos", "neg", "row", "row", "col"))
        self.pmode = rng.choice(("gen", "gen", "gen", "gen", "ones", "small", "pos"))
        self.reals = sorted(reals)
        self.ints = ints
        self.salt = rng.random()
        self.bmode = rng.choice(("gen", "gen", "gen", "true", "false"))
        self.rmode = rng.choice(("gen", "gen", "gen", "lo", "hi"))

    def elem(self, name, idx):
        info = T.CTX.tensors.get(name, {})
        h = ground._hash(self.salt, name, idx)
        dt = info.get("dtype", "float")
        lo, hi = info.get("lo"), info.get("hi")
        kind = info.get("kind", "input")
        if dt == "bool":
            return {"gen": bool(h & 1), "true": True, "false": False}[self.bmode]
        if dt == "long":
            l = int(self.num(lo)) if lo is not None else -3
            u = int(self.num(hi)) if hi is not None else l + 7
            if u < l:
                u = l
            return Q(l + h % (u - l + 1))
        if kind == "rand01":
            if self.rmode == "lo" and h % 5 == 0:
                return Q(0)
            if self.rmode == "hi" and h % 5 == 0:
                return Q(1)
            return Q(1 + h % 61, 64)
        if kind in ("param", "init", "uninit", "randn"):
            if self.pmode == "ones":
                v = Q(1)
            elif self.pmode == "small":
                v = Q(h % 201 - 100, 4000)
            elif self.pmode == "pos":
                v = Q(1 + h % 39, 16)
            else:
                v = Q(h % 81 - 40, 16)
            return self.clip(v, lo, hi)
        m = self.mode
        if m == "gen" or m == "wide":
            v = Q(h % 127 - 63, 64)
            if m == "wide":
                v = v * 6
        elif m == "seg":
            ds = [int(v) for v in self.sizes.values() if v.denominator == 1 and 0 < v <= 64] or [1]
            d = ds[h % len(ds)]
            j = (h >> 8) % (d + 1)
            v = Q(2 * j, d) - 1
            r = (h >> 20) % 6
            if r == 0:
                v = v + Q(1, 1000)
            elif r == 1:
                v = v - Q(1, 1000)
            ls = [v2 for n, v2 in self.sizes.items() if v2.denominator != 1 or n in ("L", "length")]
            if ls and (h >> 24) % 2:
                v = v * ls[0] / 2
        elif m == "out":
            v = Q(9 + h % 40, 8)
        elif m == "outneg":
            v = -Q(9 + h % 40, 8)
        elif m == "eq":
            v = Q(ground._hash(self.salt, name) % 65 - 32, 32)
        elif m == "zero":
            v = Q(0) if h % 3 else Q(h % 127 - 63, 64)
            if self.k % 2:
                v = Q(0)
        elif m == "small":
            v = Q(h % 201 - 100, 10 ** 7)
        elif m == "pos":
            v = Q(1 + h % 60, 16)
        elif m == "neg":
            v = -Q(1 + h % 60, 16)
        elif m == "row" or m == "col":
            # samples (or features) far from each other, each of little spread
            j = 0 if m == "row" else 1
            g = ground._hash(self.salt, name, idx[j] if j < len(idx) else 0)
            v = Q((-15, -15, -8, 0, 8, 15, 15)[g % 7], 16) + Q(h % 31 - 15, 256)
        else:
            rs = self.reals or [Q(1, 2)]
            v = rs[h % len(rs)]
            r = (h >> 16) % 5
            v = v if r < 2 else v + Q(1, 64) if r == 2 else v - Q(1, 64) if r == 3 else -v
            if abs(v) > 64:
                v = Q(h % 127 - 63, 64)
        return self.clip(v, lo, hi)

    def num(self, v):
        if isinstance(v, Node):
            return ground.Eval(self.sizes, self.elem).val(v)
        return v

    def clip(self, v, lo, hi):
        if lo is not None:
            l = self.num(lo)
            if v < l:
                v = l + abs(v - l) % 1 if not isinstance(l, float) else Q(l)
                if isinstance(v, float):
                    v = Q(v)
        if hi is not None:
            u = self.num(hi)
            if v > u:
                v = Q(u)
        return v

    def batom(self, name):
        return bool(ground._hash(self.salt, "b", name) & 1)

    def dirn(self, name, idx):
        info = T.CTX.tensors.get(name, {})
        if info.get("kind", "input") in ("input", "param"):
            return Q(ground._hash(self.salt, "d", name, idx) % 33 - 16, 16)
        return Q(0)

    def evaluator(self, vars=None, grad=False, budget=150000):
        return ground.Eval(self.sizes, self.elem, self.batom, vars=vars, tensors=T.CTX.tensors,
                           direction=self.dirn if grad else None, budget=budget)

    def path_ok(self):
        """does the valuation satisfy the conditions of the analysed path"""
        ev = self.evaluator()
        for c, v in list(T.CTX.eqs.items()):
            if c.op in ("and", "or", "not") and False:
                continue
            try:
                if ev.ev(c) != v:
                    return False
            except (ground.Ambiguous, ground.Undefined, ground.TooBig, ground.OutOfBounds, KeyError, T.Unsupported):
                return False
        return True

    def describe(self):
        return {"sizes": {k: str(v) for k, v in self.sizes.items()}, "inputs": self.mode, "params": self.pmode, "instance": self.k}


def all_syms(nodes):
    out = {}
    for n in nodes:
        out.update(TT.syms_of(n))
    for c in T.CTX.eqs:
        out.update(TT.syms_of(c))
    for t in T.CTX.tensors.values():
        for s in t["shape"]:
            out.update(TT.syms_of(s))
        for b in (t.get("lo"), t.get("hi")):
            if isinstance(b, Node):
                out.update(TT.syms_of(b))
    return out


def feasible(tries=400, seed=1):
    """a valuation that satisfies the path conditions, or None"""
    nodes = list(T.CTX.eqs)
    names = all_syms(nodes)
    ints, reals = fingers(nodes)
    for k in range(tries):
        v = Valuation(k, nodes, names, ints, reals, seed)
        if v.path_ok():
            return v
    return None


def differ(a, b, tol, slack=0.0):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) != bool(b)
    if isinstance(a, Q) and isinstance(b, Q) and a == b:
        return False
    fa, fb = float(a), float(b)
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) != math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa != fb
    return abs(fa - fb) > tol * max(1.0, abs(fa), abs(fb)) + slack


TRIALS = 160
TOL = 2e-6


def decide(claim, trials=None, seed=1):
    trials = trials or TRIALS
    if isinstance(claim, Fact):
        if claim.ok is None:
            return Result("undecided", claim.detail, claim=claim)
        return Result("proved" if claim.ok else "violation", claim.detail, claim=claim)
    if isinstance(claim, Holds):
        return decide_holds(claim, trials, seed)
    return decide_eq(claim, trials, seed)


def decide_holds(claim, trials, seed):
    n = claim.node
    if isinstance(n, bool):
        return Result("proved" if n else "violation", "constant", claim=claim)
    if n.op == "b":
        return Result("proved" if n.args[0] else "violation", "constant", claim=claim)
    return search(claim, n, T.true(), list(n.fv), trials, seed, False)


def decide_eq(claim, trials, seed):
    t = claim.tensor
    shape = [const(s) for s in claim.shape]
    if not isinstance(t, TT.Tensor):
        return Result("violation", "result is not a tensor: %r" % (t,), claim=claim)
    if t.ndim != len(shape) or any(not TT.same_dim(a, b) for a, b in zip(t.shape, shape)):
        return Result("violation", "result has shape (%s), specified (%s)" % (
            ", ".join(T.show(s) for s in t.shape), ", ".join(T.show(s) for s in shape)), claim=claim)
    vs = []
    for s in shape:
        if s.op == "q" and T.cval(s) == 0:
            return Result("proved", "empty", claim=claim)
        if s.op == "q" and T.cval(s) == 1:
            vs.append(const(0))
        else:
            vs.append(T.var(s))
    lhs = T.num_(t.at(*vs)) if hasattr(T, "num_") else t.at(*vs)
    rhs = claim.spec(*vs)
    rhs = const(rhs)
    if rhs.isbool != lhs.isbool:
        lhs, rhs = T._numeric(lhs), T._numeric(rhs)
    free = [v for v in vs if v.op == "var"]
    l, r = T.strip_detach(lhs), T.strip_detach(rhs)
    grad = claim.grad and t.dtype == "float"
    nodet = not any(x.op == "app" and x.args[0] == "detach" for x in T.walk(lhs))
    if l is r:
        if not grad or lhs is rhs or nodet:
            return Result("proved", "same normal form", claim=claim)
    if split_equal(lhs, rhs, vs, shape, not grad or nodet):
        return Result("proved", "same normal form for each index", claim=claim)
    res = search(claim, lhs, rhs, free, trials, seed, grad and not nodet)
    if res.status == "instances" and l is r:
        res.detail += "; values have the same normal form"
    return res


def split_equal(lhs, rhs, vs, shape, strip):
    """case distinction over the indexes of small constant dimensions"""
    import itertools
    small = [(v, int(T.cval(s))) for v, s in zip(vs, shape) if v.op == "var" and s.op == "q" and T.cval(s) <= 12]
    total = 1
    for _, k in small:
        total *= k
    if not small or total > 144:
        return False
    try:
        for pt in itertools.product(*[range(k) for _, k in small]):
            m = {v: const(i) for (v, _), i in zip(small, pt)}
            a, b = T.subst(lhs, m), T.subst(rhs, m)
            if strip:
                a, b = T.strip_detach(a), T.strip_detach(b)
            if a is not b:
                return False
        return True
    except Unsupported:
        return False


def search(claim, lhs, rhs, free, trials, seed, grad):
    nodes = [lhs, rhs] + list(T.CTX.eqs)
    names = all_syms(nodes + [v.args[1] for v in free])
    ints, reals = fingers(nodes)
    tried = 0
    undef = 0
    skipped = 0
    tol = getattr(claim, "tol", None) or TOL
    work = 0
    for k in range(trials):
        if work > 1500000:
            break
        val = Valuation(k, nodes, names, ints, reals, seed)
        if T.CTX.eqs and not val.path_ok():
            skipped += 1
            continue
        try:
            vars = {}
            ok = True
            ev0 = val.evaluator()
            for v in free:
                d = ev0.integer(v.args[1])
                if d <= 0:
                    ok = False
                    break
                vars[v] = val.rng.randrange(d)
            if not ok:
                skipped += 1
                continue
        except Exception:
            skipped += 1
            continue
        ev = val.evaluator(vars, grad)
        try:
            b = ev.ev(rhs)
        except (ground.Ambiguous, ground.Undefined, ground.TooBig, ground.OutOfBounds, T.Unsupported):
            skipped += 1
            continue
        except (OverflowError, ValueError, ZeroDivisionError):
            skipped += 1
            continue
        try:
            a = ev.ev(lhs)
        except ground.OutOfBounds as e:
            return Result("violation", "index out of range: %s" % e, dict(val.describe(), index=[str(x) for x in vars.values()]), claim)
        except ground.Undefined as e:
            if "overflow" in str(e):
                skipped += 1
                continue
            undef += 1
            if undef >= 3:
                return Result("violation", "result undefined (%s) where the specified value is %s" % (e, fmt(b)),
                              dict(val.describe(), index=[str(x) for x in vars.values()]), claim)
            continue
        except (ground.Ambiguous, ground.TooBig, T.Unsupported, OverflowError, ValueError, ZeroDivisionError):
            skipped += 1
            continue
        finally:
            work += 150000 - ev.budget
        tried += 1
        av = a if isinstance(a, bool) else a.v
        bv = b if isinstance(b, bool) else b.v
        slack = 0.0 if isinstance(a, bool) or isinstance(b, bool) else 16 * (a.e + b.e)
        if slack != slack or slack > 1e-3 * max(1.0, ground.fabs(bv)):
            tried -= 1
            skipped += 1
            continue
        if differ(av, bv, tol, slack):
            return Result("violation", "value %s, specified %s" % (fmt(a), fmt(b)),
                          dict(val.describe(), index=[str(x) for x in vars.values()]), claim)
        if grad and not isinstance(a, bool) and not isinstance(b, bool):
            if differ(Q(a.d) if isinstance(a.d, int) else a.d, Q(b.d) if isinstance(b.d, int) else b.d, 1e-4,
                      1e-10 * ev.dmag + 1e3 * slack):
                return Result("violation", "derivative %s, specified %s" % (float(a.d), float(b.d)),
                              dict(val.describe(), index=[str(x) for x in vars.values()]), claim)
    if tried == 0:
        return Result("undecided", "no usable instance (%d skipped)" % skipped, claim=claim)
    return Result("instances", "%d instances agree (%d skipped)" % (tried, skipped), claim=claim)


def fmt(x):
    if isinstance(x, bool):
        return str(x)
    return "%.9g" % float(x.v)
