"""Hash-consed scalar terms with a normal form.

The analysis lifts every tensor of the analysed program to a function from
index terms to one of the scalar terms below.  Terms are kept in a normal form
(Laurent polynomials over opaque atoms, flattened reductions with canonical
bound variables, canonical guards), so that two expressions which denote the
same function by ring laws, index arithmetic or reduction laws become the
*same* node.
"""
from fractions import Fraction as Q
import itertools
import math


class Unsupported(Exception):
    """The analysis has no transfer function for a construct."""


class Node:
    __slots__ = ("op", "args", "id", "fv", "bh", "isint", "isbool", "loc")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise Unsupported("truth value of a symbolic term taken by the engine")


class Ctx:
    """Facts that hold on the path under analysis."""

    def __init__(self):
        self.lo = {}       # sym name -> lower bound (Q)
        self.declared = {} # the same before any branch
        self.hi = {}       # sym name -> upper bound node
        self.facts = []    # polys known >= 0
        self.eqs = {}      # bool node -> True/False
        self.cur_loc = None
        self.tensors = {}  # elem name -> dict(shape, kind, lo, hi)


CTX = Ctx()
_table = {}
_cnt = itertools.count()
_cache_nonneg = {}


def reset_ctx():
    global CTX
    CTX.__init__()
    _cache_nonneg.clear()
    _hg.clear()
    _table.clear()


EMPTY = frozenset()


def _mk(op, args, fv, bh, isint=False, isbool=False):
    key = (op, args)
    n = _table.get(key)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.args = args
    n.id = next(_cnt)
    n.fv = fv
    n.bh = bh
    n.isint = isint
    n.isbool = isbool
    n.loc = CTX.cur_loc
    _table[key] = n
    return n


def _fvs(nodes):
    r = EMPTY
    for x in nodes:
        if x.fv:
            r = r | x.fv if r else x.fv
    return r


def _bhs(nodes):
    h = 0
    for x in nodes:
        if x.bh > h:
            h = x.bh
    return h


# ---------------------------------------------------------------- leaves
def const(v):
    if isinstance(v, Node):
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return _mk("inf", (1 if v > 0 else -1 if v < 0 else 0,), EMPTY, 0)
        v = Q(repr(v))
    v = Q(v)
    return _mk("q", (v,), EMPTY, 0, v.denominator == 1)


def sym(name, isint=True, lo=None, hi=None):
    if lo is not None and name not in CTX.lo:
        CTX.lo[name] = CTX.declared[name] = Q(lo)
    if hi is not None and name not in CTX.hi:
        CTX.hi[name] = hi
    return _mk("sym", (name, isint), EMPTY, 0, isint)


def pi():
    return sym("pi", False, lo=3)


_vc = itertools.count()


def var(hi, name=None):
    """fresh index variable ranging over [0, hi)"""
    hi = const(hi)
    uid = next(_vc)
    n = _mk("var", (uid, hi, name or ("i%d" % uid)), EMPTY, 0, True)
    n.fv = frozenset((n,))
    return n


def bv(h, pos):
    return _mk("bv", (h, pos), EMPTY, h, True)


def elem(name, idx, isint=False, isbool=False):
    idx = tuple(const(i) for i in idx)
    return _mk("elem", (name,) + idx, _fvs(idx), _bhs(idx), isint, isbool)


def is_const(n):
    return n.op == "q"


def cval(n):
    return n.args[0]


ZERO = None
ONE = None


def zero():
    return const(0)


def one():
    return const(1)


# ---------------------------------------------------------------- polynomials
def to_dict(n):
    if n.op == "q":
        return {(): n.args[0]} if n.args[0] != 0 else {}
    if n.op == "poly":
        return dict(n.args[0])
    return {((n, 1),): Q(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return const(0)
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    atoms = [a for m, _ in items for a, _ in m]
    isint = all(c.denominator == 1 and all(a.isint and e > 0 for a, e in m) for m, c in items)
    return _mk("poly", (tuple(items),), _fvs(atoms), _bhs(atoms), isint)


def _numeric(a):
    a = const(a) if not isinstance(a, Node) else a
    if a.isbool:
        return ite(a, const(1), const(0))
    return a


def add(*xs):
    d = {}
    for x in xs:
        x = _numeric(x)
        if x.op == "inf":
            if any(_numeric(y).op == "inf" and y is not x for y in xs):
                raise Unsupported("difference of infinities")
            return x
        for m, c in to_dict(x).items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return from_dict(d)


def neg(a):
    a = _numeric(a)
    if a.op == "inf":
        return const(float("-inf") if a.args[0] > 0 else float("inf"))
    return from_dict({m: -c for m, c in to_dict(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = Q(1)
    items = []
    for a, e in d.items():
        if e == 0:
            continue
        items.append((a, e))
    items.sort(key=lambda ae: ae[0].id)
    return tuple(items)


LIMIT = 4000


def _needs_fix(m):
    for a, e in m:
        if a.op == "app" and a.args[0] in ("sqrt", "abs") and (e >= 2 or e <= -2):
            return True
    return False


def _fix_mono(m, c):
    """sqrt(a)^2 -> a, |a|^2 -> a^2"""
    r = const(c)
    for a, e in m:
        if a.op == "app" and a.args[0] == "sqrt" and (e >= 2 or e <= -2):
            k = abs(e) // 2
            t = powi(a.args[1], k if e > 0 else -k)
            rest = e - (2 * k if e > 0 else -2 * k)
            r = mul(r, t)
            if rest:
                r = mul(r, from_dict({((a, rest),): Q(1)}))
        elif a.op == "app" and a.args[0] == "abs" and (e >= 2 or e <= -2) :
            k = abs(e) // 2
            t = powi(a.args[1], 2 * k if e > 0 else -2 * k)
            rest = e - (2 * k if e > 0 else -2 * k)
            r = mul(r, t)
            if rest:
                r = mul(r, from_dict({((a, rest),): Q(1)}))
        else:
            r = mul(r, from_dict({((a, e),): Q(1)}))
    return r


def mul(*xs):
    r = {(): Q(1)}
    for x in xs:
        x = _numeric(x)
        if x.op == "inf":
            sg = 1
            for y in xs:
                y = _numeric(y)
                if y.op == "inf":
                    sg *= y.args[0]
                elif positive(y):
                    pass
                elif positive(neg(y)):
                    sg = -sg
                else:
                    raise Unsupported("infinity times a number of unknown sign")
            return const(float("inf") if sg > 0 else float("-inf"))
        dx = to_dict(x)
        if not dx or not r:
            return const(0)
        if len(r) == 1 and len(dx) > 1:
            r = _mul_mono_poly(r, dx)
            continue
        if len(dx) == 1 and len(r) > 1:
            r = _mul_mono_poly(dx, r)
            continue
        if len(r) * len(dx) > LIMIT:
            raise Unsupported("polynomial too large")
        nr = {}
        for m1, c1 in r.items():
            for m2, c2 in dx.items():
                m = _mono_mul(m1, m2)
                v = nr.get(m, 0) + c1 * c2
                if v:
                    nr[m] = v
                else:
                    nr.pop(m, None)
        r = nr
    if any(_needs_fix(m) for m in r):
        return add(*[_fix_mono(m, c) if _needs_fix(m) else from_dict({m: c}) for m, c in r.items()])
    return from_dict(r)


def _mul_mono_poly(dm, dp):
    """monomial times polynomial; cancels inv(p) against a multiple of p"""
    (m1, c1), = dm.items()
    for a, e in m1:
        if a.op == "inv" and e >= 1:
            q = divexact(from_dict(dp), a.args[0])
            if q is not None:
                rest = tuple((b, f if b is not a else f - 1) for b, f in m1 if not (b is a and f == 1))
                return to_dict(mul(from_dict({rest: c1}), q))
    nr = {}
    for m2, c2 in dp.items():
        m = _mono_mul(m1, m2)
        v = nr.get(m, 0) + c1 * c2
        if v:
            nr[m] = v
        else:
            nr.pop(m, None)
    return nr


def inv(a):
    a = _numeric(a)
    if a.op == "q":
        if a.args[0] == 0:
            return app("recip0")
        return const(1 / a.args[0])
    d = to_dict(a)
    if len(d) == 1:
        (m, c), = d.items()
        r = {tuple((x, -e) for x, e in m if x.op != "inv"): 1 / c}
        res = from_dict(r)
        for x, e in m:
            if x.op == "inv":
                res = mul(res, powi(x.args[0], e))
        return res
    # normalise leading coefficient
    lead = sorted(d, key=_mono_key)[0]
    c = d[lead]
    # pull out common monomial factor
    common = None
    for m in d:
        md = dict(m)
        if common is None:
            common = md
        else:
            common = {x: min(e, md[x]) for x, e in common.items() if x in md and (e > 0) == (md[x] > 0)}
    common = {x: e for x, e in (common or {}).items() if e > 0}
    if common:
        cm = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
        icm = tuple((x, -e) for x, e in cm)
        return mul(from_dict({icm: Q(1)}), inv(mul(a, from_dict({icm: Q(1)}))))
    p = from_dict({m: v / c for m, v in d.items()})
    node = _mk("inv", (p,), p.fv, p.bh, False)
    return mul(const(1 / c), node)


def div(a, b):
    a = _numeric(a)
    b = _numeric(b)
    if b.op == "inf":
        return const(0)
    q = None
    if b.op == "poly" and len(b.args[0]) > 1 and a.op == "poly":
        q = divexact(a, b)
        if q is not None:
            return q
    return mul(a, inv(b))


def powi(a, k):
    a = _numeric(a)
    if k == 0:
        return const(1)
    if k < 0:
        return powi(inv(a), -k)
    r = const(1)
    for _ in range(k):
        r = mul(r, a)
    return r


def power(a, b):
    a, b = _numeric(a), _numeric(b)
    if is_const(b):
        v = cval(b)
        if v.denominator == 1 and abs(v) <= 12:
            return powi(a, int(v))
        if v == Q(1, 2):
            return app("sqrt", a)
        if v == Q(-1, 2):
            return inv(app("sqrt", a))
    if is_const(a) and cval(a) == 1:
        return const(1)
    return app("pow", a, b)


def divexact(p, d):
    """exact multivariate division p/d, or None"""
    if d.op == "q":
        return mul(p, const(1 / cval(d))) if cval(d) != 0 else None
    dp, dd = to_dict(p), to_dict(d)
    if not dp:
        return const(0)
    if len(dd) == 1:
        (m, c), = dd.items()
        out = {}
        for m2, c2 in dp.items():
            md = dict(m2)
            for x, e in m:
                if md.get(x, 0) < e:
                    return None
            out[_mono_mul(m2, tuple((x, -e) for x, e in m))] = c2 / c
        return from_dict(out)
    if len(dp) < 2 or len(dp) > 200:
        return None
    atoms = sorted({a for m in list(dp) + list(dd) for a, _ in m}, key=lambda a: a.id)
    if any(e < 0 for m in dd for _, e in m):
        return None
    order = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        for a, e in m:
            v[order[a]] = e
        return tuple(v)
    ld = max(dd, key=vec)
    lv = vec(ld)
    rem = dict(dp)
    quo = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 300:
            return None
        lm = max(rem, key=vec)
        v = vec(lm)
        if any(x < y for x, y in zip(v, lv)):
            return None
        qm = _mono_mul(lm, tuple((x, -e) for x, e in ld))
        if any(e < 0 and dict(lm).get(x, 0) >= 0 for x, e in qm):
            return None
        qc = rem[lm] / dd[ld]
        quo[qm] = quo.get(qm, 0) + qc
        for m, c in dd.items():
            mm = _mono_mul(qm, m)
            nv = rem.get(mm, 0) - qc * c
            if nv:
                rem[mm] = nv
            else:
                rem.pop(mm, None)
    return from_dict(quo)


# ---------------------------------------------------------------- bounds
def bounds(a):
    """(lower bounds, upper bounds) known for an atom"""
    if a.op == "var":
        return [const(0)], [sub(a.args[1], const(1))]
    if a.op == "sym":
        lo = CTX.lo.get(a.args[0])
        hi = CTX.hi.get(a.args[0])
        return ([const(lo)] if lo is not None else []), ([const(hi)] if hi is not None else [])
    if a.op == "elem":
        t = CTX.tensors.get(a.args[0])
        if t:
            return ([const(t["lo"])] if t.get("lo") is not None else []), (
                [const(t["hi"])] if t.get("hi") is not None else [])
        return [], []
    if a.op == "app":
        f = a.args[0]
        if f == "min":
            ups = list(a.args[1:])
            los = []
            for x in a.args[1:]:
                for l in _lowers(x):
                    if all(y is x or nonneg(sub(y, l)) for y in a.args[1:]):
                        los.append(l)
            return los, ups
        if f == "max":
            los = list(a.args[1:])
            ups = []
            for x in a.args[1:]:
                for u in _uppers(x):
                    if all(y is x or nonneg(sub(u, y)) for y in a.args[1:]):
                        ups.append(u)
            return los, ups
        if f == "mod":
            if a.isint:
                return [const(0)], [sub(a.args[2], const(1))]
            return [const(0)], [a.args[2]]
        if f == "rem":
            return [const(0)], [a.args[2]]
        if f == "fdiv":
            if nonneg(a.args[1]):
                ups = []
                for u in _uppers(a.args[1]):
                    q = divexact(add(u, const(1)), a.args[2])
                    if q is not None and q.isint:
                        ups.append(sub(q, const(1)))
                return [const(0)], ups + [a.args[1]]
            return [], []
        if f in ("abs", "exp", "sqrt", "sigmoid"):
            return [const(0)], []
        if f in ("cos", "sin"):
            d = to_dict(a.args[1])
            if len(d) == 1:
                (m, c), = d.items()
                if m == ((pi(), 1),):
                    v = (math.cos if f == "cos" else math.sin)(math.pi * float(c))
                    return [const(Q(v) - Q(1, 10**12))], [const(Q(v) + Q(1, 10**12))]
        if f in ("cos", "sin", "tanh"):
            return [const(-1)], [const(1)]
        if f in ("trunc", "floor"):
            los = []
            for l in _lowers(a.args[1]):
                if l.isint:
                    los.append(l)
            ups = [u for u in _uppers(a.args[1])]
            return los, ups
        if f == "detach":
            return bounds(a.args[1])
    if a.op == "ite":
        _, x, y = a.args
        los = [l for l in _lowers(x) + _lowers(y) if nonneg(sub(x, l)) and nonneg(sub(y, l))]
        ups = [u for u in _uppers(x) + _uppers(y) if nonneg(sub(u, x)) and nonneg(sub(u, y))]
        return los, ups
    if a.op == "inv":
        if nonneg(a.args[0]):
            return [const(0)], []
    return [], []


def _lowers(x):
    if x.op == "q":
        return [x]
    if x.op == "poly":
        return [x] if not x.fv else []
    return bounds(x)[0] + ([x] if x.op == "sym" else [])


def _uppers(x):
    if x.op == "q":
        return [x]
    if x.op == "poly":
        return [x] if not x.fv else []
    return bounds(x)[1] + ([x] if x.op == "sym" else [])


def nonneg(p, depth=0, usefacts=True):
    """True only if p >= 0 is established from the ranges and facts."""
    if p.op == "q":
        return cval(p) >= 0
    if p.op == "inf":
        return p.args[0] > 0
    key = (p, usefacts)
    r = _cache_nonneg.get(key)
    if r is True:
        return True
    if r is not None and depth >= r:
        return False
    if depth > 7:
        return False
    global _nn_budget
    if depth == 0:
        saved, _nn_budget = _nn_budget, 400
    else:
        saved = None
        _nn_budget -= 1
        if _nn_budget < 0:
            return False
    _cache_nonneg[key] = depth  # cut recursion; failed at this depth or deeper
    r = _nonneg(p, depth)
    if not r and usefacts and depth == 0:
        for f in CTX.facts:
            if _nonneg_nofact(sub(p, f)):
                r = True
                break
            # p = c*f with c>0
        if not r:
            for f in CTX.facts:
                q = divexact(p, f) if f.op != "q" else None
                if q is not None and q.op == "q" and cval(q) > 0:
                    r = True
                    break
    if r:
        _cache_nonneg[key] = True
    elif _nn_budget < 0 and depth:
        _cache_nonneg.pop(key, None)
    if depth == 0:
        _nn_budget = saved
    return r


_nn_budget = 0


def _nonneg_nofact(p):
    return nonneg(p, 0, False) if p.op != "q" else cval(p) >= 0


def _positive_sym(a):
    # the lower bound of a real symbol is exclusive
    return a.op == "sym" and CTX.lo.get(a.args[0]) is not None and (CTX.lo[a.args[0]] > 0 or (CTX.lo[a.args[0]] == 0 and not a.isint))


def _posatom(a):
    if _positive_sym(a):
        return True
    if a.op == "app" and a.args[0] == "exp":
        return True
    if a.op == "inv":
        return nonneg(a.args[0], 3)
    return False


def _nonneg(p, depth):
    d = to_dict(p)
    # clear negative exponents of positive atoms
    negs = {}
    for m in d:
        for a, e in m:
            if e < 0:
                if not _posatom(a):
                    return False
                negs[a] = max(negs.get(a, 0), -e)
    if negs:
        f = tuple(sorted(negs.items(), key=lambda ae: ae[0].id))
        d2 = {}
        for m, c in d.items():
            mm = _mono_mul(m, f)
            d2[mm] = d2.get(mm, 0) + c
        return nonneg(from_dict(d2), depth + 1)
    # all monomials nonneg?
    atoms = {}
    for m in d:
        for a, e in m:
            atoms.setdefault(a, 0)
            atoms[a] = max(atoms[a], e)
    syms_only = all(a.op == "sym" for a in atoms)
    if syms_only:
        ok = _shift_check(d, atoms)
        if ok:
            return True
    if depth <= 6:
        # even powers
        if all((c >= 0 and all(e % 2 == 0 or _atom_nonneg(a, depth) for a, e in m)) for m, c in d.items()):
            return True
    for a, e in sorted(atoms.items(), key=lambda ae: (ae[0].op == "sym", -ae[0].id)):
        if e != 1:
            continue
        lows, ups = bounds(a)
        fd = a.op == "app" and a.args[0] == "fdiv" and a.args[2].op != "q"
        if not lows and not ups and not fd:
            continue
        co, rest = {}, {}
        for m, c in d.items():
            if any(x is a for x, _ in m):
                co[tuple((x, k) for x, k in m if x is not a)] = c
            else:
                rest[m] = c
        co, rest = from_dict(co), from_dict(rest)
        if fd and positive(a.args[2]):
            # x - d + 1 <= d * (x // d) <= x
            q = divexact(co, a.args[2])
            if q is not None and nonneg(q, depth + 1):
                if nonneg(add(mul(q, add(sub(a.args[1], a.args[2]), const(1))), rest), depth + 1):
                    return True
            elif q is not None and nonneg(neg(q), depth + 1):
                if nonneg(add(mul(q, a.args[1]), rest), depth + 1):
                    return True
        if lows and nonneg(co, depth + 1):
            for l in lows:
                if nonneg(add(mul(co, l), rest), depth + 1):
                    return True
        if ups and nonneg(neg(co), depth + 1):
            for u in ups:
                if nonneg(add(mul(co, u), rest), depth + 1):
                    return True
    if depth <= 1:
        for a in atoms:
            if a.op == "app" and a.args[0] in ("min", "max") and len(a.args) == 3:
                # the atom is one of its arguments
                if all(nonneg(subst(p, {a: x}), depth + 1) for x in a.args[1:]):
                    return True
    return False


def _atom_nonneg(a, depth):
    if a.op == "sym":
        lo = CTX.lo.get(a.args[0])
        return lo is not None and lo >= 0
    lows, _ = bounds(a)
    return any(nonneg(l, depth + 2) for l in lows)


def _shift_check(d, atoms):
    """substitute s = lo + s' and look for all-nonnegative coefficients"""
    cur = d
    for a in atoms:
        lo = CTX.lo.get(a.args[0])
        if lo is None:
            return False
        if lo == 0:
            continue
        out = {}
        for m, c in cur.items():
            e = dict(m).get(a, 0)
            base = tuple((x, k) for x, k in m if x is not a)
            # (lo + s)^e
            from math import comb
            for k in range(e + 1):
                mm = _mono_mul(base, ((a, k),) if k else ())
                out[mm] = out.get(mm, 0) + c * comb(e, k) * lo ** (e - k)
        cur = out
    return all(c >= 0 for c in cur.values())


def positive(p):
    if p.op == "q":
        return cval(p) > 0
    if p.isint:
        return nonneg(sub(p, const(1)))
    d = to_dict(p)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0 and all(_posatom(a) for a, _ in m):
            return True
    if p.op == "sym":
        return _positive_sym(p)
    # p - eps
    c0 = d.get((), Q(0))
    if c0 > 0:
        return nonneg(sub(p, const(c0 / 2)))
    return False


# ---------------------------------------------------------------- booleans
def true():
    return _mk("b", (True,), EMPTY, 0, False, True)


def false():
    return _mk("b", (False,), EMPTY, 0, False, True)


def bconst(v):
    return true() if v else false()


def _prim(p, signed):
    """divide by |leading coefficient| (positive scaling)"""
    d = to_dict(p)
    if not d:
        return p
    lead = sorted((m for m in d), key=lambda m: (len(m) == 0, _mono_key(m)))[0]
    c = abs(d[lead]) if not signed else d[lead]
    if p.isint:
        # keep integrality: divide by gcd
        from math import gcd
        g = 0
        for v in d.values():
            g = gcd(g, int(v))
        c = Q(g) if not (signed and d[lead] < 0) else Q(-g)
    if c == 1:
        return p
    return from_dict({m: v / c for m, v in d.items()})


def le0(p):
    if p.op == "inf":
        return bconst(p.args[0] < 0)
    if p.op == "q":
        return bconst(cval(p) <= 0)
    if nonneg(neg(p)):
        return true()
    if positive(p):
        return false()
    if p.isint and any(x.op == "app" and x.args[0] == "mod" for x in ((p,) if p.op != "poly" else tuple(a for m, _ in p.args[0] for a, e in m))):
        if nonneg(p):
            return eq0(p)
        q = sub(const(1), p)
        if nonneg(q):
            return not_(eq0(q))
    p = _prim(p, False)
    n = _mk("le0", (p,), p.fv, p.bh, False, True)
    return _known(n)


def lt0(p):
    if p.op == "inf":
        return bconst(p.args[0] < 0)
    if p.op == "q":
        return bconst(cval(p) < 0)
    if p.isint:
        return le0(add(p, const(1)))
    return not_(le0(neg(p)))


def eq0(p):
    if p.op == "inf":
        return false()
    if p.op == "q":
        return bconst(cval(p) == 0)
    if positive(p) or positive(neg(p)):
        return false()
    r = _cos_inject(p)
    if r is not None:
        return r
    r = _digits(p)
    if r is not None:
        return r
    p = _prim(p, True)
    n = _mk("eq0", (p,), p.fv, p.bh, False, True)
    return _known(n)


def _digits(p):
    """D*q + r == 0 with |r| < D  <=>  q == 0 and r == 0 (mixed radix numbers)"""
    if not p.isint or p.op != "poly" or len(p.args[0]) < 3:
        return None
    d = to_dict(p)
    vs = [m[0][0] for m, c in d.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(c) == 1]
    if not vs or all(len(m) <= 1 and abs(c) == 1 for m, c in d.items()):
        return None
    tried = set()
    for v in vs:
        D = v.args[1]
        if D in tried or D.fv or (D.op == "q" and cval(D) <= 1):
            continue
        tried.add(D)
        qr = _split_by(p, D)
        if qr is None:
            continue
        q, r = qr
        if q.op == "q" and cval(q) == 0 or not q.isint or not r.isint or v not in r.fv or r is p:
            continue
        one_ = const(1)
        if nonneg(sub(sub(D, one_), r)) and nonneg(add(sub(D, one_), r)):
            return and_(eq0(q), eq0(r))
    return None


def _cos_inject(p):
    """cos(pi a/D) == cos(pi b/D) with 0 <= a, b <= D  <=>  a == b"""
    if p.op != "poly" or len(p.args[0]) > 2:
        return None
    d = to_dict(p)
    if len(d) != 2:
        return None
    (m1, c1), (m2, c2) = d.items()
    if c1 != -c2:
        return None

    def split(m):
        cs = [a for a, e in m if a.op == "app" and a.args[0] == "cos" and e == 1]
        if len(cs) != 1:
            return None
        return cs[0].args[1], tuple((a, e) for a, e in m if a is not cs[0])
    s1, s2 = split(m1), split(m2)
    if s1 is None or s2 is None or s1[1] != s2[1] or not all(_posatom(a) for a, e in s1[1]):
        if not (len(m1) == 0 or len(m2) == 0):
            return None
        return None

    def frac(u):
        du = to_dict(u)
        g = None
        out = {}
        for m, c in du.items():
            rest = []
            seen = 0
            h = None
            for a, e in m:
                if a is pi() and e == 1:
                    seen += 1
                elif a.op == "inv" and e == 1 and h is None:
                    h = a
                else:
                    rest.append((a, e))
            if seen != 1 or h is None or (g is not None and h is not g):
                return None
            g = h
            out[tuple(rest)] = c
        if g is None:
            return None
        return from_dict(out), g
    f1, f2 = frac(s1[0]), frac(s2[0])
    if f1 is None or f2 is None or f1[1] is not f2[1]:
        return None
    D = f1[1].args[0]
    if not positive(D):
        D = neg(D)
        if not positive(D):
            return None
    out = []
    for a in (f1[0], f2[0]):
        if not nonneg(a):
            a = neg(a)
        if not (a.isint and nonneg(a) and nonneg(sub(D, a))):
            return None
        out.append(a)
    return eq0(sub(out[0], out[1]))


def _known(n):
    v = CTX.eqs.get(n)
    if v is None:
        return n
    return bconst(v)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    a = const(a) if not isinstance(a, Node) else a
    b = const(b) if not isinstance(b, Node) else b
    if a.isbool and b.isbool:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a is b:
        return true()
    if a.op == "inf" or b.op == "inf":
        return false()
    return eq0(sub(a, b))


def not_(c):
    if c.op == "b":
        return bconst(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return or_(*[not_(x) for x in c.args])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args])
    if c.op == "le0" and c.args[0].isint:
        # not (p<=0)  <=>  1-p <= 0
        return le0(sub(const(1), c.args[0]))
    n = _mk("not", (c,), c.fv, c.bh, False, True)
    return _known(n)


def and_(*cs):
    out = {}
    for c in cs:
        if c.op == "b":
            if not c.args[0]:
                return false()
            continue
        for x in (c.args if c.op == "and" else (c,)):
            out[x] = True
    for x in list(out):
        if not_(x) in out:
            return false()
    if not out:
        return true()
    xs = tuple(sorted(out, key=lambda n: n.id))
    if len(xs) == 1:
        return xs[0]
    return _mk("and", xs, _fvs(xs), _bhs(xs), False, True)


def or_(*cs):
    out = {}
    for c in cs:
        if c.op == "b":
            if c.args[0]:
                return true()
            continue
        for x in (c.args if c.op == "or" else (c,)):
            out[x] = True
    for x in list(out):
        if not_(x) in out:
            return true()
    if not out:
        return false()
    xs = tuple(sorted(out, key=lambda n: n.id))
    if len(xs) == 1:
        return xs[0]
    return _mk("or", xs, _fvs(xs), _bhs(xs), False, True)


def batom(name):
    return _known(_mk("batom", (name,), EMPTY, 0, False, True))


def conjuncts(c):
    return list(c.args) if c.op == "and" else [c]


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    a = const(a) if not isinstance(a, Node) else a
    b = const(b) if not isinstance(b, Node) else b
    if c.op == "b":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.isbool or b.isbool:
        if not a.isbool:
            a = not_(eq0(a))
        if not b.isbool:
            b = not_(eq0(b))
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "or" and any(x.op == "not" for x in c.args):
        return ite(not_(c), b, a)
    if c.op == "and" and all(x.op == "not" for x in c.args):
        return ite(or_(*[x.args[0] for x in c.args]), b, a)
    a2 = assume(a, c, True)
    b2 = assume(b, c, False)
    if a2 is b2:
        return a2
    a, b = a2, b2
    # nested ite with the same arm
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    # equality guard whose arms agree under the equation
    if c.op == "eq0":
        s = solve_any(c.args[0])
        if s is not None:
            v, t = s
            if subst(b, {v: t}) is a:
                return b
    # min / max recognition:  a<=b ? a : b
    if c.op == "le0":
        dab = sub(a, b)
        p = c.args[0]
        if _same_dir(p, dab):
            return app("min", a, b)
        if _same_dir(p, neg(dab)):
            return app("max", a, b)
        if p.isint and dab.isint:
            # le0(p) with p = a-b+1 (a<b)  : min as well
            if sub(p, dab) is const(1):
                return app("min", a, b)
            if sub(p, neg(dab)) is const(1):
                return app("max", a, b)
    return _mk("ite", (c, a, b), _fvs((c, a, b)), _bhs((c, a, b)), a.isint and b.isint)


def _same_dir(p, q):
    """p == k*q with k>0"""
    if p is q:
        return True
    dp, dq = to_dict(p), to_dict(q)
    if set(dp) != set(dq) or not dp:
        return False
    k = None
    for m in dp:
        r = dp[m] / dq[m]
        if k is None:
            k = r
        elif k != r:
            return False
    return k > 0


_assume_cache = {}


def assume(t, c, val):
    """rewrite t using that guard c is `val`"""
    if t.op in ("q", "sym", "var", "elem", "bv", "inf", "b"):
        return t
    m = {}
    if val:
        for x in conjuncts(c):
            m[x] = True
            m[not_(x)] = False
    else:
        m[c] = False
        m[not_(c)] = True
        if c.op == "or":
            for x in c.args:
                m[x] = False
                m[not_(x)] = True
    if not _mentions_any(t, m):
        return t
    return subst(t, {k: bconst(v) for k, v in m.items()})


def _mentions_any(t, m, _seen=None):
    seen = set()
    stack = [t]
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in m:
            return True
        stack.extend(children(n))
    return False


def children(n):
    op = n.op
    if op in ("q", "sym", "bv", "inf", "b", "batom"):
        return ()
    if op == "var":
        return ()
    if op == "poly":
        return [a for m, _ in n.args[0] for a, _ in m]
    if op == "elem":
        r = list(n.args[1:])
        return r
    if op == "app":
        return n.args[1:]
    if op == "red":
        return list(n.args[1]) + [n.args[2]]
    if op == "last":
        return list(n.args[0]) + list(n.args[1:4])
    if op == "uapp":
        return list(n.args[1]) + [n.args[2]] + list(n.args[4])
    return n.args


# ---------------------------------------------------------------- linear equations
def linear_in(p, v):
    """(coef, rest) with p = coef*v + rest, both free of v, or None"""
    d = to_dict(p)
    co, rest = {}, {}
    for m, c in d.items():
        hit = [e for a, e in m if a is v]
        if hit:
            if hit[0] != 1:
                return None
            m2 = tuple((a, e) for a, e in m if a is not v)
            if any(v in a.fv for a, _ in m2):
                return None
            co[m2] = c
        else:
            if any(v in a.fv for a, _ in m):
                return None
            rest[m] = c
    if not co:
        return None
    return from_dict(co), from_dict(rest)


def solve_any(p):
    """solve p=0 for some index variable with coefficient +-1"""
    for m, c in to_dict(p).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var" and abs(c) == 1:
            lr = linear_in(p, m[0][0])
            if lr is not None and lr[0].op == "q":
                return m[0][0], div(neg(lr[1]), lr[0])
    return None


# ---------------------------------------------------------------- applications
def _pi_coeff(a):
    """a == r*pi with rational r -> r"""
    d = to_dict(a)
    if not d:
        return Q(0)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) == 1 and m[0][0] is pi() and m[0][1] == 1:
            return c
    return None


_INTAPP = {"trunc", "floor", "ceil", "fdiv", "argmax"}
_ZEROGRAD = {"trunc", "floor", "ceil", "sign", "fdiv"}


def app(f, *args):
    args = tuple(const(a) if not isinstance(a, Node) else a for a in args)
    if f not in ("detach",):
        args = tuple(_numeric(a) for a in args)
    r = _app_simplify(f, args)
    if r is not None:
        return r
    isint = f in _INTAPP or (f in ("min", "max", "abs", "mod", "detach", "sign") and all(a.isint for a in args))
    return _mk("app", (f,) + args, _fvs(args), _bhs(args), isint)


def raw_app(f, args):
    return _mk("app", (f,) + tuple(args), _fvs(args), _bhs(args), f in _INTAPP)


def _sgn_norm(a):
    """(sign, |a|-representative) choosing a canonical sign of the polynomial"""
    d = to_dict(a)
    if not d:
        return 1, a
    lead = sorted(d, key=lambda m: (len(m) == 0, _mono_key(m)))[0]
    if d[lead] < 0:
        return -1, neg(a)
    return 1, a


def _app_simplify(f, args):
    a = args[0] if args else None
    if f in ("trunc", "floor", "ceil", "round"):
        if a.isint:
            return a
        if a.op == "q":
            v = cval(a)
            if f == "trunc":
                return const(int(v))
            import math
            return const(math.floor(v) if f == "floor" else math.ceil(v) if f == "ceil" else round(v))
        if a.op == "app" and a.args[0] == "detach":
            return app(f, a.args[1])
        if a.op == "ite" and a.args[1].op == "q" and a.args[2].op == "q":
            return ite(a.args[0], app(f, a.args[1]), app(f, a.args[2]))
        if a.op == "app" and a.args[0] in ("min", "max"):
            # monotone functions commute with the extrema
            return app(a.args[0], *[app(f, x) for x in a.args[1:]])
        if f == "trunc" and nonneg(a):
            return app("floor", a)
        if f == "floor":
            # floor(p/q) with integer parts
            d = to_dict(a)
            ip = {m: c for m, c in d.items() if c.denominator == 1 and all(x.isint and e > 0 for x, e in m)}
            if ip and len(ip) < len(d):
                fp = {m: c for m, c in d.items() if m not in ip}
                return add(from_dict(ip), app("floor", from_dict(fp)))
        return None
    if f == "cos":
        r = _pi_coeff(a)
        if r is not None:
            r = r % 2
            tab = {Q(0): 1, Q(1): -1, Q(1, 2): 0, Q(3, 2): 0, Q(1, 3): Q(1, 2), Q(2, 3): Q(-1, 2),
                   Q(4, 3): Q(-1, 2), Q(5, 3): Q(1, 2)}
            if r in tab:
                return const(tab[r])
            if r > 1:
                return app("cos", mul(const(2 - r), pi()))
            if r > Q(1, 2):
                return neg(app("cos", mul(const(1 - r), pi())))
            return None if a is mul(const(r), pi()) else app("cos", mul(const(r), pi()))
        s, b = _sgn_norm(a)
        if s < 0:
            return app("cos", b)
        return None
    if f == "sin":
        r = _pi_coeff(a)
        if r is not None:
            return app("cos", mul(const(r - Q(1, 2)), pi()))
        s, b = _sgn_norm(a)
        if s < 0:
            return neg(app("sin", b))
        return None
    if f == "abs":
        if a.op == "q":
            return const(abs(cval(a)))
        if nonneg(a):
            return a
        if nonneg(neg(a)):
            return neg(a)
        s, b = _sgn_norm(a)
        if s < 0:
            return app("abs", b)
        d = to_dict(a)
        if len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                return mul(const(abs(c)), app("abs", from_dict({m: Q(1)})))
        return None
    if f == "exp":
        if a.op == "q" and cval(a) == 0:
            return const(1)
        if a.op == "inf":
            return const(0) if a.args[0] < 0 else a
        if a.op == "ite" and any(x.op == "inf" for x in a.args[1:]):
            return ite(a.args[0], app("exp", a.args[1]), app("exp", a.args[2]))
        if a.op == "app" and a.args[0] == "log":
            return a.args[1]
        return None
    if f == "log":
        if a.op == "q" and cval(a) == 1:
            return const(0)
        if a.op == "app" and a.args[0] == "exp":
            return a.args[1]
        return None
    if f == "sqrt":
        if a.op == "q" and cval(a) >= 0:
            import math
            v = cval(a)
            n, m = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and m * m == v.denominator:
                return const(Q(n, m))
        d = to_dict(a)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 2 and c == 1:
                return app("abs", m[0][0])
        return None
    if f in ("tanh", "sin") and a.op == "q" and cval(a) == 0:
        return const(0)
    if f == "sign":
        if a.op == "q":
            v = cval(a)
            return const(0 if v == 0 else 1 if v > 0 else -1)
        if a.op == "app" and a.args[0] == "detach":
            return app(f, a.args[1])
        return None
    if f in ("min", "max"):
        return _minmax(f, args)
    if f == "fdiv":
        return _fdiv(args[0], args[1])
    if f == "mod":
        return _mod(args[0], args[1])
    if f == "rem":
        x, m = args
        if x.op == "q" and m.op == "q" and cval(m) != 0:
            v, w = cval(x), cval(m)
            import math
            return const(v - w * math.floor(v / w))
        if x.isint and m.isint:
            return app("mod", x, m)
        return None
    if f == "detach":
        return _detach(a)
    return None


def _detach(a):
    if a.isbool or a.isint:
        return a
    if not _has_grad_atom(a):
        return a
    if a.op == "app" and a.args[0] == "detach":
        return a
    return None


_hg = {}


def _has_grad_atom(a):
    """mentions a float leaf outside a zero-gradient operator"""
    r = _hg.get(a)
    if r is not None:
        return r
    if a.op == "elem":
        r = not a.isint and not a.isbool
    elif a.isbool or a.isint:
        r = False
    elif a.op == "app" and a.args[0] in _ZEROGRAD:
        r = False
    elif a.op == "ite":
        r = _has_grad_atom(a.args[1]) or _has_grad_atom(a.args[2])
    elif a.op == "last":
        r = _has_grad_atom(a.args[2]) or _has_grad_atom(a.args[3])
    else:
        r = any(_has_grad_atom(c) for c in children(a))
    _hg[a] = r
    return r


def _minmax(f, args):
    other = "max" if f == "min" else "min"
    flat = []
    for a in args:
        if a.op == "app" and a.args[0] == f:
            flat.extend(a.args[1:])
        else:
            flat.append(a)
    if any(x.op == "inf" for x in flat):
        bad = [x for x in flat if x.op == "inf"]
        for x in bad:
            if (f == "min") == (x.args[0] < 0):
                return x
        flat = [x for x in flat if x.op != "inf"]
    # dominated arguments
    uniq = []
    for x in flat:
        if x not in uniq:
            uniq.append(x)
    keep = []
    for i, x in enumerate(uniq):
        dom = False
        for j, y in enumerate(uniq):
            if i == j:
                continue
            ge = nonneg(sub(x, y)) if f == "min" else nonneg(sub(y, x))
            if ge:
                # x >= y : x useless in min
                back = nonneg(sub(y, x)) if f == "min" else nonneg(sub(x, y))
                if not back or j < i:
                    dom = True
                    break
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    # clamp canonical form: max(lo, min(hi, t)) with lo<=hi  ->  min(hi, max(lo, t))
    if f == "max" and len(keep) == 2:
        for x, y in ((keep[0], keep[1]), (keep[1], keep[0])):
            if y.op == "app" and y.args[0] == "min" and len(y.args) == 3:
                for hi, t in ((y.args[1], y.args[2]), (y.args[2], y.args[1])):
                    if nonneg(sub(hi, x)):
                        return app("min", hi, app("max", x, t))
    keep.sort(key=lambda n: n.id)
    if tuple(keep) == tuple(args):
        return None
    return raw_minmax(f, tuple(keep))


def raw_minmax(f, args):
    return _mk("app", (f,) + args, _fvs(args), _bhs(args), all(a.isint for a in args))


def _split_by(p, d):
    """p = q*d + r choosing monomials divisible by d (d a monomial or a polynomial)"""
    if d.op in ("q",):
        k = cval(d)
        if k.denominator != 1:
            return None
        q, r = {}, {}
        for m, c in to_dict(p).items():
            if c.denominator == 1 and c % k == 0:
                q[m] = c / k
            elif c.denominator == 1 and not m:
                fl = c // k
                q[m] = Q(fl)
                r[m] = c - fl * k
            else:
                r[m] = c
        return from_dict(q), from_dict(r)
    dd = to_dict(d)
    if len(dd) == 1:
        (dm, dc), = dd.items()
        q, r = {}, {}
        for m, c in to_dict(p).items():
            md = dict(m)
            if all(md.get(x, 0) >= e for x, e in dm) and (c / dc).denominator == 1:
                q[_mono_mul(m, tuple((x, -e) for x, e in dm))] = c / dc
            else:
                r[m] = c
        return from_dict(q), from_dict(r)
    # polynomial divisor: multivariate division with remainder, several monomial orders
    dp = to_dict(p)
    atoms = sorted({a for m in list(dp) + list(dd) for a, _ in m}, key=lambda a: a.id)
    if any(e < 0 for m in list(dp) + list(dd) for _, e in m) or len(atoms) > 24:
        return None
    for ld in sorted(dd, key=lambda m: -sum(e for _, e in m)):
        if not ld:
            continue
        rem = dict(dp)
        quo = {}
        done = {}
        steps = 0
        while rem and steps < 60:
            steps += 1
            cand = None
            for m in rem:
                md = dict(m)
                if all(md.get(x, 0) >= e for x, e in ld) and (rem[m] / dd[ld]).denominator == 1:
                    cand = m
                    break
            if cand is None:
                break
            qm = _mono_mul(cand, tuple((x, -e) for x, e in ld))
            qc = rem[cand] / dd[ld]
            quo[qm] = quo.get(qm, 0) + qc
            for m, c in dd.items():
                mm = _mono_mul(qm, m)
                nv = rem.get(mm, 0) - qc * c
                if nv:
                    rem[mm] = nv
                else:
                    rem.pop(mm, None)
        if quo and steps < 60:
            return from_dict(quo), from_dict(rem)
    return None


def _in_range(r, d):
    return nonneg(r) and positive(sub(d, r))


def _fdiv(a, d):
    if d.op == "q" and cval(d) == 1:
        return app("floor", a)
    if a.op == "q" and d.op == "q" and cval(d) != 0:
        import math
        return const(math.floor(cval(a) / cval(d)))
    if not (a.isint and d.isint):
        return app("floor", div(a, d))
    if _in_range(a, d):
        return const(0)
    s = _split_by(a, d)
    if s is not None:
        q, r = s
        if r.op == "q" and cval(r) == 0:
            return q
        if _in_range(r, d):
            return q
        if _in_range(add(r, d), d):
            return sub(q, const(1))
        if _in_range(sub(r, d), d):
            return add(q, const(1))
        if q.op == "q" and cval(q) == 0:
            return None
        return add(q, app("fdiv", r, d))
    return None


def _mod(a, d):
    if a.op == "q" and d.op == "q" and cval(d) != 0:
        import math
        return const(cval(a) - cval(d) * math.floor(cval(a) / cval(d)))
    if d.op == "q" and cval(d) == 1 and a.isint:
        return const(0)
    if not (a.isint and d.isint):
        return app("rem", a, d)
    if _in_range(a, d):
        return a
    s = _split_by(a, d)
    if s is not None:
        q, r = s
        if r.op == "q" and cval(r) == 0:
            return const(0)
        if _in_range(add(r, d), d):
            return add(r, d)
        if _in_range(sub(r, d), d):
            return sub(r, d)
        if q.op == "q" and cval(q) == 0:
            return None
        return app("mod", r, d)
    return None


# ---------------------------------------------------------------- substitution
def subst(t, m):
    """simultaneous substitution of nodes (vars, atoms, guards)"""
    if not m:
        return t
    only_vars = all(k.op == "var" for k in m)
    keys = frozenset(m) if only_vars else None
    memo = {}

    def go(n):
        r = memo.get(n)
        if r is not None:
            return r
        if n in m:
            r = m[n]
        elif only_vars and not (n.fv & keys) and n.op != "var":
            r = n
        else:
            r = rebuild(n, go)
        memo[n] = r
        return r
    return go(t)


def rebuild(n, go):
    op = n.op
    if op in ("q", "sym", "bv", "inf", "b"):
        return n
    if op == "batom":
        return batom(n.args[0])
    if op == "var":
        return n
    if op == "poly":
        ch = [[(go(a), e) for a, e in m] for m, _ in n.args[0]]
        if all(x is a for (m, _), cm in zip(n.args[0], ch) for (a, _), (x, _) in zip(m, cm)):
            return n
        return add(*[mul(const(c), *[powi(x, e) for x, e in cm]) for (m, c), cm in zip(n.args[0], ch)])
    if op == "elem":
        idx = tuple(go(a) for a in n.args[1:])
        if all(x is y for x, y in zip(idx, n.args[1:])):
            return n
        return elem(n.args[0], idx, n.isint, n.isbool)
    if op == "app":
        a = [go(x) for x in n.args[1:]]
        if all(x is y for x, y in zip(a, n.args[1:])):
            return n
        return app(n.args[0], *a)
    if op == "inv":
        x = go(n.args[0])
        return n if x is n.args[0] else inv(x)
    if op == "ite":
        c = go(n.args[0])
        if c.op == "b":
            return go(n.args[1] if c.args[0] else n.args[2])
        return ite(c, go(n.args[1]), go(n.args[2]))
    if op == "le0":
        x = go(n.args[0])
        return _known(n) if x is n.args[0] else le0(x)
    if op == "eq0":
        x = go(n.args[0])
        return _known(n) if x is n.args[0] else eq0(x)
    if op == "not":
        return not_(go(n.args[0]))
    if op == "and":
        return and_(*[go(x) for x in n.args])
    if op == "or":
        return or_(*[go(x) for x in n.args])
    if op == "red":
        kind, his = n.args[:2]
        vs, body = open_red(n, [go(h) for h in his])
        b2 = go(body)
        if b2 is body and all(v.args[1] is h for v, h in zip(vs, his)):
            return n
        return red(kind, vs, b2)
    if op == "last":
        vs, cond, val = open_last(n, [go(h) for h in n.args[0]])
        return last(vs, go(cond), go(val), go(n.args[3]))
    if op == "uapp":
        fid, his, body, hh, oidx = n.args
        vs = [var(go(h)) for h in his]
        b = go(_replace_raw(body, {bv(hh, i): v for i, v in enumerate(vs)}))
        return uapp(fid, vs, b, [go(x) for x in oidx])
    raise Unsupported("rebuild " + op)


def uapp(fid, vs, body, oidx):
    """element oidx of the uninterpreted tensor function fid applied to the tensor (vs -> body)"""
    his = tuple(v.args[1] for v in vs)
    h = max(_bhs((body,)), _bhs(his)) + 1
    b = _close(vs, body, h)
    oidx = tuple(const(o) for o in oidx)
    fv = ((_fvs(his) | body.fv) - frozenset(vs)) | _fvs(oidx)
    return _mk("uapp", (fid, his, b, h, oidx), fv, max(h, _bhs(oidx)))


# ---------------------------------------------------------------- reductions
def _close(vs, t, h):
    return _replace_raw(t, {v: bv(h, i) for i, v in enumerate(vs)})


def _replace_raw(t, m):
    """structural replacement of variables without re-simplification of arithmetic facts"""
    memo = {}
    ks = set(m)

    def go(n):
        if n in m:
            return m[n]
        if n.op == "bv":
            return n
        if not n.fv and not any(k.op == "bv" for k in ks):
            return n
        r = memo.get(n)
        if r is None:
            r = _raw_rebuild(n, go)
            memo[n] = r
        return r
    return go(t)


def _raw_rebuild(n, go):
    op = n.op
    if op in ("q", "sym", "inf", "b", "batom", "var"):
        return n
    if op == "poly":
        d = {}
        for m, c in n.args[0]:
            mm = ()
            for a, e in m:
                mm = _mono_mul(mm, ((go(a), e),))
            d[mm] = d.get(mm, 0) + c
        r = from_dict(d)
        return r
    if op == "elem":
        idx = tuple(go(a) for a in n.args[1:])
        return _mk("elem", (n.args[0],) + idx, _fvs(idx), _bhs(idx), n.isint, n.isbool)
    if op == "app":
        a = tuple(go(x) for x in n.args[1:])
        if n.args[0] in ("min", "max"):
            a = tuple(sorted(a, key=lambda x: x.id))
        return _mk("app", (n.args[0],) + a, _fvs(a), _bhs(a), n.isint)
    if op in ("and", "or"):
        a = tuple(sorted({go(x) for x in n.args}, key=lambda x: x.id))
        if len(a) == 1:
            return a[0]
        return _mk(op, a, _fvs(a), _bhs(a), False, True)
    if op in ("le0", "eq0", "not", "inv", "ite"):
        a = tuple(go(x) for x in n.args)
        if op == "eq0":
            a = (_prim(a[0], True),) if a[0].op != "q" else a
        return _mk(op, a, _fvs(a), _bhs(a), n.isint, n.isbool)
    if op == "red":
        his = tuple(go(h) for h in n.args[1])
        b = go(n.args[2])
        allx = his + (b,)
        return _mk("red", (n.args[0], his, b, n.args[3]), _fvs(allx), max(_bhs(allx), n.args[3]), n.isint, n.isbool)
    if op == "last":
        his = tuple(go(h) for h in n.args[0])
        rest = tuple(go(x) for x in n.args[1:4])
        return _mk("last", (his,) + rest + (n.args[4],), _fvs(his + rest), max(_bhs(his + rest), n.args[4]), n.isint, n.isbool)
    if op == "uapp":
        his = tuple(go(h) for h in n.args[1])
        b = go(n.args[2])
        o = tuple(go(x) for x in n.args[4])
        allx = his + (b,) + o
        return _mk("uapp", (n.args[0], his, b, n.args[3], o), _fvs(allx), max(_bhs(allx), n.args[3]))
    raise Unsupported("raw " + op)


def _own_height(n):
    return n.bh


def open_red(n, his=None):
    kind, h0, body, hh = n.args
    his = his or h0
    vs = [var(h) for h in his]
    return vs, _replace_raw(body, {bv(hh, i): v for i, v in enumerate(vs)})


def open_last(n, his=None):
    his = his or n.args[0]
    vs = [var(h) for h in his]
    m = {bv(n.args[4], i): v for i, v in enumerate(vs)}
    return vs, _replace_raw(n.args[1], m), _replace_raw(n.args[2], m)


def _mk_red(kind, vs, body):
    his = tuple(v.args[1] for v in vs)
    best = None
    n = len(vs)
    groups = list(range(n))
    perms = [tuple(range(n))]
    if n > 1 and kind in ("sum", "prod", "max", "min", "any"):
        order = sorted(range(n), key=lambda i: his[i].id)
        perms = []
        # permute only within equal ranges
        blocks = []
        for i in order:
            if blocks and his[blocks[-1][0]] is his[i]:
                blocks[-1].append(i)
            else:
                blocks.append([i])
        for combo in itertools.product(*[list(itertools.permutations(b)) for b in blocks]):
            perms.append(tuple(x for b in combo for x in b))
            if len(perms) >= 120:
                break
    h = max(_bhs((body,)), _bhs(his)) + 1
    for p in perms:
        vs2 = [vs[i] for i in p]
        b = _close(vs2, body, h)
        key = (tuple(x.args[1].id for x in vs2), b.id)
        if best is None or key < best[0]:
            best = (key, vs2, b)
    _, vs2, b = best
    hs = tuple(v.args[1] for v in vs2)
    fv = _fvs(hs + (body,)) - frozenset(vs)
    return _mk("red", (kind, hs, b, h), fv, h, body.isint, kind == "any")


EXPAND = 6


def red(kind, vs, body):
    """reduction of `body` over the index variables vs"""
    vs = list(vs)
    if not vs:
        return body
    if kind == "sum":
        return _sum(vs, _numeric(body))
    if kind == "prod":
        r = body
        for v in reversed(vs):
            r = _prod1(v, _numeric(r))
        return r
    if kind in ("max", "min"):
        body = _numeric(body)
        r = body
        for v in reversed(vs):
            r = _mm1(kind, v, r)
        return r
    if kind == "any":
        r = body
        for v in reversed(vs):
            r = _any1(v, r)
        return r
    raise Unsupported(kind)


def _split_var(v, body):
    """Sum_{v<a*b} f(v//b, v%b): returns (v1, v2, body') or None"""
    hi = v.args[1]
    for n in walk(body):
        if n.op == "app" and n.args[0] in ("fdiv", "mod") and v in n.fv and n.args[1] is v:
            d = n.args[2]
            q = divexact(hi, d)
            if q is not None and q.isint and not d.fv and not (q.op == "q" and cval(q) == 1):
                v1, v2 = var(q), var(d)
                return v1, v2, subst(body, {v: add(mul(v1, d), v2)})
    return None


def walk(n):
    seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def _sum(vs, body):
    d = to_dict(body)
    out = []
    for m, c in d.items():
        out.append(mul(const(c), _sum_mono(vs, m)))
    return add(*out) if out else const(0)


def _delta(v, m):
    """find a guarded factor forcing v to a value; returns (value, guard)"""
    for a, e in m:
        if a.op == "ite" and e >= 1:
            c, x, y = a.args
            if y.op == "q" and cval(y) == 0:
                conds, arm = c, x
            elif x.op == "q" and cval(x) == 0:
                conds, arm = not_(c), y
            else:
                continue
            for k in conjuncts(conds):
                if k.op == "eq0" and v in k.fv:
                    lr = linear_in(k.args[0], v)
                    if lr is not None and lr[0].op == "q" and abs(cval(lr[0])) == 1:
                        t = div(neg(lr[1]), lr[0])
                        if t.isint:
                            return t
            d = to_dict(arm)
            if len(d) == 1 and v in arm.fv:
                t = _delta(v, next(iter(d)))
                if t is not None:
                    return t
    return None


def _window(v, m):
    """a zero-guarded factor that limits v to lo..hi: (lo, hi-lo+1, guard)"""
    for a, e in m:
        if a.op == "ite" and e >= 1:
            c, x, y = a.args
            if y.op == "q" and cval(y) == 0:
                conds, arm = c, x
            elif x.op == "q" and cval(x) == 0:
                conds, arm = not_(c), y
            else:
                continue
            los, his = [], []
            for k in conjuncts(conds):
                if k.op == "le0" and v in k.fv and k.args[0].isint:
                    lr = linear_in(k.args[0], v)
                    if lr is None or lr[0].op != "q" or abs(cval(lr[0])) != 1:
                        continue
                    if cval(lr[0]) < 0:
                        los.append(lr[1])
                    else:
                        his.append(neg(lr[1]))
            for lo in los:
                if not nonneg(lo):
                    continue
                for hi in his:
                    n = add(sub(hi, lo), const(1))
                    if n.fv & frozenset([v]) or not nonneg(n) or not positive(sub(v.args[1], hi)):
                        continue
                    if n.op == "poly" and any(z.op not in ("sym", "var") for mm, _ in n.args[0] for z, _e in mm):
                        continue
                    if n is v.args[1]:
                        continue
                    return lo, n, conds
            d = to_dict(arm)
            if len(d) == 1 and v in arm.fv:
                w = _window(v, next(iter(d)))
                if w is not None:
                    return w
    return None


def _sum_mono(vs, m):
    # flatten nested sums
    vs = list(vs)
    atoms = list(m)
    changed = True
    while changed:
        changed = False
        vset = frozenset(vs)
        for i, (a, e) in enumerate(atoms):
            if a.op == "red" and a.args[0] == "sum" and e == 1 and (a.fv & vset):
                ivs, ib = open_red(a)
                rest = atoms[:i] + atoms[i + 1:]
                newm = mul(*[powi(x, k) for x, k in rest], ib)
                dd = to_dict(newm)
                if len(dd) == 1:
                    (nm, nc), = dd.items()
                    if nc == 1:
                        vs = vs + ivs
                        atoms = list(nm)
                        changed = True
                        break
                    return mul(const(nc), _sum_mono(vs + ivs, nm))
                return _sum(vs + ivs, newm)
    vset = frozenset(vs)
    # constant ranges
    for v in vs:
        hi = v.args[1]
        if hi.op == "q" and cval(hi) <= EXPAND:
            rest = [x for x in vs if x is not v]
            mono = from_dict({tuple(sorted(_merge(atoms), key=lambda ae: ae[0].id)): Q(1)})
            tot = []
            for k in range(int(cval(hi))):
                tot.append(_sum(rest, subst(mono, {v: const(k)})) if rest else subst(mono, {v: const(k)}))
            return add(*tot) if tot else const(0)
    # delta elimination
    for v in vs:
        if any(v in u.args[1].fv for u in vs):
            continue
        t = _delta(v, atoms)
        if t is not None and not (t.fv & frozenset([v])):
            rest = [x for x in vs if x is not v]
            mono = from_dict({tuple(sorted(_merge(atoms), key=lambda ae: ae[0].id)): Q(1)})
            g = and_(le0(neg(t)), lt0(sub(t, v.args[1])))
            b = ite(g, subst(mono, {v: t}), const(0))
            return _sum(rest, b) if rest else b
    # a guard lo <= v <= hi: sum over the hi - lo + 1 admissible values
    for v in vs:
        if any(v in u.args[1].fv for u in vs):
            continue
        w = _window(v, atoms)
        if w is not None:
            lo, n, guard = w
            rest = [x for x in vs if x is not v]
            mono = from_dict({tuple(sorted(_merge(atoms), key=lambda ae: ae[0].id)): Q(1)})
            nv = var(n)
            b = subst(mono, {v: add(lo, nv)})
            return _sum(rest + [nv], b)
    # split flattened variables
    for v in vs:
        mono = from_dict({tuple(sorted(_merge(atoms), key=lambda ae: ae[0].id)): Q(1)})
        if v in mono.fv:
            s = _split_var(v, mono)
            if s is not None:
                v1, v2, b2 = s
                return _sum([x for x in vs if x is not v] + [v1, v2], b2)
    # independent factors
    res = []
    dep = []
    for a, e in atoms:
        if a.fv & vset:
            dep.append((a, e))
        else:
            res.append(powi(a, e))
    used = set()
    for a, _ in dep:
        used |= a.fv & vset
    for v in vs:
        if v not in used and not any(v in u.args[1].fv for u in vs):
            res.append(v.args[1])
    # connected components
    comps = []
    for a, e in dep:
        s = set(a.fv & vset)
        for v in list(s):
            s |= v.args[1].fv & vset
        mem = [(a, e)]
        keep = []
        for cs, cm in comps:
            if cs & s:
                s |= cs
                mem = cm + mem
            else:
                keep.append((cs, cm))
        comps = keep + [(s, mem)]
    for cs, cm in comps:
        body = from_dict({tuple(sorted(_merge(cm), key=lambda ae: ae[0].id)): Q(1)})
        res.append(_mk_red("sum", [v for v in vs if v in cs], body))
    return mul(*res) if res else const(1)


def _merge(atoms):
    d = {}
    for a, e in atoms:
        d[a] = d.get(a, 0) + e
    return [(a, e) for a, e in d.items() if e]


def _prod1(v, body):
    hi = v.args[1]
    if hi.op == "q" and cval(hi) <= EXPAND:
        r = const(1)
        for k in range(int(cval(hi))):
            r = mul(r, subst(body, {v: const(k)}))
        return r
    if v not in body.fv:
        if body.op == "q" and cval(body) == 1:
            return body
        return app("pow", body, hi) if body.op != "q" or cval(body) not in (0,) else body
    s = _split_var(v, body)
    if s is not None:
        v1, v2, b2 = s
        return _prod1(v1, _prod1(v2, b2))
    d = to_dict(body)
    if len(d) == 1:
        (m, c), = d.items()
        if len(m) > 1 or c != 1 or m[0][1] != 1:
            r = const(1)
            if c != 1:
                r = app("pow", const(c), hi)
            for a, e in m:
                if v in a.fv:
                    r = mul(r, powi(_prod1(v, a), e))
                else:
                    r = mul(r, app("pow", powi(a, e), hi))
            return r
    if body.op == "red" and body.args[0] == "prod":
        ivs, ib = open_red(body)
        return _mk_red("prod", [v] + ivs, ib)
    return _mk_red("prod", [v], body)


def sign_of(a):
    """1 / -1 when a >= 0 / a <= 0 is established"""
    x = a.args[0] if a.op == "inv" else a
    if nonneg(x):
        return 1
    if nonneg(neg(x)):
        return -1
    return None


def _mm1(kind, v, body):
    hi = v.args[1]
    if hi.op == "q" and 0 < cval(hi) <= EXPAND:
        return app(kind, *[subst(body, {v: const(k)}) for k in range(int(cval(hi)))]) if cval(hi) > 1 else \
            subst(body, {v: const(0)})
    if v not in body.fv:
        return body
    s = _split_var(v, body)
    if s is not None:
        v1, v2, b2 = s
        return _mm1(kind, v1, _mm1(kind, v2, b2))
    if body.op == "red" and body.args[0] == kind:
        ivs, ib = open_red(body)
        return _mk_red(kind, [v] + ivs, ib)
    d = to_dict(body)
    # pull out additive terms that do not depend on v, and sign/scale
    ind = {m: c for m, c in d.items() if not any(v in a.fv for a, _ in m)}
    if ind:
        dep = {m: c for m, c in d.items() if m not in ind}
        return add(from_dict(ind), _mm1(kind, v, from_dict(dep)))
    if len(d) == 1:
        (m, c), = d.items()
        if c != 1:
            k2 = kind if c > 0 else ("min" if kind == "max" else "max")
            return mul(const(c), _mm1(k2, v, from_dict({m: Q(1)})))
        if m == ((v, 1),):
            return sub(hi, const(1)) if kind == "max" else const(0)
        indf = [(a, e) for a, e in m if v not in a.fv]
        if indf:
            f = from_dict({tuple(indf): Q(1)})
            sg = 1
            for a, e in indf:
                s1 = sign_of(a)
                if s1 is None:
                    sg = None
                    break
                sg *= s1 if e % 2 else 1
            if sg is None:
                sg = 1 if nonneg(f) else -1 if nonneg(neg(f)) else None
            if sg is not None:
                k2 = kind if sg > 0 else ("min" if kind == "max" else "max")
                return mul(f, _mm1(k2, v, from_dict({tuple((a, e) for a, e in m if v in a.fv): Q(1)})))
    return _mk_red(kind, [v], body)


def _any1(v, body):
    hi = v.args[1]
    if body.op == "b":
        return and_(body, lt0(neg(hi))) if body.args[0] else body
    if hi.op == "q" and cval(hi) <= EXPAND:
        return or_(*[subst(body, {v: const(k)}) for k in range(int(cval(hi)))])
    if v not in body.fv:
        return and_(body, lt0(neg(hi)))
    if body.op == "or":
        return or_(*[_any1(v, x) for x in body.args])
    if body.op == "and":
        ind = [x for x in body.args if v not in x.fv]
        if ind:
            dep = [x for x in body.args if v in x.fv]
            return and_(*ind, _any1(v, and_(*dep)))
    for k in conjuncts(body):
        if k.op == "eq0" and v in k.fv:
            lr = linear_in(k.args[0], v)
            if lr is not None and lr[0].op == "q" and abs(cval(lr[0])) == 1:
                t = div(neg(lr[1]), lr[0])
                if t.isint:
                    return and_(le0(neg(t)), lt0(sub(t, hi)), subst(body, {v: t}))
    if body.op == "red" and body.args[0] == "any":
        ivs, ib = open_red(body)
        return _mk_red("any", [v] + ivs, ib)
    return _mk_red("any", [v], body)


# ---------------------------------------------------------------- last-writer selection
def last(vs, cond, val, default):
    """value `val` at the lexicographically last vs satisfying cond, else default"""
    vs = list(vs)
    if not vs:
        return ite(cond, val, default)
    if cond.op == "b" and not cond.args[0]:
        return default
    if cond.op == "or":
        # eliminate via equalities in each disjunct is unsound for ordering; keep
        pass
    for v in vs:
        hi = v.args[1]
        if hi.op == "q" and cval(hi) == 1:
            m = {v: const(0)}
            return last([x for x in vs if x is not v], subst(cond, m), subst(val, m), default)
    for v in reversed(vs):
        for n in walk(cond):
            if n.op == "app" and n.args[0] in ("fdiv", "mod") and n.args[1] is v:
                d = n.args[2]
                q = divexact(v.args[1], d)
                if q is not None and q.isint and not d.fv:
                    v1, v2 = var(q), var(d)
                    m = {v: add(mul(v1, d), v2)}
                    i = vs.index(v)
                    return last(vs[:i] + [v1, v2] + vs[i + 1:], subst(cond, m), subst(val, m), default)
    for v in vs:
        for k in conjuncts(cond):
            if k.op == "eq0" and v in k.fv:
                lr = linear_in(k.args[0], v)
                if lr is not None and lr[0].op == "q" and abs(cval(lr[0])) == 1:
                    t = div(neg(lr[1]), lr[0])
                    if not t.isint:
                        continue
                    i = vs.index(v)
                    later = [u for u in vs[i + 1:] if u in t.fv]
                    rest = [x for x in vs if x is not v]
                    if later:
                        # the order of the iterations must not change: v may follow one later variable upwards
                        lu = linear_in(t, later[0]) if len(later) == 1 else None
                        if lu is None or lu[0].op != "q" or cval(lu[0]) <= 0:
                            continue
                        rest = [later[0] if x is v else x for x in vs if x is not later[0]]
                    m = {v: t}
                    g = and_(le0(neg(t)), lt0(sub(t, v.args[1])))
                    c2 = and_(g, subst(cond, m))
                    return last(rest, c2, subst(val, m), default)
    # variables that do not matter
    dep = [v for v in vs if v in cond.fv or v in val.fv]
    if len(dep) < len(vs):
        c = cond
        for v in vs:
            if v not in dep:
                c = and_(c, lt0(neg(v.args[1])))
        return last(dep, c, val, default)
    # conditions not depending on vs
    ind = [k for k in conjuncts(cond) if not (k.fv & frozenset(vs))]
    if ind:
        depc = and_(*[k for k in conjuncts(cond) if k not in ind])
        return ite(and_(*ind), last(vs, depc, val, default), default)
    if cond.op == "b" and cond.args[0]:
        # all iterations write: the last one wins
        m = {v: sub(v.args[1], const(1)) for v in vs}
        return ite(and_(*[lt0(neg(v.args[1])) for v in vs]), subst(val, m), default)
    if val is default and not (val.fv & frozenset(vs)):
        return val
    r = _last_interval(vs, cond, val, default)
    if r is not None:
        return r
    his = tuple(v.args[1] for v in vs)
    h = max(_bhs((cond, val, default)), _bhs(his)) + 1
    c, x = _close(vs, cond, h), _close(vs, val, h)
    fv = (_fvs(his + (cond, val)) - frozenset(vs)) | default.fv
    return _mk("last", (his, c, x, default, h), fv, h, val.isint and default.isint, val.isbool)


def _last_interval(vs, cond, val, default):
    """conditions  B <= c*v <= A  on the innermost variable: the last v is min(hi - 1, A // c)"""
    v = vs[-1]
    ks = [k for k in conjuncts(cond) if v in k.fv]
    if not ks or any(k.op != "le0" for k in ks):
        return None
    A, c = None, None
    lows = []
    for k in ks:
        lr = linear_in(k.args[0], v)
        if lr is None or v in lr[1].fv or not lr[1].isint:
            return None
        if positive(lr[0]):
            if A is not None:
                return None
            A, c = neg(lr[1]), lr[0]
        elif positive(neg(lr[0])):
            lows.append(lr)
        else:
            return None
    if A is None or not c.isint or (c.fv & frozenset(vs)):
        return None
    K = app("min", sub(v.args[1], const(1)), app("fdiv", A, c) if c is not const(1) else A)
    m = {v: K}
    rest = and_(*[k for k in conjuncts(cond) if v not in k.fv])
    g = and_(rest, le0(neg(A)), lt0(neg(v.args[1])), *[le0(add(mul(a, K), b)) for a, b in lows])
    return last(vs[:-1], g, subst(val, m), default)


def strip_detach(t):
    memo = {}

    def go(n):
        r = memo.get(n)
        if r is not None:
            return r
        if n.op == "app" and n.args[0] == "detach":
            r = go(n.args[1])
        elif n.op == "bv":
            r = n
        else:
            r = rebuild(n, go)
        memo[n] = r
        return r
    if not any(x.op == "app" and x.args[0] == "detach" for x in walk(t)):
        return t
    return go(t)


# ---------------------------------------------------------------- printing
def show(n, depth=0):
    if not isinstance(n, Node):
        return repr(n)
    if depth > 12:
        return "..."
    op = n.op
    s = lambda x: show(x, depth + 1)
    if op == "q":
        return str(n.args[0])
    if op == "inf":
        return "inf" if n.args[0] > 0 else "-inf"
    if op == "sym":
        return n.args[0]
    if op == "var":
        return n.args[2]
    if op == "bv":
        return "k%d.%d" % n.args
    if op == "elem":
        nm = n.args[0]
        return "%s[%s]" % (nm if isinstance(nm, str) else nm[0], ",".join(s(x) for x in n.args[1:]))
    if op == "poly":
        out = []
        for m, c in n.args[0]:
            f = "*".join((s(a) if a.op != "poly" else "(%s)" % s(a)) + ("" if e == 1 else "^%d" % e) for a, e in m)
            out.append(("%s*%s" % (c, f)) if c != 1 and f else (f or str(c)))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return "%s(%s)" % (n.args[0], ", ".join(s(x) for x in n.args[1:]))
    if op == "inv":
        return "1/%s" % s(n.args[0])
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in n.args)
    if op in ("le0", "eq0"):
        return "%s%s0" % (s(n.args[0]), "<=" if op == "le0" else "==")
    if op == "b":
        return str(n.args[0])
    if op == "batom":
        return str(n.args[0])
    if op == "not":
        return "!" + s(n.args[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(s(x) for x in n.args) + ")"
    if op == "red":
        return "%s{%s}(%s)" % (n.args[0], ",".join("k%d.%d<%s" % (n.args[3], i, s(h)) for i, h in enumerate(n.args[1])),
                               s(n.args[2]))
    if op == "uapp":
        return "%s<%s>[%s]" % (n.args[0], s(n.args[2]), ",".join(s(x) for x in n.args[4]))
    if op == "last":
        return "last{%s}(%s => %s; %s)" % (",".join("k%d.%d<%s" % (n.args[4], i, s(h)) for i, h in enumerate(n.args[0])),
                                           s(n.args[1]), s(n.args[2]), s(n.args[3]))
    return op
