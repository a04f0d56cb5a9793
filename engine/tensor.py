"""Abstract tensors: symbolic shape + function from index terms to scalar terms.

Storage/view structure is kept so that in-place writes, aliasing and copies
behave as in the analysed library.
"""
import itertools
import random

from . import terms as T
from .terms import Unsupported, Node, const, add, sub, mul, div, neg
from . import ground
from fractions import Fraction as Q


class PyErr(Exception):
    """an exception raised by the analysed program (or by the library model)"""

    def __init__(self, name, msg="", loc=None, obj=None):
        Exception.__init__(self, "%s: %s" % (name, msg))
        self.name = name
        self.msg = msg
        self.loc = loc or T.CTX.cur_loc
        self.obj = obj


class Top:
    """unknown value"""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


MISSING = object()


# ------------------------------------------------------------------ journal
class Journal:
    def __init__(self):
        self.logs = []

    def mark(self):
        self.logs.append({})

    def note(self, cont, key, old):
        if self.logs:
            k = (id(cont), key)
            if k not in self.logs[-1]:
                self.logs[-1][k] = (cont, key, old)

    def written(self):
        """cells written since mark -> (container, key, old, new)"""
        return {k: (c, key, old, c.cell_get(key)) for k, (c, key, old) in self.logs[-1].items()}

    def undo(self):
        log = self.logs.pop()
        for c, key, old in log.values():
            c.cell_restore(key, old)

    def commit(self):
        log = self.logs.pop()
        if self.logs:
            for k, v in log.items():
                self.logs[-1].setdefault(k, v)


J = Journal()


class Cells:
    """container of mutable cells kept in a dict"""
    births = itertools.count(1)

    def __init__(self):
        self.cells = {}
        self.birth = next(Cells.births)

    def cell_get(self, key):
        return self.cells.get(key, MISSING)

    def cell_set(self, key, val):
        J.note(self, key, self.cells.get(key, MISSING))
        self.cells[key] = val

    def cell_del(self, key):
        J.note(self, key, self.cells.get(key, MISSING))
        self.cells.pop(key, None)

    def cell_restore(self, key, old):
        if old is MISSING:
            self.cells.pop(key, None)
        else:
            self.cells[key] = old


class State:
    nograd = 0
    counter = itertools.count()
    writes = None  # optional list recording storage writes


def fresh_id():
    return next(State.counter)


# ------------------------------------------------------------------ storage
class Storage(Cells):
    def __init__(self, shape, fn, dtype="float", name=None):
        Cells.__init__(self)
        self.id = fresh_id()
        self.name = name
        self.dtype = dtype
        self.cells["shape"] = tuple(shape)
        self.cells["fn"] = memo(fn)
        self.frozen_ok = True
        self.dev = None
        self.prec = None
        self.origin = T.CTX.cur_loc

    @property
    def fn(self):
        return self.cells["fn"]

    @property
    def shape(self):
        return self.cells["shape"]

    def write(self, fn, shape=None):
        if State.writes is not None:
            State.writes.append((self, T.CTX.cur_loc))
        self.cell_set("fn", memo(fn))
        if shape is not None:
            self.cell_set("shape", tuple(shape))


def memo(fn):
    if getattr(fn, "_memo", False):
        return fn
    cache = {}

    def g(*idx):
        key = (idx, State.nograd_key if hasattr(State, "nograd_key") else 0)
        r = cache.get(idx)
        if r is None:
            r = fn(*idx)
            cache[idx] = r
        return r
    g._memo = True
    return g


class Tensor:
    __slots__ = ("st", "shape", "fwd", "inv", "dtype", "detached", "is_param", "requires_grad", "mask", "contig",
                 "attrs", "cells_")

    def __init__(self, st, shape, fwd=None, inv=None, dtype=None, detached=False, mask=None, contig=True):
        self.st = st
        self.shape = tuple(const(s) for s in shape)
        self.fwd = fwd
        self.inv = inv
        self.dtype = dtype or st.dtype
        self.detached = detached
        self.is_param = False
        self.requires_grad = None
        self.mask = mask
        self.contig = contig
        self.attrs = None
        self.cells_ = None

    @property
    def ndim(self):
        return len(self.shape)

    def live_shape(self):
        if self.fwd is None:
            return self.st.shape
        return self.shape

    def snap(self):
        """index function with the present contents"""
        fn = self.st.fn
        fwd = self.fwd
        det = self.detached
        bad = None
        if fwd is None:
            g = fn
        else:
            def g(*idx):
                return fn(*fwd(*idx))
        if det:
            g0 = g

            def g(*idx):
                return T.app("detach", g0(*idx))
        return g

    def at(self, *idx):
        return self.snap()(*[const(i) for i in idx])

    def write(self, fn):
        """replace the contents seen through this view"""
        st = self.st
        if self.inv is None and self.fwd is None:
            st.write(fn)
            return
        if self.inv is None:
            raise Unsupported("write through a non-invertible view")
        old = st.fn
        inv = self.inv

        def g(*b):
            c, v = inv(*b)
            if c.op == "b" and not c.args[0]:
                return old(*b)
            return T.ite(c, fn(*v), old(*b))
        st.write(g)

    def __repr__(self):
        return "Tensor%s" % (tuple(self.shape),)


def new(shape, fn, dtype="float", name=None, mask=None):
    shape = tuple(const(s) for s in shape)
    if State.nograd and dtype == "float":
        f0 = fn

        def fn(*idx):
            return T.app("detach", f0(*idx))
    t = Tensor(Storage(shape, fn, dtype, name), shape, mask=mask)
    return t


def leaf(name, shape, dtype="float", lo=None, hi=None, kind="input"):
    shape = tuple(const(s) for s in shape)
    T.CTX.tensors[name] = dict(shape=shape, kind=kind, lo=lo, hi=hi, dtype=dtype)
    return Tensor(Storage(shape, lambda *idx: T.elem(name, idx, dtype == "long", dtype == "bool"), dtype, name), shape)


def scalar_tensor(v, dtype=None):
    node, dt = scalar_node(v)
    return new((), lambda: node, dtype or dt)


def scalar_node(v):
    """(node, dtype) of a python number"""
    from .interp import PF
    if isinstance(v, bool):
        return T.bconst(v), "bool"
    if isinstance(v, int):
        return const(v), "long"
    if isinstance(v, PF):
        return const(v.q), "float"
    if isinstance(v, float):
        return const(v), "float"
    if isinstance(v, Q):
        return const(v), "float"
    if isinstance(v, Node):
        return v, ("bool" if v.isbool else "long" if v.isint else "float")
    raise Unsupported("scalar %r" % (v,))


def lift(v):
    if isinstance(v, Tensor):
        return v
    return scalar_tensor(v)


# ------------------------------------------------------------------ sizes
_dimeq = {}


def gen_sizes(rng, names, facts=(), big=(), tries=60, sizes0=None):
    """random valuation of the size/config symbols consistent with the path facts"""
    for attempt in range(tries):
        s = {}
        for nme in names:
            isint = names[nme]
            lo = T.CTX.lo.get(nme)
            if isint:
                base = int(lo) if lo is not None else -2
                r = rng.random()
                if big and r < 0.3:
                    v = rng.choice(list(big)) + rng.choice((-1, 0, 0, 1))
                    v = max(v, base)
                else:
                    v = base + rng.choice((0, 0, 1, 1, 2, 2, 3, 4))
                s[nme] = Q(v)
            else:
                if lo is not None:
                    s[nme] = lo + Q(rng.choice((1, 2, 3, 4, 5, 6, 7, 12, 20)), rng.choice((1, 2, 4))) if lo > 0 or True else lo
                    if lo <= 0:
                        s[nme] = Q(rng.choice((1, 2, 3, 4, 6, 8)), rng.choice((1, 2, 4))) + lo
                    if big and rng.random() < 0.3:
                        v = Q(rng.choice(list(big)))
                        if v > lo:
                            s[nme] = v
                else:
                    s[nme] = Q(rng.randint(-8, 8), rng.choice((1, 2, 4)))
                    if big and rng.random() < 0.3:
                        s[nme] = Q(rng.choice(list(big)))
        for nme in names:
            h = T.CTX.hi.get(nme)
            if h is not None:
                try:
                    hv = ground.Eval(s, None).val(const(h))
                    if s[nme] > hv:
                        s[nme] = hv
                except Exception:
                    pass
        if sizes0:
            s.update(sizes0)
        return s
    return None


def syms_of(*nodes):
    out = {}
    for n in nodes:
        for x in T.walk(n):
            if x.op == "sym" and x.args[0] != "pi":
                out[x.args[0]] = x.args[1]
            elif x.op == "var":
                out.update(syms_of(x.args[1]))
    return out


def same_dim(a, b):
    a, b = const(a), const(b)
    if a is b:
        return True
    if a.op == "q" and b.op == "q":
        return False
    key = (a, b)
    r = _dimeq.get(key)
    if r is not None:
        return r
    d = T.eq(a, b)
    if d.op == "b":
        r = d.args[0]
    else:
        rng = random.Random(7)
        r = True
        hit = 0
        known = [(n, v) for n, v in T.CTX.eqs.items() if v in (True, False) and not any(x.op in ("elem", "red", "last", "var") for x in T.walk(n))]
        names = syms_of(a, b, *[n for n, _ in known])
        for _ in range(400 if known else 40):
            s = gen_sizes(rng, names)
            try:
                ev = ground.Eval(s, lambda n, i: Q(1))
                if any(ev.val(n) != v for n, v in known):
                    continue
                if ev.val(a) != ev.val(b):
                    r = False
                    break
                hit += 1
            except Exception:
                continue
            if hit >= 40:
                break
        if not hit:
            raise Unsupported("sizes %s and %s on this path" % (T.show(a), T.show(b)))
    _dimeq[key] = r
    return r


def is_one(d):
    return d.op == "q" and T.cval(d) == 1


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        dims = [s[k - (n - len(s))] for s in shapes if k - (n - len(s)) >= 0]
        cur = None
        for d in dims:
            if is_one(d):
                continue
            if cur is None:
                cur = d
            elif not same_dim(cur, d):
                raise PyErr("RuntimeError", "size mismatch %s vs %s in broadcasting %s" % (cur, d, [list(x) for x in shapes]))
        out.append(cur if cur is not None else const(1))
    return tuple(out)


def bidx(shape, out, idx):
    """index into an operand of `shape` when broadcasting to out"""
    off = len(out) - len(shape)
    return tuple(const(0) if is_one(d) and not is_one(out[k + off]) else (const(0) if is_one(d) else idx[k + off])
                 for k, d in enumerate(shape))


def result_dtype(ts):
    dts = [t.dtype for t in ts]
    # 0-d / python scalars do not promote within a category
    if "float" in dts:
        return "float"
    if "long" in dts:
        return "long"
    return "bool"


def merge_mask(ts):
    m = None
    for t in ts:
        if t.mask is not None:
            if m is None:
                m = t.mask
            elif m is not t.mask and not mask_same(m, t.mask):
                raise Unsupported("different masks combined")
    return m


def mask_same(m1, m2):
    f1, s1 = m1
    f2, s2 = m2
    if len(s1) != len(s2) or any(not same_dim(a, b) for a, b in zip(s1, s2)):
        return False
    vs = [T.var(s) for s in s1]
    return f1(*vs) is f2(*vs)


def ew(fn, *ops, dtype=None):
    ts = [lift(o) for o in ops]
    shapes = [t.shape for t in ts]
    out = broadcast_shapes(*shapes)
    snaps = [t.snap() for t in ts]
    dt = dtype or result_dtype(ts)

    def g(*idx):
        return fn(*[s(*bidx(sh, out, idx)) for s, sh in zip(snaps, shapes)])
    return new(out, g, dt, mask=merge_mask(ts))


def num(x):
    return T._numeric(x)


# ------------------------------------------------------------------ shape ops
def prod_nodes(xs):
    r = const(1)
    for x in xs:
        r = mul(r, x)
    return r


def view_of(t, shape, fwd, inv, contig=False):
    """compose a view on t"""
    f0, i0 = t.fwd, t.inv
    if f0 is None:
        f = fwd
        iv = inv
    else:
        def f(*idx):
            return f0(*fwd(*idx))
        if i0 is None or inv is None:
            iv = None
        else:
            def iv(*b):
                c, v = i0(*b)
                if c.op == "b" and not c.args[0]:
                    return c, tuple(const(0) for _ in shape)
                c2, v2 = inv(*v)
                return T.and_(c, c2), v2
    r = Tensor(t.st, shape, f, iv, t.dtype, t.detached, None, contig)
    if t.mask is not None:
        raise Unsupported("view of masked selection")
    return r


def norm_dim(d, n):
    d = int_of(d)
    if not -n <= d < max(n, 1):
        raise PyErr("IndexError", "dimension out of range %d for %d dims" % (d, n))
    return d + n if d < 0 else d


def int_of(v):
    from .interp import PF
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, PF):
        if v.q.denominator == 1:
            return int(v.q)
    if isinstance(v, Node) and v.op == "q":
        return int(T.cval(v))
    if isinstance(v, Tensor) and v.ndim == 0:
        return int_of(v.at())
    raise Unsupported("need a literal integer, got %r" % (v,))


def permute(t, dims):
    dims = [norm_dim(d, t.ndim) for d in dims]
    if sorted(dims) != list(range(t.ndim)):
        raise PyErr("RuntimeError", "permute dims %s for %d-d tensor" % (dims, t.ndim))
    shape = tuple(t.shape[d] for d in dims)
    pos = {d: k for k, d in enumerate(dims)}

    def fwd(*idx):
        return tuple(idx[pos[d]] for d in range(len(dims)))

    def inv(*b):
        return T.true(), tuple(b[d] for d in dims)
    return view_of(t, shape, fwd, inv, contig=(t.contig and dims == list(range(t.ndim))))


def transpose(t, a, b):
    a, b = norm_dim(a, t.ndim), norm_dim(b, t.ndim)
    d = list(range(t.ndim))
    d[a], d[b] = d[b], d[a]
    return permute(t, d)


def unsqueeze(t, d):
    d = norm_dim(d, t.ndim + 1)
    shape = t.shape[:d] + (const(1),) + t.shape[d:]

    if t.mask is not None:
        raise Unsupported("unsqueeze of masked selection")
    return view_of(t, shape, lambda *i: i[:d] + i[d + 1:], lambda *b: (T.true(), b[:d] + (const(0),) + b[d:]), t.contig)


def squeeze(t, d=None, forced=False):
    if d is None:
        ds = [k for k, s in enumerate(t.shape) if is_one(s)]
    else:
        ds = [norm_dim(x, t.ndim) for x in (d if isinstance(d, (list, tuple)) else [d])]
        ds = [x for x in ds if forced or is_one(t.shape[x])]
    keep = [k for k in range(t.ndim) if k not in ds]
    shape = tuple(t.shape[k] for k in keep)

    def fwd(*i):
        it = iter(i)
        return tuple(const(0) if k in ds else next(it) for k in range(t.ndim))
    n = t.ndim
    return view_of(t, shape, fwd, lambda *b: (T.true(), tuple(b[k] for k in keep)), t.contig)


def flat_index(idx, shape):
    r = const(0)
    for i, s in zip(idx, shape):
        r = add(mul(r, s), i)
    return r


def unflatten(p, shape):
    """multi-index of flat position p"""
    out = []
    rest = p
    for k in range(len(shape)):
        tail = prod_nodes(shape[k + 1:])
        if k == len(shape) - 1:
            out.append(rest)
        else:
            q = T.app("fdiv", rest, tail)
            out.append(q)
            rest = T.app("mod", rest, tail)
    return tuple(out)


def _regroup(a, b):
    """pair up minimal groups of dims of a and b with equal products"""
    groups = []
    i = j = 0
    while i < len(a) or j < len(b):
        ga, gb = [], []
        if i < len(a):
            ga.append(i)
            i += 1
        if j < len(b):
            gb.append(j)
            j += 1
        # greedily extend
        guard = 0
        while True:
            pa, pb = prod_nodes(a[k] for k in ga), prod_nodes(b[k] for k in gb)
            if pa is pb and ga and gb:
                break
            guard += 1
            if guard > 30:
                return None
            # which side is "smaller": the one whose product divides the other
            if i >= len(a) and j >= len(b):
                if pa is pb:
                    break
                return None
            da = T.divexact(pa, pb) if gb else None
            if not ga:
                if i < len(a):
                    ga.append(i); i += 1; continue
                # only trailing ones on b
                gb2 = gb
                if all(is_one(b[k]) for k in gb):
                    if j < len(b):
                        gb.append(j); j += 1; continue
                    break
                return None
            if not gb:
                if j < len(b):
                    gb.append(j); j += 1; continue
                if all(is_one(a[k]) for k in ga):
                    if i < len(a):
                        ga.append(i); i += 1; continue
                    break
                return None
            if da is not None and da.isint and j < len(b):
                gb.append(j); j += 1
            else:
                db = T.divexact(pb, pa)
                if db is not None and db.isint and i < len(a):
                    ga.append(i); i += 1
                elif j < len(b):
                    gb.append(j); j += 1
                elif i < len(a):
                    ga.append(i); i += 1
                else:
                    return None
        groups.append((ga, gb))
    return groups


def resolve_shape(t, shape):
    shape = [const(s) if not isinstance(s, Tensor) else s.at() for s in shape]
    total = prod_nodes(t.shape)
    negs = [k for k, s in enumerate(shape) if s.op == "q" and T.cval(s) == -1]
    if len(negs) > 1:
        raise PyErr("RuntimeError", "only one dimension can be inferred")
    if negs:
        rest = prod_nodes(s for k, s in enumerate(shape) if k != negs[0])
        q = T.divexact(total, rest)
        if q is None:
            q2 = T.app("fdiv", total, rest)
            # must divide exactly
            if not same_dim(mul(q2, rest), total):
                raise PyErr("RuntimeError", "shape %s is invalid for input of size %s" % (shape, total))
            q = q2
        elif not q.isint:
            if not same_dim(T.app("floor", q), q):
                raise PyErr("RuntimeError", "shape %s is invalid for input of size %s" % (shape, total))
        shape[negs[0]] = q
    elif not same_dim(prod_nodes(shape), total):
        raise PyErr("RuntimeError", "shape %s is invalid for input of size %s (shape %s)" % (shape, total, list(t.shape)))
    return tuple(shape)


def reshape(t, shape, copy_if_needed=True):
    if t.mask is not None:
        raise Unsupported("reshape of masked selection")
    shape = resolve_shape(t, shape)
    a, b = t.shape, shape
    groups = _regroup(list(a), list(b))
    if groups is None:
        def fwd(*idx):
            return unflatten(flat_index(idx, b), a)

        def inv(*x):
            return T.true(), unflatten(flat_index(x, a), b)
    else:
        def conv(idx, src, dst, gs, gd):
            out = [None] * len(dst)
            for s_, d_ in zip(gs, gd):
                if len(s_) == 1 and len(d_) == 1:
                    out[d_[0]] = idx[s_[0]]
                elif not d_:
                    continue
                else:
                    p = flat_index([idx[k] for k in s_], [src[k] for k in s_])
                    for k, v in zip(d_, unflatten(p, [dst[k] for k in d_])):
                        out[k] = v
            return tuple(const(0) if o is None else o for o in out)
        ga = [g[0] for g in groups]
        gb = [g[1] for g in groups]

        def fwd(*idx):
            return conv(idx, b, a, gb, ga)

        def inv(*x):
            return T.true(), conv(x, a, b, ga, gb)
    if t.contig:
        return view_of(t, shape, fwd, inv, True)
    sn = t.snap()
    # a copy unless strides happen to allow a view; contents are equal either way
    r = Tensor(Storage(shape, lambda *i: sn(*fwd(*i)), t.dtype), shape)
    return r


def expand(t, sizes):
    sizes = [const(s) for s in sizes]
    off = len(sizes) - t.ndim
    if off < 0:
        raise PyErr("RuntimeError", "expand to fewer dims")
    out = []
    for k, s in enumerate(sizes):
        if k < off:
            out.append(s)
        else:
            d = t.shape[k - off]
            if s.op == "q" and T.cval(s) == -1:
                out.append(d)
            elif is_one(d):
                out.append(s)
            elif same_dim(d, s):
                out.append(d)
            else:
                raise PyErr("RuntimeError", "expanded size %s must match existing size %s" % (s, d))
    shp = t.shape

    def fwd(*idx):
        return tuple(const(0) if is_one(d) else idx[k + off] for k, d in enumerate(shp))
    return view_of(t, tuple(out), fwd, None, False)


def repeat(t, reps):
    reps = [const(r) for r in reps]
    off = len(reps) - t.ndim
    if off < 0:
        raise PyErr("RuntimeError", "repeat with too few dims")
    base = [const(1)] * off + list(t.shape)
    shape = tuple(mul(a, b) for a, b in zip(base, reps))
    sn = t.snap()

    def g(*idx):
        out = []
        for k, (i, b, r) in enumerate(zip(idx, base, reps)):
            if k < off:
                continue
            if is_one(r):
                out.append(i)
            elif is_one(b):
                out.append(const(0))
            else:
                out.append(T.app("mod", i, b))
        return sn(*out)
    return new(shape, g, t.dtype)


def repeat_interleave(t, r, dim=None):
    r = const(r)
    if dim is None:
        t = reshape(t, [const(-1)]) if t.ndim != 1 else t
        dim = 0
    dim = norm_dim(dim, t.ndim)
    shape = list(t.shape)
    shape[dim] = mul(shape[dim], r)
    sn = t.snap()

    def g(*idx):
        idx = list(idx)
        idx[dim] = T.app("fdiv", idx[dim], r)
        return sn(*idx)
    return new(shape, g, t.dtype)


def copy_of(t):
    sn = t.snap()
    return new(t.shape, sn, t.dtype, mask=t.mask)


# ------------------------------------------------------------------ indexing
def slice_params(sl, dim):
    """(start, step, length) for a slice on a dimension of size dim"""
    step = 1 if sl.step is None else int_step(sl.step)
    stepn = const(step) if isinstance(step, int) else step
    if isinstance(step, int) and step <= 0:
        raise PyErr("ValueError", "slice step must be positive")

    def clampdim(v, default):
        if v is None:
            return default
        v = idx_node(v)
        if v.op == "q":
            if T.cval(v) < 0:
                v = add(v, dim)
        elif T.nonneg(v):
            pass
        elif T.positive(neg(v)):
            v = add(v, dim)
        else:
            v = T.ite(T.lt0(v), add(v, dim), v)
        return T.app("min", dim, T.app("max", const(0), v))
    start = clampdim(sl.start, const(0))
    stop = clampdim(sl.stop, dim)
    span = sub(stop, start)
    if isinstance(step, int) and step == 1:
        length = span
    else:
        length = T.app("fdiv", add(span, sub(stepn, const(1))), stepn)
    if not T.nonneg(length):
        length = T.app("max", const(0), length)
    return start, stepn, length


def int_step(v):
    try:
        return int_of(v)
    except Unsupported:
        v = idx_node(v)
        if T.positive(v):
            return v
        raise


def idx_node(v):
    if isinstance(v, Tensor):
        if v.ndim == 0 or all(is_one(s) for s in v.shape):
            return v.at(*[const(0)] * v.ndim)
        raise PyErr("TypeError", "only integer tensors of a single element can be converted to an index")
    return scalar_node(v)[0]


class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def wrap_index(i, dim):
    """python/torch negative index wrap, exact"""
    if i.op == "q":
        return add(i, dim) if T.cval(i) < 0 else i
    if T.nonneg(i):
        return i
    if T.positive(neg(i)):
        return add(i, dim)
    return T.ite(T.lt0(i), add(i, dim), i)


def check_bounds(i, dim, what="index"):
    i2, d2 = i, dim
    if i2.op == "q" and d2.op == "q":
        if not 0 <= T.cval(i2) < T.cval(d2):
            raise PyErr("IndexError", "%s %s out of bounds for size %s" % (what, i, dim))


def index(t, items):
    """t[items]; returns a view for basic indexing, a copy otherwise"""
    r, adv = basic_index(t, items)
    if not adv:
        return r
    return advanced_get(r, adv)


def to_index_tensor(x):
    from .interp import LList
    if isinstance(x, LList):
        from .torchmodel import tensor_from
        return tensor_from(x)
    return x


def basic_index(t, items):
    from .interp import LList
    if not isinstance(items, tuple):
        items = (items,)
    # count dims consumed
    items = [to_index_tensor(i) if isinstance(i, LList) else i for i in items]
    consumed = 0
    for i in items:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, Tensor) and i.dtype == "bool":
            consumed += max(i.ndim, 0)
        elif isinstance(i, bool):
            raise Unsupported("bool index")
        else:
            consumed += 1
    if consumed > t.ndim:
        raise PyErr("IndexError", "too many indices for tensor of dimension %d" % t.ndim)
    if Ellipsis in [i for i in items if not isinstance(i, (Tensor, Node))]:
        k = next(n for n, i in enumerate(items) if i is Ellipsis)
        items = items[:k] + [Slice(None, None, None)] * (t.ndim - consumed) + items[k + 1:]
    else:
        items = items + [Slice(None, None, None)] * (t.ndim - consumed)
    # build the basic view; advanced positions stay as dims
    plan = []   # per output dim of basic view: ('dim', src, start, step) or ('new',)
    sel = {}
    shape = []
    adv = []
    d = 0
    for i in items:
        if i is None:
            plan.append(("new",))
            shape.append(const(1))
            continue
        if isinstance(i, Slice):
            if i.start is None and i.stop is None and i.step is None:
                st, sp, ln = const(0), const(1), t.shape[d]
            else:
                st, sp, ln = slice_params(i, t.shape[d])
            plan.append(("dim", d, st, sp, ln))
            shape.append(ln)
            d += 1
        elif isinstance(i, Tensor) and not (i.ndim == 0 and i.dtype == "long" and False):
            if i.ndim == 0 and i.dtype == "long":
                v = wrap_index(i.at(), t.shape[d])
                check_bounds(v, t.shape[d])
                sel[d] = v
                d += 1
                continue
            if i.dtype == "bool":
                adv.append((len(plan), i))
                for k in range(i.ndim):
                    plan.append(("dim", d, const(0), const(1), t.shape[d]))
                    shape.append(t.shape[d])
                    d += 1
            else:
                if i.dtype != "long":
                    raise PyErr("IndexError", "tensors used as indices must be long, byte or bool tensors")
                adv.append((len(plan), i))
                plan.append(("dim", d, const(0), const(1), t.shape[d]))
                shape.append(t.shape[d])
                d += 1
        elif isinstance(i, Top):
            raise Unsupported("unknown index")
        else:
            n, dt = scalar_node(i)
            if dt == "float":
                raise PyErr("IndexError", "float index")
            v = wrap_index(n, t.shape[d])
            check_bounds(v, t.shape[d])
            sel[d] = v
            d += 1
    nd = t.ndim

    def fwd(*idx):
        out = [None] * nd
        for k, p in enumerate(plan):
            if p[0] == "dim":
                out[p[1]] = add(p[2], mul(idx[k], p[3])) if not (p[3].op == "q" and T.cval(p[3]) == 1 and p[2].op == "q" and T.cval(p[2]) == 0) else idx[k]
        for s, v in sel.items():
            out[s] = v
        return tuple(out)

    def inv(*b):
        cs = []
        out = []
        for s, v in sel.items():
            cs.append(T.eq(b[s], v))
        for p in plan:
            if p[0] == "new":
                out.append(const(0))
                continue
            _, s, st, sp, ln = p
            if sp.op == "q" and T.cval(sp) == 1:
                q = sub(b[s], st)
            else:
                off = sub(b[s], st)
                q = T.app("fdiv", off, sp)
                cs.append(T.eq(T.app("mod", off, sp), const(0)))
            if not (st.op == "q" and T.cval(st) == 0 and same_dim(ln, t.shape[s])):
                cs.append(T.le0(neg(q)))
                cs.append(T.lt0(sub(q, ln)))
            out.append(q)
        return T.and_(*cs), tuple(out)
    whole = not sel and all(p[0] == "new" or (p[2].op == "q" and T.cval(p[2]) == 0 and p[4] is t.shape[p[1]]) for p in plan)
    if t.mask is not None:
        if whole and len(plan) == nd:
            return t, adv
        raise Unsupported("index into masked selection")
    return view_of(t, tuple(shape), fwd, inv, t.contig and whole), adv


def adv_layout(r, adv):
    """(result shape, position of advanced dims, index function)"""
    pos = [p for p, _ in adv]
    adj = pos == list(range(pos[0], pos[0] + len(pos)))
    ishape = broadcast_shapes(*[i.shape for _, i in adv])
    other = [k for k in range(r.ndim) if k not in pos]
    at = pos[0] if adj else 0
    shape = []
    lead = [k for k in other if k < pos[0]] if adj else []
    tail = [k for k in other if k not in lead]
    shape = [r.shape[k] for k in lead] + list(ishape) + [r.shape[k] for k in tail]
    return tuple(shape), lead, tail, ishape


def advanced_get(r, adv):
    if len(adv) == 1 and adv[0][1].dtype == "bool":
        p, m = adv[0]
        if m.ndim == r.ndim:
            for a, b in zip(m.shape, r.shape):
                if not same_dim(a, b):
                    raise PyErr("IndexError", "mask shape mismatch")
            c = copy_of(r)
            c.mask = (m.snap(), m.shape)
            return c
        raise Unsupported("partial boolean mask")
    if any(i.dtype == "bool" for _, i in adv):
        raise Unsupported("mixed boolean index")
    shape, lead, tail, ishape = adv_layout(r, adv)
    sn = r.snap()
    snaps = {p: (i.snap(), i.shape) for p, i in adv}
    nl, ni = len(lead), len(ishape)
    rs = r.shape

    def g(*idx):
        mid = idx[nl:nl + ni]
        out = [None] * len(rs)
        for k, d in enumerate(lead):
            out[d] = idx[k]
        for k, d in enumerate(tail):
            out[d] = idx[nl + ni + k]
        for p, (s, sh) in snaps.items():
            out[p] = wrap_index(s(*bidx(sh, ishape, mid)), rs[p])
        return sn(*out)
    return new(shape, g, r.dtype)


def setitem(t, items, value):
    r, adv = basic_index(t, items)
    v = lift(value) if not isinstance(value, Tensor) else value
    if not adv:
        if v.mask is not None:
            raise Unsupported("masked value assigned to a plain slice")
        vs = v.shape
        while len(vs) > r.ndim and is_one(vs[0]):
            v = squeeze(v, 0)
            vs = v.shape
        out = broadcast_shapes(r.shape, vs)
        if len(out) != r.ndim or any(not same_dim(a, b) for a, b in zip(out, r.shape)):
            raise PyErr("RuntimeError", "shape mismatch: value %s into %s" % (list(vs), list(r.shape)))
        sn = v.snap()
        conv = dtype_conv(v.dtype, t.dtype)
        r.write(lambda *i: conv(sn(*bidx(vs, r.shape, i))))
        return
    if len(adv) == 1 and adv[0][1].dtype == "bool":
        p, m = adv[0]
        if m.ndim != r.ndim:
            raise Unsupported("partial boolean mask write")
        msn = m.snap()
        old = r.snap()
        if v.mask is not None:
            if not mask_same(v.mask, (msn, m.shape)):
                raise Unsupported("masked write with another mask")
            sn = v.snap()
            r.write(lambda *i: T.ite(msn(*i), sn(*i), old(*i)))
        elif v.ndim == 0:
            sn = v.snap()
            r.write(lambda *i: T.ite(msn(*i), sn(), old(*i)))
        else:
            raise Unsupported("boolean mask write of a dense value")
        return
    shape, lead, tail, ishape = adv_layout(r, adv)
    vs = v.shape
    out = broadcast_shapes(shape, vs)
    if len(out) != len(shape) or any(not same_dim(a, b) for a, b in zip(out, shape)):
        raise PyErr("RuntimeError", "shape mismatch: value %s into indexed %s" % (list(vs), list(shape)))
    scatter_write(r, adv, shape, lead, tail, ishape, v, lambda old, new_: new_)


def scatter_write(r, adv, shape, lead, tail, ishape, v, combine):
    sn = v.snap()
    vs = v.shape
    snaps = {p: (i.snap(), i.shape) for p, i in adv}
    old = r.snap()
    rs = r.shape
    conv = dtype_conv(v.dtype, r.dtype)

    def g(*b):
        ivs = [T.var(s) for s in ishape]
        full = [b[d] for d in lead] + ivs + [b[d] for d in tail]
        conds = []
        for p, (s, sh) in snaps.items():
            conds.append(T.eq(wrap_index(s(*bidx(sh, ishape, tuple(ivs))), rs[p]), b[p]))
        return T.last(ivs, T.and_(*conds), conv(sn(*bidx(vs, shape, tuple(full)))), old(*b))
    r.write(g)


def dtype_conv(src, dst):
    if src == dst:
        return lambda x: x
    if dst == "float":
        return num
    if dst == "long":
        return lambda x: T.app("trunc", num(x))
    if dst == "bool":
        return lambda x: x if x.isbool else T.not_(T.eq(x, const(0)))
    return lambda x: x


def cast(t, dtype):
    if t.dtype == dtype:
        return t
    sn = t.snap()
    c = dtype_conv(t.dtype, dtype)
    return new(t.shape, lambda *i: c(sn(*i)), dtype, mask=t.mask)


# ------------------------------------------------------------------ reductions
def reduce(kind, t, dims=None, keepdim=False):
    n = t.ndim
    if t.mask is not None:
        raise Unsupported("reduction of masked selection")
    if dims is None:
        ds = list(range(n))
    else:
        if not isinstance(dims, (list, tuple)):
            dims = [dims]
        ds = [norm_dim(d, n) for d in dims] if n else []
    sn = t.snap()
    shp = t.shape
    shape = []
    for k in range(n):
        if k in ds:
            if keepdim:
                shape.append(const(1))
        else:
            shape.append(shp[k])

    def g(*idx):
        vs = {d: T.var(shp[d]) for d in ds}
        it = iter(idx)
        full = []
        for k in range(n):
            if k in ds:
                full.append(vs[k])
                if keepdim:
                    next(it)
            else:
                full.append(next(it))
        body = sn(*full)
        vl = [vs[d] for d in ds]
        if kind == "mean":
            return div(T.red("sum", vl, num(body)), prod_nodes(shp[d] for d in ds))
        if kind == "any":
            b = body if body.isbool else T.not_(T.eq(body, const(0)))
            return T.red("any", vl, b)
        if kind == "all":
            b = body if body.isbool else T.not_(T.eq(body, const(0)))
            return T.not_(T.red("any", vl, T.not_(b)))
        return T.red(kind, vl, num(body))
    dt = t.dtype
    if kind in ("any", "all"):
        dt = "bool"
    elif dt == "bool":
        dt = "long"
    return new(shape, g, dt)


def einsum(eq, ops):
    eq = eq.replace(" ", "")
    if "..." in eq:
        raise Unsupported("einsum ellipsis")
    if "->" in eq:
        ins, out = eq.split("->")
    else:
        ins = eq
        letters = [c for c in ins if c != ","]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise PyErr("RuntimeError", "einsum operand count")
    dims = {}
    for s, t in zip(ins, ops):
        if len(s) != t.ndim:
            raise PyErr("RuntimeError", "einsum: subscript %s for %d-d operand" % (s, t.ndim))
        for c, d in zip(s, t.shape):
            if c in dims and not is_one(d):
                if is_one(dims[c]):
                    dims[c] = d
                elif not same_dim(dims[c], d):
                    raise PyErr("RuntimeError", "einsum: size mismatch for %s: %s vs %s" % (c, dims[c], d))
            else:
                dims.setdefault(c, d)
    for c in out:
        if c not in dims:
            raise PyErr("RuntimeError", "einsum output subscript")
    shape = [dims[c] for c in out]
    contr = [c for c in dims if c not in out]
    snaps = [t.snap() for t in ops]
    shs = [t.shape for t in ops]

    def g(*idx):
        env = dict(zip(out, idx))
        vs = []
        for c in contr:
            v = T.var(dims[c])
            env[c] = v
            vs.append(v)
        fs = []
        for s, sn, sh in zip(ins, snaps, shs):
            fs.append(num(sn(*[const(0) if is_one(d) and not is_one(dims[c]) else env[c] for c, d in zip(s, sh)])))
        return T.red("sum", vs, mul(*fs))
    return new(shape, g, result_dtype(ops))


def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", [a, b])
    if a.ndim == 1:
        return squeeze(matmul(unsqueeze(a, 0), b), b.ndim - 2)
    if b.ndim == 1:
        return squeeze(matmul(a, unsqueeze(b, 1)), -1)
    if not same_dim(a.shape[-1], b.shape[-2]):
        raise PyErr("RuntimeError", "matmul: %s x %s" % (list(a.shape), list(b.shape)))
    bs = broadcast_shapes(a.shape[:-2], b.shape[:-2]) if (a.ndim > 2 or b.ndim > 2) else ()
    shape = tuple(bs) + (a.shape[-2], b.shape[-1])
    sa, sb = a.snap(), b.snap()
    ash, bsh = a.shape, b.shape
    K = a.shape[-1]

    def g(*idx):
        v = T.var(K)
        bi = idx[:-2]
        ai = bidx(ash[:-2], bs, bi) if ash[:-2] else ()
        bj = bidx(bsh[:-2], bs, bi) if bsh[:-2] else ()
        return T.red("sum", [v], mul(num(sa(*ai, idx[-2], v)), num(sb(*bj, v, idx[-1]))))
    return new(shape, g, result_dtype([a, b]))


def cat(ts, dim=0):
    ts = [t for t in ts]
    n = ts[0].ndim
    dim = norm_dim(dim, n)
    for t in ts[1:]:
        if t.ndim != n:
            raise PyErr("RuntimeError", "cat: dims differ")
        for k in range(n):
            if k != dim and not same_dim(t.shape[k], ts[0].shape[k]):
                raise PyErr("RuntimeError", "cat: sizes differ at dim %d: %s vs %s" % (k, t.shape[k], ts[0].shape[k]))
    total = add(*[t.shape[dim] for t in ts])
    shape = list(ts[0].shape)
    shape[dim] = total
    snaps = [t.snap() for t in ts]
    sizes = [t.shape[dim] for t in ts]

    def g(*idx):
        i = idx[dim]
        off = const(0)
        offs = []
        for s in sizes:
            offs.append(off)
            off = add(off, s)
        r = None
        for k in reversed(range(len(snaps))):
            j = list(idx)
            j[dim] = sub(i, offs[k])
            if r is None:
                r = lambda j=tuple(j), k=k: snaps[k](*j)
            else:
                c = T.lt(i, add(offs[k], sizes[k]))
                if c.op == "b":
                    if c.args[0]:
                        r = lambda j=tuple(j), k=k: snaps[k](*j)
                else:
                    prev = r
                    r = lambda j=tuple(j), k=k, c=c, prev=prev: T.ite(c, num(snaps[k](*j)), num(prev()))
        return r()
    return new(shape, g, result_dtype(ts))


def where(c, a, b):
    cond = lambda x: x if x.isbool else T.not_(T.eq(x, const(0)))
    tc, ta, tb = lift(c), lift(a), lift(b)
    dt = result_dtype([ta, tb])
    return ew(lambda x, y, z: T.ite(cond(x), y, z), tc, ta, tb, dtype=dt)
