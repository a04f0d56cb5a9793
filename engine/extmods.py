"""Models of the standard-library and numpy names the analysed code may use."""
from fractions import Fraction as Q
import itertools as _it

from . import terms as T
from .terms import Node, Unsupported, const
from . import tensor as TT
from .tensor import PyErr, Top, Tensor, MISSING
from . import interp as I
from .interp import Builtin, LList, LDict, PF, SymSeq, Family, ExtMod, simp, isnum, node_of, Class, Obj

TABLE = {}


def reg(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def num_arg(v):
    if isinstance(v, Tensor):
        from .builtins_model import item
        return None
    if isinstance(v, Top):
        raise Unsupported("unknown number")
    if not isnum(v):
        raise PyErr("TypeError", "must be real number, not %s" % I.typename(v))
    return T._numeric(node_of(v))


def scalar_fn(name, f, isint=False):
    def g(it, a, k):
        v = a[0]
        if isinstance(v, Tensor):
            from .builtins_model import item
            v = item(it, v)
        n = num_arg(v)
        r = f(it, n, *[num_arg(x) for x in a[1:]])
        return simp(r, not isint)
    return g


def _sqrt(it, x):
    if x.op == "q" and T.cval(x) < 0:
        raise PyErr("ValueError", "math domain error")
    return T.app("sqrt", x)


def _log(it, x, base=None):
    if x.op == "q" and T.cval(x) <= 0:
        raise PyErr("ValueError", "math domain error")
    r = T.app("log", x)
    return r if base is None else T.div(r, T.app("log", base))


SC = {
    "sqrt": (_sqrt, False), "sin": (lambda it, x: T.app("sin", x), False), "cos": (lambda it, x: T.app("cos", x), False),
    "tan": (lambda it, x: T.app("tan", x), False), "exp": (lambda it, x: T.app("exp", x), False),
    "log": (_log, False), "tanh": (lambda it, x: T.app("tanh", x), False), "fabs": (lambda it, x: T.app("abs", x), False),
    "floor": (lambda it, x: T.app("floor", x), True), "ceil": (lambda it, x: T.app("ceil", x), True),
    "trunc": (lambda it, x: T.app("trunc", x), True), "pow": (lambda it, x, y: T.power(x, y), False),
    "radians": (lambda it, x: T.mul(x, T.div(T.pi(), const(180))), False),
    "degrees": (lambda it, x: T.mul(x, T.div(const(180), T.pi())), False),
    "atan": (lambda it, x: T.app("atan", x), False), "atan2": (lambda it, x, y: T.app("atan2", x, y), False),
    "acos": (lambda it, x: T.app("acos", x), False),
    "hypot": (lambda it, x, y: T.app("sqrt", T.add(T.mul(x, x), T.mul(y, y))), False),
    "fmod": (lambda it, x, y: T.app("mod", x, y), False),
    "log2": (lambda it, x: T.div(T.app("log", x), T.app("log", const(2))), False),
    "log10": (lambda it, x: T.div(T.app("log", x), T.app("log", const(10))), False),
    "log1p": (lambda it, x: T.app("log", T.add(x, const(1))), False),
    "isqrt": (lambda it, x: T.app("floor", T.app("sqrt", x)), True),
    "copysign": (lambda it, x, y: T.mul(T.app("abs", x), T.ite(T.le(const(0), y), const(1), const(-1))), False),
}
for _n, (_f, _i) in SC.items():
    TABLE["math." + _n] = scalar_fn(_n, _f, _i)


@reg("math.prod")
def _(it, a, k):
    s = it.iterate(a[0])
    st = k.get("start", 1)
    if isinstance(s, SymSeq):
        v = T.var(s.count)
        return I.binop(it, "*", st, simp(T.red("prod", [v], node_of(s.at(v))), False))
    r = st
    for x in s:
        r = I.binop(it, "*", r, x)
    return r


@reg("math.fsum")
def _(it, a, k):
    return it.call(it.builtins["sum"], a, k)


@reg("math.isclose")
def _(it, a, k):
    x, y = num_arg(a[0]), num_arg(a[1])
    rel = num_arg(k.get("rel_tol", PF(Q(1, 10 ** 9))))
    ab = num_arg(k.get("abs_tol", PF(0)))
    return simp(T.le(T.app("abs", T.sub(x, y)), T.app("max", ab, T.mul(rel, T.app("max", T.app("abs", x), T.app("abs", y))))))


@reg("math.isnan", "math.isinf")
def _(it, a, k):
    n = num_arg(a[0])
    return n.op == "inf"


@reg("math.isfinite")
def _(it, a, k):
    return num_arg(a[0]).op != "inf"


@reg("math.gcd")
def _(it, a, k):
    import math
    return math.gcd(*[TT.int_of(x) for x in a])


@reg("math.factorial")
def _(it, a, k):
    import math
    return math.factorial(TT.int_of(a[0]))


@reg("math.comb")
def _(it, a, k):
    import math
    return math.comb(TT.int_of(a[0]), TT.int_of(a[1]))


# ---- random
def _rs(it, kind="rand01", lo=Q(0), hi=Q(1)):
    from .torchmodel import rand_scalar
    return rand_scalar(it, kind, lo, hi)


@reg("random.random", "numpy.random.random", "numpy.random.random_sample")
def _(it, a, k):
    if a:
        raise Unsupported("array of random numbers")
    return _rs(it)


@reg("random.uniform", "numpy.random.uniform")
def _(it, a, k):
    lo = num_arg(a[0] if a else k.get("low", PF(0)))
    hi = num_arg(a[1] if len(a) > 1 else k.get("high", PF(1)))
    if len(a) > 2 or "size" in k:
        raise Unsupported("array of random numbers")
    return T.add(lo, T.mul(T.sub(hi, lo), _rs(it)))


@reg("random.gauss", "random.normalvariate", "numpy.random.normal")
def _(it, a, k):
    m = num_arg(a[0]) if a else const(0)
    s = num_arg(a[1]) if len(a) > 1 else const(1)
    return T.add(m, T.mul(s, _rs(it, "randn", None, None)))


@reg("random.seed", "numpy.random.seed")
def _(it, a, k):
    return None


@reg("numpy.random.rand")
def _(it, a, k):
    if not a:
        return _rs(it)
    from .torchmodel import FUNC
    return FUNC["rand"](it, a, {})


# ---- functools / itertools / operator / copy
@reg("functools.partial")
def _(it, a, k):
    return I.Partial(a[0], list(a[1:]), dict(k))


@reg("functools.reduce")
def _(it, a, k):
    s = it.iterate(a[1])
    if isinstance(s, SymSeq):
        fn = a[0]
        nm = getattr(fn, "name", "")
        v = T.var(s.count)
        if nm in ("operator.mul", "operator.add"):
            kind = "prod" if nm.endswith("mul") else "sum"
            r = simp(T.red(kind, [v], node_of(s.at(v))), False)
            return I.binop(it, "*" if kind == "prod" else "+", a[2], r) if len(a) > 2 else r
        raise Unsupported("reduce over symbolic length")
    s = list(s)
    if len(a) > 2:
        r = a[2]
    else:
        if not s:
            raise PyErr("TypeError", "reduce() of empty iterable with no initial value")
        r = s.pop(0)
    for x in s:
        r = it.call(a[0], [r, x])
    return r


@reg("functools.wraps")
def _(it, a, k):
    return Builtin("identity", lambda it, a, k: a[0])


@reg("functools.lru_cache", "functools.cache")
def _(it, a, k):
    from .torchmodel import memoised
    if a and isinstance(a[0], I.Func):
        return Builtin("cached", memoised(a[0]))
    return Builtin("lru", lambda it, a, k: Builtin("cached", memoised(a[0])))


@reg("functools.cached_property")
def _(it, a, k):
    return I.Cached(a[0])


@reg("itertools.product")
def _(it, a, k):
    rep = TT.int_of(k.get("repeat", 1))
    ls = [it.concrete(x) for x in a] * rep
    return LList([tuple(x) for x in _it.product(*ls)])


@reg("itertools.chain")
def _(it, a, k):
    out = []
    for x in a:
        out += it.concrete(x)
    return LList(out)


@reg("itertools.chain.from_iterable")
def _(it, a, k):
    out = []
    for x in it.concrete(a[0]):
        out += it.concrete(x)
    return LList(out)


@reg("itertools.repeat")
def _(it, a, k):
    if len(a) < 2:
        raise Unsupported("infinite iterator")
    return I.binop(it, "*", LList([a[0]]), a[1])


@reg("itertools.combinations")
def _(it, a, k):
    return LList([tuple(x) for x in _it.combinations(it.concrete(a[0]), TT.int_of(a[1]))])


@reg("itertools.permutations")
def _(it, a, k):
    return LList([tuple(x) for x in _it.permutations(it.concrete(a[0]))])


@reg("itertools.pairwise")
def _(it, a, k):
    s = it.iterate(a[0])
    if isinstance(s, SymSeq):
        return LList([Family(T.sub(s.count, const(1)), lambda q: (s.at(q), s.at(T.add(q, const(1)))))])
    return LList([(x, y) for x, y in zip(s, s[1:])])


@reg("itertools.accumulate")
def _(it, a, k):
    s = it.concrete(a[0])
    out = []
    r = None
    for i, x in enumerate(s):
        r = x if i == 0 else (it.call(a[1], [r, x]) if len(a) > 1 else I.binop(it, "+", r, x))
        out.append(r)
    return LList(out)


@reg("itertools.islice")
def _(it, a, k):
    s = it.concrete(a[0])
    v = [None if x is None else TT.int_of(x) for x in a[1:]]
    return LList(s[slice(*v)])


@reg("itertools.zip_longest")
def _(it, a, k):
    return LList([tuple(x) for x in _it.zip_longest(*[it.concrete(x) for x in a], fillvalue=k.get("fillvalue"))])


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"),
               ("matmul", "@"), ("and_", "&"), ("or_", "|")):
    TABLE["operator." + _n] = (lambda it, a, k, o=_o: I.binop(it, o, a[0], a[1]))


@reg("operator.neg")
def _(it, a, k):
    return I.binop(it, "*", -1, a[0])


@reg("operator.itemgetter")
def _(it, a, k):
    from .frame import Frame
    ks = list(a)

    def g(it2, b, kk):
        fr = Frame(it2, I.Scope(), None, None)
        r = tuple(fr.getitem(b[0], x) for x in ks)
        return r[0] if len(r) == 1 else r
    return Builtin("itemgetter", g)


@reg("operator.attrgetter")
def _(it, a, k):
    return Builtin("attrgetter", lambda it2, b, kk: it2.getattr(b[0], a[0]))


@reg("copy.copy")
def _(it, a, k):
    return _copy(it, a[0], {}, False)


@reg("copy.deepcopy")
def _(it, a, k):
    return _copy(it, a[0], {}, True)


def _copy(it, v, memo, deep):
    if id(v) in memo:
        return memo[id(v)]
    rec = (lambda x: _copy(it, x, memo, True)) if deep else (lambda x: x)
    if isinstance(v, Tensor):
        if not deep:
            return v
        c = Tensor(TT.Storage(v.shape, v.snap(), v.dtype), v.shape)
        c.is_param, c.requires_grad = v.is_param, v.requires_grad
        memo[id(v)] = c
        return c
    if isinstance(v, LList):
        c = type(v)([])
        memo[id(v)] = c
        c.set([Family(x.count, (lambda k, x=x: rec(x.at(k)))) if isinstance(x, Family) else rec(x) for x in v.items])
        return c
    if isinstance(v, LDict):
        c = LDict()
        memo[id(v)] = c
        for kk, x in v.pairs():
            c.put(kk, rec(x))
        return c
    if isinstance(v, tuple):
        return tuple(rec(x) for x in v)
    if isinstance(v, Obj):
        c = Obj(v.cls)
        memo[id(v)] = c
        for n, x in v.cells.items():
            c.cell_set(n, _copy(it, x, memo, True) if deep else (_copy(it, x, {}, False) if n in ("_parameters", "_buffers", "_modules") else x))
        return c
    return v


@reg("collections.OrderedDict")
def _(it, a, k):
    return it.call(it.builtins["dict"], a, k)


@reg("collections.defaultdict")
def _(it, a, k):
    d = LDict(a[1].pairs() if len(a) > 1 else ())
    d.default = a[0] if a else None
    return d


@reg("collections.namedtuple")
def _(it, a, k):
    from collections import namedtuple
    names = a[1].split() if isinstance(a[1], str) else it.concrete(a[1])
    nt = namedtuple(a[0], [n.strip(",") for n in names])
    return Builtin(a[0], lambda it2, b, kk: nt(*b, **kk))


@reg("contextlib.nullcontext", "contextlib.suppress", "time.time", "time.perf_counter")
def _(it, a, k):
    return Top("context")


@reg("logging.getLogger")
def _(it, a, k):
    return ExtMod("logging.logger#")


@reg("typing.cast")
def _(it, a, k):
    return a[1]


@reg("typing.TypeVar", "typing.NewType")
def _(it, a, k):
    return Top("type")


# ---- numpy: scalar arguments as math, arrays as tensors
NPNAMES = {"array": "tensor", "asarray": "tensor", "concatenate": "cat", "absolute": "abs", "power": "pow", "multiply": "mul",
           "divide": "div", "subtract": "sub", "clip": "clamp"}


def np_call(it, name, a, k):
    nm = NPNAMES.get(name, name)
    if name == "prod" and a and isinstance(a[0], (tuple, LList)):
        return TABLE["math.prod"](it, a, {})
    if name in ("sum", "max", "min") and a and isinstance(a[0], (tuple, LList)):
        return it.call(it.builtins[name], a, {})
    if a and all(isnum(x) for x in a) and nm not in ("tensor", "arange", "linspace", "zeros", "ones", "full", "eye", "empty"):
        f = TABLE.get("math." + {"abs": "fabs", "arctan": "atan", "arccos": "acos", "arctan2": "atan2"}.get(nm, nm))
        if f is not None:
            r = f(it, a, {})
            if nm in ("floor", "ceil", "trunc") and isinstance(r, int):
                return PF(r)
            return r
        if nm in ("minimum", "fmin"):
            return it.call(it.builtins["min"], a, {})
        if nm in ("maximum", "fmax"):
            return it.call(it.builtins["max"], a, {})
        if nm == "clamp":
            return it.call(it.builtins["min"], [a[2], it.call(it.builtins["max"], [a[0], a[1]], {})], {})
        if nm == "sign":
            return simp(T.app("sign", num_arg(a[0])))
    from .torchmodel import torch_func
    f = torch_func(nm)
    if f is None:
        raise Unsupported("numpy.%s" % name)
    a = [TT_from(x) if isinstance(x, (LList, tuple)) and nm not in ("tensor", "zeros", "ones", "full", "cat", "stack", "empty") else x for x in a]
    return f(it, a, k)


def TT_from(x):
    from .torchmodel import tensor_from
    return tensor_from(x)


def attr(it, path):
    if path in ("math.pi", "numpy.pi"):
        return T.pi()
    if path in ("math.e", "numpy.e"):
        return T.app("exp", const(1))
    if path == "math.tau":
        return T.mul(const(2), T.pi())
    if path in ("math.inf", "numpy.inf"):
        return PF(float("inf"))
    if path == "typing.TYPE_CHECKING":
        return False
    if path in ("abc.ABC",):
        return it.builtins["object"]
    f = TABLE.get(path)
    if f is not None:
        return Builtin(path, f)
    if path.startswith("logging.") or path.startswith("warnings."):
        n = path.rsplit(".", 1)[1]
        if n in ("info", "debug", "warning", "warn", "error", "critical", "exception", "basicConfig", "simplefilter", "filterwarnings",
                 "setLevel", "log"):
            def lg(it, a, k):
                it.logs.append((T.CTX.cur_loc, a[0] if a else None))
                return None
            return Builtin(path, lg)
    if path.startswith("numpy.") and path.count(".") == 1:
        n = path.split(".")[1]
        if n in ("float32", "float64", "int64", "int32", "ndarray", "random", "linalg", "float16", "integer", "floating"):
            return ExtMod(path)
        return Builtin(path, lambda it, a, k: np_call(it, n, a, k))
    return MISSING


def call(it, path, a, k):
    if path.startswith("numpy.float") or path.startswith("numpy.int"):
        return a[0]
    return Top(path)
