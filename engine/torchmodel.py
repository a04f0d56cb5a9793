"""Model of the tensor library: every operation as a transfer function on
abstract tensors.  nn.* classes are described in lib/torchlib.py, interpreted
like the analysed source."""
import ast
import os
from collections import namedtuple
from fractions import Fraction as Q

from . import terms as T
from .terms import Node, Unsupported, const, add, sub, mul, div, neg
from . import tensor as TT
from . import device
from .tensor import PyErr, Top, Tensor, MISSING, State, Slice, new, ew, num, lift
from . import interp as I
from .interp import Builtin, Class, LList, LDict, PF, Family, SymSeq, ExtMod, Obj, simp, isnum, node_of, Bound

IGNORED = {"device", "layout", "pin_memory", "generator", "non_blocking", "memory_format", "out", "requires_grad", "copy",
           "inplace", "indexing", "names"}
MaxMin = namedtuple("MaxMin", "values indices")
AMinMax = namedtuple("AMinMax", "min max")

FLOATS = ("float", "float32", "float64", "double", "float16", "half", "bfloat16")
LONGS = ("long", "int64", "int", "int32", "int16", "short", "int8", "uint8")


class GradMode:
    def __init__(self, off):
        self.off = off


def parse(args, kw, spec, fname):
    """spec: list of (name, default) ; default MISSING = required"""
    kw = dict(kw)
    if "axis" in kw:
        kw["dim"] = kw.pop("axis")
    if "dims" in kw and not any(n == "dims" for n, _ in spec):
        kw["dim"] = kw.pop("dims")
    out = []
    if len(args) > len(spec):
        raise PyErr("TypeError", "%s() takes %d positional arguments but %d were given" % (fname, len(spec), len(args)))
    for k, (n, d) in enumerate(spec):
        if k < len(args):
            if n in kw:
                raise PyErr("TypeError", "%s() got multiple values for argument '%s'" % (fname, n))
            out.append(args[k])
        elif n in kw:
            out.append(kw.pop(n))
        elif d is MISSING:
            raise PyErr("TypeError", "%s() missing argument '%s'" % (fname, n))
        else:
            out.append(d)
    for n in kw:
        if n not in IGNORED and n != "dtype":
            raise PyErr("TypeError", "%s() got an unexpected keyword argument '%s'" % (fname, n))
    return out


R = MISSING
METH = {}
FUNC = {}


def meth(names, spec="", func=True):
    sp = mkspec(spec)

    def deco(f):
        for name in names.split():
            def g(it, a, k, name=name):
                return f(it, *parse(a, k, sp, name))
            METH[name] = g
        return f
    return deco


def func(names, spec=""):
    sp = mkspec(spec)

    def deco(f):
        for name in names.split():
            def g(it, a, k, name=name):
                return f(it, *parse(a, k, sp, name))
            FUNC[name] = g
        return f
    return deco


def mkspec(spec):
    out = []
    for w in spec.split():
        if "=" in w:
            n, d = w.split("=")
            d = ast.literal_eval(d)
            out.append((n, PF(d) if isinstance(d, float) else d))
        else:
            out.append((w, R))
    return out


def raw(table, names):
    def deco(f):
        for n in names.split():
            table[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def dim_node(v):
    if isinstance(v, Tensor):
        if v.ndim == 0 or all(TT.is_one(s) for s in v.shape):
            return v.at(*[const(0)] * v.ndim)
        raise PyErr("TypeError", "only integer tensors of a single element can be converted to an index")
    if isinstance(v, PF):
        raise PyErr("TypeError", "size must be int, not float")
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, Node)):
        n = const(v)
        if not n.isint:
            if any(x.op == "ite" for x in T.walk(n)) or True:
                raise Unsupported("non-integer size %s" % T.show(n))
        return n
    if isinstance(v, (Top, I.Poison)):
        raise Unsupported("unknown size")
    raise PyErr("TypeError", "size must be int, not %s" % I.typename(v))


def sizes(it, a):
    if len(a) == 1 and isinstance(a[0], (tuple, LList)):
        a = it.concrete(a[0])
    return [dim_node(x) for x in a]


def dims_arg(it, d):
    if d is None:
        return None
    if isinstance(d, (tuple, LList)):
        return [TT.int_of(x) for x in it.concrete(d)]
    return TT.int_of(d)


def need_tensor(t, what):
    if isinstance(t, Top):
        raise Unsupported("unknown tensor in %s" % what)
    if not isinstance(t, Tensor):
        raise PyErr("TypeError", "%s(): argument must be Tensor, not %s" % (what, I.typename(t)))
    return t


def dtype_of(v):
    """(kind, narrowing) of a dtype object"""
    if v is None:
        return None
    if isinstance(v, I.BType):
        return {"float": "float", "int": "long", "bool": "bool"}.get(v.name)
    if isinstance(v, ExtMod):
        n = v.path.split(".")[-1]
        if n in FLOATS:
            return "float"
        if n in LONGS:
            return "long"
        if n == "bool":
            return "bool"
    return None


def narrow(v):
    """element function applied by a cast to the dtype object v"""
    if isinstance(v, ExtMod):
        n = v.path.split(".")[-1]
        if n in ("float16", "half", "bfloat16"):
            return lambda x: T.app("round16", x)
        if n in ("int8", "uint8", "int16", "short"):
            bits = 16 if n in ("int16", "short") else 8
            off = 0 if n == "uint8" else 2 ** (bits - 1)
            return lambda x: sub(T.app("mod", add(x, const(off)), const(2 ** bits)), const(off))
    return None


def to_dtype(t, v):
    d = dtype_of(v)
    if d is None:
        raise Unsupported("dtype %r" % (v,))
    r = TT.cast(t, d)
    f = narrow(v)
    if f is not None:
        sn = r.snap()
        r = new(r.shape, lambda *i: f(sn(*i)), d)
    return r


def is_dtype(v):
    return (isinstance(v, ExtMod) and v.path.startswith("torch.") and dtype_of(v) is not None) or \
        (isinstance(v, I.BType) and v.name in ("float", "int", "bool"))


def scal(t):
    return simp(t.at(), t.dtype == "float")


def rand_tensor(it, shape, kind, lo=None, hi=None, dtype="float"):
    shape = tuple(const(s) for s in shape)
    lv = tuple(it.loopvars)
    name = it.fresh_rand(kind)
    T.CTX.tensors[name] = dict(shape=tuple(v.args[1] for v in lv) + shape, kind=kind, lo=lo, hi=hi, dtype=dtype)
    return new(shape, lambda *i: T.elem(name, lv + tuple(i), dtype == "long", dtype == "bool"), dtype)


def rand_scalar(it, kind, lo=None, hi=None, isint=False):
    lv = tuple(it.loopvars)
    name = it.fresh_rand(kind)
    T.CTX.tensors[name] = dict(shape=tuple(v.args[1] for v in lv), kind=kind, lo=lo, hi=hi, dtype="long" if isint else "float")
    return T.elem(name, lv, isint)


# ------------------------------------------------------------------ operators
def tensor_bin(it, op, a, b):
    ta, tb = lift(a), lift(b)
    if op == "@":
        if not (isinstance(a, Tensor) and isinstance(b, Tensor)):
            raise PyErr("TypeError", "matmul of non tensors")
        return TT.matmul(a, b)
    fdt = "float" if "float" in (ta.dtype, tb.dtype) else None
    if op == "+":
        return ew(lambda x, y: add(num(x), num(y)), ta, tb, dtype=fdt or ("long" if ta.dtype != tb.dtype or ta.dtype == "long" else "bool"))
    if op == "-":
        if ta.dtype == tb.dtype == "bool":
            raise PyErr("RuntimeError", "Subtraction with two bool tensors is not supported")
        return ew(lambda x, y: sub(num(x), num(y)), ta, tb)
    if op == "*":
        return ew(lambda x, y: mul(num(x), num(y)), ta, tb)
    if op == "/":
        return ew(lambda x, y: div(num(x), num(y)), ta, tb, dtype="float")
    if op == "//":
        return ew(lambda x, y: T.app("fdiv", num(x), num(y)), ta, tb)
    if op == "%":
        return ew(lambda x, y: T.app("mod", num(x), num(y)), ta, tb)
    if op == "**":
        return ew(lambda x, y: T.power(num(x), num(y)), ta, tb)
    if op in "&|^":
        if ta.dtype == "bool" and tb.dtype == "bool":
            f = {"&": T.and_, "|": T.or_, "^": lambda x, y: T.not_(T.eq(x, y))}[op]
            return ew(f, ta, tb, dtype="bool")
        raise Unsupported("bitwise on integers")
    raise Unsupported("tensor operator " + op)


def tensor_cmp(it, opn, a, b):
    f = {"Lt": T.lt, "LtE": T.le, "Gt": lambda x, y: T.lt(y, x), "GtE": lambda x, y: T.le(y, x), "Eq": T.eq,
         "NotEq": lambda x, y: T.not_(T.eq(x, y))}[opn]
    return ew(lambda x, y: f(num(x), num(y)), a, b, dtype="bool")


def check_inplace(it, t):
    if State.nograd or t.detached:
        return
    if t.is_param and t.requires_grad is not False or (t.requires_grad and t.attrs and t.attrs.get("leaf")):
        raise PyErr("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation")


def write_into(it, t, r, fname):
    """t[...] = r for an in-place operation; r has t's shape after broadcasting"""
    check_inplace(it, t)
    out = TT.broadcast_shapes(t.shape, r.shape)
    if len(out) != t.ndim or any(not TT.same_dim(a, b) for a, b in zip(out, t.shape)):
        raise PyErr("RuntimeError", "output with shape %s doesn't match the broadcast shape %s" % (list(t.shape), list(out)))
    if t.dtype != "float" and r.dtype == "float":
        raise PyErr("RuntimeError", "result type Float can't be cast to the desired output type Long")
    sn = r.snap()
    rs = r.shape
    ts = t.shape
    conv = TT.dtype_conv(r.dtype, t.dtype)
    if t.mask is not None:
        # writes to a masked selection (a copy)
        t.write(lambda *i: conv(sn(*TT.bidx(rs, ts, i))))
        return t
    t.write(lambda *i: conv(sn(*TT.bidx(rs, ts, i))))
    return t


def inplace_bin(it, op, t, v):
    if not (isinstance(v, Tensor) or isnum(v)):
        if isinstance(v, (Top, I.Poison)):
            raise Unsupported("in-place with unknown")
        raise PyErr("TypeError", "in-place %s with %s" % (op, I.typename(v)))
    return write_into(it, t, tensor_bin(it, op, t, v), op)


# ------------------------------------------------------------------ attributes
def shape_tuple(t):
    return tuple(simp(s, False) for s in t.shape)


def tensor_attr(it, t, name):
    if t.attrs and name in t.attrs:
        return t.attrs[name]
    if name == "shape":
        return shape_tuple(t)
    if name in ("device",):
        return ExtMod("torch.device#" + (t.st.dev or "") if it.devices else "torch.device#")
    if name == "dtype" and it.devices and t.dtype == "float":
        if t.st.prec is None:
            raise Unsupported("unknown precision")
        return ExtMod({"f16": "torch.float16", "f32": "torch.float32", "f64": "torch.float64"}[t.st.prec])
    if name == "dtype":
        return ExtMod("torch." + {"float": it.env.get("dtype", "float32"), "long": "int64", "bool": "bool"}[t.dtype])
    if name in ("ndim",):
        return t.ndim
    if name in ("T", "mT", "H"):
        if t.ndim < 2:
            return t
        return TT.transpose(t, -1, -2)
    if name == "data":
        r = Tensor(t.st, t.shape, t.fwd, t.inv, t.dtype, True, t.mask, t.contig)
        r.requires_grad = False
        return r
    if name == "grad":
        return None
    if name == "requires_grad":
        if t.is_param:
            return t.requires_grad is not False and not it.env.get("frozen", False)
        if t.requires_grad is not None:
            return bool(t.requires_grad)
        return t.dtype == "float" and State.nograd == 0 and it.env.get("requires", False)
    if name == "is_leaf":
        return t.is_param
    if name in ("grad_fn", "names"):
        return None
    if name in ("is_cuda", "is_sparse", "is_quantized", "is_mps", "is_meta"):
        return False
    if name == "real":
        return t
    if name == "__class__":
        return lib(it).cells["Tensor"]
    g = METH.get(name)
    if g is not None:
        return Builtin("Tensor." + name, lambda it, a, k: g(it, [t] + a, k))
    if name.endswith("_") and not name.startswith("_"):
        g = METH.get(name[:-1])
        if g is not None:
            def inplace(it, a, k):
                check_inplace(it, t)
                r = g(it, [t] + a, k)
                return write_into(it, t, r, name)
            return Builtin("Tensor." + name, inplace)
    if name in ("item", "tolist", "backward"):
        raise Unsupported("Tensor." + name)
    if hasattr_torch(name):
        raise Unsupported("Tensor.%s is not modelled" % name)
    raise PyErr("AttributeError", "'Tensor' object has no attribute '%s'" % name)


KNOWN_UNMODELLED = {"sort", "topk", "nonzero", "unique", "backward", "register_hook", "cumprod", "median", "mode", "numpy",
                    "argsort", "kthvalue", "histc", "stride", "storage_offset", "as_strided", "apply_", "svd", "qr",
                    "inverse", "det", "fft", "logsumexp", "renorm", "put_", "take", "data_ptr", "storage", "is_shared",
                    "retain_grad", "share_memory_", "index_reduce_", "resize_", "set_", "quantile", "cov", "map_",
                    "masked_select", "masked_scatter", "masked_scatter_", "bitwise_and", "bitwise_or", "bitwise_not",
                    "erfinv", "polygamma", "lgamma", "digamma", "exponential_", "geometric_", "random_", "cauchy_",
                    "new_tensor", "is_same_size", "unfold", "vdot", "ger", "mvlgamma", "nansum", "nanmean", "msort",
                    "sgn", "angle", "conj", "imag", "cross", "dist", "histogram", "cdist", "cumsum_", "logcumsumexp"}


def hasattr_torch(name):
    return name in KNOWN_UNMODELLED or I.known_attr("Tensor", name)


def tensor_setattr(it, t, name, v):
    if name == "data":
        v = need_tensor(v, "data setter")
        if TT.J.logs:
            raise Unsupported("data assignment inside a summarised loop")
        if State.writes is not None:
            State.writes.append((t.st, T.CTX.cur_loc))
        t.st, t.shape, t.fwd, t.inv, t.contig, t.dtype = v.st, v.shape, v.fwd, v.inv, v.contig, v.dtype
        t.detached = False
        return
    if name == "requires_grad":
        t.requires_grad = it.truth(v)
        return
    if t.attrs is None:
        t.attrs = {}
    t.attrs[name] = v


# ------------------------------------------------------------------ methods: shape
@raw(METH, "view reshape")
def _view(it, a, k):
    t = need_tensor(a[0], "view")
    if "shape" in k:
        a = [t, k["shape"]]
    if len(a) == 2 and is_dtype(a[1]):
        raise Unsupported("view as dtype")
    return TT.reshape(t, sizes(it, a[1:]))


@raw(METH, "resize")
def _(it, a, k):
    t = need_tensor(a[0], "resize")
    r = TT.reshape(t, sizes(it, a[1:]))
    s = r.snap()
    return new(r.shape, lambda *i: s(*i), t.dtype)


@meth("view_as reshape_as", "self other")
def _(it, t, o):
    return TT.reshape(t, list(o.shape))


@raw(METH, "permute")
def _(it, a, k):
    t = need_tensor(a[0], "permute")
    d = a[1:] or [k.get("dims")]
    if len(d) == 1 and isinstance(d[0], (tuple, LList)):
        d = it.concrete(d[0])
    return TT.permute(t, [TT.int_of(x) for x in d])


@meth("transpose swapaxes swapdims", "self dim0 dim1")
def _(it, t, a, b):
    return TT.transpose(need_tensor(t, "transpose"), a, b)


@meth("t", "self")
def _(it, t):
    return t if t.ndim < 2 else TT.transpose(t, 0, 1)


@meth("movedim moveaxis", "self source destination")
def _(it, t, s, d):
    ss = dims_arg(it, s)
    dd = dims_arg(it, d)
    ss = [ss] if isinstance(ss, int) else ss
    dd = [dd] if isinstance(dd, int) else dd
    ss = [TT.norm_dim(x, t.ndim) for x in ss]
    dd = [TT.norm_dim(x, t.ndim) for x in dd]
    order = [None] * t.ndim
    for x, y in zip(ss, dd):
        order[y] = x
    rest = iter([x for x in range(t.ndim) if x not in ss])
    order = [next(rest) if x is None else x for x in order]
    return TT.permute(t, order)


@meth("unsqueeze", "self dim")
def _(it, t, d):
    return TT.unsqueeze(need_tensor(t, "unsqueeze"), d)


@meth("squeeze", "self dim=None")
def _(it, t, d):
    need_tensor(t, "squeeze")
    d = dims_arg(it, d)
    ds = range(t.ndim) if d is None else [TT.norm_dim(x, t.ndim) for x in (d if isinstance(d, (list, tuple)) else [d])]
    # a dimension of unknown size is dropped when the size is one: a case of its own
    return TT.squeeze(t, [k for k in sorted(set(ds)) if TT.is_one(t.shape[k]) or t.shape[k].op != "q" and it.decide(T.eq(t.shape[k], const(1)))], True)


@meth("flatten", "self start_dim=0 end_dim=-1")
def _(it, t, s, e):
    need_tensor(t, "flatten")
    if t.ndim == 0:
        return TT.reshape(t, [const(1)])
    s, e = TT.norm_dim(s, t.ndim), TT.norm_dim(e, t.ndim)
    if s == e:
        return t
    return TT.reshape(t, list(t.shape[:s]) + [TT.prod_nodes(t.shape[s:e + 1])] + list(t.shape[e + 1:]))


@meth("ravel", "self")
def _(it, t):
    return TT.reshape(t, [TT.prod_nodes(t.shape)])


@meth("unflatten", "self dim sizes")
def _(it, t, d, s):
    d = TT.norm_dim(d, t.ndim)
    s = [dim_node(x) for x in it.concrete(s)]
    negs = [k for k, x in enumerate(s) if x.op == "q" and T.cval(x) == -1]
    if negs:
        rest = TT.prod_nodes(x for k, x in enumerate(s) if k not in negs)
        q = T.divexact(t.shape[d], rest)
        s[negs[0]] = q if q is not None and q.isint else T.app("fdiv", t.shape[d], rest)
    return TT.reshape(t, list(t.shape[:d]) + s + list(t.shape[d + 1:]))


@raw(METH, "expand")
def _(it, a, k):
    return TT.expand(need_tensor(a[0], "expand"), sizes(it, a[1:]))


@meth("expand_as", "self other")
def _(it, t, o):
    return TT.expand(t, list(o.shape))


@meth("broadcast_to", "self size")
def _(it, t, s):
    return TT.expand(t, sizes(it, [s]))


@raw(METH, "repeat tile")
def _(it, a, k):
    t = need_tensor(a[0], "repeat")
    r = sizes(it, a[1:] or [k["dims"]])
    if len(r) < t.ndim:
        r = [const(1)] * (t.ndim - len(r)) + r
    return TT.repeat(t, r)


@meth("repeat_interleave", "self repeats dim=None")
def _(it, t, r, d):
    if isinstance(r, Tensor) and r.ndim:
        raise Unsupported("repeat_interleave with tensor")
    return TT.repeat_interleave(t, dim_node(r), None if d is None else TT.int_of(d))


@meth("contiguous", "self")
def _(it, t):
    if t.contig:
        return t
    c = TT.copy_of(t)
    return c


@meth("clone", "self")
def _(it, t):
    return TT.copy_of(t)


@meth("detach", "self")
def _(it, t):
    r = Tensor(t.st, t.shape, t.fwd, t.inv, t.dtype, True, t.mask, t.contig)
    r.requires_grad = False
    return r


@meth("requires_grad_", "self requires_grad=True")
def _(it, t, v):
    t.requires_grad = it.truth(v)
    return t


METH["requires_grad_"] = METH["requires_grad_"]


@raw(METH, "size")
def _(it, a, k):
    t = need_tensor(a[0], "size")
    d = a[1] if len(a) > 1 else k.get("dim")
    if d is None:
        return shape_tuple(t)
    return shape_tuple(t)[TT.norm_dim(d, t.ndim)]


@meth("dim ndimension", "self")
def _(it, t):
    return t.ndim


@meth("numel nelement", "self")
def _(it, t):
    return simp(TT.prod_nodes(t.shape), False)


@meth("element_size", "self")
def _(it, t):
    return 4


@meth("is_contiguous", "self")
def _(it, t):
    return bool(t.contig)


@meth("is_floating_point", "self")
def _(it, t):
    return t.dtype == "float"


@meth("__len__", "self")
def _(it, t):
    return it.length(t)


@meth("item", "self")
def _(it, t):
    from .builtins_model import item
    return item(it, t)


@meth("tolist", "self")
def _(it, t):
    if t.ndim == 0:
        return METH["item"](it, [t], {})
    s = it.iterate(t)
    f = METH["tolist"]
    if isinstance(s, SymSeq):
        return LList([Family(s.count, lambda k: f(it, [s.at(k)], {}))])
    return LList([f(it, [x], {}) for x in s])


@meth("cpu cuda numpy coalesce to_dense", "self device=None")
def _(it, t, d):
    return t


@raw(METH, "to type")
def _(it, a, k):
    t = need_tensor(a[0], "to")
    for v in list(a[1:]) + [k[x] for x in k if x in ("dtype", "other")]:
        if isinstance(v, Tensor):
            t = TT.cast(t, v.dtype)
        elif is_dtype(v):
            t = to_dtype(t, v)
    return t


@meth("type_as", "self other")
def _(it, t, o):
    return TT.cast(t, o.dtype)


@raw(METH, "half bfloat16")
def _(it, a, k):
    return to_dtype(a[0], ExtMod("torch.half"))


@raw(METH, "short")
def _(it, a, k):
    return to_dtype(a[0], ExtMod("torch.short"))


@raw(METH, "char")
def _(it, a, k):
    return to_dtype(a[0], ExtMod("torch.int8"))


@raw(METH, "byte")
def _(it, a, k):
    return to_dtype(a[0], ExtMod("torch.uint8"))


@raw(METH, "float double")
def _(it, a, k):
    return TT.cast(a[0], "float")


@raw(METH, "long int")
def _(it, a, k):
    return TT.cast(a[0], "long")


@raw(METH, "bool")
def _(it, a, k):
    return TT.cast(a[0], "bool")


# ------------------------------------------------------------------ methods: elementwise
def unary(names, f, dtype=None):
    for n in names.split():
        def g(it, a, k, f=f, n=n):
            if k.get("inplace"):
                k = dict(k)
                k.pop("inplace")
            t = need_tensor(parse(a[:1], {x: y for x, y in k.items() if x == "input"}, [("input", R)], n)[0], n)
            dt = dtype or (t.dtype if t.dtype != "bool" else "long")
            if dtype == "float" or t.dtype == "float":
                dt = dtype or "float"
            return ew(lambda x: f(num(x)), t, dtype=dt)
        METH[n] = g


unary("neg negative", neg)
unary("abs absolute", lambda x: T.app("abs", x))
unary("exp", lambda x: T.app("exp", x), "float")
unary("log", lambda x: T.app("log", x), "float")
unary("log1p", lambda x: T.app("log", add(x, const(1))), "float")
unary("expm1", lambda x: sub(T.app("exp", x), const(1)), "float")
unary("log2", lambda x: div(T.app("log", x), T.app("log", const(2))), "float")
unary("log10", lambda x: div(T.app("log", x), T.app("log", const(10))), "float")
unary("sqrt", lambda x: T.app("sqrt", x), "float")
unary("rsqrt", lambda x: T.inv(T.app("sqrt", x)), "float")
unary("sin", lambda x: T.app("sin", x), "float")
unary("cos", lambda x: T.app("cos", x), "float")
unary("tan", lambda x: T.app("tan", x), "float")
unary("atan arctan", lambda x: T.app("atan", x), "float")
unary("acos arccos", lambda x: T.app("acos", x), "float")
unary("asin arcsin", lambda x: sub(div(T.pi(), const(2)), T.app("acos", x)), "float")
unary("tanh", lambda x: T.app("tanh", x), "float")
unary("sigmoid", lambda x: T.app("sigmoid", x), "float")
unary("erf", lambda x: T.app("erf", x), "float")
unary("sign", lambda x: T.app("sign", x))
unary("sgn", lambda x: T.app("sign", x))
unary("floor", lambda x: T.app("floor", x))
unary("ceil", lambda x: T.app("ceil", x))
unary("trunc fix", lambda x: T.app("trunc", x))
unary("frac", lambda x: sub(x, T.app("trunc", x)))
unary("square", lambda x: mul(x, x))
unary("reciprocal", lambda x: T.inv(x), "float")
unary("relu", lambda x: T.app("max", const(0), x))
unary("relu6", lambda x: T.app("min", const(6), T.app("max", const(0), x)))
unary("silu swish", lambda x: mul(x, T.app("sigmoid", x)))
unary("gelu", lambda x: mul(const(Q(1, 2)), x, add(const(1), T.app("erf", div(x, T.app("sqrt", const(2)))))))
unary("deg2rad", lambda x: mul(x, div(T.pi(), const(180))), "float")
unary("rad2deg", lambda x: mul(x, div(const(180), T.pi())), "float")
unary("cosh", lambda x: mul(const(Q(1, 2)), add(T.app("exp", x), T.app("exp", neg(x)))), "float")
unary("sinh", lambda x: mul(const(Q(1, 2)), sub(T.app("exp", x), T.app("exp", neg(x)))), "float")
unary("logsigmoid", lambda x: T.app("log", T.app("sigmoid", x)), "float")
unary("nan_to_num", lambda x: x)
unary("positive", lambda x: x)


@meth("round", "self decimals=0")
def _(it, t, d):
    d = TT.int_of(d)
    if d == 0:
        return ew(lambda x: T.app("round", num(x)), t)
    s = const(Q(10) ** d)
    return ew(lambda x: div(T.app("round", mul(num(x), s)), s), t)


@meth("isnan isinf", "self")
def _(it, t):
    return ew(lambda x: T.false(), t, dtype="bool")


@meth("isfinite", "self")
def _(it, t):
    return ew(lambda x: T.true(), t, dtype="bool")


@meth("softplus", "self beta=1 threshold=20")
def _(it, t, b, th):
    n = node_of(b)
    return ew(lambda x: div(T.app("log", add(const(1), T.app("exp", mul(n, num(x))))), n), t, dtype="float")


@meth("leaky_relu", "self negative_slope=0.01")
def _(it, t, s):
    n = node_of(s if not isinstance(s, float) else PF(s))
    return ew(lambda x: T.ite(T.le(const(0), num(x)), num(x), mul(n, num(x))), t)


@meth("elu", "self alpha=1.0")
def _(it, t, al):
    n = node_of(al if not isinstance(al, float) else PF(al))
    return ew(lambda x: T.ite(T.lt(const(0), num(x)), num(x), mul(n, sub(T.app("exp", num(x)), const(1)))), t)


@meth("hardtanh", "self min_val=-1.0 max_val=1.0")
def _(it, t, lo, hi):
    return METH["clamp"](it, [t, lo if not isinstance(lo, float) else PF(lo), hi if not isinstance(hi, float) else PF(hi)], {})


def binary(names, f, dtype=None):
    for n in names.split():
        def g(it, a, k, n=n, f=f):
            x, y = parse(a, k, [("input", R), ("other", R)], n)
            if isinstance(x, Top) or isinstance(y, Top):
                raise Unsupported("unknown operand")
            if dtype:
                return ew(lambda p, q: f(num(p), num(q)), x, y, dtype=dtype)
            return ew(lambda p, q: f(num(p), num(q)), x, y)
        METH[n] = g


binary("mul multiply", mul)
binary("true_divide", div, "float")
binary("floor_divide", lambda x, y: T.app("fdiv", x, y))
binary("remainder", lambda x, y: T.app("mod", x, y))
binary("fmod", lambda x, y: T.ite(T.le(const(0), mul(x, T.app("sign", y))),
                                  mul(T.app("sign", y), T.app("mod", T.app("abs", x), T.app("abs", y))),
                                  neg(mul(T.app("sign", y), T.app("mod", T.app("abs", x), T.app("abs", y))))))
binary("pow", T.power)
binary("float_power", T.power, "float")
binary("maximum fmax", lambda x, y: T.app("max", x, y))
binary("minimum fmin", lambda x, y: T.app("min", x, y))
binary("atan2 arctan2", lambda x, y: T.app("atan2", x, y), "float")
binary("hypot", lambda x, y: T.app("sqrt", add(mul(x, x), mul(y, y))), "float")
binary("eq", T.eq, "bool")
binary("ne not_equal", lambda x, y: T.not_(T.eq(x, y)), "bool")
binary("lt less", T.lt, "bool")
binary("le less_equal", T.le, "bool")
binary("gt greater", lambda x, y: T.lt(y, x), "bool")
binary("ge greater_equal", lambda x, y: T.le(y, x), "bool")


def tob(x):
    return x if x.isbool else T.not_(T.eq(x, const(0)))


for _n, _f in (("logical_and", T.and_), ("logical_or", T.or_), ("logical_xor", lambda x, y: T.not_(T.eq(x, y)))):
    def _g(it, a, k, f=_f):
        return ew(lambda p, q: f(tob(p), tob(q)), a[0], a[1], dtype="bool")
    METH[_n] = _g


@meth("logical_not bitwise_not __invert__", "self")
def _(it, t):
    return ew(lambda x: T.not_(tob(x)), t, dtype="bool")


def scaled(op):
    def g(it, t, o, alpha):
        if alpha == 1:
            return tensor_bin(it, op, t, o)
        return tensor_bin(it, op, t, tensor_bin(it, "*", lift(o), alpha))
    return g


METH["add"] = lambda it, a, k: scaled("+")(it, *parse(a, k, [("input", R), ("other", R), ("alpha", 1)], "add"))
METH["sub"] = lambda it, a, k: scaled("-")(it, *parse(a, k, [("input", R), ("other", R), ("alpha", 1)], "sub"))
METH["subtract"] = METH["sub"]
METH["rsub"] = lambda it, a, k: tensor_bin(it, "-", a[1], a[0])


@meth("div divide", "self other rounding_mode=None")
def _(it, a, b, rm):
    if rm is None:
        return tensor_bin(it, "/", a, b)
    if rm == "floor":
        return tensor_bin(it, "//", a, b)
    if rm == "trunc":
        dt = None if "float" not in (lift(a).dtype, lift(b).dtype) else "float"
        return ew(lambda x, y: T.app("trunc", div(num(x), num(y))), a, b)
    raise PyErr("RuntimeError", "div expected rounding_mode to be one of None, 'trunc', or 'floor'")


@meth("addcmul", "self t1 t2 value=1")
def _(it, t, a, b, v):
    return tensor_bin(it, "+", t, tensor_bin(it, "*", tensor_bin(it, "*", a, b), v))


@meth("addcdiv", "self t1 t2 value=1")
def _(it, t, a, b, v):
    return tensor_bin(it, "+", t, tensor_bin(it, "*", tensor_bin(it, "/", a, b), v))


@meth("lerp", "self end weight")
def _(it, t, e, w):
    return ew(lambda x, y, z: add(x, mul(z, sub(y, x))), t, e, w, dtype="float")


@meth("clamp clip", "self min=None max=None")
def _(it, t, lo, hi):
    need_tensor(t, "clamp")
    if isinstance(lo, Top) or isinstance(hi, Top):
        raise Unsupported("clamp to unknown")
    if lo is None and hi is None:
        raise PyErr("RuntimeError", "clamp: At least one of 'min' or 'max' must not be None")
    r = t
    if lo is not None:
        r = ew(lambda x, y: T.app("max", num(x), num(y)), r, lo)
    if hi is not None:
        r = ew(lambda x, y: T.app("min", num(x), num(y)), r, hi)
    return r


@meth("clamp_min", "self min")
def _(it, t, lo):
    return ew(lambda x, y: T.app("max", num(x), num(y)), t, lo)


@meth("clamp_max", "self max")
def _(it, t, hi):
    return ew(lambda x, y: T.app("min", num(x), num(y)), t, hi)


@meth("masked_fill", "self mask value")
def _(it, t, m, v):
    m = need_tensor(m, "masked_fill")
    if m.dtype != "bool":
        raise PyErr("RuntimeError", "masked_fill only supports boolean masks, but got mask with dtype float")
    vn = lift(v)
    return ew(lambda x, c, y: T.ite(tob(c), num(y), num(x)), t, m, vn, dtype=t.dtype)


@meth("heaviside", "self values")
def _(it, t, v):
    return ew(lambda x, y: T.ite(T.eq(x, const(0)), y, T.ite(T.lt(const(0), x), const(1), const(0))), t, v)


# ------------------------------------------------------------------ reductions
def reduction(names, kind):
    for n in names.split():
        def g(it, a, k, n=n):
            if n in ("prod", "any", "all"):
                t, d, kd = parse(a, k, [("input", R), ("dim", None), ("keepdim", False)], n)
            else:
                t, d, kd = parse(a, k, [("input", R), ("dim", None), ("keepdim", False)], n)
            need_tensor(t, n)
            d = dims_arg(it, d)
            if d == []:
                d = None
            r = TT.reduce(kind, t, d, it.truth(kd))
            if kind == "mean" and t.dtype != "float":
                raise PyErr("RuntimeError", "mean(): could not infer output dtype. Input dtype must be floating point")
            return r
        METH[n] = g


reduction("sum", "sum")
reduction("prod", "prod")
reduction("mean", "mean")
reduction("any", "any")
reduction("all", "all")
reduction("amax", "max")
reduction("amin", "min")


def arg_reduce(kind, t, d, keepdim):
    n = t.ndim
    d = TT.norm_dim(d, n)
    sn = t.snap()
    shp = t.shape
    shape = [s for k, s in enumerate(shp) if k != d or keepdim]
    if keepdim:
        shape[d] = const(1)

    def g(*idx):
        def full(v):
            if keepdim:
                o = list(idx)
                o[d] = v
                return o
            return list(idx[:d]) + [v] + list(idx[d:])
        v = T.var(shp[d])
        ext = T.red(kind, [v], num(sn(*full(v))))
        w = T.var(shp[d])
        return T.red("min", [w], T.ite(T.eq(num(sn(*full(w))), ext), w, shp[d]))
    return new(shape, g, "long")


def maxmin(kind):
    def g(it, a, k):
        t = need_tensor(a[0] if a else k["input"], kind)
        if len(a) > 1 and isinstance(a[1], Tensor) or "other" in k:
            o = a[1] if len(a) > 1 else k["other"]
            return ew(lambda x, y: T.app(kind, num(x), num(y)), t, o)
        t, d, kd = parse(a, k, [("input", R), ("dim", None), ("keepdim", False)], kind)
        if d is None:
            return TT.reduce(kind, t)
        d = TT.int_of(d)
        kd = it.truth(kd)
        return MaxMin(TT.reduce(kind, t, d, kd), arg_reduce(kind, t, d, kd))
    return g


METH["max"] = maxmin("max")
METH["min"] = maxmin("min")


def argf(kind):
    def g(it, a, k):
        t, d, kd = parse(a, k, [("input", R), ("dim", None), ("keepdim", False)], "arg" + kind)
        if d is None:
            t = METH["ravel"](it, [t], {})
            return arg_reduce(kind, t, 0, False)
        return arg_reduce(kind, t, TT.int_of(d), it.truth(kd))
    return g


METH["argmax"] = argf("max")
METH["argmin"] = argf("min")


@meth("var", "self dim=None correction=1 keepdim=False unbiased=True")
def _var(it, t, d, corr, kd, unb):
    if isinstance(corr, bool):
        unb, corr = corr, 1
    if not it.truth(unb):
        corr = 0
    ds = dims_arg(it, d)
    kd = it.truth(kd)
    m = TT.reduce("mean", t, ds, True)
    c = tensor_bin(it, "-", t, m)
    s = TT.reduce("sum", tensor_bin(it, "*", c, c), ds, kd)
    dl = list(range(t.ndim)) if ds is None else [TT.norm_dim(x, t.ndim) for x in (ds if isinstance(ds, list) else [ds])]
    n = TT.prod_nodes(t.shape[x] for x in dl)
    return ew(lambda x: div(x, sub(n, node_of(corr))), s)


@meth("std", "self dim=None correction=1 keepdim=False unbiased=True")
def _(it, t, d, corr, kd, unb):
    return METH["sqrt"](it, [_var(it, t, d, corr, kd, unb)], {})


@meth("norm", "self p=None dim=None keepdim=False")
def _(it, t, p, d, kd):
    ds = dims_arg(it, d)
    kd = it.truth(kd)
    if p is None or p == "fro" or p == 2 or (isinstance(p, PF) and p.q == 2):
        return METH["sqrt"](it, [TT.reduce("sum", tensor_bin(it, "*", t, t), ds, kd)], {})
    if p == 1:
        return TT.reduce("sum", METH["abs"](it, [t], {}), ds, kd)
    if isinstance(p, PF) and p.q == float("inf"):
        return TT.reduce("max", METH["abs"](it, [t], {}), ds, kd)
    raise Unsupported("norm order")


@func("linalg.norm linalg.vector_norm", "self ord=None dim=None keepdim=False")
def _(it, t, p, d, kd):
    return METH["norm"](it, [t, p, d, kd], {})


@meth("logsumexp", "self dim keepdim=False")
def _(it, t, d, kd):
    return METH["log"](it, [TT.reduce("sum", METH["exp"](it, [t], {}), dims_arg(it, d), it.truth(kd))], {})


@meth("softmax", "self dim=None _stacklevel=3")
def _softmax(it, t, d, _s):
    if d is None:
        raise Unsupported("softmax without dim")
    e = METH["exp"](it, [t], {})
    return tensor_bin(it, "/", e, TT.reduce("sum", e, dims_arg(it, d), True))


@meth("log_softmax", "self dim=None _stacklevel=3")
def _(it, t, d, _s):
    e = METH["exp"](it, [t], {})
    return tensor_bin(it, "-", t, METH["log"](it, [TT.reduce("sum", e, dims_arg(it, d), True)], {}))


@meth("cumsum", "self dim")
def _(it, t, d):
    d = TT.norm_dim(d, t.ndim)
    sn, shp = t.snap(), t.shape

    def g(*i):
        v = T.var(shp[d])
        return T.red("sum", [v], T.ite(T.le(v, i[d]), num(sn(*i[:d], v, *i[d + 1:])), const(0)))
    return new(shp, g, t.dtype)


@raw(METH, "aminmax")
def _(it, a, k):
    t, d, kd = parse(a, k, [("input", R), ("dim", None), ("keepdim", False)], "aminmax")
    need_tensor(t, "aminmax")
    d = dims_arg(it, d)
    kd = it.truth(kd)
    return AMinMax(*(TT.reduce(w, t, None if d == [] else d, kd) for w in ("min", "max")))


@meth("diff", "self n=1 dim=-1")
def _(it, t, n, d):
    d = TT.norm_dim(d, t.ndim)
    for _ in range(TT.int_of(n)):
        t = (lambda sn, shp: new([T.sub(s, const(1)) if j == d else s for j, s in enumerate(shp)],
                                 lambda *i: T.sub(num(sn(*i[:d], T.add(i[d], const(1)), *i[d + 1:])), num(sn(*i))), t.dtype))(t.snap(), t.shape)
    return t


@meth("diag", "self diagonal=0")
def _(it, t, k):
    if TT.int_of(k) != 0:
        raise Unsupported("shifted diagonal")
    sn = t.snap()
    if t.ndim == 1:
        return new([t.shape[0], t.shape[0]], lambda i, j: T.ite(T.eq(i, j), num(sn(i)), const(0)), t.dtype)
    if t.ndim != 2 or not TT.same_dim(t.shape[0], t.shape[1]):
        raise Unsupported("diagonal of a non square matrix")
    return new([t.shape[0]], lambda i: num(sn(i, i)), t.dtype)


@meth("diag_embed", "self")
def _(it, t):
    sn = t.snap()
    return new(list(t.shape) + [t.shape[-1]], lambda *i: T.ite(T.eq(i[-2], i[-1]), num(sn(*i[:-1])), const(0)), t.dtype)


@meth("trace", "self")
def _(it, t):
    return TT.reduce("sum", METH["diag"](it, [t], {}))


@meth("cumprod", "self dim")
def _(it, t, d):
    d = TT.norm_dim(d, t.ndim)
    sn, shp = t.snap(), t.shape

    def g(*i):
        v = T.var(shp[d])
        return T.red("prod", [v], T.ite(T.le(v, i[d]), num(sn(*i[:d], v, *i[d + 1:])), const(1)))
    return new(shp, g, t.dtype)


# ------------------------------------------------------------------ linear algebra
@raw(METH, "matmul __matmul__ mm mv dot inner_")
def _(it, a, k):
    a = list(a) + list(k.values())
    return TT.matmul(need_tensor(a[0], "matmul"), need_tensor(a[1], "matmul"))


@raw(METH, "bmm")
def _(it, a, k):
    a = list(a) + list(k.values())
    x, y = need_tensor(a[0], "bmm"), need_tensor(a[1], "bmm")
    if x.ndim != 3 or y.ndim != 3:
        raise PyErr("RuntimeError", "batch1 must be a 3D tensor")
    if not TT.same_dim(x.shape[0], y.shape[0]):
        raise PyErr("RuntimeError", "bmm: batch sizes differ: %s vs %s" % (x.shape[0], y.shape[0]))
    return TT.matmul(x, y)


@meth("baddbmm", "self a b beta=1 alpha=1")
def _(it, t, a, b, be, al):
    return tensor_bin(it, "+", tensor_bin(it, "*", t, be), tensor_bin(it, "*", TT.matmul(a, b), al))


@meth("addmm addmv", "self a b beta=1 alpha=1")
def _(it, t, a, b, be, al):
    return tensor_bin(it, "+", tensor_bin(it, "*", t, be), tensor_bin(it, "*", TT.matmul(a, b), al))


@meth("outer ger", "self other")
def _(it, a, b):
    return TT.einsum("i,j->ij", [a, b])


@meth("inner", "self other")
def _(it, a, b):
    return TT.matmul(a, TT.transpose(b, -1, -2) if b.ndim > 1 else b)


@func("einsum", "")
def _(it):
    raise PyErr("TypeError", "einsum() needs arguments")


@raw(FUNC, "einsum")
def _(it, a, k):
    if not isinstance(a[0], str):
        raise Unsupported("einsum sublist format")
    ops = a[1:]
    if len(ops) == 1 and isinstance(ops[0], (tuple, LList)):
        ops = it.concrete(ops[0])
    ops = [need_tensor(o, "einsum") for o in ops]
    eq = a[0].replace(" ", "")
    if "..." in eq:
        return einsum_ellipsis(eq, ops)
    return TT.einsum(eq, ops)


def einsum_ellipsis(eq, ops):
    if "->" in eq:
        ins, out = eq.split("->")
    else:
        raise Unsupported("implicit einsum with ellipsis")
    ins = ins.split(",")
    used = set(eq)
    free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in used]
    nb = 0
    for s, t in zip(ins, ops):
        if "..." in s:
            nb = max(nb, t.ndim - (len(s) - 3))
    let = free[:nb]
    ni = []
    for s, t in zip(ins, ops):
        if "..." in s:
            m = t.ndim - (len(s) - 3)
            if m < 0:
                raise PyErr("RuntimeError", "einsum: too few dimensions")
            s = s.replace("...", "".join(let[nb - m:]))
        ni.append(s)
    return TT.einsum(",".join(ni) + "->" + out.replace("...", "".join(let)), ops)


@meth("tensordot", "self other dims=2")
def _(it, a, b, d):
    if isinstance(d, (tuple, LList)):
        x, y = [it.concrete(z) if isinstance(z, (tuple, LList)) else [z] for z in it.concrete(d)]
        x = [TT.norm_dim(z, a.ndim) for z in x]
        y = [TT.norm_dim(z, b.ndim) for z in y]
    else:
        n = TT.int_of(d)
        x = list(range(a.ndim - n, a.ndim))
        y = list(range(n))
    letters = iter("abcdefghijklmnopqrstuvwxyz")
    sa = [next(letters) for _ in range(a.ndim)]
    sb = [next(letters) for _ in range(b.ndim)]
    for p, q in zip(x, y):
        sb[q] = sa[p]
    out = [c for i, c in enumerate(sa) if i not in x] + [c for i, c in enumerate(sb) if i not in y]
    return TT.einsum("%s,%s->%s" % ("".join(sa), "".join(sb), "".join(out)), [a, b])


@meth("linear", "self weight bias=None")
def _(it, x, w, b):
    need_tensor(x, "linear")
    if not TT.same_dim(x.shape[-1], w.shape[-1]):
        raise PyErr("RuntimeError", "linear: input %s with weight %s" % (list(x.shape), list(w.shape)))
    r = TT.matmul(x, TT.transpose(w, 0, 1))
    if b is not None:
        r = tensor_bin(it, "+", r, b)
    return r


@meth("diagonal", "self offset=0 dim1=0 dim2=1")
def _(it, t, o, d1, d2):
    o = TT.int_of(o)
    d1, d2 = TT.norm_dim(d1, t.ndim), TT.norm_dim(d2, t.ndim)
    sn = t.snap()
    n1, n2 = t.shape[d1], t.shape[d2]
    ln = T.app("min", sub(n1, const(max(0, -o))), sub(n2, const(max(0, o))))
    rest = [k for k in range(t.ndim) if k not in (d1, d2)]
    shape = [t.shape[k] for k in rest] + [ln]

    def g(*i):
        f = [None] * t.ndim
        for k, d in enumerate(rest):
            f[d] = i[k]
        f[d1] = add(i[-1], const(max(0, -o)))
        f[d2] = add(i[-1], const(max(0, o)))
        return sn(*f)
    return new(shape, g, t.dtype)


@meth("triu", "self diagonal=0")
def _(it, t, d):
    sn = t.snap()
    dn = node_of(d)
    return new(t.shape, lambda *i: T.ite(T.le(add(i[-2], dn), i[-1]), num(sn(*i)), const(0)), t.dtype)


@meth("tril", "self diagonal=0")
def _(it, t, d):
    sn = t.snap()
    dn = node_of(d)
    return new(t.shape, lambda *i: T.ite(T.le(i[-1], add(i[-2], dn)), num(sn(*i)), const(0)), t.dtype)


# ------------------------------------------------------------------ indexing functions
@meth("gather", "self dim index sparse_grad=False")
def _(it, t, d, ix, _s):
    d = TT.norm_dim(d, t.ndim)
    if ix.ndim != t.ndim:
        raise PyErr("RuntimeError", "Index tensor must have the same number of dimensions as input tensor")
    if ix.dtype != "long":
        raise PyErr("RuntimeError", "gather(): Expected dtype int64 for index")
    for k in range(t.ndim):
        if k != d and not TT.same_dim(ix.shape[k], t.shape[k]):
            if ix.shape[k].op == "q" and t.shape[k].op == "q" and T.cval(ix.shape[k]) <= T.cval(t.shape[k]):
                continue
            if not T.nonneg(sub(t.shape[k], ix.shape[k])):
                raise PyErr("RuntimeError", "gather: index size mismatch at dim %d" % k)
    sn, si = t.snap(), ix.snap()
    return new(ix.shape, lambda *i: sn(*i[:d], si(*i), *i[d + 1:]), t.dtype)


@meth("take_along_dim", "self indices dim")
def _(it, t, ix, d):
    d = TT.norm_dim(d, t.ndim)
    b = list(TT.broadcast_shapes([s if k != d else const(1) for k, s in enumerate(t.shape)],
                                 [s if k != d else const(1) for k, s in enumerate(ix.shape)]))
    bi = list(b)
    bi[d] = ix.shape[d]
    bt = list(b)
    bt[d] = t.shape[d]
    return METH["gather"](it, [TT.expand(t, bt), d, TT.expand(ix, bi)], {})


@meth("index_select", "self dim index")
def _(it, t, d, ix):
    d = TT.norm_dim(d, t.ndim)
    items = tuple([Slice(None, None, None)] * d + [ix])
    return TT.index(t, items)


@meth("select", "self dim index")
def _(it, t, d, ix):
    d = TT.norm_dim(d, t.ndim)
    return TT.index(t, tuple([Slice(None, None, None)] * d + [ix]))


@meth("narrow", "self dim start length")
def _(it, t, d, s, n):
    d = TT.norm_dim(d, t.ndim)
    e = I.binop(it, "+", s, n)
    return TT.index(t, tuple([Slice(None, None, None)] * d + [Slice(s, e, None)]))


@meth("index_fill", "self dim index value")
def _(it, t, d, ix, v):
    c = TT.copy_of(t)
    d = TT.norm_dim(d, t.ndim)
    TT.setitem(c, tuple([Slice(None, None, None)] * d + [ix]), v)
    return c


@meth("index_copy", "self dim index source")
def _(it, t, d, ix, v):
    c = TT.copy_of(t)
    d = TT.norm_dim(d, t.ndim)
    TT.setitem(c, tuple([Slice(None, None, None)] * d + [ix]), v)
    return c


@meth("index_add", "self dim index source alpha=1")
def _(it, t, d, ix, src, al):
    d = TT.norm_dim(d, t.ndim)
    sn, si, ss = t.snap(), ix.snap(), src.snap()
    an = node_of(al)

    def g(*i):
        v = T.var(ix.shape[0])
        return add(num(sn(*i)), T.red("sum", [v], T.ite(T.eq(si(v), i[d]), mul(an, num(ss(*i[:d], v, *i[d + 1:]))), const(0))))
    return new(t.shape, g, t.dtype)


@meth("scatter_add", "self dim index src")
def _(it, t, d, ix, src):
    d = TT.norm_dim(d, t.ndim)
    sn, si, ss = t.snap(), ix.snap(), src.snap()

    def g(*i):
        v = T.var(ix.shape[d])
        j = i[:d] + (v,) + i[d + 1:]
        return add(num(sn(*i)), T.red("sum", [v], T.ite(T.eq(si(*j), i[d]), num(ss(*j)), const(0))))
    for k in range(t.ndim):
        if k != d and not TT.same_dim(t.shape[k], ix.shape[k]):
            raise Unsupported("scatter with partial index")
    return new(t.shape, g, t.dtype)


@meth("scatter", "self dim index src")
def _(it, t, d, ix, src):
    d = TT.norm_dim(d, t.ndim)
    sn, si = t.snap(), ix.snap()
    st = lift(src)
    ss = st.snap()
    for k in range(t.ndim):
        if k != d and not TT.same_dim(t.shape[k], ix.shape[k]):
            raise Unsupported("scatter with partial index")

    def g(*i):
        v = T.var(ix.shape[d])
        j = i[:d] + (v,) + i[d + 1:]
        return T.last([v], T.eq(si(*j), i[d]), num(ss(*j) if st.ndim else ss()), num(sn(*i)))
    return new(t.shape, g, t.dtype)


@raw(METH, "flip fliplr flipud")
def _(it, a, k):
    t = need_tensor(a[0], "flip")
    d = a[1:] or [k["dims"]]
    if len(d) == 1 and isinstance(d[0], (tuple, LList)):
        d = it.concrete(d[0])
    d = [TT.norm_dim(x, t.ndim) for x in d]
    sn, shp = t.snap(), t.shape
    return new(shp, lambda *i: sn(*[sub(sub(shp[k], const(1)), x) if k in d else x for k, x in enumerate(i)]), t.dtype)


@meth("roll", "self shifts dims=None")
def _(it, t, s, d):
    if d is None:
        raise Unsupported("roll flattened")
    ss = it.concrete(s) if isinstance(s, (tuple, LList)) else [s]
    dd = it.concrete(d) if isinstance(d, (tuple, LList)) else [d]
    m = {TT.norm_dim(x, t.ndim): node_of(y) for x, y in zip(dd, ss)}
    sn, shp = t.snap(), t.shape
    return new(shp, lambda *i: sn(*[T.app("mod", sub(x, m[k]), shp[k]) if k in m else x for k, x in enumerate(i)]), t.dtype)


@meth("unbind", "self dim=0")
def _(it, t, d):
    d = TT.norm_dim(d, t.ndim)
    n = simp(t.shape[d], False)
    f = lambda k: TT.index(t, tuple([Slice(None, None, None)] * d + [k]))
    if isinstance(n, int):
        return tuple(f(k) for k in range(n))
    return LList([Family(n, f)])


@meth("chunk", "self chunks dim=0")
def _(it, t, c, d):
    d = TT.norm_dim(d, t.ndim)
    c = TT.int_of(c)
    n = t.shape[d]
    sz = T.app("fdiv", add(n, const(c - 1)), const(c))
    if n.op == "q":
        out = []
        p, m, z = 0, int(T.cval(n)), int(T.cval(sz))
        while p < m:
            out.append(TT.index(t, tuple([Slice(None, None, None)] * d + [Slice(p, min(p + z, m), None)])))
            p += z
        return tuple(out)
    q = T.divexact(n, const(c))
    if q is None or not q.isint:
        raise Unsupported("chunk of symbolic size")
    return tuple(TT.index(t, tuple([Slice(None, None, None)] * d + [Slice(mul(const(k), q), mul(const(k + 1), q), None)]))
                 for k in range(c))


@meth("split", "self split_size_or_sections dim=0")
def _(it, t, s, d):
    d = TT.norm_dim(d, t.ndim)
    if isinstance(s, (tuple, LList)):
        secs = [node_of(x) for x in it.concrete(s)]
    else:
        n, z = simp(t.shape[d], False), simp(node_of(s), False)
        if not isinstance(n, int) or not isinstance(z, int):
            q = T.divexact(const(n), const(z))
            qi = simp(q, False) if q is not None else None
            if not isinstance(qi, int):
                raise Unsupported("split of symbolic size")
            secs = [const(z)] * qi
        else:
            secs = [const(min(z, n - p)) for p in range(0, n, z)]
    out, p = [], const(0)
    for z in secs:
        out.append(TT.index(t, tuple([Slice(None, None, None)] * d + [Slice(simp(p, False), simp(add(p, z), False), None)])))
        p = add(p, z)
    return tuple(out)


@meth("unfold", "self dimension size step")
def _(it, t, d, s, st):
    d = TT.norm_dim(d, t.ndim)
    s, st = node_of(s), node_of(st)
    n = add(T.app("fdiv", sub(t.shape[d], s), st), const(1))
    sn = t.snap()
    shape = list(t.shape)
    shape[d] = n
    shape.append(s)
    return new(shape, lambda *i: sn(*[add(mul(x, st), i[-1]) if k == d else x for k, x in enumerate(i[:-1])]), t.dtype)


@meth("bucketize", "self boundaries right=False out_int32=False")
def _(it, t, b, right, _o):
    r = it.truth(right)
    t0 = lift(t)
    sn, sb = t0.snap(), b.snap()

    def g(*i):
        v = T.var(b.shape[0])
        x = num(sn(*i))
        c = T.le(num(sb(v)), x) if r else T.lt(num(sb(v)), x)
        return T.red("sum", [v], T.ite(c, const(1), const(0)))
    return new(t0.shape, g, "long")


@func("searchsorted", "sorted_sequence input right=False out_int32=False side=None")
def _(it, b, t, right, _o, side):
    if b.ndim != 1:
        raise Unsupported("searchsorted nd")
    return METH["bucketize"](it, [t, b, True if side == "right" else right], {})


@meth("equal", "self other")
def _(it, a, b):
    if a.ndim != b.ndim or any(not TT.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return scal(TT.reduce("all", ew(lambda x, y: T.eq(num(x), num(y)), a, b, dtype="bool")))


@meth("allclose", "self other rtol=None atol=None equal_nan=False")
def _(it, a, b, r, at, e):
    rn = node_of(r) if r is not None else const(Q(1, 100000))
    an = node_of(at) if at is not None else const(Q(1, 10 ** 8))
    c = ew(lambda x, y: T.le(T.app("abs", sub(x, y)), add(an, mul(rn, T.app("abs", y)))), a, b, dtype="bool")
    return scal(TT.reduce("all", c))


@meth("count_nonzero", "self dim=None")
def _(it, t, d):
    return TT.reduce("sum", ew(lambda x: T.ite(tob(x), const(1), const(0)), t, dtype="long"), dims_arg(it, d))


# ------------------------------------------------------------------ in-place
def inplace(names, spec):
    sp = mkspec("self " + spec)

    def deco(f):
        for n in names.split():
            def g(it, a, k, n=n):
                p = parse(a, k, sp, n)
                need_tensor(p[0], n)
                check_inplace(it, p[0])
                f(it, *p)
                return p[0]
            METH[n] = g
        return f
    return deco


@inplace("uniform_", "a=0 b=1")
def _(it, t, a, b):
    na, nb = node_of(a), node_of(b)
    u = rand_tensor(it, t.shape, "rand01", Q(0), Q(1)).snap()
    t.write(lambda *i: add(na, mul(sub(nb, na), u(*i))))


@inplace("normal_", "mean=0 std=1")
def _(it, t, m, s):
    nm, ns = node_of(m), node_of(s)
    u = rand_tensor(it, t.shape, "randn").snap()
    t.write(lambda *i: add(nm, mul(ns, u(*i))))


@inplace("fill_", "value")
def _(it, t, v):
    n = dim0(v)
    t.write(lambda *i: n)


def dim0(v):
    if isinstance(v, Tensor):
        return v.at(*[const(0)] * v.ndim)
    return node_of(v)


@inplace("zero_", "")
def _(it, t):
    t.write(lambda *i: const(0))


@inplace("copy_", "src non_blocking=False")
def _(it, t, s, _n):
    write_into(it, t, TT.cast(need_tensor(s, "copy_"), t.dtype), "copy_")


@inplace("bernoulli_", "p=None")
def _(it, t, p):
    u = rand_tensor(it, t.shape, "bern", dtype="bool").snap()
    t.write(lambda *i: num(u(*i)))


@inplace("fill_diagonal_", "value")
def _(it, t, v):
    n = dim0(v)
    old = t.snap()
    t.write(lambda *i: T.ite(T.and_(*[T.eq(i[0], x) for x in i[1:]]), n, old(*i)))


def shape_inplace(name):
    def g(it, a, k):
        raise Unsupported("Tensor." + name)
    METH[name] = g


for _n in ("squeeze_", "unsqueeze_", "t_", "transpose_", "resize_", "swapaxes_", "detach_"):
    shape_inplace(_n)


# ------------------------------------------------------------------ creation
def dt_of(k, default="float"):
    v = k.get("dtype")
    if v is None:
        return default
    d = dtype_of(v)
    if d is None:
        raise Unsupported("dtype")
    return d


def creation(names, val, inttype=False):
    for n in names.split():
        def g(it, a, k, val=val):
            if not a and "size" in k:
                a = [k["size"]]
            s = sizes(it, a)
            dt = dt_of(k)
            c = const(val) if dt != "bool" else T.bconst(val != 0)
            return mark_rg(k, new(s, lambda *i: c, dt))
        FUNC[n] = g

        def h(it, a, k, val=val):
            t = need_tensor(a[0], n)
            dt = dt_of(k, t.dtype)
            c = const(val) if dt != "bool" else T.bconst(val != 0)
            return mark_rg(k, new(t.shape, lambda *i: c, dt))
        FUNC[n + "_like"] = h

        def m(it, a, k, val=val):
            t = a[0]
            s = sizes(it, a[1:] if len(a) > 1 else [k["size"]])
            dt = dt_of(k, t.dtype)
            c = const(val) if dt != "bool" else T.bconst(val != 0)
            return new(s, lambda *i: c, dt)
        METH["new_" + n] = m


def mark_rg(k, t):
    if k.get("requires_grad") is True:
        t.requires_grad = True
        t.attrs = {"leaf": True}
    return t


class _Lazy:
    pass


def _install_creation():
    creation("zeros", 0)
    creation("ones", 1)


@raw(FUNC, "full")
def _(it, a, k):
    s, v = parse(a, k, [("size", R), ("fill_value", R)], "full")
    n = dim0(v)
    dt = dt_of(k, "bool" if n.isbool else "long" if n.isint and not isinstance(v, PF) else "float")
    if isinstance(v, Tensor):
        dt = dt_of(k, v.dtype)
    c = TT.dtype_conv("bool" if n.isbool else "float", dt)(n) if dt != "float" or n.isbool else n
    return new(sizes(it, [s]) if isinstance(s, (tuple, LList)) else [dim_node(s)], lambda *i: c, dt)


@raw(FUNC, "full_like")
def _(it, a, k):
    t, v = parse(a, k, [("input", R), ("fill_value", R)], "full_like")
    n = dim0(v)
    return new(t.shape, lambda *i: n, dt_of(k, t.dtype))


@raw(METH, "new_full")
def _(it, a, k):
    t, s, v = parse(a, k, [("self", R), ("size", R), ("fill_value", R)], "new_full")
    n = dim0(v)
    return new(sizes(it, [s]), lambda *i: n, dt_of(k, t.dtype))


@raw(FUNC, "empty")
def _(it, a, k):
    if not a and "size" in k:
        a = [k["size"]]
    return rand_tensor(it, sizes(it, a), "uninit", dtype=dt_of(k))


@raw(FUNC, "empty_like")
def _(it, a, k):
    return rand_tensor(it, a[0].shape, "uninit", dtype=dt_of(k, a[0].dtype))


@raw(METH, "new_empty")
def _(it, a, k):
    return rand_tensor(it, sizes(it, a[1:]), "uninit", dtype=dt_of(k, a[0].dtype))


@raw(FUNC, "rand")
def _(it, a, k):
    if not a and "size" in k:
        a = [k["size"]]
    return mark_rg(k, rand_tensor(it, sizes(it, a), "rand01", Q(0), Q(1)))


@raw(FUNC, "randn")
def _(it, a, k):
    if not a and "size" in k:
        a = [k["size"]]
    return mark_rg(k, rand_tensor(it, sizes(it, a), "randn"))


@raw(FUNC, "rand_like")
def _(it, a, k):
    return rand_tensor(it, a[0].shape, "rand01", Q(0), Q(1))


@raw(FUNC, "randn_like")
def _(it, a, k):
    return rand_tensor(it, a[0].shape, "randn")


@raw(FUNC, "randperm")
def _(it, a, k):
    return rand_tensor(it, [dim_node(a[0])], "perm", Q(0), None, dtype="long")


@raw(FUNC, "randint")
def _(it, a, k):
    if len(a) == 2:
        a = [0] + list(a)
    lo, hi, s = a[:3]
    u = rand_tensor(it, sizes(it, [s]), "randint", None, None, dtype="long")
    sn = u.snap()
    l, h = node_of(lo), node_of(hi)
    return new(u.shape, lambda *i: add(l, T.app("mod", sn(*i), sub(h, l))), "long")


@raw(FUNC, "bernoulli")
def _(it, a, k):
    t = a[0]
    u = rand_tensor(it, t.shape, "bern", dtype="bool").snap()
    return new(t.shape, lambda *i: num(u(*i)), "float")


@raw(FUNC, "arange range")
def _(it, a, k):
    a = list(a)
    if "end" in k:
        a = [k.get("start", 0)] + [k["end"]] + ([k["step"]] if "step" in k else []) if not a else a + [k["end"]]
    elif "step" in k:
        a = (a if len(a) == 2 else [0] + a) + [k["step"]]
    a = [x.at(*[const(0)] * x.ndim) if isinstance(x, Tensor) else x for x in a]
    if any(isinstance(x, Top) for x in a):
        raise Unsupported("arange of unknown")
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    isint = all(I.is_inty(simp(x, False) if isinstance(x, Node) and x.isint else x) for x in (st, en, sp))
    s, e, p = node_of(st), node_of(en), node_of(sp)
    d = sub(e, s)
    if p.op == "q" and T.cval(p) == 1 and d.isint:
        n = d
    else:
        n = T.app("ceil", div(d, p)) if not (d.isint and p.isint) else T.app("fdiv", add(d, sub(p, const(1))), p) if T.positive(p) else T.app("ceil", div(d, p))
    if not T.nonneg(n):
        if n.op == "q":
            raise PyErr("RuntimeError", "upper bound and larger bound inconsistent with step sign")
        # the bounds must be consistent for the call not to raise
        if not n.fv and it.decide(T.lt(n, const(0))):
            raise PyErr("RuntimeError", "upper bound and lower bound inconsistent with step sign")
    return new([n], lambda i: add(s, mul(i, p)), dt_of(k, "long" if isint else "float"))


@raw(FUNC, "linspace")
def _(it, a, k):
    st, en, n = parse(a, k, [("start", R), ("end", R), ("steps", R)], "linspace")
    s, e, m = dim0(st), dim0(en), dim_node(n)
    if m.op == "q" and T.cval(m) == 1:
        return new([m], lambda i: s, "float")
    return new([m], lambda i: add(s, div(mul(i, sub(e, s)), sub(m, const(1)))), dt_of(k))


@raw(FUNC, "eye")
def _(it, a, k):
    n = dim_node(a[0])
    m = dim_node(a[1]) if len(a) > 1 else n
    return new([n, m], lambda i, j: T.ite(T.eq(i, j), const(1), const(0)), dt_of(k))


def tensor_from(x):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, (tuple,)):
        x = LList(x)
    if isinstance(x, (Top, I.Poison)):
        raise Unsupported("tensor of unknown")
    if not isinstance(x, LList):
        if x is None or isinstance(x, str):
            raise PyErr("RuntimeError", "Could not infer dtype of %s" % I.typename(x))
        n, dt = TT.scalar_node(x)
        if isinstance(x, Node) and not x.isbool and not x.isint:
            dt = "float"
        return new((), lambda: n, dt)
    if len(x.items) == 0:
        return new((const(0),), lambda i: const(0), "float")
    parts = []
    for v in x.items:
        if isinstance(v, Family):
            parts.append((v.count, lambda k, v=v: tensor_from(v.at(k))))
        elif isinstance(v, I.ListMark):
            raise Unsupported("list inside its own loop")
        else:
            t = tensor_from(v)
            parts.append((const(1), lambda k, t=t: t))
    return stack_parts(parts, 0)


def stack_parts(parts, dim):
    """tensor whose slice number k along a new dimension is given piecewise"""
    probe = []
    for c, at in parts:
        v = T.var(c) if not TT.is_one(const(c)) else const(0)
        probe.append(at(v))
    shape0 = probe[0].shape
    for p in probe[1:]:
        if p.ndim != len(shape0) or any(not TT.same_dim(a, b) for a, b in zip(p.shape, shape0)):
            raise PyErr("RuntimeError", "stack expects each tensor to be equal size, but got %s and %s" % (list(shape0), list(p.shape)))
    if any(any(x.fv for x in p.shape) for p in probe):
        raise Unsupported("slices of varying shape")
    dt = TT.result_dtype(probe)
    total = add(*[const(c) for c, _ in parts])
    dim = TT.norm_dim(dim, len(shape0) + 1)
    shape = list(shape0[:dim]) + [total] + list(shape0[dim:])
    # freeze contents now
    snaps = []
    for (c, at), p in zip(parts, probe):
        if TT.is_one(const(c)):
            s = p.snap()
            snaps.append((const(1), lambda k, s=s: s))
        else:
            snaps.append((const(c), lambda k, at=at: at(k).snap()))
    offs = []
    o = const(0)
    for c, _ in snaps:
        offs.append(o)
        o = add(o, c)

    def g(*idx):
        k = idx[dim]
        rest = idx[:dim] + idx[dim + 1:]
        if k.op == "q" and all(x.op == "q" for x in offs):
            kv = T.cval(k)
            for (c, at), f in zip(snaps, offs):
                if T.cval(f) <= kv and (c.op != "q" or kv < T.cval(f) + T.cval(c)):
                    return conv(at(sub(k, f))(*rest))
        r = None
        for (c, at), f in reversed(list(zip(snaps, offs))):
            if r is None:
                r = conv(at(sub(k, f))(*rest))
                continue
            cond = T.lt(k, add(f, c))
            if cond.op == "b":
                if cond.args[0]:
                    r = conv(at(sub(k, f))(*rest))
                continue
            r = T.ite(cond, conv(at(sub(k, f))(*rest)), r)
        return r
    conv = (lambda x: x) if dt == "bool" else num
    return new(shape, g, dt)


@raw(FUNC, "tensor as_tensor asarray from_numpy FloatTensor LongTensor")
def _(it, a, k):
    x = a[0] if a else k["data"]
    if isinstance(x, (tuple, LList)) and not isinstance(x, LList):
        x = LList(x)
    t = tensor_from(x)
    if isinstance(x, Tensor):
        t = TT.copy_of(x)
    if k.get("dtype") is not None:
        t = to_dtype(t, k["dtype"])
    return mark_rg(k, t)


@meth("new_tensor", "self data")
def _(it, t, d):
    return tensor_from(d)


def seq_parts(it, v):
    if isinstance(v, tuple):
        v = LList(v)
    if isinstance(v, LList):
        items = v.items
        if any(isinstance(x, I.ListMark) for x in items):
            raise Unsupported("list inside its own loop")
    elif isinstance(v, SymSeq):
        items = [Family(v.count, v.at)]
    elif isinstance(v, (Top, I.Poison)):
        raise Unsupported("unknown sequence")
    else:
        r = it.iterate(v)
        items = [Family(r.count, r.at)] if isinstance(r, SymSeq) else r
    parts = []
    for x in items:
        if isinstance(x, Family):
            parts.append((const(x.count), x.at))
        else:
            if isinstance(x, (Top, I.Poison)):
                raise Unsupported("unknown tensor in a sequence")
            if not isinstance(x, Tensor):
                raise PyErr("TypeError", "expected Tensor as element in argument 0, but got %s" % I.typename(x))
            parts.append((const(1), lambda k, x=x: x))
    return parts


@raw(FUNC, "stack")
def _(it, a, k):
    ts, d = parse(a, k, [("tensors", R), ("dim", 0)], "stack")
    parts = seq_parts(it, ts)
    if not parts:
        raise PyErr("RuntimeError", "stack expects a non-empty TensorList")
    return stack_parts(parts, TT.int_of(d))


@raw(FUNC, "cat concat concatenate hstack_ vstack_")
def _(it, a, k):
    ts, d = parse(a, k, [("tensors", R), ("dim", 0)], "cat")
    parts = seq_parts(it, ts)
    if not parts:
        raise PyErr("RuntimeError", "expected a non-empty list of Tensors")
    if all(TT.is_one(c) for c, _ in parts):
        return TT.cat([at(const(0)) for _, at in parts], TT.int_of(d))
    if len(parts) == 1:
        c, at = parts[0]
        s = stack_parts(parts, 0)
        d = TT.norm_dim(d, s.ndim - 1)
        # move the family dimension next to d and merge
        order = list(range(1, s.ndim))
        order.insert(d, 0)
        p = TT.permute(s, order)
        shp = list(p.shape[:d]) + [mul(p.shape[d], p.shape[d + 1])] + list(p.shape[d + 2:])
        return TT.reshape(p, shp)
    raise Unsupported("cat of a mixed symbolic list")


@raw(FUNC, "column_stack")
def _(it, a, k):
    ts = [at(const(0)) for _, at in seq_parts(it, a[0])]
    return TT.cat([TT.unsqueeze(t, 1) if t.ndim == 1 else t for t in ts], 1)


@raw(FUNC, "atleast_1d")
def _(it, a, k):
    return TT.unsqueeze(a[0], 0) if a[0].ndim == 0 else a[0]


@raw(FUNC, "scalar_tensor")
def _(it, a, k):
    return FUNC["tensor"](it, a, k)


@raw(FUNC, "bitwise_and")
def _(it, a, k):
    return I.binop(it, "&", a[0], a[1])


@raw(FUNC, "bitwise_or")
def _(it, a, k):
    return I.binop(it, "|", a[0], a[1])


@raw(FUNC, "hstack")
def _(it, a, k):
    ts = [at(const(0)) for _, at in seq_parts(it, a[0])]
    return TT.cat(ts, 0 if ts[0].ndim == 1 else 1)


@raw(FUNC, "row_stack")
def _(it, a, k):
    return FUNC["vstack"](it, a, k)


@raw(FUNC, "vstack")
def _(it, a, k):
    ts = [at(const(0)) for _, at in seq_parts(it, a[0])]
    ts = [TT.unsqueeze(t, 0) if t.ndim == 1 else t for t in ts]
    return TT.cat(ts, 0)


@raw(FUNC, "where")
def _(it, a, k):
    a = list(a) + [k[x] for x in ("input", "other", "self", "x", "y") if x in k]
    if len(a) == 1:
        raise Unsupported("where(cond)")
    if any(isinstance(x, Top) for x in a):
        raise Unsupported("where on unknown")
    c = a[0]
    if isinstance(c, Tensor) and c.dtype != "bool":
        raise PyErr("RuntimeError", "where expected condition to be a boolean tensor")
    return TT.where(*a)


METH["where"] = lambda it, a, k: TT.where(a[1], a[0], a[2])


@raw(FUNC, "meshgrid")
def _(it, a, k):
    if len(a) == 1 and isinstance(a[0], (tuple, LList)):
        a = it.concrete(a[0])
    ind = k.get("indexing", "ij")
    ts = [need_tensor(x, "meshgrid") for x in a]
    ts = [t if t.ndim == 1 else TT.reshape(t, [const(1)]) for t in ts]
    order = list(range(len(ts)))
    if ind == "xy" and len(ts) >= 2:
        order[0], order[1] = 1, 0
    shape = [ts[o].shape[0] for o in order]
    out = []
    for n, t in enumerate(ts):
        sn = t.snap()
        pos = order.index(n)
        out.append(new(shape, lambda *i, sn=sn, pos=pos: sn(i[pos]), t.dtype))
    return tuple(out)


@raw(FUNC, "cartesian_prod")
def _(it, a, k):
    ts = [need_tensor(x, "cartesian_prod") for x in a]
    if len(ts) == 1:
        return ts[0]
    shape = [t.shape[0] for t in ts]
    total = TT.prod_nodes(shape)
    snaps = [t.snap() for t in ts]

    def g(i, j):
        mi = TT.unflatten(i, shape)
        r = None
        for n in reversed(range(len(ts))):
            v = num(snaps[n](mi[n]))
            r = v if r is None else T.ite(T.eq(j, const(n)), v, r)
        return r
    return new([total, const(len(ts))], g, TT.result_dtype(ts))


@raw(FUNC, "broadcast_tensors")
def _(it, a, k):
    s = TT.broadcast_shapes(*[t.shape for t in a])
    return tuple(TT.expand(t, list(s)) for t in a)


@raw(FUNC, "broadcast_shapes")
def _(it, a, k):
    s = TT.broadcast_shapes(*[[dim_node(x) for x in it.concrete(t)] if not isinstance(t, int) else [const(t)] for t in a])
    return tuple(simp(x, False) for x in s)


@raw(FUNC, "block_diag kron combinations")
def _(it, a, k):
    raise Unsupported("torch function")


@raw(FUNC, "numel")
def _(it, a, k):
    return METH["numel"](it, a, k)


@raw(FUNC, "is_tensor")
def _(it, a, k):
    return isinstance(a[0], Tensor)


@raw(FUNC, "is_grad_enabled")
def _(it, a, k):
    return State.nograd == 0 and it.env.get("grad", True)


@raw(FUNC, "is_inference_mode_enabled")
def _(it, a, k):
    return State.nograd != 0 or not it.env.get("grad", True)


@raw(FUNC, "_training_")
def _(it, a, k):
    return it.env.get("training", True)


@raw(FUNC, "no_grad inference_mode")
def _(it, a, k):
    if a and isinstance(a[0], (I.Func, Bound)):
        return I.NoGradWrap(a[0])
    return GradMode(not (a and a[0] is False))


@raw(FUNC, "enable_grad")
def _(it, a, k):
    return GradMode(False)


@raw(FUNC, "set_grad_enabled")
def _(it, a, k):
    return GradMode(not it.truth(a[0]))


@raw(FUNC, "manual_seed seed set_default_dtype set_printoptions use_deterministic_algorithms set_default_device set_num_threads "
           "set_float32_matmul_precision cuda.manual_seed cuda.manual_seed_all cuda.empty_cache cuda.synchronize "
           "random.manual_seed")
def _(it, a, k):
    return None


@raw(FUNC, "cuda.is_available cuda.device_count backends.mps.is_available")
def _(it, a, k):
    return False


@raw(FUNC, "device Size")
def _(it, a, k):
    if a and isinstance(a[0], (tuple, LList)):
        return tuple(it.concrete(a[0]))
    if it.devices and a:
        return device.obj(device.name_of(a[0]))
    return ExtMod("torch.device#")


@raw(FUNC, "get_default_dtype")
def _(it, a, k):
    return ExtMod("torch.float32")


@raw(FUNC, "utils.checkpoint.checkpoint")
def _(it, a, k):
    return it.call(a[0], list(a[1:]))


@raw(FUNC, "jit.script compile jit.ignore jit.export jit.unused")
def _(it, a, k):
    return a[0] if a else Builtin("identity", lambda it, a, k: a[0])


@raw(FUNC, "autograd.Variable autograd.variable.Variable")
def _(it, a, k):
    return a[0]


# ------------------------------------------------------------------ functional
def kwf(names, spec):
    sp = mkspec(spec)

    def deco(f):
        for n in names.split():
            def g(it, a, k, n=n):
                k = {x: y for x, y in k.items() if x != "inplace"}
                return f(it, *parse(a, k, sp, n))
            FUNC["nn.functional." + n] = g
        return f
    return deco


@kwf("pad", "input pad mode='constant' value=None")
def _(it, t, p, mode, v):
    p = [node_of(x) for x in it.concrete(p)]
    n = t.ndim
    lo = {}
    hi = {}
    for k in range(len(p) // 2):
        lo[n - 1 - k] = p[2 * k]
        hi[n - 1 - k] = p[2 * k + 1]
    shp = t.shape
    shape = [add(s, lo.get(k, const(0)), hi.get(k, const(0))) for k, s in enumerate(shp)]
    sn = t.snap()
    fill = node_of(v) if v is not None else const(0)

    def g(*i):
        idx = list(i)
        conds = []
        for k in lo:
            j = sub(i[k], lo[k])
            if mode == "constant":
                conds.append(T.le(const(0), j))
                conds.append(T.lt(j, shp[k]))
            elif mode == "replicate":
                j = T.app("min", sub(shp[k], const(1)), T.app("max", const(0), j))
            elif mode == "circular":
                j = T.app("mod", j, shp[k])
            elif mode == "reflect":
                j = T.app("abs", j)
                m = sub(shp[k], const(1))
                j = sub(m, T.app("abs", sub(m, j)))
            else:
                raise Unsupported("pad mode")
            idx[k] = j
        if not conds:
            return sn(*idx)
        return T.ite(T.and_(*conds), num(sn(*idx)), fill)
    return new(shape, g, t.dtype)


@kwf("one_hot", "input num_classes=-1")
def _(it, t, n):
    sn = t.snap()
    nn_ = dim_node(n)
    if nn_.op == "q" and T.cval(nn_) < 0:
        raise Unsupported("one_hot without num_classes")
    return new(list(t.shape) + [nn_], lambda *i: T.ite(T.eq(sn(*i[:-1]), i[-1]), const(1), const(0)), "long")


@kwf("dropout dropout1d dropout2d alpha_dropout", "input p=0.5 training=True")
def _(it, t, p, training):
    if not it.truth(training):
        return t
    pn = node_of(PF(p) if isinstance(p, float) else p)
    if pn.op == "q" and T.cval(pn) == 0:
        return t
    u = rand_tensor(it, t.shape, "bern", dtype="bool")
    return ew(lambda x, m: T.ite(m, div(x, sub(const(1), pn)), const(0)), t, u, dtype="float")


@kwf("mse_loss", "input target size_average=None reduce=None reduction='mean'")
def _(it, a, b, _s, _r, red):
    d = tensor_bin(it, "-", a, b)
    return reduce_loss(it, tensor_bin(it, "*", d, d), red)


@kwf("l1_loss", "input target size_average=None reduce=None reduction='mean'")
def _(it, a, b, _s, _r, red):
    return reduce_loss(it, METH["abs"](it, [tensor_bin(it, "-", a, b)], {}), red)


def reduce_loss(it, t, red):
    if red == "none":
        return t
    return TT.reduce(red, t)


@kwf("nll_loss", "input target weight=None size_average=None ignore_index=-100 reduce=None reduction='mean'")
def _nll(it, x, y, w, _s, ig, _r, red):
    if w is not None:
        raise Unsupported("weighted nll")
    sx, sy = x.snap(), y.snap()
    shape = [x.shape[0]] + list(x.shape[2:])
    for p, q in zip(shape, y.shape):
        if not TT.same_dim(p, q):
            raise PyErr("ValueError", "Expected input batch_size (%s) to match target batch_size (%s)." % (p, q))
    t = new(shape, lambda *i: neg(sx(i[0], sy(*i), *i[1:])), "float")
    if ig != -100:
        if red != "mean":
            raise Unsupported("ignore_index")
        keep = tensor_bin(it, "!=", y, ig)
        m = new(shape, (lambda g: lambda *i: num(g(*i)))(keep.snap()), "float")
        return tensor_bin(it, "/", TT.reduce("sum", tensor_bin(it, "*", t, m), None), TT.reduce("sum", m, None))
    return reduce_loss(it, t, red)


@kwf("cross_entropy", "input target weight=None size_average=None ignore_index=-100 reduce=None reduction='mean' label_smoothing=0.0")
def _(it, x, y, w, _s, ig, _r, red, ls):
    lp = METH["log_softmax"](it, [x, 1 if x.ndim > 1 else 0], {})
    if w is not None:
        raise Unsupported("class weights")
    if not (isinstance(ls, (int, float)) and ls == 0 or isinstance(ls, I.PF) and ls.q == 0):
        if isinstance(y, Tensor) and y.dtype == "float" or red != "mean" or x.ndim != 2:
            raise Unsupported("label smoothing")
        a = _nll(it, lp, y, w, _s, ig, _r, red)
        b = reduce_loss(it, ew(lambda p: neg(p), lp, dtype="float"), "mean")
        l = node_of(ls)
        return ew(lambda p, q: add(mul(sub(const(1), l), p), mul(l, q)), a, b, dtype="float")
    if isinstance(y, Tensor) and y.dtype == "float":
        t = TT.reduce("sum", ew(lambda p, q: neg(mul(p, q)), lp, y), 1)
        return reduce_loss(it, t, red)
    return _nll(it, lp, y, w, _s, ig, _r, red)


@kwf("binary_cross_entropy", "input target weight=None size_average=None reduce=None reduction='mean'")
def _(it, x, y, w, _s, _r, red):
    one = const(1)
    t = ew(lambda p, q: neg(add(mul(q, T.app("log", p)), mul(sub(one, q), T.app("log", sub(one, p))))), x, y, dtype="float")
    return reduce_loss(it, t, red)


@kwf("layer_norm", "input normalized_shape weight=None bias=None eps=1e-05")
def _(it, t, ns, w, b, eps):
    n = it.length(ns) if isinstance(ns, (tuple, LList)) else 1
    if isinstance(ns, (tuple, LList)):
        want = [dim_node(x) for x in it.concrete(ns)]
    else:
        want = [dim_node(ns)]
    for x, y in zip(want, t.shape[t.ndim - n:]):
        if not TT.same_dim(x, y):
            raise PyErr("RuntimeError", "Given normalized_shape=%s, expected input with shape ending so, but got %s" % (want, list(t.shape)))
    ds = list(range(t.ndim - n, t.ndim))
    r = normalise(it, t, ds, eps)
    if w is not None:
        r = tensor_bin(it, "*", r, w)
    if b is not None:
        r = tensor_bin(it, "+", r, b)
    return r


def normalise(it, t, ds, eps):
    m = TT.reduce("mean", t, ds, True)
    c = tensor_bin(it, "-", t, m)
    v = TT.reduce("mean", tensor_bin(it, "*", c, c), ds, True)
    en = node_of(PF(eps) if isinstance(eps, float) else eps)
    return ew(lambda x, y: div(x, T.app("sqrt", add(y, en))), c, v, dtype="float")


@kwf("batch_norm", "input running_mean running_var weight=None bias=None training=False momentum=0.1 eps=1e-05")
def _(it, t, rm, rv, w, b, training, mom, eps):
    nd = t.ndim

    def ch(p):
        return p if nd == 2 else TT.reshape(p, [p.shape[0]] + [const(1)] * (nd - 2))
    en = node_of(PF(eps) if isinstance(eps, float) else eps)
    if it.truth(training):
        ds = [0] + list(range(2, nd))
        r = normalise(it, t, ds, eps)
        if rm is not None:
            mn = node_of(PF(mom) if isinstance(mom, float) else mom)
            m = TT.reduce("mean", t, ds)
            v = _var(it, t, LList(ds), 1, False, True)
            om, ov = rm.snap(), rv.snap()
            ms, vs = m.snap(), v.snap()
            rm.write(lambda *i: add(mul(sub(const(1), mn), om(*i)), mul(mn, T.app("detach", ms(*i)))))
            rv.write(lambda *i: add(mul(sub(const(1), mn), ov(*i)), mul(mn, T.app("detach", vs(*i)))))
    else:
        r = ew(lambda x, m, v: div(sub(x, m), T.app("sqrt", add(v, en))), t, ch(rm), ch(rv), dtype="float")
    if w is not None:
        r = tensor_bin(it, "*", r, ch(w))
    if b is not None:
        r = tensor_bin(it, "+", r, ch(b))
    return r


@kwf("normalize", "input p=2.0 dim=1 eps=1e-12")
def _(it, t, p, d, eps):
    nrm = METH["norm"](it, [t, None if not isinstance(p, (PF, int)) or node_of(p) is const(2) else p, d, True], {})
    en = node_of(PF(eps) if isinstance(eps, float) else eps)
    return ew(lambda x, n: div(x, T.app("max", n, en)), t, nrm, dtype="float")


def tuplen(it, v, n):
    if isinstance(v, (tuple, LList)):
        v = [node_of(x) for x in it.concrete(v)]
        if len(v) == 1:
            return v * n
        if len(v) != n:
            raise PyErr("RuntimeError", "expected %d values" % n)
        return v
    if not I.is_inty(v):
        if isinstance(v, (Top, I.Poison)):
            raise Unsupported("unknown conv geometry")
        raise PyErr("TypeError", "conv: argument must be tuple of ints, not %s" % I.typename(v))
    return [node_of(v)] * n


def pad_arg(it, padding, n, ks, dil):
    if padding == "valid":
        return [(const(0), const(0))] * n
    if padding == "same":
        out = []
        for k, d in zip(ks, dil):
            tot = mul(d, sub(k, const(1)))
            l = T.app("fdiv", tot, const(2))
            out.append((l, sub(tot, l)))
        return out
    return [(p, p) for p in tuplen(it, padding, n)]


def inside(sx, lead, idx, dims):
    """element at indexes known to be in range: evaluated at fresh index variables of that range, which keeps what the range implies"""
    vs, sub_ = [], {}
    for i, d in zip(idx, dims):
        if i.op in ("var", "q"):
            vs.append(i)
        else:
            v = T.var(d)
            if v.op != "var":
                vs.append(i)
                continue
            vs.append(v)
            sub_[v] = i
    r = num(sx(*lead, *vs))
    return T.subst(r, sub_) if sub_ else r


def conv_nd(n):
    def g(it, x, w, b, stride, padding, dilation, groups):
        need_tensor(x, "conv")
        unb = False
        if x.ndim == n + 1:
            x = TT.unsqueeze(x, 0)
            unb = True
        if x.ndim != n + 2:
            raise PyErr("RuntimeError", "Expected %dD (unbatched) or %dD (batched) input to conv%dd, but got input of size: %s" % (n + 1, n + 2, n, list(x.shape)))
        ks = w.shape[2:]
        st, dil = tuplen(it, stride, n), tuplen(it, dilation, n)
        pads = pad_arg(it, padding, n, ks, dil)
        gn = node_of(groups)
        cg = w.shape[1]
        if not TT.same_dim(mul(cg, gn), x.shape[1]):
            raise PyErr("RuntimeError", "Given groups=%s, weight of size %s, expected input to have %s channels, but got %s" % (gn, list(w.shape), mul(cg, gn), x.shape[1]))
        co = w.shape[0]
        out = []
        for k in range(n):
            d = sub(sub(add(x.shape[2 + k], add(*pads[k])), mul(dil[k], sub(ks[k], const(1)))), const(1))
            if st[k].op == "q" and T.cval(st[k]) == 1:
                out.append(add(d, const(1)))
            else:
                out.append(add(T.app("fdiv", d, st[k]), const(1)))
        for o in out:
            if o.op == "q" and T.cval(o) <= 0:
                raise PyErr("RuntimeError", "Calculated padded input size per channel smaller than kernel size")
        sx, sw = x.snap(), w.snap()
        sb = b.snap() if b is not None else None
        xs = x.shape
        one_group = gn.op == "q" and T.cval(gn) == 1

        def f(bi, o, *pos):
            c = T.var(cg)
            kv = [T.var(k) for k in ks]
            conds = []
            idx = []
            for k in range(n):
                p = sub(add(mul(pos[k], st[k]), mul(kv[k], dil[k])), pads[k][0])
                if not (pads[k][0].op == "q" and T.cval(pads[k][0]) == 0):
                    conds.append(T.le(const(0), p))
                if not (pads[k][1].op == "q" and T.cval(pads[k][1]) == 0):
                    conds.append(T.lt(p, xs[2 + k]))
                idx.append(p)
            ch = c if one_group else add(mul(T.app("fdiv", o, T.app("fdiv", co, gn)), cg), c)
            body = mul(num(sw(o, c, *kv)), inside(sx, (bi, ch), idx, xs[2:]))
            if conds:
                body = T.ite(T.and_(*conds), body, const(0))
            r = T.red("sum", [c] + kv, body)
            if sb is not None:
                r = add(r, sb(o))
            return r
        r = new([x.shape[0], co] + out, f, "float")
        return TT.squeeze(r, 0) if unb else r
    return g


for _n in (1, 2, 3):
    kwf("conv%dd" % _n, "input weight bias=None stride=1 padding=0 dilation=1 groups=1")(conv_nd(_n))


def convt_nd(n):
    def g(it, x, w, b, stride, padding, opad, groups, dilation):
        need_tensor(x, "conv_transpose")
        unb = False
        if x.ndim == n + 1:
            x = TT.unsqueeze(x, 0)
            unb = True
        if x.ndim != n + 2:
            raise PyErr("RuntimeError", "Expected %dD (unbatched) or %dD (batched) input to conv_transpose%dd, but got input of size: %s" % (n + 1, n + 2, n, list(x.shape)))
        ks = w.shape[2:]
        st, dil, pads, op = (tuplen(it, v, n) for v in (stride, dilation, padding, opad))
        gn = node_of(groups)
        if not (gn.op == "q" and T.cval(gn) == 1):
            raise Unsupported("grouped transposed convolution")
        if not TT.same_dim(w.shape[0], x.shape[1]):
            raise PyErr("RuntimeError", "Given transposed=1, weight of size %s, expected input to have %s channels, but got %s" % (list(w.shape), w.shape[0], x.shape[1]))
        for k in range(n):
            if op[k].op == "q" and st[k].op == "q" and T.cval(op[k]) >= max(T.cval(st[k]), T.cval(dil[k]) if dil[k].op == "q" else 1):
                raise PyErr("RuntimeError", "output padding must be smaller than either stride or dilation")
        out = [add(sub(mul(sub(x.shape[2 + k], const(1)), st[k]), mul(const(2), pads[k])), mul(dil[k], sub(ks[k], const(1))), op[k], const(1))
               for k in range(n)]
        sx, sw = x.snap(), w.snap()
        sb = b.snap() if b is not None else None
        xs = x.shape

        def f(bi, o, *pos):
            c = T.var(xs[1])
            kv = [T.var(k) for k in ks]
            conds, idx = [], []
            for k in range(n):
                p = sub(add(pos[k], pads[k]), mul(kv[k], dil[k]))
                if st[k].op == "q" and T.cval(st[k]) == 1:
                    q = p
                else:
                    conds.append(T.eq(T.app("mod", p, st[k]), const(0)))
                    q = T.app("fdiv", p, st[k])
                conds.append(T.le(const(0), p))
                conds.append(T.lt(q, xs[2 + k]))
                idx.append(q)
            body = mul(num(sw(c, o, *kv)), inside(sx, (bi, c), idx, xs[2:]))
            r = T.red("sum", [c] + kv, T.ite(T.and_(*conds), body, const(0)))
            if sb is not None:
                r = add(r, sb(o))
            return r
        r = new([x.shape[0], w.shape[1]] + out, f, "float")
        return TT.squeeze(r, 0) if unb else r
    return g


for _n in (1, 2, 3):
    kwf("conv_transpose%dd" % _n, "input weight bias=None stride=1 padding=0 output_padding=0 groups=1 dilation=1")(convt_nd(_n))


def adaptive_pool(n):
    def g(it, x, osz):
        if isinstance(osz, (tuple, LList)):
            osz = it.concrete(osz)
        else:
            osz = [osz] * n
        lead = x.shape[:x.ndim - n]
        ins = x.shape[x.ndim - n:]
        outs = [ins[k] if o is None else dim_node(o) for k, o in enumerate(osz)]
        sx = x.snap()

        def f(*i):
            pos = i[len(lead):]
            vs = [T.var(s) for s in ins]
            conds = []
            cnt = const(1)
            for k in range(n):
                if outs[k].op == "q" and T.cval(outs[k]) == 1:
                    cnt = mul(cnt, ins[k])
                    continue
                s = T.app("fdiv", mul(pos[k], ins[k]), outs[k])
                e = T.app("fdiv", add(mul(add(pos[k], const(1)), ins[k]), sub(outs[k], const(1))), outs[k])
                conds += [T.le(s, vs[k]), T.lt(vs[k], e)]
                cnt = mul(cnt, sub(e, s))
            body = num(sx(*i[:len(lead)], *vs))
            if conds:
                body = T.ite(T.and_(*conds), body, const(0))
            return div(T.red("sum", vs, body), cnt)
        return new(list(lead) + outs, f, "float")
    return g


def pool(n, kind):
    def g(it, x, k, stride=None, padding=0, *rest):
        if padding != 0:
            raise Unsupported("padded pooling")
        ks = tuplen(it, k, n)
        st = tuplen(it, stride if stride is not None else k, n)
        lead = x.shape[:x.ndim - n]
        ins = x.shape[x.ndim - n:]
        outs = [add(T.app("fdiv", sub(ins[j], ks[j]), st[j]), const(1)) for j in range(n)]
        sx = x.snap()

        def f(*i):
            pos = i[len(lead):]
            vs = [T.var(s) for s in ks]
            body = num(sx(*i[:len(lead)], *[add(mul(p, s), v) for p, s, v in zip(pos, st, vs)]))
            if kind == "max":
                return T.red("max", vs, body)
            return div(T.red("sum", vs, body), TT.prod_nodes(ks))
        return new(list(lead) + outs, f, "float")
    return g


for _n in (1, 2, 3):
    kwf("adaptive_avg_pool%dd" % _n, "input output_size")(adaptive_pool(_n))
    kwf("max_pool%dd" % _n, "input kernel_size stride=None padding=0 dilation=1 ceil_mode=False")(pool(_n, "max"))
    kwf("avg_pool%dd" % _n, "input kernel_size stride=None padding=0 ceil_mode=False")(pool(_n, "avg"))


@kwf("interpolate upsample", "input size=None scale_factor=None mode='nearest' align_corners=None")
def _(it, x, size, sf, mode, ac):
    if mode != "nearest" or sf is None:
        raise Unsupported("interpolate mode")
    n = x.ndim - 2
    s = [node_of(v) for v in it.concrete(sf)] if isinstance(sf, (tuple, LList)) else [node_of(sf)] * n
    if not all(v.isint for v in s):
        raise Unsupported("fractional scale")
    sx = x.snap()
    return new(list(x.shape[:2]) + [mul(d, v) for d, v in zip(x.shape[2:], s)],
               lambda *i: sx(*i[:2], *[T.app("fdiv", p, v) for p, v in zip(i[2:], s)]), "float")


@kwf("embedding", "input weight")
def _(it, x, w):
    return TT.index(w, (x,))


@kwf("scaled_dot_product_attention", "query key value attn_mask=None dropout_p=0.0 is_causal=False scale=None")
def _(it, q, k, v, m, dp, causal, scale):
    if it.truth(causal):
        raise Unsupported("causal sdpa")
    s = T.inv(T.app("sqrt", q.shape[-1])) if scale is None else node_of(scale)
    a = TT.matmul(q, TT.transpose(k, -1, -2))
    a = ew(lambda x: mul(x, s), a)
    if m is not None:
        if m.dtype == "bool":
            a = TT.where(m, a, PF(float("-inf")))
        else:
            a = tensor_bin(it, "+", a, m)
    return TT.matmul(_softmax(it, a, -1, 3), v)


# ------------------------------------------------------------------ init
def initf(names, spec):
    sp = mkspec(spec)

    def deco(f):
        for n in names.split():
            def g(it, a, k, n=n):
                p = parse(a, k, sp, n)
                need_tensor(p[0], n)
                f(it, *p)
                return p[0]
            FUNC["nn.init." + n] = g
    return deco


@initf("uniform_", "tensor a=0 b=1")
def _(it, t, a, b):
    na, nb = node_of(a), node_of(b)
    u = rand_tensor(it, t.shape, "rand01", Q(0), Q(1)).snap()
    t.write(lambda *i: add(na, mul(sub(nb, na), u(*i))))


@initf("normal_ trunc_normal_", "tensor mean=0 std=1 a=-2 b=2")
def _(it, t, m, s, a, b):
    nm, ns = node_of(m), node_of(s)
    u = rand_tensor(it, t.shape, "randn").snap()
    t.write(lambda *i: add(nm, mul(ns, u(*i))))


@initf("xavier_uniform_ kaiming_uniform_ xavier_normal_ kaiming_normal_ orthogonal_", "tensor gain=1 mode=None nonlinearity=None a=0")
def _(it, t, g, m, nl, a):
    if t.ndim < 2:
        raise PyErr("ValueError", "Fan in and fan out can not be computed for tensor with fewer than 2 dimensions")
    u = rand_tensor(it, t.shape, "init", Q(-1000), Q(1000)).snap()
    t.write(u)


@initf("zeros_", "tensor")
def _(it, t):
    t.write(lambda *i: const(0))


@initf("ones_", "tensor")
def _(it, t):
    t.write(lambda *i: const(1))


@initf("constant_", "tensor val")
def _(it, t, v):
    n = node_of(v)
    t.write(lambda *i: n)


@raw(FUNC, "nn.init._calculate_fan_in_and_fan_out")
def _(it, a, k):
    t = a[0]
    rf = TT.prod_nodes(t.shape[2:])
    return (simp(mul(t.shape[1], rf), False), simp(mul(t.shape[0], rf), False))


@raw(FUNC, "nn.utils.clip_grad_norm_ nn.utils.clip_grad_value_")
def _(it, a, k):
    return Top("grad norm")


# ------------------------------------------------------------------ modules
def is_module_obj(v):
    return isinstance(v, Obj) and any(getattr(c, "is_module", False) for c in v.cls.mro)


def module_setattr(it, o, name, v):
    P, B, M = (o.cell_get(x) for x in ("_parameters", "_buffers", "_modules"))
    if isinstance(v, Tensor) and v.is_param:
        if P is MISSING:
            raise PyErr("AttributeError", "cannot assign parameters before Module.__init__() call")
        for d in (B, M):
            if d.get(name) is not MISSING:
                d.remove(name)
        o.cell_del(name)
        P.put(name, v)
        return
    if P is not MISSING and P.get(name) is not MISSING:
        if v is not None:
            raise PyErr("TypeError", "cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (I.typename(v), name))
        P.put(name, None)
        return
    if is_module_obj(v):
        if M is MISSING:
            raise PyErr("AttributeError", "cannot assign module before Module.__init__() call")
        for d in (B, P):
            if d.get(name) is not MISSING:
                d.remove(name)
        o.cell_del(name)
        M.put(name, v)
        return
    if M is not MISSING and M.get(name) is not MISSING:
        if v is not None:
            raise PyErr("TypeError", "cannot assign '%s' as child module '%s' (torch.nn.Module or None expected)" % (I.typename(v), name))
        M.put(name, None)
        return
    if B is not MISSING and B.get(name) is not MISSING:
        B.put(name, v)
        return
    o.cell_set(name, v)


def make_param(it, a, k):
    data, rg = parse(a, {x: y for x, y in k.items() if x != "requires_grad"}, [("data", None), ("rg", True)], "Parameter")
    if "requires_grad" in k:
        rg = k["requires_grad"]
    if data is None:
        data = new([const(0)], lambda i: const(0), "float")
    t = need_tensor(data, "Parameter")
    rg = it.truth(rg)
    if t.dtype != "float" and rg:
        raise PyErr("RuntimeError", "Only Tensors of floating point and complex dtype can require gradients")
    p = Tensor(t.st, t.shape, t.fwd, t.inv, t.dtype, False, t.mask, t.contig)
    p.is_param = True
    p.requires_grad = rg
    return p


_LIBTREE = None


def lib(it):
    m = it.modules.get("__torchlib__")
    if m is not None:
        return m
    global _LIBTREE
    path = os.path.join(os.path.dirname(__file__), "lib", "torchlib.py")
    if _LIBTREE is None:
        with open(path) as f:
            _LIBTREE = ast.parse(f.read(), path)
    m = I.PyModule("__torchlib__", path)
    m.glob = m
    m.islib = True
    m.ispkg = False
    it.modules["__torchlib__"] = m
    m.cells["__name__"] = "__torchlib__"
    m.cells["_make_param"] = Builtin("Parameter", make_param)
    m.cells["_is_tensor"] = Builtin("is_tensor", lambda it, a, k: isinstance(a[0], Tensor))
    m.cells["_is_module"] = Builtin("is_module", lambda it, a, k: is_module_obj(a[0]))
    m.cells["_is_param"] = Builtin("is_param", lambda it, a, k: isinstance(a[0], Tensor) and a[0].is_param)
    m.cells["_uninit"] = Builtin("uninit", uninit)
    m.cells["_move"] = Builtin("move", _module_to)
    m.cells["_unsupported"] = Builtin("unsupported", _unsup)
    m.cells["_hook_name"] = Builtin("x", lambda it, a, k: None)
    it.run_module(m, _LIBTREE)
    m.cells["Module"].is_module = True
    m.cells["Tensor"].is_tensor = True
    return m


def tensor_ctor(it, a, k):
    if len(a) == 1 and isinstance(a[0], Tensor):
        return a[0]
    if len(a) == 1 and isinstance(a[0], (I.LList, tuple, list)) and not isinstance(a[0], tuple):
        return FUNC["tensor"](it, a, {})
    return FUNC["empty"](it, a, {})


def _unsup(it, a, k):
    raise Unsupported(a[0] if a else "library feature")


def _module_to(it, a, k):
    return device.module_to(it, a, k)


def uninit(it, a, k):
    r = rand_tensor(it, sizes(it, a), "init")
    r.st.dev = device.name_of(k.get("device")) or device.CPU
    r.st.prec = device.prec_of(k.get("dtype")) or "f32"
    return r


LIBPATHS = ("torch.nn", "torch.nn.modules", "torch.nn.parameter", "torch.optim", "torch.optim.optimizer",
            "torch.optim.lr_scheduler", "pytorch_lightning", "lightning", "lightning.pytorch", "torchmetrics", "abc", "collections",
            "torch.utils.data", "lion_pytorch", "pytorch_lightning.core", "torch")


def canon(path):
    if path.startswith("torch.nn.modules."):
        parts = path.split(".")
        path = "torch.nn." + parts[-1]
    if path == "torch.functional" or path.startswith("torch.functional."):
        path = "torch" + path[len("torch.functional"):]
    if path.startswith("torch._C._nn."):
        path = "torch.nn.functional." + path[len("torch._C._nn."):]
    return path


PYMODS = {"math", "cmath", "random", "numpy", "np", "logging", "typing", "functools", "itertools", "copy", "operator", "collections",
          "warnings", "os", "sys", "time", "dataclasses", "abc", "enum", "string", "re", "json", "inspect", "types", "contextlib",
          "omegaconf", "statistics", "numbers", "typing_extensions", "pathlib"}


def ext_attr(it, base, name):
    path = canon(base + "." + name)
    mod, last = path.rsplit(".", 1)
    if last == "__name__":
        return base.rsplit(".", 1)[-1]
    if mod in LIBPATHS:
        L = lib(it)
        v = L.cells.get(last)
        if v is not None and not isinstance(v, ExtMod) and not last.startswith("_") and (isinstance(v, (Class, I.Func))):
            if not (mod == "torch" and last not in ("Tensor", "Generator")):
                return v
    if path in ("torch.nn.Parameter", "torch.nn.parameter.Parameter", "torch.nn.UninitializedParameter"):
        return ExtMod("torch.nn.Parameter")
    if path.startswith("torch."):
        rest = path[6:]
        if rest == "pi":
            return T.pi()
        if rest in ("inf",):
            return PF(float("inf"))
        if rest in ("nan",):
            raise Unsupported("nan")
        if rest == "e":
            return T.app("exp", const(1))
        if rest in FLOATS or rest in LONGS or rest == "bool":
            return ExtMod(path)
        f = torch_func(rest)
        if f is not None:
            return Builtin(path, f)
        return ExtMod(path)
    from . import extmods
    r = extmods.attr(it, path)
    if r is not MISSING:
        return r
    return ExtMod(path)


def torch_func(rest):
    f = FUNC.get(rest)
    if f is not None:
        return f
    if rest.startswith("nn.functional."):
        n = rest[14:]
        if n.endswith("_"):
            n = n[:-1]
        return METH.get(n)
    if rest.startswith("linalg.") or rest.startswith("special.") or rest.startswith("Tensor."):
        n = rest.split(".", 1)[1]
        if n == "expit":
            n = "sigmoid"
        return METH.get(n)
    if "." not in rest:
        f = METH.get(rest)
        if f is not None:
            return lambda it, a, k: f(it, [k["input"]] + a, {x: y for x, y in k.items() if x != "input"}) if "input" in k and not a else f(it, a, k)
        if rest.endswith("_") and METH.get(rest[:-1]):
            return lambda it, a, k: it.call(it.getattr(a[0], rest), a[1:], k)
    return None


LOGGING = ("logging.", "warnings.", "matplotlib", "tqdm")


def ext_call(it, path, args, kw):
    if path == "torch.nn.Parameter":
        return make_param(it, args, kw)
    if path.startswith("torch."):
        n = path[6:]
        if n in FLOATS or n in LONGS:
            raise PyErr("TypeError", "'torch.dtype' object is not callable")
        raise Unsupported("library function %s is not modelled" % path)
    if path.startswith("pytorch_lightning") or path.startswith("torchmetrics") or path.startswith("lion_pytorch"):
        return Top(path)
    from . import extmods
    return extmods.call(it, path, args, kw)


def ext_class(it, path):
    """library class used as a base"""
    path = canon(path)
    last = path.rsplit(".", 1)[-1]
    L = lib(it)
    v = L.cells.get(last)
    if isinstance(v, Class):
        return v
    if path in ("abc.ABC", "typing.Protocol", "typing.Generic", "enum.Enum", "typing.NamedTuple"):
        return it.builtins["object"]
    if path.startswith("torch.nn"):
        raise Unsupported("library class %s is not modelled" % path)
    c = Class(last, [it.builtins["object"]])
    return c


def ext_decorator(it, path, f):
    if path in ("torch.no_grad", "torch.inference_mode"):
        return I.NoGradWrap(f)
    if path in ("functools.cached_property",):
        return I.Cached(f)
    if path in ("functools.wraps",):
        return f
    if path.startswith("torch.jit") or path.startswith("torch.compile") or path.startswith("functools.lru_cache") or \
            path.startswith("functools.cache") or path.startswith("abc.") or path.startswith("typing.") or path.startswith("torch.cuda"):
        if path.startswith("functools."):
            return I.Builtin("cached", memoised(f))
        return f
    return f


def memoised(f):
    store = {}

    def g(it, a, k):
        args = (tuple(a), tuple(x for n, x in sorted(k.items())), tuple(n for n, x in sorted(k.items())))
        key = I.which_key(store, args)
        if key not in store:
            store[key] = (args, it.call(f, a, k))
        return store[key][1]
    return g


def ext_isinstance(it, v, path):
    if isinstance(v, (Top,)):
        return None
    path = canon(path)
    if path == "torch.nn.Parameter":
        return isinstance(v, Tensor) and v.is_param
    if path in ("torch.Tensor",):
        return isinstance(v, Tensor)
    if path in ("torch.Size",):
        return isinstance(v, tuple)
    if path.startswith("collections.abc.") or path.startswith("typing."):
        n = path.rsplit(".", 1)[1]
        if n in ("Sequence", "Iterable", "Collection", "List"):
            return isinstance(v, (tuple, LList, str))
        if n in ("Callable",):
            return isinstance(v, (I.Func, Bound, Builtin, Class, I.Partial)) or (isinstance(v, Obj) and v.cls.lookup("__call__")[0] is not MISSING)
        if n in ("Mapping", "Dict"):
            return isinstance(v, LDict)
    if path.startswith("numbers."):
        n = path.rsplit(".", 1)[1]
        if n in ("Number", "Real"):
            return isnum(v)
        if n in ("Integral",):
            return I.is_inty(v)
    if path.startswith("omegaconf.ListConfig"):
        return False
    if path.startswith("numpy.") or path.startswith("torch."):
        if isinstance(v, (Obj, LList, tuple, str, int, PF, bool, Node, LDict)) or v is None:
            return False
    return None


def make_dataclass(it, c, node):
    fields = []
    for s in node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            d = c.cells.get(s.target.id, MISSING)
            fields.append((s.target.id, d))

    def init(it, a, k):
        self, rest = a[0], a[1:]
        for i, (n, d) in enumerate(fields):
            if i < len(rest):
                v = rest[i]
            elif n in k:
                v = k[n]
            elif d is not MISSING:
                v = d
            else:
                raise PyErr("TypeError", "missing argument %s" % n)
            it.setattr(self, n, v)
        pi, _ = c.lookup("__post_init__")
        if pi is not MISSING:
            it.call(pi, [self])
    c.cells["__init__"] = Builtin("__init__", init)


_install_creation()


for _table in (METH, FUNC):
    for _n in list(_table):
        _table[_n] = device.track(_n, _table[_n])
