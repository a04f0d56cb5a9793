"""Normalizations."""
from .spec import *

UT, LY = "high_order_layers_torch/utils.py", "high_order_layers_torch/layers.py"


def red(kind, x, idx, dims, f=lambda v: v):
    vs = {d: T.var(x.shape[d]) for d in dims}
    return T.red(kind, list(vs.values()), f(x.at(*[vs.get(d, idx[d]) for d in range(len(idx))])))


def ab(v):
    return T.app("abs", v)


def max_abs(x, idx, dims, eps):
    return div(x.at(*idx), add(red("max", x, idx, dims, ab), eps))


def center(x, idx, dims, eps):
    hi, lo = red("max", x, idx, dims), red("min", x, idx, dims)
    mid = div(add(hi, lo), 2)
    return div(sub(x.at(*idx), mid), add(sub(hi, mid), eps))


def l2(x, idx, dims, eps):
    return div(x.at(*idx), add(T.app("sqrt", red("sum", x, idx, dims, lambda v: mul(v, v))), eps))


def layer_norm(x, idx, dims, eps):
    n = T.mul(*[x.shape[d] for d in dims])
    mean = div(red("sum", x, idx, dims), n)
    var = div(red("sum", x, idx, dims, lambda v: mul(sub(v, mean), sub(v, mean))), n)
    return div(sub(x.at(*idx), mean), T.app("sqrt", add(var, eps)))


KINDS = dict(max_abs=(max_abs, "divided by the largest magnitude"), center=(center, "centred and divided by half its range"),
             l2=(l2, "divided by its length"), layer_norm=(layer_norm, "standardised"))


def inp(it, nd_):
    return leaf("x", it.size("B"), *[it.size("D%d" % k) for k in range(1, nd_)])


def claim(kind, what, x, y, dims, eps, anchor):
    f, verb = KINDS[kind]
    return Eq("%s: the sample is %s" % (what, verb), y, x.shape, lambda *i: f(x, i, dims, eps), anchor=anchor)


def function(name, kind, nd_, dims, dim=None, default=False, table=None):
    def fn(it):
        x = inp(it, nd_)
        kw = {}
        eps = it.real("eps", 0)
        if not default:
            kw["eps"] = eps
        else:
            eps = T.const(1) if kind == "none" else div(1, 1000000)
        if dim is not None:
            kw["dim"] = dim
        f = get(it, "utils." + name) if table is None else it.getitem(get(it, "utils." + table), name)
        return [claim(kind, name, x, it.call(f, [x], kw), dims, eps, UT)]
    return fn


def module(cls, kind, nd_, dims, dim=None, default=False, registry=None):
    def fn(it):
        x = inp(it, nd_)
        kw = {}
        eps = it.real("eps", 0)
        if not default:
            kw["eps"] = eps
        else:
            eps = div(1, 1000000)
        if dim is not None:
            kw["dim"] = dim
        c = get(it, "layers." + cls) if registry is None else it.getitem(get(it, "layers." + registry), cls)
        m = it.call(c, [], kw)
        out = [claim(kind, cls, x, it.call(m, [x]), dims, eps, LY),
               Fact("%s has no parameters" % cls, not parameters(m), "", LY)]
        return out
    return fn


def lazy(nd_, bias=True, registry=False):
    def fn(it):
        x = inp(it, nd_)
        c = it.getitem(get(it, "layers.normalization_layers"), "layer_norm") if registry else get(it, "layers.LazyLayerNormLastDim")
        m = it.call(c, [], {} if bias else dict(bias=False))
        eps = div(1, 100000)
        y = it.call(m, [x])
        out = [claim("layer_norm", "first call", x, y, (nd_ - 1,), eps, LY)]
        z = leaf("z", *x.shape)
        y2 = it.call(m, [z])
        out.append(claim("layer_norm", "second call", z, y2, (nd_ - 1,), eps, LY))
        return out
    return fn


def obligations():
    out = []

    def add_(name, fn, anchor):
        out.append(Obligation(name, fn, anchor))
    for n in (2, 3, 4):
        for d in range(n):
            add_("max_abs_normalization, %d dimensions, dim %d" % (n, d), function("max_abs_normalization", "max_abs", n, (d,), dim=d), UT)
            add_("max_center_normalization, %d dimensions, dim %d" % (n, d), function("max_center_normalization", "center", n, (d,), dim=d), UT)
        add_("max_abs_normalization, %d dimensions, defaults" % n, function("max_abs_normalization", "max_abs", n, (1,), default=True), UT)
        add_("max_center_normalization, %d dimensions, defaults" % n, function("max_center_normalization", "center", n, (1,), default=True), UT)
        add_("l2_normalization, %d dimensions" % n, function("l2_normalization", "l2", n, (1,)), UT)
        add_("MaxAbsNormalization, %d dimensions" % n, module("MaxAbsNormalization", "max_abs", n, (1,)), LY)
        add_("MaxAbsNormalization, %d dimensions, last" % n, module("MaxAbsNormalization", "max_abs", n, (n - 1,), dim=n - 1), LY)
        add_("MaxCenterNormalization, %d dimensions" % n, module("MaxCenterNormalization", "center", n, (1,)), LY)
        add_("L2Normalization, %d dimensions" % n, module("L2Normalization", "l2", n, (1,)), LY)
        for k in (True, False):
            add_("LazyLayerNormLastDim, %d dimensions%s" % (n, "" if k else ", no bias"), lazy(n, k), LY)
    for n in (1, 2, 3, 4):
        add_("max_abs_normalization_last, %d dimensions" % n, function("max_abs_normalization_last", "max_abs", n, (n - 1,)), UT)
        add_("max_center_normalization_last, %d dimensions" % n, function("max_center_normalization_last", "center", n, (n - 1,)), UT)
        add_("MaxAbsNormalizationLast, %d dimensions" % n, module("MaxAbsNormalizationLast", "max_abs", n, (n - 1,)), LY)
        add_("MaxCenterNormalizationLast, %d dimensions" % n, module("MaxCenterNormalizationLast", "center", n, (n - 1,)), LY)
    for n in (2, 3, 4):
        rest = tuple(range(1, n))
        add_("max_abs_normalization_nd, %d dimensions" % n, function("max_abs_normalization_nd", "max_abs", n, rest), UT)
        add_("max_center_normalization_nd, %d dimensions" % n, function("max_center_normalization_nd", "center", n, rest), UT)
        add_("MaxAbsNormalizationND, %d dimensions" % n, module("MaxAbsNormalizationND", "max_abs", n, rest), LY)
        add_("MaxCenterNormalizationND, %d dimensions" % n, module("MaxCenterNormalizationND", "center", n, rest), LY)
    for nm, k in (("max_abs", "max_abs"), ("l2", "l2")):
        add_("norm_type %s" % nm, function(nm, k, 2, (1,), table="norm_type"), UT)
    for nm, k in (("max_abs", "max_abs"), ("max_center", "center"), ("l2", "l2")):
        add_("normalization_layers %s" % nm, module(nm, k, 2, (1,), registry="normalization_layers", default=True), LY)
    add_("normalization_layers layer_norm", lazy(2, registry=True), LY)
    return out
