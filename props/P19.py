"""Layer type names select the documented layer."""
from .nets import *

CV = {"continuous2d": "FunctionalConvolution.PiecewisePolynomialConvolution2d",
      "continuous1d": "FunctionalConvolution.PiecewisePolynomialConvolution1d",
      "discontinuous2d": "FunctionalConvolution.PiecewiseDiscontinuousPolynomialConvolution2d",
      "discontinuous1d": "FunctionalConvolution.PiecewiseDiscontinuousPolynomialConvolution1d",
      "polynomial2d": "FunctionalConvolution.PolynomialConvolution2d",
      "polynomial1d": "FunctionalConvolution.PolynomialConvolution1d",
      "fourier2d": "FunctionalConvolution.FourierConvolution2d",
      "fourier1d": "FunctionalConvolution.FourierConvolution1d"}
NORMAL = dict(max_abs="MaxAbsNormalization", max_center="MaxCenterNormalization", l2="L2Normalization", layer_norm="LazyLayerNormLastDim")


def same(it, m, ref, x, shape, what, anchor, tag="net"):
    out = tie(it, m, ref, anchor, x, tag)
    if failed(out):
        return out
    y, z = it.call(m, [x]), ref(it, x)
    if isinstance(y, TT.Tensor) and isinstance(z, TT.Tensor) and y.ndim != z.ndim:
        return out + [Fact(what, False, "%d dimensions, documented %d" % (y.ndim, z.ndim), anchor)]
    return out + [Eq(what, y, shape or z.shape, lambda *i: z.at(*i), anchor=anchor)]


def fc(kind, period=False):
    def fn(it):
        n, fi, fo, S = it.size("n", 2), it.size("inf"), it.size("outf"), it.size("S")
        P = it.real("P", 0) if period else None
        kw = dict(layer_type=kind, n=n, in_features=fi, out_features=fo, scale=I.PF(2), rescale_output=False, periodicity=P, device="cpu", segments=S)
        d = int(kind[-2]) if kind.endswith("d") and kind[-2].isdigit() else 0
        if d:
            kw.pop("segments")
        m = it.call(get(it, "layers.high_order_fc_layers"), [], kw)
        ref = documented(it, kind, fi, fo, n, S, P if not kind.startswith("switch") else None)
        B = it.size("B")
        x = leaf("x", B, fi, d) if d else leaf("x", B, fi)
        return same(it, m, ref, x, (B, fo), "%s is the documented layer" % kind, LY)
    return fn


def fcnd(d):
    def fn(it):
        fi, fo = it.size("inf"), it.size("outf")
        ns, ss = [it.size("n%d" % i, 2) for i in range(d)], [it.size("S%d" % i) for i in range(d)]
        kw = dict(n=I.LList(ns), segments=I.LList(ss), in_features=fi, out_features=fo)
        m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type="continuous_nd"))
        ref = Chain(build(it, "PolynomialLayers.PiecewiseND", dict(kw)))
        B = it.size("B")
        return same(it, m, ref, leaf("x", B, fi, d), (B, fo), "continuous_nd is the documented layer", LY)
    return fn


def conv(kind, transpose=False, period=False, rescale=False):
    def fn(it):
        n, ci, co, S, K = it.size("n", 2), it.size("cin"), it.size("cout"), it.size("S"), it.size("K")
        kw = dict(n=n, in_channels=ci, out_channels=co, kernel_size=K)
        if kind.rstrip("12d") in SEGMENTED:
            kw["segments"] = S
        if period:
            kw["periodicity"] = it.real("P", 0)
        if rescale:
            kw["rescale_output"] = True
        m = it.call(get(it, "layers.high_order_convolution_transpose_layers" if transpose else "layers.high_order_convolution_layers"), [],
                    dict(kw, layer_type=kind))
        ref = Chain(build(it, "FunctionalConvolutionTranspose.PiecewisePolynomialConvolutionTranspose2d" if transpose else CV[kind], kw))
        d = int(kind[-2])
        x = leaf("x", it.size("B"), ci, *[add(it.size("W%d" % i, 0), K) for i in range(d)])
        return same(it, m, ref, x, None, "%s is the documented layer" % kind, LY)
    return fn


def normal(name):
    def fn(it):
        r = get(it, "layers.normalization_layers")
        m = it.call(it.getitem(r, name), [])
        ref = Chain(build(it, "layers." + NORMAL[name], {}))
        return same(it, m, ref, leaf("x", it.size("B"), it.size("C")), None, "%s is the documented normalization" % name, LY)
    return fn


def unknown(factory, name, kw):
    def fn(it):
        e = raises(it, lambda: it.call(get(it, "layers." + factory), [], dict(kw, layer_type=name)))
        return [Fact("%s refuses %r with a ValueError" % (factory, name), e is not None and e.name == "ValueError", str(e), LY)]
    return fn


def obligations():
    out = []
    add_ = lambda nm, f: out.append(Obligation(nm, f, LY))
    kinds = ("continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "polynomial", "polynomial_prod", "product", "fourier",
             "switch_continuous", "switch_discontinuous", "baseline", "baseline_relu")
    for k in kinds:
        add_("fully connected %s" % k, fc(k))
    for k in kinds[:8]:
        add_("fully connected %s, periodic" % k, fc(k, True))
    for d in (2, 3, 4):
        add_("fully connected polynomial_%dd" % d, fc("polynomial_%dd" % d))
    for d in (1, 2):
        add_("fully connected continuous_nd, %d" % d, fcnd(d))
    for k in CV:
        add_("convolution %s" % k, conv(k))
    add_("convolution continuous1d, periodic", conv("continuous1d", period=True))
    add_("convolution continuous2d, periodic", conv("continuous2d", period=True))
    add_("convolution polynomial2d, rescaled", conv("polynomial2d", rescale=True))
    add_("convolution discontinuous1d, rescaled", conv("discontinuous1d", rescale=True))
    add_("transposed convolution continuous2d", conv("continuous2d", True))
    for k in NORMAL:
        add_("normalization %s" % k, normal(k))
    F_ = dict(n=3, in_features=2, out_features=2, segments=2)
    C_ = dict(n=3, in_channels=2, out_channels=2, segments=2, kernel_size=2)
    for nm in ("unknown", "", "Continuous", "continuous2d", "continuous "):
        add_("fully connected %r" % nm, unknown("high_order_fc_layers", nm, F_))
    for nm in ("unknown", "", "continuous", "Continuous2d"):
        add_("convolution %r" % nm, unknown("high_order_convolution_layers", nm, C_))
    for nm in ("unknown", "", "continuous", "discontinuous2d"):
        add_("transposed convolution %r" % nm, unknown("high_order_convolution_transpose_layers", nm, C_))
    return out
