"""The modules of the library with symbolic sizes: name -> (builder, inputs)."""
from .nets import *

A = "attentions."
FCL = "high_order_layers_torch/PolynomialLayers.py"


def sz(it, **k):
    return [it.size(n, lo) for n, lo in k.items()]


def fc(kind, period=False, length=False, **extra):
    def build_(it):
        n, fi, fo, S = sz(it, n=2, inf=1, outf=1, S=1)
        kw = dict(n=n, in_features=fi, out_features=fo, **extra)
        if kind in SEGMENTED:
            kw["segments"] = S
        if period:
            kw["periodicity"] = it.real("P", 0)
        if length:
            kw["length"] = it.real("L", 0)
        m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type=kind))
        return m, lambda B: [leaf("x", B, fi)]
    return build_


def fcnd(d):
    def build_(it):
        n, fi, fo = sz(it, n=2, inf=1, outf=1)
        m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(layer_type="polynomial_%dd" % d, n=n, in_features=fi, out_features=fo))
        return m, lambda B: [leaf("x", B, fi, d)]
    return build_


def piecewise_nd(d):
    def build_(it):
        fi, fo = sz(it, inf=1, outf=1)
        ns, ss = [it.size("n%d" % i, 2) for i in range(d)], [it.size("S%d" % i) for i in range(d)]
        m = it.call(get(it, "PolynomialLayers.PiecewiseND"), [], dict(n=I.LList(ns), segments=I.LList(ss), in_features=fi, out_features=fo))
        return m, lambda B: [leaf("x", B, fi, d)]
    return build_


def conv(kind, d, length=False, **extra):
    def build_(it):
        n, ci, co, S, K = sz(it, n=2, cin=1, cout=1, S=1, K=1)
        kw = dict(n=n, in_channels=ci, out_channels=co, kernel_size=K, layer_type="%s%dd" % (kind, d), **extra)
        if kind in SEGMENTED:
            kw["segments"] = S
        if length:
            kw["length"] = it.real("L", 0)
        m = it.call(get(it, "layers.high_order_convolution_layers"), [], kw)
        ext = [add(it.size("W%d" % i, 0), K) for i in range(d)]
        return m, lambda B: [leaf("x", B, ci, *ext)]
    return build_


def convt():
    def build_(it):
        n, ci, co, S, K = sz(it, n=2, cin=1, cout=1, S=1, K=1)
        m = it.call(get(it, "layers.high_order_convolution_transpose_layers"), [],
                    dict(n=n, in_channels=ci, out_channels=co, kernel_size=K, segments=S, layer_type="continuous2d"))
        ext = [it.size("W%d" % i) for i in range(2)]
        return m, lambda B: [leaf("x", B, ci, *ext)]
    return build_


def norm(cls, nd_=2):
    def build_(it):
        m = it.call(get(it, "layers." + cls), [])
        return m, lambda B: [leaf("x", B, *[it.size("D%d" % k, 2) for k in range(1, nd_)])]
    return build_


def mlp(kind, hidden=1, normal=None, act=False, **extra):
    def build_(it):
        n, iw, hw, ow, S = sz(it, n=2, inw=1, hid=1, outw=1, S=1)
        kw = dict(layer_type=kind, n=n, in_width=iw, out_width=ow, hidden_layers=hidden, hidden_width=hw, **extra)
        if kind in SEGMENTED:
            kw.update(in_segments=S, hidden_segments=S, out_segments=S)
        if normal:
            kw["normalization"] = get(it, "layers." + normal)
        if act:
            kw["non_linearity"] = it.call(torch_(it, "nn.ReLU"), [])
        m = it.call(get(it, "networks.HighOrderMLP"), [], kw)
        it.call(it.getattr(m, "eval"), [])
        return m, lambda B: [leaf("x", B, iw)]
    return build_


def multi(replicas, normal=None):
    def build_(it):
        n, iw, hw, ow, S = sz(it, n=2, inw=1, hid=1, outw=1, S=1)
        ex = dict(normalization=torch_(it, "nn.LazyBatchNorm1d")) if normal == "batch" else dict(normalization=get(it, "layers." + normal)) if normal else {}
        m = it.call(get(it, "networks.HighOrderMultiMLP"), [], dict(layer_type="continuous", n=n, replicas=replicas, in_width=iw, out_width=ow,
                    hidden_layers=0, hidden_width=hw, in_segments=S, hidden_segments=S, out_segments=S, **ex))
        it.call(it.getattr(m, "eval"), [])
        return m, lambda B: [leaf("x", B, iw)]
    return build_


def mlplist():
    def build_(it):
        w = [it.size("w%d" % i) for i in range(4)]
        n = [it.size("n%d" % i, 2) for i in range(3)]
        S = [it.size("S%d" % i) for i in range(3)]
        m = it.call(get(it, "networks.HighOrderMLPList"), [], dict(layer_type=I.LList(["continuous", "discontinuous", "fourier"]), n=I.LList(n),
                    width=I.LList(w), segments=I.LList(S)))
        return m, lambda B: [leaf("x", B, w[0])]
    return build_


def lowmlp():
    def build_(it):
        iw, hw, ow = sz(it, inw=1, hid=1, outw=1)
        m = it.call(get(it, "networks.LowOrderMLP"), [], dict(in_width=iw, out_width=ow, hidden_layers=2, hidden_width=hw,
                    non_linearity=it.call(torch_(it, "nn.Tanh"), [])))
        return m, lambda B: [leaf("x", B, iw)]
    return build_


def convnet(pooling, normal=False):
    def build_(it):
        c = [it.size("c%d" % i) for i in range(3)]
        n = [it.size("n%d" % i, 2) for i in range(2)]
        S = [it.size("S%d" % i) for i in range(2)]
        d = "1d" if pooling == "1d" else "2d"
        m = it.call(get(it, "networks.HighOrderFullyConvolutionalNetwork"), [], dict(layer_type=I.LList(["continuous" + d, "discontinuous" + d]),
                    n=I.LList(n), channels=I.LList(c), segments=I.LList(S), kernel_size=I.LList([2, 2]), pooling=pooling,
                    **({} if not normal else dict(normalization=torch_(it, "nn.BatchNorm" + d)))))
        it.call(it.getattr(m, "eval"), [])
        ext = [it.size("W%d" % i, 3) for i in range(int(d[0]))]
        return m, lambda B: [leaf("x", B, c[0], *ext)]
    return build_


def deconvnet():
    def build_(it):
        c = [it.size("c%d" % i) for i in range(3)]
        n = [it.size("n%d" % i, 2) for i in range(2)]
        S = [it.size("S%d" % i) for i in range(2)]
        m = it.call(get(it, "networks.HighOrderFullyDeconvolutionalNetwork"), [], dict(layer_type="continuous2d",
                    n=I.LList(n), channels=I.LList(c), segments=I.LList(S), kernel_size=I.LList([2, 2])))
        ext = [it.size("W%d" % i) for i in range(2)]
        return m, lambda B: [leaf("x", B, c[0], *ext)]
    return build_


def tailfocus(normal=None):
    def build_(it):
        c = [it.size("c%d" % i) for i in range(3)]
        n = [it.size("n%d" % i, 2) for i in range(2)]
        S = [it.size("S%d" % i) for i in range(2)]
        m = it.call(get(it, "networks.HighOrderTailFocusNetwork"), [], dict(layer_type=I.LList(["continuous1d", "discontinuous1d"]),
                    n=I.LList(n), channels=I.LList(c), segments=I.LList(S), kernel_size=I.LList([2, 2]), focus=I.LList([2, 1]), **({} if not normal else dict(
                    normalization=torch_(it, "nn.BatchNorm1d")))))
        it.call(it.getattr(m, "eval"), [])
        return m, lambda B: [leaf("x", B, c[0], it.size("W", 5))]
    return build_


def attention(cls, args, inputs, first=None):
    def build_(it):
        m, ins = args(it), None
        return m
    return build_


def linear_rotation():
    def build_(it):
        r = it.call(get(it, "layers.fixed_rotation_layer"), [], dict(n=3, rotations=2))
        m = it.getitem(r, 0)
        return m, lambda B: [leaf("x", B, 3)]
    return build_


def transform(low):
    def build_(it):
        n, hw, ow, S = sz(it, n=2, hid=1, outw=1, S=1)
        if low:
            m = it.call(get(it, "networks.transform_low_mlp"), [], dict(in_width=2, hidden_width=hw, out_width=ow, hidden_layers=1,
                        non_linearity=it.call(torch_(it, "nn.ReLU"), []), normalization=None, rotations=2))
        else:
            m = it.call(get(it, "networks.transform_mlp"), [], dict(layer_type="continuous", in_width=2, hidden_width=hw, out_width=ow, n=n, n_in=n,
                        n_hidden=n, n_out=n, in_segments=S, hidden_segments=S, out_segments=S, hidden_layers=1, rotations=2, periodicity=None))
        return m, lambda B: [leaf("x", B, 2)]
    return build_


def sumlayer():
    def build_(it):
        n, fi, fo, S = sz(it, n=2, inf=1, outf=1, S=1)
        kw = dict(n=n, in_features=fi, out_features=fo)
        a = it.call(get(it, CLASSES["continuous"]), [], dict(kw, segments=S))
        b = it.call(get(it, CLASSES["polynomial"]), [], kw)
        m = it.call(get(it, "layers.SumLayer"), [], dict(layer_list=I.LList([a, b])))
        return m, lambda B: [leaf("x", B, fi)]
    return build_


def embedding(name):
    def build_(it):
        if name == "ClassicSinusoidalEmbedding":
            m = it.call(get(it, "positional_embeddings." + name), [6])
            return m, lambda B: [leaf("x", B)]
        n, fi, fo, S = sz(it, n=2, inf=1, outf=1, S=1)
        kw = dict(n=n, in_features=fi, out_features=fo)
        if "Piecewise" in name:
            kw["segments"] = S
        m = it.call(get(it, "positional_embeddings." + name), [], kw)
        return m, lambda B: [leaf("x", B, fi)]
    return build_


LAYERS = [("%s layer" % k, fc(k), LY) for k in ("continuous", "discontinuous", "polynomial", "fourier", "continuous_prod", "discontinuous_prod",
                                               "polynomial_prod", "product", "switch_continuous", "switch_discontinuous", "baseline", "baseline_relu")]
LAYERS += [("%s layer, periodic" % k, fc(k, period=True), FCL) for k in ("continuous", "discontinuous", "polynomial", "continuous_prod", "product")]
LAYERS += [("polynomial_%dd layer" % d, fcnd(d), FCL) for d in (2, 3)]
LAYERS += [("piecewise nd layer, %d dimensions" % d, piecewise_nd(d), FCL) for d in (1, 2)]
CONVS = [("%s %dd convolution" % (k, d), conv(k, d), FC) for k in ("continuous", "discontinuous", "polynomial", "fourier") for d in (1, 2)]
CONVS += [("transposed convolution", convt(), "high_order_layers_torch/FunctionalConvolutionTranspose.py")]
NETS = [("mlp %s" % k, mlp(k), NW) for k in ("continuous", "discontinuous", "polynomial", "fourier", "continuous_prod", "switch_continuous")]
NETS += [("mlp, normalised", mlp("continuous", normal="MaxAbsNormalization"), NW), ("mlp, activation", mlp("continuous", act=True), NW),
         ("mlp, resnet", mlp("continuous", hidden=2, resnet=True), NW), ("replicas", multi(2), NW), ("mlp list", mlplist(), NW), ("low order mlp", lowmlp(), NW),
         ("convolutional network 1d", convnet("1d"), NW), ("convolutional network 2d", convnet("2d"), NW),
         ("convolutional network, no pooling", convnet(None), NW), ("deconvolutional network", deconvnet(), NW), ("tail focus", tailfocus(), NW), ("tail focus, normalised", tailfocus(True), NW),
         ("convolutional network 1d, normalised", convnet("1d", True), NW), ("replicas, normalised", multi(2, "MaxAbsNormalization"), NW),
         ("rotated mlp", transform(False), NW), ("rotated low order mlp", transform(True), NW), ("sum layer", sumlayer(), LY)]
NORMS = [(c, norm(c, 3 if c.endswith(("ND", "Last")) else 2), LY) for c in
         ("MaxAbsNormalization", "MaxAbsNormalizationLast", "MaxAbsNormalizationND", "MaxCenterNormalization", "MaxCenterNormalizationLast",
          "MaxCenterNormalizationND", "L2Normalization")]
EMB = [(c, embedding(c), "high_order_layers_torch/positional_embeddings.py") for c in
       ("ClassicSinusoidalEmbedding", "FourierSeriesEmbedding", "PiecewisePolynomialEmbedding", "PiecewiseDiscontinuousPolynomialEmbedding")]
