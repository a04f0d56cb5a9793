"""Convolutional networks: which layers, in which order."""
from .nets import *
from .P19 import CV, same

NORM = dict(batch="nn.BatchNorm%s")


def lists(it, k, scalars):
    c = [it.size("c%d" % i) for i in range(k + 1)]
    if scalars:
        n, S = it.size("n", 2), it.size("S")
        return c, [n] * k, [S] * k, n, S
    n = [it.size("n%d" % i, 2) for i in range(k)]
    S = [it.size("S%d" % i) for i in range(k)]
    return c, n, S, I.LList(n), I.LList(S)


def convnet(kinds, kernels, strides=None, padding=None, pooling="2d", period=False, rescale=False, normal=False, scalars=False, transpose=False,
            flat=True):
    def fn(it):
        k = len(kinds)
        d = kinds[0][-2]
        c, n, S, n_, S_ = lists(it, k, scalars)
        kw = dict(layer_type=kinds[0] if scalars else I.LList(list(kinds)), n=n_, channels=I.LList(c), segments=S_, kernel_size=I.LList(list(kernels)))
        if strides is not None:
            kw["stride"] = strides if isinstance(strides, int) else I.LList(list(strides))
        st = [strides] * k if isinstance(strides, int) else strides
        P = it.real("P", 0) if period else None
        for a, v in (("padding", padding), ("periodicity", P), ("rescale_output", True if rescale else None)):
            if v is not None:
                kw[a] = v
        if not transpose:
            kw["pooling"] = pooling
        if normal:
            kw["normalization"] = torch_(it, "nn.BatchNorm%sd" % d)
        net = it.call(get(it, "networks.HighOrderFullyDeconvolutionalNetwork" if transpose else "networks.HighOrderFullyConvolutionalNetwork"), [], kw)
        it.call(it.getattr(net, "eval"), [])
        parts = []
        for i in range(k):
            lk = dict(n=n[i], in_channels=c[i], out_channels=c[i + 1], kernel_size=kernels[i], periodicity=P, stride=st[i] if st else None,
                      padding=padding, rescale_output=True if rescale else None)
            if kinds[i][:-2] in SEGMENTED:
                lk["segments"] = S[i]
            parts.append(build(it, "FunctionalConvolutionTranspose.PiecewisePolynomialConvolutionTranspose2d" if transpose else CV[kinds[i]], lk))
            if normal:
                b = it.call(torch_(it, "nn.BatchNorm%sd" % d), [c[i + 1]])
                it.call(it.getattr(b, "eval"), [])
                parts.append(b)
        if not transpose:
            parts.append(Fn(mean_of if pooling else rows_of))
        ref = Chain(*parts)
        least = 1
        for i in range(k - 1, -1, -1):
            least = (least - 1) * (st[i] if st else 1) + kernels[i]
        x = leaf("x", it.size("B"), c[0], *[it.size("W%d" % i, 1 if transpose else max(5, least)) for i in range(int(d))])
        out = same(it, net, ref, x, None, "output is the composition of the documented layers", NW)
        if not transpose and pooling:
            os_ = it.getattr(net, "output_size")
            out.append(number("output_size is the width of the output", os_, c[-1], NW))
        if transpose:
            out.append(number("in_channels is the number of input channels", it.getattr(net, "in_channels"), c[0], NW))
        return out
    return fn


def mean_of(it, x, fs):
    """average over positions"""
    sp = x.shape[2:]

    def at(b, c):
        def go(i):
            if i == len(sp):
                return x.at(b, c, *go.idx)
            return Sum(sp[i], lambda j: (go.idx.append(j), go(i + 1), go.idx.pop())[1])
        go.idx = []
        tot = const(1)
        for s in sp:
            tot = mul(tot, nd(s))
        return div(go(0), tot)
    return TT.new(x.shape[:2], at, "float")


def rows_of(it, x, fs):
    """positions of a channel after another"""
    return it.call(torch_(it, "flatten"), [x, 1])


def refused(cls, kw):
    def fn(it):
        e = raises(it, lambda: it.call(get(it, "networks." + cls), [], dict(kw)))
        return [Fact("a single channel count is refused", e is not None and e.name == "ValueError", str(e), NW)]
    return fn


def obligations():
    out = []
    add_ = lambda nm, f: out.append(Obligation(nm, f, NW))
    c2, d2, p2, f2 = "continuous2d", "discontinuous2d", "polynomial2d", "fourier2d"
    c1, d1, p1, f1 = "continuous1d", "discontinuous1d", "polynomial1d", "fourier1d"
    add_("2d, one layer", convnet([c2], [3]))
    add_("2d, two layers", convnet([p2, c2], [2, 3]))
    add_("2d, three layers", convnet([p2, f2, p2], [2, 1, 3]))
    add_("1d, two layers", convnet([c1, d1], [2, 3], pooling="1d"))
    add_("1d, three layers", convnet([p1, f1, c1], [2, 1, 3], pooling="1d"))
    add_("1d, no pooling", convnet([d1, p1], [2, 2], pooling=None))
    add_("2d, no pooling", convnet([p2, p2], [1, 2], pooling=None))
    add_("1d, strides", convnet([p1, c1], [2, 2], strides=[2, 1], pooling="1d"))
    add_("1d, one stride", convnet([p1, p1], [2, 3], strides=2, pooling=None))
    add_("2d, strides", convnet([p2, p2], [2, 2], strides=[1, 2]))
    add_("1d, padded", convnet([c1, p1], [3, 3], padding=1, pooling="1d"))
    add_("2d, padded", convnet([p2], [3], padding=1))
    add_("1d, periodic", convnet([c1, p1], [2, 2], pooling="1d", period=True))
    add_("2d, periodic", convnet([p2, p2], [2, 2], period=True))
    add_("1d, rescaled", convnet([c1, p1], [2, 3], pooling="1d", rescale=True))
    add_("2d, rescaled", convnet([p2, p2], [2, 3], rescale=True))
    add_("1d, batch normalised", convnet([c1, p1], [2, 2], pooling="1d", normal=True))
    add_("2d, batch normalised", convnet([p2, p2], [2, 2], normal=True))
    add_("1d, single values", convnet([d1, d1], [2, 2], pooling="1d", scalars=True))
    add_("2d, single values", convnet([p2, p2, p2], [2, 2, 1], scalars=True))
    add_("transposed, one layer", convnet([c2], [3], transpose=True))
    add_("transposed, two layers", convnet([c2, c2], [2, 1], transpose=True))
    add_("transposed, strides", convnet([c2, c2], [2, 2], strides=[2, 1], transpose=True))
    add_("transposed, padded", convnet([c2], [3], padding=1, strides=2, transpose=True))
    add_("transposed, periodic", convnet([c2], [2], period=True, transpose=True))
    add_("transposed, rescaled", convnet([c2], [2], rescale=True, transpose=True))
    add_("transposed, batch normalised", convnet([c2, c2], [1, 2], normal=True, transpose=True))
    add_("transposed, single values", convnet([c2, c2], [2, 1], scalars=True, transpose=True))
    L = I.LList
    for cls in ("HighOrderFullyConvolutionalNetwork", "HighOrderFullyDeconvolutionalNetwork", "HighOrderTailFocusNetwork"):
        add_("%s, one channel count" % cls, refused(cls, dict(layer_type="continuous1d", n=3, channels=L([2]), segments=2, kernel_size=L([2]))))
    return out
