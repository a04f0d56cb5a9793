"""Positional embeddings."""
from .nets import *
from .P19 import same

PE = "high_order_layers_torch/positional_embeddings.py"


def classic(half=None, dims=1):
    def fn(it):
        h = const(half) if half else nd(it.size("half", 2))
        m = it.call(get(it, "positional_embeddings.ClassicSinusoidalEmbedding"), [2 * half if half else mul(const(2), h)])
        sh = [it.size("B%d" % i) for i in range(dims)]
        x = leaf("x", *sh)
        y = it.call(m, [x])
        den = T.app("max", sub(h, const(1)), const(1))

        def val(trig):
            def f(*i):
                e = T.app("exp", T.neg(div(mul(i[-1], T.app("log", const(10000))), den)))
                return T.app(trig, mul(x.at(*i[:-1]), e))
            return f
        out = [shape_is("one vector per position", y, tuple(sh) + (mul(const(2), h),), PE)]
        if failed(out):
            return out
        s2 = [nd(s) for s in sh] + [h]
        a = TT.new(s2, lambda *i: y.at(*i), "float")
        b = TT.new(s2, lambda *i: y.at(*(list(i[:-1]) + [add(i[-1], h)])), "float")
        return out + [Eq("first half: sines of the position at geometric frequencies", a, s2, val("sin"), anchor=PE),
                      Eq("second half: cosines of the position at the same frequencies", b, s2, val("cos"), anchor=PE)]
    return fn


def odd(d):
    def fn(it):
        e = raises(it, lambda: it.call(get(it, "positional_embeddings.ClassicSinusoidalEmbedding"), [d]))
        return [Fact("an odd dimension is refused", e is not None and e.name == "ValueError", str(e), PE)]
    return fn


def layer(name, cls, seg_, extra=()):
    def fn(it):
        n, fi, fo, S = it.size("n", 2), it.size("inf"), it.size("outf"), it.size("S")
        kw = dict(n=n, in_features=fi, out_features=fo)
        if seg_:
            kw["segments"] = S
        for e in extra:
            kw[e] = it.real(e, 0)
        m = it.call(get(it, "positional_embeddings." + name), [], kw)
        ref = Chain(build(it, cls, kw))
        B = it.size("B")
        return same(it, m, ref, leaf("x", B, fi), (B, fo), "the embedding is its layer", PE)
    return fn


def magnitude(name, cls):
    def fn(it):
        from .P11 import rand_atoms
        n, fi, fo, S = it.size("n", 2), it.size("inf"), it.size("outf"), it.size("S")
        wm = it.real("magnitude", 0)
        m = it.call(get(it, "positional_embeddings." + name), [], dict(n=n, in_features=fi, out_features=fo, segments=S, weight_magnitude=wm))
        w = attr(it, m, "w")
        e = w.at(*[T.var(s) for s in w.shape])
        top = div(wm, fi)
        return [Holds("initial weights are at most the magnitude over the number of inputs", T.and_(T.le(T.neg(top), e), T.le(e, top)), PE),
                Fact("the magnitude sets the scale", nd(wm) in set(T.walk(e)), "", PE)]
    return fn


def obligations():
    out = []
    add_ = lambda nm, f: out.append(Obligation(nm, f, PE))
    add_("sinusoidal", classic())
    add_("sinusoidal, two", classic(1))
    add_("sinusoidal, sixteen", classic(8))
    add_("sinusoidal, matrix of positions", classic(None, 2))
    add_("sinusoidal, array of positions", classic(None, 3))
    for d in (1, 3, 7):
        add_("sinusoidal, %d" % d, odd(d))
    F_, C_, D_ = "PolynomialLayers.FourierSeries", "PolynomialLayers.PiecewisePolynomial", "PolynomialLayers.PiecewiseDiscontinuousPolynomial"
    add_("fourier", layer("FourierSeriesEmbedding", F_, False))
    add_("fourier, length", layer("FourierSeriesEmbedding", F_, False, ["length"]))
    for nm, e, c in (("continuous", "PiecewisePolynomialEmbedding", C_), ("discontinuous", "PiecewiseDiscontinuousPolynomialEmbedding", D_)):
        add_(nm, layer(e, c, True))
        add_(nm + ", length", layer(e, c, True, ["length"]))
        add_(nm + ", periodic", layer(e, c, True, ["periodicity"]))
        add_(nm + ", length, periodic", layer(e, c, True, ["length", "periodicity"]))
        add_(nm + ", magnitude", magnitude(e, c))
    return out
