"""Modules work on the device they live on."""
from .catalog import *
from . import P16
from .P23 import vae
from engine import device as DV

PLF = FCL
DENSE = ("continuous", "discontinuous", "polynomial", "fourier", "continuous_prod", "discontinuous_prod", "polynomial_prod", "switch_continuous", "switch_discontinuous")


def on(it, dev="cuda"):
    it.devices = True
    return dev


def results(y, dev, anchor, what="the result"):
    out = []
    for i, t in enumerate(DV.tensors(y, [])):
        if DV.of(t) is None:
            raise Unsupported("the device of %s is unknown" % what)
        out.append(Fact("%s is on the device of the module" % what, DV.of(t) == dev, "module and input on %s, %s on %s" % (dev, what, DV.of(t)), anchor))
    return out


def params(m, dev, anchor, what):
    return [Fact("parameter %s is on the device %s" % (nm, what), DV.of(p) == dev, "expected on %s, is on %s" % (dev, DV.of(p)), anchor)
            for nm, p in parameters(m) if DV.of(p) is not None]


def run(it, m, ins, dev, anchor, to=True):
    DV.put(list(ins), dev, "f32")
    y = it.call(m, list(ins))
    return results(y, dev, anchor) + (params(m, dev, anchor, "it was moved to") if to else [])


def moved(build_, anchor, mode=True):
    def fn(it):
        dev = on(it)
        m, inputs = build_(it)
        it.call(it.getattr(m, "train"), [mode])
        it.call(it.getattr(m, "to"), [dev])
        return run(it, m, inputs(it.size("B")), dev, anchor)
    return fn


def back(build_, anchor):
    """to the accelerator, used there, and back"""
    def fn(it):
        dev = on(it)
        m, inputs = build_(it)
        it.call(it.getattr(m, "to"), [dev])
        run(it, m, inputs(it.size("B")), dev, anchor)
        it.call(it.getattr(m, "to"), ["cpu"])
        return run(it, m, inputs(it.size("B")), "cpu", anchor)
    return fn


def built(build_, anchor):
    def fn(it):
        dev = on(it)
        m, inputs = build_(it)
        return run(it, m, inputs(it.size("B")), dev, anchor, False)
    return fn


def fixed(name, extra, ins):
    """dense layers of several input dimensions"""
    def build_(it):
        fi, fo = sz(it, inf=1, outf=1)
        m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(layer_type=name, in_features=fi, out_features=fo, device="cuda", **extra(it)))
        return m, lambda B: [leaf("x", B, fi, ins)]
    return build_


def pair(it, kind, how, order, seg):
    n, S = (3, 2)
    kw = dict(in_features=2, out_features=2)
    if how == "built":
        kw["device"] = "cuda"
    one = lambda n, S: it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type=kind, n=n, **(dict(segments=S) if kind in SEGMENTED else {})))
    a, b = one(3, 2), one(order, seg)
    if how == "moved":
        for m in (a, b):
            it.call(it.getattr(m, "to"), ["cuda"])
    return a, b


def operation(kind, how, op, order=3, seg=2):
    def fn(it):
        dev = on(it)
        a, b = pair(it, kind, how, order, seg)
        if op in ("interpolate", "refine"):
            it.call(it.getattr(a, op), [b])
        elif op == "smooth":
            it.call(get(it, "PolynomialLayers.smooth_discontinuous_layer"), [b, it.real("factor", 0)])
        else:
            it.call(get(it, "PolynomialLayers.initialize_polynomial_layer"), [b], dict(max_slope=it.real("slope", 0), max_offset=it.real("offset", 0)))
        x = leaf("x", it.size("B"), 2)
        return run(it, b, [x], dev, PLF, how == "moved") + run(it, a, [x], dev, PLF, how == "moved")
    return fn


def attention(cls, args, kw, ins):
    def fn(it):
        dev = on(it)
        m = it.call(get(it, A + cls), [a(it) if callable(a) else a for a in args], {k: v(it) if callable(v) else v for k, v in kw.items()})
        it.call(it.getattr(m, "to"), [dev])
        xs = ins(it)
        DV.put([x for x in xs if x is not None], dev, "f32")
        return results(it.call(m, xs), dev, P16.AT) + params(m, dev, P16.AT, "it was moved to")
    return fn


def _att():
    B, Q, K, H, N, C = 2, 3, 4, 4, 2, 3
    M = lambda k: leaf("M", B, Q, k, dtype="bool")
    out = []
    for first in (False, True):
        t = ", first step" if first else ""
        out.append(("location aware attention%s" % t, "LocationAwareAttention", [H], {}, lambda it, f=first: [
            leaf("q", B, 1, H), leaf("v", B, K, H), None if f else leaf("last", B, K)]))
        out.append(("multi head location aware attention%s" % t, "MultiHeadLocationAwareAttention", [H], dict(num_heads=N, conv_out_channel=C), lambda it, f=first: [
            leaf("q", B, 1, H), leaf("v", B, K, H), None if f else leaf("last", B, N, K)]))
        out.append(("customizing attention%s" % t, "CustomizingAttention", [H], dict(num_heads=N, conv_out_channel=C), lambda it, f=first: [
            leaf("q", B, Q, H), leaf("v", B, K, H), None if f else leaf("last", B * N, K)]))
    for masked in (False, True):
        t = ", masked" if masked else ""
        m = lambda k, masked=masked: [M(k)] if masked else []
        out.append(("scaled dot product attention%s" % t, "ScaledDotProductAttention", [H], {}, lambda it, m=m: [
            leaf("q", B, Q, H), leaf("k", B, K, H), leaf("v", B, K, H)] + m(K)))
        out.append(("multi head attention%s" % t, "MultiHeadAttention", [H], dict(num_heads=N), lambda it, m=m: [
            leaf("q", B, Q, H), leaf("k", B, K, H), leaf("v", B, K, H)] + m(K)))
        out.append(("relative multi head attention%s" % t, "RelativeMultiHeadAttention", [H], dict(num_heads=N), lambda it, m=m: [
            leaf(s, B, Q, H) for s in ("q", "k", "v", "pe")] + m(Q)))
    out.append(("dot product attention", "DotProductAttention", [H], {}, lambda it: [leaf("q", B, Q, H), leaf("v", B, K, H)]))
    out.append(("additive attention", "AdditiveAttention", [H], {}, lambda it: [leaf("q", B, 1, H), leaf("k", B, K, H), leaf("v", B, K, H)]))
    return out


ATT = _att()


def autoencoder(method):
    def fn(it):
        dev = on(it)
        m, enc, dec, x, B, D, C, c1 = vae(it)
        it.call(it.getattr(m, "to"), [dev])
        DV.put(x, dev, "f32")
        if method == "sample":
            y = it.call(it.getattr(m, "sample"), [it.size("K")])
        else:
            y = it.call(it.getattr(m, method), [x])
        return results(y, dev, NW)
    return fn


def obligations():
    out = [Obligation("%s, moved" % nm, moved(b, a), a) for nm, b, a in LAYERS + CONVS + NETS + NORMS + EMB]
    out += [Obligation("%s, moved and back" % nm, back(b, a), a) for nm, b, a in LAYERS + CONVS + EMB]
    out += [Obligation("%s, moved, evaluation" % nm, moved(b, a, False), a) for nm, b, a in NETS]
    out.append(Obligation("LazyLayerNormLastDim, moved", moved(norm("LazyLayerNormLastDim"), LY), LY))
    for k in DENSE:
        out.append(Obligation("%s layer, built" % k, built(fc(k, device="cuda"), PLF), PLF))
        if not k.startswith(("fourier", "switch")):
            out.append(Obligation("%s layer, periodic, built" % k, built(fc(k, True, device="cuda"), PLF), PLF))
        out.append(Obligation("mlp %s, built" % k, built(mlp(k, device="cuda"), NW), NW))
    out.append(Obligation("mlp, normalised, built", built(mlp("continuous", normal="MaxAbsNormalization", device="cuda"), NW), NW))
    out.append(Obligation("mlp, resnet, built", built(mlp("continuous", hidden=2, resnet=True, device="cuda"), NW), NW))
    for d in (2, 3, 4):
        out.append(Obligation("polynomial_%dd layer, built" % d, built(fixed("polynomial_%dd" % d, lambda it: dict(n=3), d), PLF), PLF))
    for d in (1, 2):
        out.append(Obligation("continuous_nd layer, %d dimensions, built" % d, built(fixed("continuous_nd", lambda it, d=d: dict(n=I.LList([3] * d), segments=I.LList([2] * d)), d), PLF), PLF))
    for how in ("built", "moved"):
        for k in ("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "switch_continuous"):
            out.append(Obligation("interpolate %s, %s" % (k, how), operation(k, how, "interpolate", order=4), PLF))
        for k in ("continuous", "continuous_prod"):
            out.append(Obligation("refine %s, %s" % (k, how), operation(k, how, "refine", seg=4), PLF))
        for k in ("discontinuous", "discontinuous_prod"):
            out.append(Obligation("smooth %s, %s" % (k, how), operation(k, how, "smooth"), PLF))
        for k in ("continuous", "discontinuous"):
            out.append(Obligation("initialize %s, %s" % (k, how), operation(k, how, "initialize"), PLF))
    for nm, cls, args, kw, ins in ATT:
        out.append(Obligation(nm, attention(cls, args, kw, ins), P16.AT))
    for f in ("forward", "encode", "generate", "sample"):
        out.append(Obligation("autoencoder, %s" % f, autoencoder(f), NW))
    return out
