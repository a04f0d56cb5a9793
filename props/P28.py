"""Modules work in double precision."""
from .P27 import *


def results(y, anchor, what="the result"):
    out = []
    for t in DV.tensors(y, []):
        if t.dtype != "float":
            continue
        if t.st.prec is None:
            raise Unsupported("the precision of %s is unknown" % what)
        out.append(Fact("%s has the precision of the module and the input" % what, t.st.prec == "f64", "module and input double, %s %s" % (what, t.st.prec), anchor))
    return out


def kept(m, anchor):
    return [Fact("parameter %s keeps its precision" % nm, p.st.prec == "f64", "expected double, is %s" % p.st.prec, anchor)
            for nm, p in parameters(m) if p.st.prec is not None]


def double(it, *ms):
    it.devices = True
    for m in ms:
        it.call(it.getattr(m, "double"), [])


def used(it, m, ins, anchor):
    DV.put([x for x in ins if x is not None], "cpu", "f64")
    return results(it.call(m, list(ins)), anchor) + kept(m, anchor)


def modules(build_, anchor, mode=True):
    def fn(it):
        it.devices = True
        m, inputs = build_(it)
        it.call(it.getattr(m, "train"), [mode])
        double(it, m)
        return used(it, m, inputs(it.size("B")), anchor)
    return fn


def operations(kind, op, order=3, seg=2):
    def fn(it):
        it.devices = True
        a, b = pair(it, kind, "built on the cpu", order, seg)
        double(it, a, b)
        if op in ("interpolate", "refine"):
            it.call(it.getattr(a, op), [b])
        elif op == "smooth":
            it.call(get(it, "PolynomialLayers.smooth_discontinuous_layer"), [b, it.real("factor", 0)])
        else:
            it.call(get(it, "PolynomialLayers.initialize_polynomial_layer"), [b], dict(max_slope=it.real("slope", 0), max_offset=it.real("offset", 0)))
        x = leaf("x", it.size("B"), 2)
        return used(it, b, [x], PLF) + used(it, a, [x], PLF)
    return fn


def attentions(cls, args, kw, ins):
    def fn(it):
        it.devices = True
        m = it.call(get(it, A + cls), list(args), dict(kw))
        double(it, m)
        return used(it, m, ins(it), P16.AT)
    return fn


def autoencoders(method):
    def fn(it):
        it.devices = True
        m, enc, dec, x, B, D, C, c1 = vae(it)
        double(it, m)
        DV.put(x, "cpu", "f64")
        return results(it.call(it.getattr(m, method), [x]), NW)
    return fn


def obligations():
    out = [Obligation(nm, modules(b, a), a) for nm, b, a in LAYERS + CONVS + NETS + NORMS + EMB]
    out += [Obligation("%s, evaluation" % nm, modules(b, a, False), a) for nm, b, a in NETS]
    out.append(Obligation("LazyLayerNormLastDim", modules(norm("LazyLayerNormLastDim"), LY), LY))
    for k in ("continuous", "discontinuous", "polynomial", "continuous_prod", "discontinuous_prod", "switch_continuous"):
        out.append(Obligation("interpolate %s" % k, operations(k, "interpolate", order=4), PLF))
    for k in ("continuous", "continuous_prod"):
        out.append(Obligation("refine %s" % k, operations(k, "refine", seg=4), PLF))
    for k in ("discontinuous", "discontinuous_prod"):
        out.append(Obligation("smooth %s" % k, operations(k, "smooth"), PLF))
    for k in ("continuous", "discontinuous"):
        out.append(Obligation("initialize %s" % k, operations(k, "initialize"), PLF))
    for nm, cls, args, kw, ins in ATT:
        out.append(Obligation(nm, attentions(cls, args, kw, ins), P16.AT))
    for f in ("forward", "encode", "generate"):
        out.append(Obligation("autoencoder, %s" % f, autoencoders(f), NW))
    return out
