"""p refinement: same segments, other order."""
from .spec import *


def pair(it, cls, kind, n, m, period=None, tag=True):
    """two layers of the same sizes with different orders; weights of the first arbitrary"""
    fin, fout, S = it.size("inf"), it.size("outf"), it.size("S")
    kw = dict(in_features=fin, out_features=fout)
    if kind != "poly":
        kw["segments"] = S
    if period is not None:
        kw["length"] = period
    a = it.call(get(it, cls), [], dict(kw, n=n))
    b = it.call(get(it, cls), [], dict(kw, n=m))
    havoc(it, a, "a")
    return a, b, fin, fout, S


def separate(it, a, b):
    """changing one layer later must not change the other"""
    both = {id(p.st) for _, p in parameters(a)} & {id(p.st) for _, p in parameters(b)}
    return Fact("the layers share no weights", not both, "the new layer's weights are the old layer's storage", PL)


def wval(kind, wa, n, m, S, L, o, i, q):
    """value of the old function at node q of the new layer"""
    if kind == "poly":
        return Sum(n, lambda j: mul(wa.at(o, i, j), basis(n, L, X(m, L, q), j)))
    if kind == "cont":
        s = T.app("min", sub(S, 1), T.app("fdiv", q, sub(m, 1)))
        k = sub(q, mul(s, sub(m, 1)))
        step = sub(n, 1)
    else:
        s = T.app("fdiv", q, nd(m))
        k = sub(q, mul(s, m))
        step = nd(n)
    return Sum(n, lambda j: mul(wa.at(o, i, add(mul(s, step), j)), basis(n, L, X(m, L, k), j)))


def weights(cls, kind, n=None, m=None, L_sym=False):
    def fn(it):
        n_ = n if n is not None else it.size("n", 2)
        m_ = m if m is not None else it.size("m", 2)
        L = it.real("L", 0) if L_sym else None
        a, b, fin, fout, S = pair(it, cls, kind, n_, m_, L)
        L = L if L is not None else const(2)
        it.call(it.getattr(a, "interpolate"), [b])
        wa, wb = attr(it, a, "w"), attr(it, b, "w")
        wa0 = leaf("a.w", *wa.shape, kind="param")
        return [Eq("new weights are the old function's values at the new nodes", wb, (fout, fin, nweights(kind, m_, S)),
                   lambda o, i, q: wval(kind, wa0, n_, m_, S, L, o, i, q), grad=False, anchor=PL),
                Eq("the old layer is left as it was", wa, wa.shape, lambda o, i, q: wa0.at(o, i, q), grad=False, anchor=PL), separate(it, a, b)]
    return fn


def function(cls, kind, combine, n, m):
    """the new layer evaluates to the old one's values (orders that do not decrease)"""
    def fn(it):
        a, b, fin, fout, S = pair(it, cls, kind, n, m)
        it.call(it.getattr(a, "interpolate"), [b])
        B = it.size("B")
        x = leaf("x", B, fin)
        y, z = it.call(a, [x]), it.call(b, [x])
        return [Eq("refined layer evaluates to the same values", z, y.shape, lambda b, o: y.at(b, o), grad=False, anchor=PL, tol=1e-5)]
    return fn


def mismatch(cls):
    """different segment counts are rejected"""
    def fn(it):
        n, m = it.size("n", 2), it.size("m", 2)
        kw = dict(in_features=it.size("inf"), out_features=it.size("outf"))
        S = it.size("S")
        a = it.call(get(it, cls), [], dict(kw, n=n, segments=S))
        b = it.call(get(it, cls), [], dict(kw, n=m, segments=add(S, it.size("dS"))))
        e = raises(it, lambda: it.call(it.getattr(a, "interpolate"), [b]))
        return [Fact("different segment counts are rejected with a ValueError", e is not None and e.name == "ValueError", str(e), PL)]
    return fn


def obligations():
    out = []
    for nm, kind, base in (("continuous", "cont", "PiecewisePolynomial"), ("discontinuous", "disc", "PiecewiseDiscontinuousPolynomial"),
                           ("single", "poly", "Polynomial")):
        C = "PolynomialLayers." + base
        for prod in ("", "Prod") if kind != "poly" else ("",):
            d = nm + (" product" if prod else "")
            out.append(Obligation("%s, weights" % d, weights(C + prod, kind), PL))
            out.append(Obligation("%s, weights, any length" % d, weights(C + prod, kind, L_sym=True), PL))
            if kind != "cont":
                out.append(Obligation("%s, weights, from n = 1" % d, weights(C + prod, kind, n=1), PL))
            for n, m in ((2, 3), (3, 5)):
                out.append(Obligation("%s, function, %d to %d nodes" % (d, n, m),
                                      function(C + prod, kind, "prod" if prod else "sum", n, m), PL))
            if kind != "poly":
                out.append(Obligation("%s, segment mismatch" % d, mismatch(C + prod), PL))
    return out
