"""h refinement: same order, other segment count."""
from .spec import *
from .P09 import separate


def pair(it, cls, n, m, S, R, L=None, kw=None):
    fin, fout = it.size("inf"), it.size("outf")
    kw = dict(in_features=fin, out_features=fout, **(kw or {}))
    if L is not None:
        kw["length"] = L
    a = it.call(get(it, cls), [], dict(kw, n=n, segments=S))
    b = it.call(get(it, cls), [], dict(kw, n=m, segments=R))
    havoc(it, a, "a")
    return a, b, fin, fout


def glob(m, L, R, s, k):
    """position of node k of segment s of R"""
    L = nd(L)
    return sub(div(mul(L, add(s, div(add(X(m, L, k), div(L, 2)), L))), R), div(L, 2))


def weights(cls, same=True, L_sym=False, n=None, fixed=None, R=None):
    def fn(it):
        n_ = n if n is not None else it.size("n", 2)
        m_ = n_ if same else it.size("m", 2)
        S_ = it.size("S")
        R_ = R if R is not None else it.size("R")
        L = it.real("L", 0) if L_sym else None
        a, b, fin, fout = pair(it, cls, n_, m_, S_, R_, L)
        L = L if L is not None else const(2)
        it.call(it.getattr(a, "refine"), [b])
        wa, wb = attr(it, a, "w"), attr(it, b, "w")
        wa0 = leaf("a.w", *wa.shape, kind="param")

        def val(o, i, q):
            s = T.app("min", sub(R_, 1), T.app("fdiv", q, sub(m_, 1)))
            k = sub(q, mul(s, sub(m_, 1)))
            return link("cont", wa0, n_, L, S_, o, i, glob(m_, L, R_, s, k))
        return [Eq("new weights are the old function's values at the new nodes", wb, (fout, fin, nweights("cont", m_, R_)), val,
                   grad=False, anchor=PL),
                Eq("the old layer is left as it was", wa, wa.shape, lambda o, i, q: wa0.at(o, i, q), grad=False, anchor=PL), separate(it, a, b)]
    return fn


def function(cls, n, S, R):
    """every segment of the old layer is cut into equal parts: the function stays the same"""
    def fn(it):
        a, b, fin, fout = pair(it, cls, n, n, S, R)
        e = raises(it, lambda: it.call(it.getattr(a, "refine"), [b]))
        if e is not None:
            if "Discontinuous" in cls and e.name == "ValueError":
                return [Fact("refinement of discontinuous layers is refused", True, "", PL)]
            raise e
        B = it.size("B")
        x = leaf("x", B, fin)
        y, z = it.call(a, [x]), it.call(b, [x])
        return [Eq("refined layer evaluates to the same values", z, y.shape, lambda b, o: y.at(b, o), grad=False, anchor=PL, tol=1e-5)]
    return fn


def obligations():
    out = []
    for nm, C in (("continuous", "PolynomialLayers.PiecewisePolynomial"), ("continuous product", "PolynomialLayers.PiecewisePolynomialProd")):
        out.append(Obligation("%s, weights" % nm, weights(C), PL))
        out.append(Obligation("%s, weights, any length" % nm, weights(C, L_sym=True), PL))
        for n, S, R in ((2, 1, 2), (3, 2, 4), (2, 2, 6), (4, 1, 3)):
            out.append(Obligation("%s, function, %d nodes, %d to %d segments" % (nm, n, S, R), function(C, n, S, R), PL))
    out.append(Obligation("discontinuous", function("PolynomialLayers.PiecewiseDiscontinuousPolynomial", 2, 1, 2), PL))
    return out
