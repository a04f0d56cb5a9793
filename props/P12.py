"""Smoothing of discontinuous layers."""
from .spec import *

CLS = [("discontinuous", "PolynomialLayers.PiecewiseDiscontinuousPolynomial"),
       ("discontinuous product", "PolynomialLayers.PiecewiseDiscontinuousPolynomialProd")]


def closed(w0, n, S, fac, o, i, k):
    """weight k after both sides of every jump have moved towards each other by half the factor"""
    n, S = nd(n), nd(S)
    h = div(fac, 2)
    if n.op == "q" and T.cval(n) == 1:
        up = T.ite(T.lt(k, sub(S, 1)), mul(h, sub(w0.at(o, i, add(k, 1)), w0.at(o, i, k))), const(0))
        dn = T.ite(T.lt(const(0), k), mul(h, sub(w0.at(o, i, sub(k, 1)), w0.at(o, i, k))), const(0))
        return add(w0.at(o, i, k), up, dn)

    def jump(q):
        """node q starts a segment other than the first: number of the segment, and whether"""
        s = T.app("fdiv", q, n)
        return mul(n, s), T.and_(T.eq(T.app("mod", q, n), const(0)), T.le(const(1), s), T.le(s, sub(S, 1)))
    r, first = jump(k)
    r2, last = jump(add(k, 1))
    hi = add(w0.at(o, i, r), mul(h, sub(w0.at(o, i, sub(r, 1)), w0.at(o, i, r))))
    lo = add(w0.at(o, i, sub(r2, 1)), mul(h, sub(w0.at(o, i, r2), w0.at(o, i, sub(r2, 1)))))
    return T.ite(first, hi, T.ite(last, lo, w0.at(o, i, k)))


def smooth(cls, n=None, S=None, call=None):
    def fn(it):
        n_ = n if n is not None else it.size("n", 2)
        S_ = S if S is not None else it.size("S")
        fin, fout = it.size("inf"), it.size("outf")
        m = it.call(get(it, cls), [], dict(n=n_, in_features=fin, out_features=fout, segments=S_))
        havoc(it, m, "a")
        fac = it.real("factor")
        w = attr(it, m, "w")
        (call or (lambda it, m, f: mk(it, "PolynomialLayers.smooth_discontinuous_layer", m, f)))(it, m, fac)
        w0 = leaf("a.w", *w.shape, kind="param")
        w1 = attr(it, m, "w")
        return [Fact("the parameter object stays the same", w1.st is w.st, "", PL),
                Eq("both sides of a jump move towards each other by half the factor, all else stays", w1, (fout, fin, mul(n_, S_)),
                   lambda o, i, k: closed(w0, n_, S_, fac, o, i, k), grad=False, anchor=PL)]
    return fn


def obligations():
    out = []
    for nm, c in CLS:
        out.append(Obligation("%s" % nm, smooth(c), PL))
        out.append(Obligation("%s, constant segments" % nm, smooth(c, n=1), PL))
        out.append(Obligation("%s, one segment" % nm, smooth(c, S=1), PL))
        for n in (2, 3, 5):
            out.append(Obligation("%s, %d nodes" % (nm, n), smooth(c, n=n), PL))
    return out
