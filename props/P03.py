"""Single polynomial and Fourier series fully connected layers."""
from .spec import *


def fourier_basis(n, L, x, j):
    """component j: 1/2, sin, cos, sin 2, cos 2, ..."""
    i = T.app("fdiv", T.add(j, const(1)), const(2))
    arg = T.div(mul(2, T.pi(), i, x), nd(L))
    even = T.eq(T.app("mod", j, const(2)), const(0))
    return T.ite(T.eq(j, const(0)), div(1, 2), T.ite(even, T.app("cos", arg), T.app("sin", arg)))


def fourier(L_sym=False, via=None, periodic_=False):
    def fn(it):
        n = it.size("n", 1)
        P = it.real("P", 0) if periodic_ else None
        m, n, fin, fout, S, L = fc_layer(it, "PolynomialLayers.FourierSeries", "fourier", n=n, L_sym=L_sym, via=via, period=P)
        w = attr(it, m, "w")
        B = it.size("B")
        x = leaf("x", B, fin)
        y = it.call(m, [x])
        at = (lambda b, i: mirror(x.at(b, i), P)) if periodic_ else (lambda b, i: x.at(b, i))
        return [shape_is("one weight per output, input and component", w, (fout, fin, n), PL),
                Eq("output is the sum over the inputs of each link's Fourier series", y, (B, fout),
                   lambda b, o: Sum(fin, lambda i: Sum(n, lambda k: mul(w.at(o, i, k), fourier_basis(n, L, at(b, i), k)))),
                   anchor=PL)]
    return fn


def obligations():
    C = "PolynomialLayers.Polynomial"
    return [
        Obligation("polynomial, n >= 2", fc_forward(C, "poly"), PL),
        Obligation("polynomial, n = 1", fc_forward(C, "poly", n=1), PL),
        Obligation("polynomial, any length", fc_forward(C, "poly", L_sym=True), PL),
        Obligation("polynomial by registry name", fc_forward(C, "poly", via="polynomial"), PL),
        Obligation("fourier", fourier(), PL),
        Obligation("fourier, any length", fourier(L_sym=True), PL),
        Obligation("fourier by registry name", fourier(via="fourier"), PL),
    ]
