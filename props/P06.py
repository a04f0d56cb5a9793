"""Mirror periodicity."""
from .spec import *
from .P04 import product
from .P03 import fourier

U = "high_order_layers_torch/utils.py"
FT = "high_order_layers_torch/FunctionalConvolutionTranspose.py"


def fold(rank):
    def fn(it):
        P = it.real("P", 0)
        sh = [it.size("d%d" % k) for k in range(rank)]
        x = leaf("x", *sh)
        y = it.call(get(it, "utils.make_periodic"), [x, P])
        return [Eq("triangle wave of period twice the width", y, tuple(sh), lambda *i: mirror(x.at(*i), P), anchor=U)]
    return fn


def segments(cls, kind):
    def fn(it):
        P = it.real("P", 0)
        m, n, fin, fout, S, L = fc_layer(it, cls, kind, period=P)
        B = it.size("B")
        x = leaf("x", B, fin)
        s = it.call(attr(it, m, "which_segment"), [x])
        return [Eq("segment number of the folded x", s, (B, fin), lambda b, i: seg(mirror(x.at(b, i), P), L, S), anchor=PL)]
    return fn


def obligations():
    out = [Obligation("fold, %d dimensional" % r, fold(r), U) for r in (1, 2, 4)]
    for nm, kind, base, reg in (("continuous", "cont", "PiecewisePolynomial", "continuous"),
                                ("discontinuous", "disc", "PiecewiseDiscontinuousPolynomial", "discontinuous"),
                                ("single", "poly", "Polynomial", "polynomial")):
        C = "PolynomialLayers." + base
        out.append(Obligation("%s layer" % nm, fc_forward(C, kind, periodic_=True), PL))
        out.append(Obligation("%s layer by registry name" % nm, fc_forward(C, kind, periodic_=True, via=reg), PL))
        out.append(Obligation("%s layer, any length" % nm, fc_forward(C, kind, periodic_=True, L_sym=True), PL))
        out.append(Obligation("%s product layer" % nm, fc_forward(C + "Prod", kind, "prod", periodic_=True), PL))
        out.append(Obligation("%s product layer by registry name" % nm,
                              fc_forward(C + "Prod", kind, "prod", periodic_=True, via=reg + "_prod"), PL))
        if kind != "poly":
            out.append(Obligation("%s segments" % nm, segments(C, kind), PL))
        for d in (1, 2):
            out.append(Obligation("%s convolution %dd" % (nm, d),
                                  conv_forward("FunctionalConvolution.%sConvolution%dd" % (base, d), kind, d, periodic_=True), FC))
    out.append(Obligation("fourier layer", fourier(periodic_=True), PL))
    out.append(Obligation("product layer", product(periodic_=True), "high_order_layers_torch/ProductLayer.py"))
    C = "FunctionalConvolutionTranspose.PiecewisePolynomialConvolutionTranspose2d"
    out.append(Obligation("transposed convolution", conv_forward(C, "cont", 2, anchor=FT, transpose=True, periodic_=True), FT))
    return out
