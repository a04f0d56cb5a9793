"""Convolution layers."""
from .spec import *
from .P03 import fourier_basis


def flink(kind, wk, n, L, S, x, g):
    return Sum(n, lambda k: g(mul(wk(k), fourier_basis(n, L, x, k))))


def obligations():
    out = []
    for nm, C, kind, reg in (("continuous", "PiecewisePolynomialConvolution", "cont", "continuous"),
                             ("discontinuous", "PiecewiseDiscontinuousPolynomialConvolution", "disc", "discontinuous"),
                             ("single", "PolynomialConvolution", "poly", "polynomial"),
                             ("fourier", "FourierConvolution", "fourier", "fourier")):
        lk = flink if kind == "fourier" else None
        for d in (1, 2):
            cls = "FunctionalConvolution.%s%dd" % (C, d)
            o = dict(link_=lk)
            out.append(Obligation("%s %dd" % (nm, d), conv_forward(cls, kind, d, **o), FC))
            out.append(Obligation("%s %dd, rescaled output" % (nm, d), conv_forward(cls, kind, d, rescale=True, **o), FC))
            out.append(Obligation("%s %dd, any length" % (nm, d), conv_forward(cls, kind, d, L_sym=True, **o), FC))
            out.append(Obligation("%s %dd, stride, padding and dilation" % (nm, d),
                                  conv_forward(cls, kind, d, opts=("stride", "padding", "dilation"), **o), FC))
            out.append(Obligation("%s %dd by registry name" % (nm, d), conv_forward(cls, kind, d, via="%s%dd" % (reg, d), **o), FC))
    return out
