"""Transposed convolution layers."""
from .spec import *

FT = "high_order_layers_torch/FunctionalConvolutionTranspose.py"


def obligations():
    C = "FunctionalConvolutionTranspose.PiecewisePolynomialConvolutionTranspose2d"
    o = dict(anchor=FT, transpose=True)
    return [
        Obligation("transposed", conv_forward(C, "cont", 2, **o), FT),
        Obligation("transposed, rescaled output", conv_forward(C, "cont", 2, rescale=True, **o), FT),
        Obligation("transposed, any length", conv_forward(C, "cont", 2, L_sym=True, **o), FT),
        Obligation("transposed, stride", conv_forward(C, "cont", 2, opts=("stride",), **o), FT),
        Obligation("transposed, dilation", conv_forward(C, "cont", 2, opts=("dilation",), **o), FT),
        Obligation("transposed by registry name", conv_forward(C, "cont", 2, via="continuous2d", **o), FT),
        Obligation("transposed, periodic", conv_forward(C, "cont", 2, periodic_=True, **o), FT),
    ]
