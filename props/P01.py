"""Continuous piecewise polynomial fully connected layer."""
from .spec import *


def obligations():
    C = "PolynomialLayers.PiecewisePolynomial"
    return [
        Obligation("forward, n >= 2", fc_forward(C, "cont"), PL),
        Obligation("forward, n = 1", fc_forward(C, "cont", n=1), PL),
        Obligation("forward, any length", fc_forward(C, "cont", L_sym=True), PL),
        Obligation("forward by registry name", fc_forward(C, "cont", via="continuous"), PL),
        Obligation("coordinates", coords(C, "cont", L_sym=True), PL),
    ]
