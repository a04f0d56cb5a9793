"""Discontinuous piecewise polynomial fully connected layer."""
from .spec import *


def obligations():
    C = "PolynomialLayers.PiecewiseDiscontinuousPolynomial"
    return [
        Obligation("forward, n >= 2", fc_forward(C, "disc"), PL),
        Obligation("forward, n = 1", fc_forward(C, "disc", n=1), PL),
        Obligation("forward, any length", fc_forward(C, "disc", L_sym=True), PL),
        Obligation("forward by registry name", fc_forward(C, "disc", via="discontinuous"), PL),
        Obligation("coordinates", coords(C, "disc", L_sym=True), PL),
    ]
