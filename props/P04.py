"""Product at the neuron."""
from .spec import *

PR = "high_order_layers_torch/ProductLayer.py"


def product(bias=True, via=None, periodic_=False):
    def fn(it):
        fin, fout, B = it.size("inf"), it.size("outf"), it.size("B")
        al = it.real("alpha")
        kw = dict(in_features=fin, out_features=fout, bias=bias, alpha=al)
        P = None
        if periodic_:
            P = it.real("P", 0)
            kw["periodicity"] = P
        if via:
            m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type=via, n=3, segments=2))
        else:
            m = it.call(get(it, "ProductLayer.Product"), [], kw)
        havoc(it, m)
        w = attr(it, m, "weight")
        bb = attr(it, m, "bias")
        x = leaf("x", B, fin)
        y = it.call(m, [x])

        def xv(b, i):
            return mirror(x.at(b, i), P) if P is not None else x.at(b, i)

        def f(b, o):
            pr = Prod(fin, lambda i: add(1, mul(xv(b, i), w.at(o, i))))
            lin = Sum(fin, lambda i: mul(xv(b, i), w.at(o, i)))
            r = sub(sub(pr, 1), mul(sub(1, al), lin))
            return add(r, bb.at(o)) if bias else r
        return [Eq("product of (1 + w x) minus 1, less (1 - alpha) times the linear part, plus bias", y, (B, fout), f, anchor=PR)]
    return fn


def bases(cls, flat):
    def fn(it):
        n, fin, fout, B = it.size("n", 2), it.size("inf"), it.size("outf"), it.size("B")
        al = it.real("alpha")
        L = it.real("L", 0)
        p = it.call(get(it, "LagrangePolynomial." + cls), [n], dict(length=L, alpha=al))
        x = leaf("x", B, fin)
        if flat:
            w = leaf("w", fout, fin, n, kind="param")
            wt = lambda b, o, i, k: w.at(o, i, k)
        else:
            w = leaf("w", B, fin, fout, n, kind="param")
            wt = lambda b, o, i, k: w.at(b, i, o, k)
        y = it.call(it.getattr(p, "interpolate"), [x, w])

        def f(b, o):
            g = lambda i: Sum(n, lambda k: mul(wt(b, o, i, k), basis(n, L, x.at(b, i), k)))
            return sub(sub(Prod(fin, lambda i: add(1, g(i))), 1), mul(sub(1, al), Sum(fin, g)))
        return [Eq("product of (1 + value) minus 1, less (1 - alpha) times the sum", y, (B, fout), f,
                   anchor="high_order_layers_torch/Basis.py")]
    return fn


def obligations():
    out = []
    for nm, C, kind, reg in (("continuous", "PolynomialLayers.PiecewisePolynomialProd", "cont", "continuous_prod"),
                             ("discontinuous", "PolynomialLayers.PiecewiseDiscontinuousPolynomialProd", "disc", "discontinuous_prod"),
                             ("single", "PolynomialLayers.PolynomialProd", "poly", "polynomial_prod")):
        out.append(Obligation("%s product, n >= 2" % nm, fc_forward(C, kind, "prod"), PL))
        out.append(Obligation("%s product, n = 1" % nm, fc_forward(C, kind, "prod", n=1), PL))
        out.append(Obligation("%s product, any length" % nm, fc_forward(C, kind, "prod", L_sym=True), PL))
        out.append(Obligation("%s product by registry name" % nm, fc_forward(C, kind, "prod", via=reg), PL))
    out += [
        Obligation("product layer", product(), PR),
        Obligation("product layer without bias", product(bias=False), PR),
        Obligation("product layer by registry name", product(via="product"), PR),
        Obligation("product basis with alpha", bases("LagrangePolyProd", False), "high_order_layers_torch/Basis.py"),
        Obligation("single element product basis with alpha", bases("LagrangePolyFlatProd", True), "high_order_layers_torch/Basis.py"),
    ]
    return out
