"""N dimensional polynomial layers."""
from .spec import *


def unravel(k, dims):
    """row major multi index of flat index k"""
    out = []
    for d in range(len(dims)):
        rest = const(1)
        for e in dims[d + 1:]:
            rest = T.mul(rest, nd(e))
        q = T.app("fdiv", k, rest) if not (rest.op == "q" and T.cval(rest) == 1) else k
        out.append(q if d == 0 else T.app("mod", q, nd(dims[d])))
    return out


def prodn(ns):
    r = const(1)
    for n in ns:
        r = T.mul(r, nd(n))
    return r


def nd_basis(ns, L, xs, k):
    ks = unravel(k, ns)
    r = const(1)
    for n, x, j in zip(ns, xs, ks):
        r = T.mul(r, basis(n, L, x, j))
    return r


def pyint(n):
    return n


def poly_nd(dims, listed, cls=None, via=None, L_sym=False, one=None):
    def fn(it):
        fin, fout, B = it.size("inf"), it.size("outf"), it.size("B")
        if listed:
            ns = [it.size("n%d" % d, 2) for d in range(dims)]
            if one is not None:
                ns[one] = 1
            arg = I.LList(ns)
        else:
            n0 = it.size("n", 2)
            ns = [n0] * dims
            arg = n0
        kw = dict(n=arg, in_features=fin, out_features=fout)
        L = const(2)
        if L_sym:
            L = it.real("L", 0)
            kw["length"] = L
        if via:
            m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type=via))
        else:
            if cls == "PolynomialND":
                kw["dimensions"] = dims
            m = it.call(get(it, "PolynomialLayers." + cls), [], kw)
        havoc(it, m)
        w = attr(it, m, "w")
        x = leaf("x", B, fin, dims)
        y = it.call(m, [x])
        nb = prodn(ns)

        def f(b, o):
            return Sum(fin, lambda i: Sum(nb, lambda k: mul(w.at(o, i, k), nd_basis(ns, L, [x.at(b, i, const(d)) for d in range(dims)], k))))
        return [shape_is("one weight per output, input and node", w, (fout, fin, nb), PL),
                Eq("sum over the inputs of the tensor product interpolant of the input's coordinates", y, (B, fout), f, anchor=PL)]
    return fn


def piecewise_nd(dims, listed=True, L_sym=False, which="forward", coord=False):
    def fn(it):
        fin, fout, B = it.size("inf"), it.size("outf"), it.size("B")
        kw = {}
        if listed:
            ns = [it.size("n%d" % d, 2) for d in range(dims)]
            ss = [it.size("S%d" % d) for d in range(dims)]
            kw["n"], kw["segments"] = I.LList(ns), I.LList(ss)
        else:
            n0, s0 = it.size("n", 2), it.size("S")
            ns, ss = [n0] * dims, [s0] * dims
            kw["n"], kw["segments"], kw["dimensions"] = n0, s0, dims
        L = const(2)
        if L_sym:
            L = it.real("L", 0)
            kw["length"] = L
        m = it.call(get(it, "PolynomialLayers.PiecewiseND"), [], dict(kw, in_features=fin, out_features=fout))
        havoc(it, m)
        w = attr(it, m, "w")
        x = leaf("x", B, fin, dims)
        if coord:
            s = it.call(attr(it, m, "which_segment"), [x])
            sx = leaf("sx", B, fin, dims, dtype="long", lo=0, hi=0)
            xl = it.call(attr(it, m, "x_local"), [x, sx])
            xg = it.call(attr(it, m, "x_global"), [x, sx])
            L2 = T.div(nd(L), const(2))

            def pick(f):
                def g(b, i, d):
                    r = f(b, i, dims - 1)
                    for e in range(dims - 2, -1, -1):
                        r = T.ite(T.eq(d, const(e)), f(b, i, e), r)
                    return r
                return g

            def glob(b, i, d):
                d_ = const(d)
                return T.sub(T.div(T.mul(nd(L), T.add(sx.at(b, i, d_), T.div(T.add(x.at(b, i, d_), L2), nd(L)))), nd(ss[d])), L2)
            return [Eq("segment number per coordinate", s, (B, fin, dims), pick(lambda b, i, d: seg(x.at(b, i, const(d)), L, ss[d])), anchor=PL),
                    Eq("local coordinate", xl, (B, fin, dims), pick(lambda b, i, d: xloc(x.at(b, i, const(d)), L, ss[d], sx.at(b, i, const(d)))), anchor=PL),
                    Eq("global coordinate", xg, (B, fin, dims), pick(glob), anchor=PL)]
        y = it.call(m, [x])
        nb = prodn(ns)

        def f(b, o):
            def link_(i):
                xs = [x.at(b, i, const(d)) for d in range(dims)]
                sg = [seg(xs[d], L, ss[d]) for d in range(dims)]
                cell = const(0)
                for d in range(dims):
                    cell = T.add(cell, T.mul(sg[d], prodn(ss[d + 1:])))
                xl = [xloc(xs[d], L, ss[d], sg[d]) for d in range(dims)]
                return Sum(nb, lambda k: mul(w.at(i, o, add(mul(cell, nb), k)), nd_basis(ns, L, xl, k)))
            return Sum(fin, link_)
        return [shape_is("one weight per input, output, cell and node", w, (fin, fout, mul(nb, prodn(ss))), PL),
                Eq("sum over the inputs of the tensor product interpolant of the cell", y, (B, fout), f, anchor=PL)]
    return fn


def rejects(it):
    e = raises(it, lambda: mk(it, "PolynomialLayers.PiecewiseND", n=3, in_features=2, out_features=2, segments=2))
    e2 = raises(it, lambda: mk(it, "PolynomialLayers.PiecewiseND", n=I.LList([2, 3]), in_features=2, out_features=2, segments=I.LList([2, 3, 4])))
    return [Fact("a scalar node count without dimensions is refused", e is not None and e.name == "ValueError", str(e), PL),
            Fact("node and segment counts of different dimension are refused", e2 is not None and e2.name == "ValueError", str(e2), PL)]


def obligations():
    out = []
    for d in (1, 2, 3):
        out.append(Obligation("%dD polynomial, node count per dimension" % d, poly_nd(d, True, "PolynomialND"), PL))
    for d in (2, 3, 4, 5):
        out.append(Obligation("%dD polynomial, one node count" % d, poly_nd(d, False, "Polynomial%dD" % d), PL))
    for d in (2, 3):
        out.append(Obligation("%dD polynomial by registry name" % d, poly_nd(d, False, via="polynomial_%dd" % d), PL))
    out.append(Obligation("2D polynomial, one node in a dimension", poly_nd(2, True, "PolynomialND", one=0), PL))
    out.append(Obligation("2D polynomial, any length", poly_nd(2, True, "PolynomialND", L_sym=True), PL))
    for d in (1, 2, 3):
        out.append(Obligation("%dD piecewise, counts per dimension" % d, piecewise_nd(d), PL))
    out.append(Obligation("2D piecewise, one count", piecewise_nd(2, False), PL))
    out.append(Obligation("2D piecewise, any length", piecewise_nd(2, True, True), PL))
    out.append(Obligation("2D piecewise coordinates", piecewise_nd(2, coord=True), PL))
    out.append(Obligation("3D piecewise coordinates, any length", piecewise_nd(3, coord=True, L_sym=True), PL))
    out.append(Obligation("piecewise validation", rejects, PL))
    return out
