"""Initial weights."""
from .spec import *
from .P10 import glob
import itertools

LAYERS = [("continuous", "PolynomialLayers.PiecewisePolynomial", "cont"), ("continuous product", "PolynomialLayers.PiecewisePolynomialProd", "cont"),
          ("discontinuous", "PolynomialLayers.PiecewiseDiscontinuousPolynomial", "disc"),
          ("discontinuous product", "PolynomialLayers.PiecewiseDiscontinuousPolynomialProd", "disc"),
          ("single", "PolynomialLayers.Polynomial", "poly"), ("single product", "PolynomialLayers.PolynomialProd", "poly"),
          ("fourier", "PolynomialLayers.FourierSeries", "poly")]


def rand_atoms(n):
    return sorted({x for x in T.walk(n) if x.op == "elem" and T.CTX.tensors.get(x.args[0], {}).get("kind") == "rand01"}, key=lambda x: x.id)


def index(w):
    return [const(0) if nd(s).op == "q" and T.cval(nd(s)) == 1 else T.var(s) for s in w.shape]


def points(w):
    """all indexes of a tensor of fixed size"""
    if not all(nd(s).op == "q" for s in w.shape):
        return None
    pts = list(itertools.product(*[range(int(T.cval(nd(s)))) for s in w.shape]))
    return pts if len(pts) <= 800 else None


def each(what, w, lo, hi, over, anchor, pts):
    """spread, weight by weight"""
    owner, ends = {}, []
    for p in pts:
        n = T.strip_detach(w.at(*[const(i) for i in p]))
        if any(x.op == "elem" and T.CTX.tensors.get(x.args[0], {}).get("kind") == "uninit" for x in T.walk(n)):
            return [Fact("%s: every weight is initialised" % what, False, "uninitialised memory at %s" % (p,), anchor)]
        at = rand_atoms(n)
        if not at:
            others = [x for x in T.walk(n) if x.op in ("elem", "red", "last")]
            return [Fact("%s: weights are random" % what, False if not others else None, T.show(n)[:200], anchor)]
        lr = T.linear_in(n, at[0]) if len(at) == 1 else None
        if lr is None or at[0] in set(T.walk(lr[1])) or at[0] in set(T.walk(lr[0])):
            return [Fact("%s: range of the weights" % what, None, "not affine: %s" % T.show(n)[:200], anchor)]
        c1, c0 = lr
        e0, e1 = c0, add(c0, c1)
        if not T.nonneg(c1) and T.nonneg(T.neg(c1)):
            e0, e1 = e1, e0
        ends.append((e0, e1))
        owner.setdefault(at[0], set()).add(tuple(p[k] for k in over))
    out = []
    for e0, e1 in dict.fromkeys(ends):
        out.append(Holds("%s: smallest weight" % what, T.eq(e0, nd(lo)), anchor))
        out.append(Holds("%s: largest weight" % what, T.eq(e1, nd(hi)), anchor))
    shared = [sorted(v)[:2] for v in owner.values() if len(v) > 1]
    out.append(Fact("%s: independent random numbers" % what, not shared, "weights share one random number: %s" % shared[:2], anchor))
    return out


def spread(what, w, lo, hi, over, anchor):
    """w as an affine function of one uniform random number: its range and the indexes the number belongs to.
    over: positions of the indexes that must select different random numbers"""
    pts = points(w)
    if pts:
        return each(what, w, lo, hi, over, anchor, pts)
    vs = index(w)
    n = T.strip_detach(w.at(*vs))
    un = [x for x in T.walk(n) if x.op == "elem" and T.CTX.tensors.get(x.args[0], {}).get("kind") == "uninit"]
    if un:
        return [Fact("%s: every weight is initialised" % what, False, "uninitialised memory %s" % un[0].args[0], anchor)]
    at = rand_atoms(n)
    if not at:
        # no randomness at all: is the value a constant of the sizes
        others = [x for x in T.walk(n) if x.op in ("elem", "red", "last")]
        return [Fact("%s: weights are random" % what, False if not others else None, T.show(n)[:200], anchor)]
    if len(at) != 1:
        return [Fact("%s: weights are random" % what, None, "several random numbers in one weight", anchor)]
    a = at[0]
    lr = T.linear_in(n, a)
    if lr is None or a in set(T.walk(lr[1])) or a in set(T.walk(lr[0])):
        return [Fact("%s: range of the weights" % what, None, "not affine: %s" % T.show(n)[:200], anchor)]
    c1, c0 = lr
    out = []
    end0, end1 = c0, add(c0, c1)
    if not T.nonneg(c1) and T.nonneg(T.neg(c1)):
        end0, end1 = end1, end0
    out.append(Holds("%s: smallest weight" % what, T.eq(end0, nd(lo)), anchor))
    out.append(Holds("%s: largest weight" % what, T.eq(end1, nd(hi)), anchor))
    missing = [k for k in over if vs[k].op == "var" and vs[k] not in a.fv]
    out.append(Fact("%s: independent random numbers" % what, not missing, "weights share one random number along dimension %s" % missing, anchor))
    return out


def fc(cls, kind, mode, via=None):
    def fn(it):
        n, fin, fout, S = it.size("n", 2), it.size("inf"), it.size("outf"), it.size("S")
        wm = it.real("magnitude", 0)
        kw = dict(n=n, in_features=fin, out_features=fout, weight_magnitude=wm)
        if kind != "poly":
            kw["segments"] = S
        if mode:
            kw["initialize"] = mode
        m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type=via)) if via else it.call(get(it, cls), [], kw)
        w = attr(it, m, "w")
        top = div(wm, fin)
        if mode == "uniform":
            return spread("uniform", w, T.neg(top), top, (0, 1, 2), PL)
        return [Eq("constant along each link", w, w.shape, lambda o, i, k: w.at(o, i, const(0)), grad=False, anchor=PL)] + \
            spread("constant", w, const(0), top, (0, 1), PL)
    return fn


def piecewise_nd(mode, dims=2):
    def fn(it):
        fin, fout = it.size("inf"), it.size("outf")
        wm = it.real("magnitude", 0)
        n = I.LList([it.size("n%d" % d, 2) for d in range(dims)])
        S = I.LList([it.size("S%d" % d) for d in range(dims)])
        kw = dict(n=n, in_features=fin, out_features=fout, segments=S, weight_magnitude=wm)
        if mode:
            kw["initialize"] = mode
        m = it.call(get(it, "PolynomialLayers.PiecewiseND"), [], kw)
        w = attr(it, m, "w")
        top = div(wm, fin)
        if mode:
            return spread("uniform", w, T.neg(top), top, (0, 1, 2), PL)
        return [Eq("constant along each link", w, w.shape, lambda o, i, k: w.at(o, i, const(0)), grad=False, anchor=PL)] + \
            spread("constant", w, T.neg(top), top, (0, 1), PL)
    return fn


def conv2d(cls, kind):
    def fn(it):
        wm = it.real("magnitude", 0)
        n, cin, cout, S, K = it.size("n", 2), it.size("cin"), it.size("cout"), it.size("S"), it.size("K")
        kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=K, weight_magnitude=wm)
        if kind != "poly":
            kw["segments"] = S
        m = it.call(get(it, cls), [], kw)
        w = attr(it, m, "conv.weight")
        nb = conv_basis_count(kind, n, S)
        v = leaf("v", cin, lo=0, hi=0, dtype="long")

        # weight of channel c and node k is at c * nb + k
        sn = w.snap()
        w5 = TT.Tensor(TT.Storage([nd(cout), nd(cin), nb, nd(K), nd(K)],
                                  lambda o, c, k, a, b: sn(o, add(mul(c, nb), k), a, b), "float"),
                       [nd(cout), nd(cin), nb, nd(K), nd(K)])
        return [Eq("constant along each kernel tap", w5, w5.shape, lambda o, c, k, a, b: w5.at(o, c, const(0), a, b), grad=False, anchor=FC)] + \
            spread("constant", w5, const(0), div(wm, mul(cin, K, K)), (0, 1, 3, 4), FC)
    return fn


def conv_uniform(cls, kind, nd_, transpose=False):
    def fn(it):
        wm = it.real("magnitude", 0)
        n, cin, cout, S, K = it.size("n", 2), it.size("cin"), it.size("cout"), it.size("S"), it.size("K")
        kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=K, weight_magnitude=wm)
        if kind in ("cont", "disc"):
            kw["segments"] = S
        m = it.call(get(it, cls), [], kw)
        w = attr(it, m, "conv.weight")
        top = div(wm, mul(cin, *([K] * nd_)))
        vs = index(w)
        e = w.at(*vs)
        un = [x for x in T.walk(e) if x.op == "elem" and T.CTX.tensors.get(x.args[0], {}).get("kind") == "uninit"]
        at = rand_atoms(e)
        own = None if len(at) != 1 else all(v in at[0].fv for v in vs if v.op == "var")
        return [Fact("every weight is initialised", not un, "uninitialised memory", FC),
                Holds("at most the magnitude over the number of inputs", T.and_(T.le(T.neg(top), e), T.le(e, top)), FC),
                Fact("every weight has its own random number", own, "", FC)]
    return fn


def linear(cls, kind, L_sym=False):
    def fn(it):
        n, fin, fout, S = it.size("n", 2), it.size("inf"), it.size("outf"), it.size("S")
        slope, off = it.real("slope", 0), it.real("offset", 0)
        kw = dict(n=n, in_features=fin, out_features=fout, segments=S)
        L = const(2)
        if L_sym:
            L = kw["length"] = it.real("L", 0)
        m = it.call(get(it, cls), [], kw)
        it.call(get(it, "PolynomialLayers.initialize_polynomial_layer"), [m], dict(max_slope=slope, max_offset=off))
        return line("", attr(it, m, "w"), kind, n, L, S, slope, off)
    return fn


def lines(pre, w, kind, n, L, S, slope, off, pts):
    """line, weight by weight"""
    step = int(T.cval(nd(n))) - (1 if kind == "cont" else 0)
    last = int(T.cval(nd(S))) - 1
    links = {}
    for o, i, k in pts:
        links.setdefault((o, i), []).append((k, T.strip_detach(w.at(const(o), const(i), const(k)))))
    owner = {}
    bad = None
    for ln, ws in links.items():
        at = sorted({a for _, e in ws for a in rand_atoms(e)}, key=lambda x: x.id)
        if len(at) != 2:
            return [Fact(pre + "two random numbers per link", None if at else False, "%d" % len(at), PL)]
        fits = []
        for a, b in (at, at[::-1]):
            claims = []
            for k, e in ws:
                s = min(last, k // step)
                want = add(mul(slope, sub(mul(2, a), 1), glob(n, L, S, const(s), const(k - s * step))), mul(off, sub(mul(2, b), 1)))
                if want is not e:
                    claims.append(Eq(pre + "a line within the slope and offset limits", TT.Tensor(TT.Storage([], lambda e=e: e, "float"), []), (),
                                     lambda want=want: want, grad=False, anchor=PL))
            fits.append(claims)
        if all(fits):
            from engine import decide as D
            res = [[D.decide(c).status for c in cl[:6]] for cl in fits]
            if all("violation" in r for r in res):
                bad = ln
        for a in at:
            owner.setdefault(a, set()).add(ln)
    shared = [sorted(v)[:2] for v in owner.values() if len(v) > 1]
    return [Fact(pre + "a line within the slope and offset limits", bad is None, "link %s" % (bad,), PL),
            Fact(pre + "one line per link", not shared, "links share random numbers: %s" % shared[:2], PL)]


def line(pre, w, kind, n, L, S, slope, off):
    """the weights are the values of one random line per link at the nodes"""
    pts = points(w)
    if pts:
        return lines(pre, w, kind, n, L, S, slope, off, pts)
    o, i, k = [T.var(s) for s in w.shape]
    e = T.strip_detach(w.at(o, i, k))
    at = rand_atoms(e)
    step = sub(n, 1) if kind == "cont" else nd(n)
    s = T.app("min", sub(S, 1), T.app("fdiv", k, step))
    xg = glob(n, L, S, s, sub(k, mul(s, step)))
    if len(at) != 2:
        return [Fact(pre + "two random numbers per link", None if at else False, "%d" % len(at), PL)]
    # the one that multiplies the position, and the other
    res = None
    for a, b in ((at[0], at[1]), (at[1], at[0])):
        want = add(mul(slope, sub(mul(2, a), 1), xg), mul(off, sub(mul(2, b), 1)))
        if want is e:
            res = (a, b)
    if res is None:
        # decide by certificate against both orders
        a, b = at
        w1 = add(mul(slope, sub(mul(2, a), 1), xg), mul(off, sub(mul(2, b), 1)))
        w2 = add(mul(slope, sub(mul(2, b), 1), xg), mul(off, sub(mul(2, a), 1)))
        sc = TT.Tensor(TT.Storage(w.shape, w.snap(), "float"), w.shape)
        c1 = _try(pre, sc, o, i, k, w1)
        c2 = _try(pre, sc, o, i, k, w2)
        return [c1 if c1.status != "violation" else c2]
    own = all(v in x.fv for x in res for v in (o, i) if v.op == "var") and not any(k in x.fv for x in res)
    return [Fact(pre + "a line within the slope and offset limits", True, "", PL),
            Fact(pre + "one line per link", own, "random numbers %s" % [T.show(x) for x in res], PL)]


def _try(pre, t, o, i, k, want):
    from engine import decide as D

    def spec(*idx):
        return T.subst(want, dict(zip((o, i, k), idx)))
    c = Eq(pre + "a line within the slope and offset limits", t, t.shape, spec, grad=False, anchor=PL)
    r = D.decide(c)
    f = Fact(c.what, {"proved": True, "instances": True, "violation": False}.get(r.status), r.detail, PL)
    f.status = r.status
    return f


def obligations():
    out = []
    for nm, C, kind in LAYERS:
        out.append(Obligation("%s, default" % nm, fc(C, kind, None), PL))
        out.append(Obligation("%s, uniform" % nm, fc(C, kind, "uniform"), PL))
    out.append(Obligation("by registry name, uniform", fc(None, "cont", "uniform", via="continuous"), PL))
    out.append(Obligation("N dimensional piecewise, default", piecewise_nd(None), PL))
    out.append(Obligation("N dimensional piecewise, uniform", piecewise_nd("uniform"), PL))
    for nm, C, kind in (("continuous", "PiecewisePolynomialConvolution", "cont"),
                        ("discontinuous", "PiecewiseDiscontinuousPolynomialConvolution", "disc"), ("single", "PolynomialConvolution", "poly")):
        out.append(Obligation("%s convolution 2d" % nm, conv2d("FunctionalConvolution.%s2d" % C, kind), FC))
        out.append(Obligation("%s convolution 1d" % nm, conv_uniform("FunctionalConvolution.%s1d" % C, kind, 1), FC))
    for d in (1, 2):
        out.append(Obligation("fourier convolution %dd" % d, conv_uniform("FunctionalConvolution.FourierConvolution%dd" % d, "fourier", d), FC))
    out.append(Obligation("transposed convolution", conv_uniform(
        "FunctionalConvolutionTranspose.PiecewisePolynomialConvolutionTranspose2d", "cont", 2, True), FC))
    for nm, C, kind in (LAYERS[0], LAYERS[2]):
        out.append(Obligation("%s, linear" % nm, linear(C, kind), PL))
        out.append(Obligation("%s, linear, any length" % nm, linear(C, kind, True), PL))
    return out
