"""Networks against chains of their documented layers."""
from .spec import *

NW, LY, MO = ("high_order_layers_torch/%s.py" % x for x in ("networks", "layers", "modules"))
CLASSES = {
    "continuous": "PolynomialLayers.PiecewisePolynomial",
    "continuous_prod": "PolynomialLayers.PiecewisePolynomialProd",
    "discontinuous": "PolynomialLayers.PiecewiseDiscontinuousPolynomial",
    "discontinuous_prod": "PolynomialLayers.PiecewiseDiscontinuousPolynomialProd",
    "polynomial": "PolynomialLayers.Polynomial",
    "polynomial_prod": "PolynomialLayers.PolynomialProd",
    "product": "ProductLayer.Product",
    "fourier": "PolynomialLayers.FourierSeries",
    "polynomial_2d": "PolynomialLayers.Polynomial2D",
    "polynomial_3d": "PolynomialLayers.Polynomial3D",
    "polynomial_4d": "PolynomialLayers.Polynomial4D",
    "polynomial_5d": "PolynomialLayers.Polynomial5D",
}
SEGMENTED = ("continuous", "continuous_prod", "discontinuous", "discontinuous_prod", "switch_continuous", "switch_discontinuous")


def torch_(it, dotted):
    return get(it, "layers.torch." + dotted)


def build(it, dotted, kw):
    return it.call(get(it, dotted), [], {k: v for k, v in kw.items() if v is not None})


class Chain:
    """a module standing for modules applied one after another"""

    def __init__(self, *parts):
        self.parts = parts

    def __call__(self, it, x):
        for p in self.parts:
            x = p(it, x) if isinstance(p, (Chain, Fn)) else it.call(p, [x])
        return x

    def mods(self):
        out = []
        for p in self.parts:
            out += p.mods() if isinstance(p, (Chain, Fn)) else [p]
        return out


class Fn:
    """modules combined by a function of their values"""

    def __init__(self, f, *parts):
        self.f, self.parts = f, parts

    def __call__(self, it, x):
        return self.f(it, x, [(lambda y, p=p: p(it, y) if isinstance(p, (Chain, Fn)) else it.call(p, [y])) for p in self.parts])

    def mods(self):
        out = []
        for p in self.parts:
            out += p.mods() if isinstance(p, (Chain, Fn)) else [p]
        return out


def product_of(it, x, fs):
    r = fs[0](x)
    for f in fs[1:]:
        y = f(x)
        r = TT.new(r.shape, lambda *i, a=r, b=y: mul(a.at(*i), b.at(*i)), "float")
    return r


def sum_of(it, x, fs):
    r = fs[0](x)
    for f in fs[1:]:
        y = f(x)
        r = TT.new(r.shape, lambda *i, a=r, b=y: add(a.at(*i), b.at(*i)), "float")
    return r


def documented(it, kind, fin, fout, n=None, segments=None, periodicity=None, replicas=2, init=None):
    """the layer a layer type stands for"""
    if kind.startswith("switch_"):
        return Fn(product_of, *[documented(it, kind[7:], fin, fout, n, segments) for _ in range(replicas)])
    if kind in ("baseline", "baseline_relu"):
        lin = it.call(torch_(it, "nn.Linear"), [fin, fout])
        if kind == "baseline":
            return Chain(lin)
        return Chain(lin, it.call(torch_(it, "nn.ReLU"), []))
    kw = dict(n=n, in_features=fin, out_features=fout, periodicity=periodicity, initialize=init)
    if kind in SEGMENTED:
        kw["segments"] = segments
    return Chain(build(it, CLASSES[kind], kw))


def all_parameters(mods):
    out, seen = [], set()
    for m in mods:
        for nm, p in parameters(m):
            if id(p.st) not in seen:
                seen.add(id(p.st))
                out.append((nm, p))
    return out


def used_order(it, run, mods):
    """registered parameters below mods in the order in which their modules are first applied by run()"""
    old, it.trace = it.trace, []
    try:
        run()
        called = it.trace
    finally:
        it.trace = old
    rank = {}
    for o in called:
        rank.setdefault(id(o), len(rank))
    out, seen = [], set()
    for m in mods:
        for name, o in modules(m):
            P = o.cell_get("_parameters")
            if P is MISSING:
                continue
            for k, v in P.pairs():
                if v is not None and id(v.st) not in seen:
                    seen.add(id(v.st))
                    out.append((rank.get(id(o), len(rank)), len(out), v))
    return [v for _, _, v in sorted(out, key=lambda t: t[:2])]


def tie(it, net, ref, anchor, x, tag="net", run=None):
    """arbitrary weights for the network, the same ones for the reference in the order in which they are applied;
    claims on their number and shapes"""
    ps = used_order(it, run or (lambda: it.call(net, [x])), [net])
    havoc(it, net, tag)
    a = parameters(net)
    names = {id(p.st): "%s.%s" % (tag, nm) for nm, p in a}
    qs = used_order(it, lambda: ref(it, x), ref.mods())
    return tie_ordered(it, ps, qs, names, anchor)


def tie_ordered(it, ps, b, names, anchor):
    ok = len(ps) == len(b)
    out = [Fact("the network has the parameters of its layers, and no others", ok,
                "" if ok else "%d parameters registered, the layers have %d" % (len(ps), len(b)), anchor)]
    if not ok:
        return out
    for p, q in zip(ps, b):
        if p.attrs and p.attrs.get("uninit_param"):
            continue
        nm = names[id(p.st)]
        same = p.ndim == q.ndim and all(TT.same_dim(x, y) for x, y in zip(p.shape, q.shape))
        out.append(Fact("%s has the shape of the layer's parameter" % nm, same,
                        "" if same else "%s, expected %s" % ([T.show(s) for s in p.shape], [T.show(s) for s in q.shape]), anchor))
        if not same:
            return out
        q.write(lambda *i, nm=nm: T.elem(nm, i))
    return out


def failed(facts):
    return any(isinstance(f, Fact) and f.ok is False for f in facts)


def number(what, v, ref, anchor):
    """a Python number or a tensor of no dimensions equals the term ref"""
    t = v if isinstance(v, TT.Tensor) else TT.new([], lambda: nd(v), "float")
    return Eq(what, t, (), lambda: nd(ref), anchor=anchor, grad=False)
