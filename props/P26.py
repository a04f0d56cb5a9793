"""Operations on whole networks."""
from .nets import *
from .P09 import wval, separate
from .P10 import glob
from .P11 import line
from .P12 import closed
from .P19 import same
from .P20 import sizes, NORM, between, residual

KIND = dict(continuous="cont", continuous_prod="cont", discontinuous="disc", discontinuous_prod="disc", polynomial="poly", switch_continuous="cont",
            switch_discontinuous="disc")


def mlp(it, tag, kind, hidden, kind_in=None, norm=None, resnet=False, orders=None, segs=None, extra=None):
    """a network and, per weight in the order of application, (kind, n, S, fin, fout); widths are shared between networks"""
    w = [it.size("inw")] + [it.size("hid")] * (hidden + 1) + [it.size("outw")]
    n = orders or [it.size("n%s_in" % tag, 2), it.size("n%s_hid" % tag, 2), it.size("n%s_out" % tag, 2)]
    S = segs or [it.size("S_in"), it.size("S_hid"), it.size("S_out")]
    kw = dict(layer_type=kind, n=n[0], n_in=n[0], n_hidden=n[1], n_out=n[2], in_width=w[0], out_width=w[-1], hidden_width=w[1], hidden_layers=hidden)
    kw.update(in_segments=S[0], hidden_segments=S[1], out_segments=S[2])
    if kind_in:
        kw["layer_type_in"] = kind_in
    if norm:
        kw["normalization"] = get(it, NORM[norm])
    if resnet:
        kw["resnet"] = True
    kw.update(extra or {})
    net = it.call(get(it, "networks.HighOrderMLP"), [], kw)
    rows = []
    for i in range(hidden + 2):
        k = kind_in if kind_in and i == 0 else kind
        j = 0 if i == 0 else 2 if i == hidden + 1 else 1
        for r in range(2 if k.startswith("switch") else 1):
            rows.append((KIND[k], n[j], S[j], w[i], w[i + 1]))
    return net, rows


def weights(it, net, x):
    """the (three dimensional) weights in the order of application"""
    return [p for p in used_order(it, lambda: it.call(net, [x]), [net]) if p.ndim == 3]


def start(it, net, tag, rows):
    x = leaf("x", it.size("B"), it.size("inw"))
    ws = weights(it, net, x)
    if len(ws) != len(rows):
        raise Unsupported("%d weights, %d expected" % (len(ws), len(rows)))
    havoc(it, net, tag)
    names = {id(p.st): "%s.%s" % (tag, nm) for nm, p in parameters(net)}
    return ws, [leaf(names[id(p.st)], *p.shape, kind="param") for p in ws]


def interpolate(kind, hidden, **opts):
    def fn(it):
        a, ra = mlp(it, "a", kind, hidden, **opts)
        b, rb = mlp(it, "b", kind, hidden, **opts)
        wa, a0 = start(it, a, "a", ra)
        wb, _ = start(it, b, "b", rb)
        it.call(get(it, "networks.interpolate_high_order_mlp"), [a, b])
        out = [separate(it, a, b)]
        for q, (w, v, o, (k, n, S, fi, fo), (_, m, _, _, _)) in enumerate(zip(wb, wa, a0, ra, rb)):
            out.append(Eq("layer weights %d: values of the old functions at the new nodes" % q, w, (fo, fi, nweights(k, m, S)),
                          lambda x, y, z, k=k, n=n, m=m, S=S, o=o: wval(k, o, n, m, S, const(2), x, y, z), grad=False, anchor=NW))
            out.append(Eq("layer weights %d of the old network stay" % q, v, v.shape, lambda *i, o=o: o.at(*i), grad=False, anchor=NW))
        return out
    return fn


def refine(kind, hidden, **opts):
    def fn(it):
        a, ra = mlp(it, "a", kind, hidden, **opts)
        R = [it.size("R_in"), it.size("R_hid"), it.size("R_out")]
        b, rb = mlp(it, "b", kind, hidden, segs=R, **opts)
        wa, a0 = start(it, a, "a", ra)
        wb, _ = start(it, b, "b", rb)
        it.call(get(it, "networks.hp_refine_high_order_mlp"), [a, b])
        out = [separate(it, a, b)]
        for q, (w, v, o, (k, n, S, fi, fo), (_, m, R_, _, _)) in enumerate(zip(wb, wa, a0, ra, rb)):
            def val(x, y, z, n=n, m=m, S=S, R_=R_, o=o):
                s = T.app("min", sub(R_, 1), T.app("fdiv", z, sub(m, 1)))
                return link("cont", o, n, const(2), S, x, y, glob(m, const(2), R_, s, sub(z, mul(s, sub(m, 1)))))
            out.append(Eq("layer weights %d: values of the old functions at the new nodes" % q, w, (fo, fi, nweights(k, m, R_)), val, grad=False, anchor=NW))
            out.append(Eq("layer weights %d of the old network stay" % q, v, v.shape, lambda *i, o=o: o.at(*i), grad=False, anchor=NW))
        return out
    return fn


def smooth(kind, hidden, **opts):
    def fn(it):
        a, ra = mlp(it, "a", kind, hidden, **opts)
        wa, a0 = start(it, a, "a", ra)
        fac = it.real("factor")
        it.call(get(it, "networks.smooth_discontinuous_network"), [a], dict(factor=fac))
        out = []
        for q, (w, o, (k, n, S, fi, fo)) in enumerate(zip(wa, a0, ra)):
            f = (lambda x, y, z, n=n, S=S, o=o: closed(o, n, S, fac, x, y, z)) if k == "disc" else (lambda *i, o=o: o.at(*i))
            out.append(Eq("layer weights %d: %s" % (q, "jumps shrink" if k == "disc" else "unchanged"), w, (fo, fi, nweights(k, n, S)), f, grad=False, anchor=NW))
        return out
    return fn


def initial(kind, hidden, scale=None, **opts):
    def fn(it):
        a, ra = mlp(it, "a", kind, hidden, **opts)
        wa, a0 = start(it, a, "a", ra)
        slope, off = it.real("slope", 0), it.real("offset", 0)
        kw = dict(max_slope=slope, max_offset=off)
        if scale:
            c = it.real("c", 0)
            kw["scale_slope"] = I.Builtin("scale_slope", lambda it_, args, kw_: div(c, args[0]))
        it.call(get(it, "networks.initialize_network_polynomial_layers"), [a], kw)
        out = []
        for q, (w, (k, n, S, fi, fo)) in enumerate(zip(wa, ra)):
            sl = div(mul(slope, c), fi) if scale else slope
            out += line("layer weights %d: " % q, w, k, n, const(2), S, sl, off)
        ids = [T.walk(T.strip_detach(w.at(*[T.var(s) for s in w.shape]))) for w in wa]
        names = [{x.args[0] for x in i if x.op == "elem"} for i in ids]
        shared = [(i, j) for i in range(len(names)) for j in range(i) if names[i] & names[j]]
        out.append(Fact("every layer draws its own numbers", not shared, "layers %s share random numbers" % shared, NW))
        return out
    return fn


def other(kind):
    """layers of other types stay as they are"""
    def fn(it):
        a, ra = mlp(it, "a", kind, 1)
        wa, a0 = start(it, a, "a", ra)
        it.call(get(it, "networks.initialize_network_polynomial_layers"), [a], dict(max_slope=it.real("slope", 0), max_offset=it.real("offset", 0)))
        return [Eq("layer weights %d stay" % q, w, w.shape, lambda *i, o=o: o.at(*i), grad=False, anchor=NW) for q, (w, o) in enumerate(zip(wa, a0))]
    return fn


def transform(kind, width, rotations, hidden=1, norm=None, period="P", resnet=False):
    def fn(it):
        s = sizes(it, "each")
        kw = dict(layer_type=kind, in_width=width, hidden_width=s["hid"], out_width=s["outw"], n=s["n"], n_in=s["nin"], n_hidden=s["nhid"], n_out=s["nout"],
                  in_segments=s["sin"], hidden_segments=s["shid"], out_segments=s["sout"], hidden_layers=hidden, rotations=rotations)
        P = const(2)
        if period is None:
            P = kw["periodicity"] = None
        elif period == "P":
            P = kw["periodicity"] = it.real("P", 0)
        if norm:
            kw["normalization"] = get(it, NORM[norm])
        if resnet:
            kw["resnet"] = True
        net = it.call(get(it, "networks.transform_mlp"), [], kw)
        mid = []
        for i in range(hidden):
            l = documented(it, kind, s["hid"], s["hid"], s["nhid"], s["shid"], P)
            mid += between(it, norm, False) + [Fn(residual, l) if resnet and i else l]
        mid += between(it, norm, False)
        return finish(it, net, width, rotations, lambda w: [documented(it, kind, w, s["hid"], s["nin"], s["sin"], P)] + mid + [
            documented(it, kind, s["hid"], s["outw"], s["nout"], s["sout"], P)], s)
    return fn


def transform_low(width, rotations, hidden, norm=None, act=True):
    def fn(it):
        s = sizes(it)
        kw = dict(in_width=width, hidden_width=s["hid"], out_width=s["outw"], hidden_layers=hidden, rotations=rotations,
                  normalization=get(it, NORM[norm]) if norm else None, non_linearity=it.call(torch_(it, "nn.ReLU"), []) if act else None)
        net = it.call(get(it, "networks.transform_low_mlp"), [], kw)
        lin = lambda a, b: it.call(torch_(it, "nn.Linear"), [a, b])

        def parts(w):
            out = [lin(w, s["hid"])]
            for i in range(hidden):
                out += between(it, norm, act) + [lin(s["hid"], s["hid"])]
            return out + between(it, norm, act) + [lin(s["hid"], s["outw"])]
        return finish(it, net, width, rotations, parts, s)
    return fn


def finish(it, net, width, rotations, parts, s):
    rot, w = list(it.iterate(it.call(get(it, "layers.fixed_rotation_layer"), [], dict(n=width, rotations=rotations))))
    x = leaf("x", it.size("B"), width)
    first = used_order(it, lambda: it.call(net, [x]), [net])[0]
    ref = attr(it, rot, "weight")
    out = [Eq("the first layer is the fixed rotation", first, ref.shape, lambda *i: ref.at(*i), grad=False, anchor=NW),
           Fact("the rotation is not trained", not attr(it, first, "requires_grad"), "", NW)]
    return out + same(it, net, Chain(rot, *parts(w)), x, (it.size("B"), s["outw"]), "the network is the rotation followed by the documented network", NW)


def obligations():
    out = []
    add_ = lambda nm, f: out.append(Obligation(nm, f, NW))
    for k in ("continuous", "discontinuous", "switch_continuous", "switch_discontinuous", "polynomial", "continuous_prod"):
        add_("interpolate %s" % k, interpolate(k, 1))
    add_("interpolate continuous, no hidden layer", interpolate("continuous", 0))
    add_("interpolate continuous, three hidden layers", interpolate("continuous", 3))
    add_("interpolate continuous, normalised", interpolate("continuous", 1, norm="max_abs"))
    add_("interpolate continuous, residual", interpolate("continuous", 3, resnet=True))
    add_("interpolate polynomial, then continuous", interpolate("continuous", 1, kind_in="polynomial"))
    for k in ("continuous", "switch_continuous", "continuous_prod"):
        add_("refine %s" % k, refine(k, 1))
    add_("refine continuous, no hidden layer", refine("continuous", 0))
    add_("refine continuous, three hidden layers", refine("continuous", 3))
    add_("refine continuous, normalised", refine("continuous", 1, norm="max_abs"))
    add_("refine continuous, residual", refine("continuous", 3, resnet=True))
    for k in ("discontinuous", "discontinuous_prod", "switch_discontinuous"):
        add_("smooth %s" % k, smooth(k, 1))
    add_("smooth continuous, then discontinuous", smooth("discontinuous", 1, kind_in="continuous"))
    add_("smooth, residual", smooth("discontinuous", 2, resnet=True, norm="max_abs"))
    add_("smooth continuous", smooth("continuous", 1))
    for k in ("continuous", "discontinuous", "switch_continuous", "switch_discontinuous"):
        add_("initialize %s" % k, initial(k, 1))
        add_("initialize %s, scaled slope" % k, initial(k, 1, True))
    add_("initialize continuous, no hidden layer", initial("continuous", 0))
    add_("initialize, residual", initial("continuous", 2, True, resnet=True, norm="max_abs"))
    add_("initialize polynomial", other("polynomial"))
    for k in ("continuous", "discontinuous", "polynomial"):
        add_("transform %s" % k, transform(k, 2, 2))
    add_("transform, default period", transform("continuous", 2, 2, period=2))
    add_("transform, not periodic", transform("continuous", 2, 2, period=None))
    add_("transform, one rotation", transform("continuous", 3, 1))
    add_("transform, three inputs, three rotations", transform("continuous", 3, 3, hidden=2))
    add_("transform, normalised, residual", transform("continuous", 2, 2, 2, norm="max_abs", resnet=True))
    for h in (0, 1, 2):
        add_("low order transform, %d hidden layers" % h, transform_low(2, 3, h, act=bool(h), norm="max_abs" if h == 2 else None))
    return out
