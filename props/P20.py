"""Multilayer networks: which layers, in which order."""
from .nets import *

NORM = dict(max_abs="layers.MaxAbsNormalization", center="layers.MaxCenterNormalization", l2="layers.L2Normalization")


def sizes(it, orders="one", small=None):
    s = dict(inw=it.size("inw"), hid=it.size("hid"), outw=it.size("outw"), n=it.size("n", 2), sin=it.size("Sin"), shid=it.size("Shid"),
             sout=it.size("Sout"))
    if orders == "each":
        s.update(nin=it.size("n_in", 2), nhid=it.size("n_hidden", 2), nout=it.size("n_out", 2))
    else:
        s.update(nin=s["n"], nhid=s["n"], nout=s["n"])
    return s


def between(it, norm, act, drop=False):
    out = []
    if norm:
        out.append(it.call(get(it, NORM[norm]), []))
    if act:
        out.append(it.call(torch_(it, "nn.ReLU"), []))
    return out


def residual(it, x, fs):
    y = fs[0](x)
    return TT.new(y.shape, lambda *i: add(y.at(*i), x.at(*i)), "float")


def high(kind, hidden, orders="one", norm=None, act=False, kind_in=None, period=False, resnet=False, drop=None, rescale=False, evaluate=False,
         init=None, scale=False):
    def fn(it):
        s = sizes(it, orders)
        P = it.real("P", 0) if period else None
        kw = dict(layer_type=kind, n=s["n"], in_width=s["inw"], out_width=s["outw"], hidden_layers=hidden, hidden_width=s["hid"])
        if orders == "each":
            kw.update(n_in=s["nin"], n_hidden=s["nhid"], n_out=s["nout"])
        seg_ = kind in SEGMENTED or kind_in in SEGMENTED
        if seg_:
            kw.update(in_segments=s["sin"], hidden_segments=s["shid"], out_segments=s["sout"])
        if norm:
            kw["normalization"] = get(it, NORM[norm])
        if act:
            kw["non_linearity"] = it.call(torch_(it, "nn.ReLU"), [])
        for k, v in (("layer_type_in", kind_in), ("periodicity", P), ("resnet", True if resnet else None),
                     ("dropout", None if drop is None else I.PF(drop)), ("rescale_output", True if rescale else None), ("initialization", init)):
            if v is not None:
                kw[k] = v
        net = it.call(get(it, "networks.HighOrderMLP"), [], kw)
        if evaluate:
            it.call(it.getattr(net, "eval"), [])
        parts = [documented(it, kind_in or kind, s["inw"], s["hid"], s["nin"], s["sin"], P)]
        for i in range(hidden):
            pre = between(it, norm, act)
            layer = documented(it, kind, s["hid"], s["hid"], s["nhid"], s["shid"], P)
            if resnet and i:
                layer = Fn(residual, layer)
            parts += pre + [layer]
        parts += between(it, norm, act) + [documented(it, kind, s["hid"], s["outw"], s["nout"], s["sout"], P)]
        ref = Chain(*parts)
        return compare(it, net, ref, s["inw"], s["outw"])
    return fn


def compare(it, net, ref, inw, outw):
    B = it.size("B")
    x = leaf("x", B, inw)
    out = tie(it, net, ref, NW, x)
    if failed(out):
        return out
    y = it.call(net, [x])
    z = ref(it, x)
    return out + [Eq("output is the composition of the documented layers", y, (B, outw), lambda b, o: z.at(b, o), anchor=NW)]


def low(hidden, norm=None, act=False):
    def fn(it):
        s = sizes(it)
        kw = dict(in_width=s["inw"], out_width=s["outw"], hidden_layers=hidden, hidden_width=s["hid"])
        if norm:
            kw["normalization"] = get(it, NORM[norm])
        if act:
            kw["non_linearity"] = it.call(torch_(it, "nn.ReLU"), [])
        net = it.call(get(it, "networks.LowOrderMLP"), [], kw)
        parts = [documented(it, "baseline", s["inw"], s["hid"])]
        for i in range(hidden):
            parts += between(it, norm, act) + [documented(it, "baseline", s["hid"], s["hid"])]
        parts += between(it, norm, act) + [documented(it, "baseline", s["hid"], s["outw"])]
        return compare(it, net, Chain(*parts), s["inw"], s["outw"])
    return fn


def listed(kinds, norm=None, act=None, period=False):
    def fn(it):
        k = len(kinds)
        w = [it.size("w%d" % i) for i in range(k + 1)]
        n = [it.size("n%d" % i, 2) for i in range(k)]
        S = [it.size("S%d" % i) for i in range(k)]
        P = it.real("P", 0) if period else None
        kw = dict(layer_type=I.LList(list(kinds)), n=I.LList(n), width=I.LList(w), segments=I.LList(S))
        if period:
            kw["periodicity"] = P
        if norm:
            kw["normalization"] = I.LList([get(it, NORM[x]) if x else None for x in norm])
        if act:
            kw["non_linearity"] = I.LList([it.call(torch_(it, "nn.ReLU"), []) if x else None for x in act])
        net = it.call(get(it, "networks.HighOrderMLPList"), [], kw)
        parts = []
        for i in range(k):
            if i:
                parts += between(it, norm and norm[i], act and act[i])
            parts.append(documented(it, kinds[i], w[i], w[i + 1], n[i], S[i], P))
        return compare(it, net, Chain(*parts), w[0], w[-1])
    return fn


def list_refused(nw, nl):
    def fn(it):
        kw = dict(layer_type=I.LList(["continuous"] * nl), n=I.LList([2] * nl), width=I.LList([3] * nw), segments=I.LList([2] * nl))
        e = raises(it, lambda: it.call(get(it, "networks.HighOrderMLPList"), [], kw))
        return [Fact("%d widths for %d layers are refused" % (nw, nl), e is not None and e.name == "ValueError", str(e), NW)]
    return fn


def multi(kind, replicas, hidden, orders="one", norm=None, act=False, kind_in=None, period=False):
    def fn(it):
        s = sizes(it, orders)
        P = it.real("P", 0) if period else None
        kw = dict(layer_type=kind, n=s["n"], replicas=replicas, in_width=s["inw"], out_width=s["outw"], hidden_layers=hidden, hidden_width=s["hid"])
        if orders == "each":
            kw.update(n_in=s["nin"], n_hidden=s["nhid"], n_out=s["nout"])
        if kind in SEGMENTED or kind_in in SEGMENTED:
            kw.update(in_segments=s["sin"], hidden_segments=s["shid"], out_segments=s["sout"])
        if norm:
            kw["normalization"] = get(it, NORM[norm])
        if act:
            kw["non_linearity"] = it.call(torch_(it, "nn.ReLU"), [])
        if kind_in:
            kw["layer_type_in"] = kind_in
        if period:
            kw["periodicity"] = P
        net = it.call(get(it, "networks.HighOrderMultiMLP"), [], kw)
        first = Chain(documented(it, kind_in or kind, s["inw"], s["hid"], s["nin"], s["sin"], P), *between(it, norm, act))
        cols = []
        for r in range(replicas):
            parts = [documented(it, kind_in or kind, s["hid"], s["hid"], s["nhid"], s["shid"], P)]
            for i in range(hidden):
                parts += between(it, norm, act) + [documented(it, kind, s["hid"], s["hid"], s["nhid"], s["shid"], P)]
            parts += between(it, norm, act) + [documented(it, kind, s["hid"], s["hid"], s["nhid"], s["shid"], P)]
            cols.append(Chain(*parts))
        last = Chain(*between(it, norm, act), documented(it, kind, s["hid"], s["outw"], s["nout"], s["sout"], P))
        ref = Chain(first, Fn(sum_of, *cols), last)
        B = it.size("B")
        x = leaf("x", B, s["inw"])
        out = tie(it, net, ref, NW, x)
        if failed(out):
            return out
        y = it.call(net, [x])
        z = ref(it, x)
        return out + [Eq("output layer of the sum over the replicas", y, (B, s["outw"]), lambda b, o: z.at(b, o), anchor=NW)]
    return fn


def obligations():
    out = []
    add_ = lambda nm, f: out.append(Obligation(nm, f, NW))
    for k in ("continuous", "discontinuous", "polynomial", "fourier", "continuous_prod", "discontinuous_prod", "polynomial_prod", "product",
              "switch_continuous", "switch_discontinuous", "baseline", "baseline_relu"):
        add_("%s, one hidden layer" % k, high(k, 1))
    for h in (0, 2, 3):
        add_("continuous, %d hidden layers" % h, high("continuous", h))
        add_("polynomial, %d hidden layers" % h, high("polynomial", h, orders="each"))
    add_("continuous, own orders", high("continuous", 1, orders="each"))
    add_("discontinuous, own orders", high("discontinuous", 2, orders="each"))
    add_("continuous, normalised", high("continuous", 2, norm="max_abs"))
    add_("continuous, normalised with activation", high("continuous", 1, norm="center", act=True))
    add_("polynomial, activation", high("polynomial", 2, act=True))
    add_("continuous, periodic", high("continuous", 1, period=True))
    add_("discontinuous, periodic", high("discontinuous", 1, period=True))
    add_("polynomial, periodic", high("polynomial", 1, period=True))
    add_("fourier input layer", high("continuous", 1, kind_in="fourier"))
    add_("polynomial input layer, own orders", high("discontinuous", 1, kind_in="polynomial", orders="each"))
    from fractions import Fraction as Q
    add_("dropout in evaluation", high("continuous", 1, drop=Q(1, 2), evaluate=True))
    add_("resnet", high("continuous", 2, resnet=True))
    add_("resnet, three hidden layers", high("polynomial", 3, resnet=True))
    add_("resnet, normalised", high("continuous", 2, norm="max_abs", resnet=True))
    add_("resnet, activation", high("discontinuous", 2, act=True, resnet=True))
    add_("uniform initialization", high("continuous", 1, init="uniform"))
    for h in (0, 1, 2):
        add_("low order, %d hidden layers" % h, low(h))
        add_("low order, %d hidden layers, normalised with activation" % h, low(h, norm="l2", act=True))
    add_("list, one layer", listed(["continuous"]))
    add_("list, three layers", listed(["continuous", "discontinuous", "polynomial"]))
    add_("list, two layers, periodic", listed(["polynomial", "continuous"], period=True))
    add_("list, normalised", listed(["continuous", "polynomial", "fourier"], norm=[None, "max_abs", None], act=[0, 1, 1]))
    add_("list, too many widths", list_refused(4, 2))
    add_("list, too few widths", list_refused(2, 2))
    for r in (1, 2, 3):
        add_("replicas, %d" % r, multi("continuous", r, 1))
    add_("replicas, own orders", multi("discontinuous", 2, 0, orders="each"))
    add_("replicas, normalised with activation", multi("continuous", 2, 1, norm="max_abs", act=True))
    add_("replicas, input layer", multi("continuous", 2, 1, kind_in="polynomial", orders="each"))
    add_("replicas, periodic", multi("polynomial", 2, 1, period=True))
    return out
