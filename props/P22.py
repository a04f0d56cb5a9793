"""Tail focus networks."""
from .nets import *
from .P19 import CV
from .P21 import lists


def build_net(it, kinds, kernels, focus, strides=None, padding=None, normal=False, scalars=False, period=False, rescale=False, widths=True):
    k = len(kinds)
    c, n, S, n_, S_ = lists(it, k, scalars)
    kw = dict(layer_type=kinds[0] if scalars else I.LList(list(kinds)), n=n_, channels=I.LList(c), segments=S_, kernel_size=I.LList(list(kernels)),
              focus=focus if isinstance(focus, int) else I.LList(list(focus)))
    if strides is not None:
        kw["stride"] = strides if isinstance(strides, int) else I.LList(list(strides))
    P = it.real("P", 0) if period else None
    for a, v in (("padding", padding), ("periodicity", P), ("rescale_output", True if rescale else None)):
        if v is not None:
            kw[a] = v
    if normal:
        kw["normalization"] = torch_(it, "nn.BatchNorm1d")
    st = [strides] * k if isinstance(strides, int) else strides
    fo = [focus] * k if isinstance(focus, int) else list(focus)
    net = it.call(get(it, "networks.HighOrderTailFocusNetwork"), [], kw)
    it.call(it.getattr(net, "eval"), [])
    parts = []
    for i in range(k):
        lk = dict(n=n[i], in_channels=c[i], out_channels=c[i + 1], kernel_size=kernels[i], periodicity=P, stride=st[i] if st else None,
                  padding=padding, rescale_output=True if rescale else None)
        if kinds[i][:-2] in SEGMENTED:
            lk["segments"] = S[i]
        ms = [build(it, CV[kinds[i]], lk)]
        if normal:
            b = it.call(torch_(it, "nn.BatchNorm1d"), [c[i + 1]])
            it.call(it.getattr(b, "eval"), [])
            ms.append(b)
        parts.append(Chain(*ms))
    return net, parts, c, fo, st


def outputs(*a, low=5, **k):
    """the last positions of the input and of every stage but the last, channel by channel, then the whole last stage"""
    def fn(it):
        net, parts, c, fo, st = build_net(it, *a, **k)
        W = it.size("W", low)
        B = it.size("B")
        x = leaf("x", B, c[0], W)
        stages = []

        def ref_(it_, x_, fs):
            stages[:] = [x_]
            for f in fs:
                stages.append(f(stages[-1]))
            return stages[-1]
        ref = Fn(ref_, *parts)
        out = tie(it, net, ref, NW, x)
        if failed(out):
            return out
        y = it.call(net, [x])
        ref(it, x)
        ks = len(parts)
        blocks = []
        for i in range(ks):
            t = stages[i]
            w = t.shape[2]
            blocks.append((t, c[i], fo[i], sub(nd(w), const(fo[i]))))
        last = stages[-1]
        blocks.append((last, c[-1], last.shape[2], const(0)))
        offs, o = [], const(0)
        for t, ch, f, s0 in blocks:
            offs.append(o)
            o = add(o, mul(nd(ch), nd(f)))
        out.append(shape_is("the output holds every tail and the last stage", y, (B, o), NW))
        for i, (t, ch, f, s0) in enumerate(blocks):
            out.append(Eq("block %d is the %s of stage %d" % (i, "whole" if i == ks else "tail", i),
                          TT.new([nd(B), nd(ch), nd(f)], lambda b, q, p, o=offs[i], f=f: y.at(b, add(o, add(mul(q, nd(f)), p))), "float"),
                          (B, ch, f), lambda b, q, p, t=t, s0=s0: t.at(b, q, add(s0, p)), anchor=NW))
        return out
    return fn


def predicted(*a, low=5, **k):
    """compute_sizes predicts the widths of the stages and the sizes of the blocks"""
    def fn(it):
        net, parts, c, fo, st = build_net(it, *a, **k)
        W = it.size("W", low)
        B = it.size("B")
        x = leaf("x", B, c[0], W)
        r = it.call(it.getattr(net, "compute_sizes"), [W])
        ws, bs = list(it.iterate(it.getitem(r, 0))), list(it.iterate(it.getitem(r, 1)))
        st_ = [x]
        for p in parts:
            st_.append(p(it, st_[-1]))
        out = [Fact("one width per stage and one size per block", len(ws) == len(st_) and len(bs) == len(st_), "%d, %d" % (len(ws), len(bs)), NW)]
        if failed(out):
            return out
        for i, s in enumerate(st_):
            out.append(number("width %d" % i, ws[i], s.shape[2], NW))
            out.append(number("size of block %d" % i, bs[i], mul(nd(c[i]), nd(fo[i] if i < len(fo) else s.shape[2])), NW))
        y = it.call(net, [x])
        tot = const(0)
        for b in bs:
            tot = add(tot, nd(b))
        out.append(number("the blocks make up the output", y.shape[1], tot, NW))
        return out
    return fn


def obligations():
    out = []
    c1, d1, p1, f1 = "continuous1d", "discontinuous1d", "polynomial1d", "fourier1d"
    cases = [("one layer", dict(kinds=[c1], kernels=[2], focus=[2])),
             ("two layers", dict(kinds=[c1, d1], kernels=[2, 3], focus=[2, 1])),
             ("two layers, wide tails", dict(kinds=[p1, p1], kernels=[2, 2], focus=[3, 3])),
             ("three layers", dict(kinds=[p1, f1, p1], kernels=[2, 1, 3], focus=[1, 2, 3], low=7)),
             ("one focus", dict(kinds=[p1, p1], kernels=[2, 2], focus=2, scalars=True)),
             ("batch normalised", dict(kinds=[p1, c1], kernels=[2, 2], focus=[2, 1], normal=True)),
             ("strides", dict(kinds=[p1, p1], kernels=[2, 2], focus=[2, 1], strides=[2, 1])),
             ("one stride", dict(kinds=[p1, p1], kernels=[3, 2], focus=[2, 1], strides=2, low=8)),
             ("padded", dict(kinds=[p1, p1], kernels=[3, 3], focus=[2, 2], padding=1)),
             ("padded, strides", dict(kinds=[p1, p1], kernels=[3, 3], focus=[2, 2], padding=1, strides=[2, 1])),
             ("periodic", dict(kinds=[c1, p1], kernels=[2, 2], focus=[2, 1], period=True)),
             ("rescaled", dict(kinds=[c1, p1], kernels=[2, 2], focus=[2, 1], rescale=True))]
    for nm, k in cases:
        out.append(Obligation(nm, outputs(**k), NW))
        out.append(Obligation(nm + ", predicted sizes", predicted(**k), NW))
    return out
