"""Lightning modules: losses, optimizers and the networks they train."""
from .nets import *
from .P19 import CV, same


def space(it, **kw):
    o = it.call(torch_(it, "nn.Namespace"), [])
    for k, v in kw.items():
        it.setattr(o, k, v)
    return o


def opt(it, **kw):
    d = dict(name="adam", lr=it.real("lr", 0), scheduler=None, patience=it.size("patience"), factor=it.real("factor", 0), gamma=it.real("gamma", 0))
    d.update(kw)
    return space(it, **d)


def config(it, kind="high_order", normalize=False, optimizer=None, hidden=1, layer="continuous"):
    s = dict(inw=it.size("inw"), hid=it.size("hid"), outw=it.size("outw"), n=it.size("n", 2), nin=it.size("n_in", 2), nhid=it.size("n_hidden", 2),
             nout=it.size("n_out", 2), sin=it.size("Sin"), shid=it.size("Shid"), sout=it.size("Sout"))
    net = dict(normalize=normalize, model_type=kind, layer_type=layer, n=s["n"])
    if kind in ("high_order", "high_order_input") or kind.startswith("?"):
        net.update(n_in=s["nin"], n_hidden=s["nhid"], n_out=s["nout"], input=space(it, width=s["inw"], segments=s["sin"]),
                   hidden=space(it, width=s["hid"], segments=s["shid"], layers=hidden), output=space(it, width=s["outw"], segments=s["sout"]))
    else:
        c, n, S = [it.size("c%d" % i) for i in range(3)], [it.size("n%d" % i, 2) for i in range(2)], [it.size("S%d" % i) for i in range(2)]
        s.update(c=c, ns=n, S=S, W=it.size("W", 8))
        net.update(layer_type=I.LList(["polynomial1d", "continuous1d"]), n=I.LList(n), channels=I.LList(c), segments=I.LList(S), kernel_size=I.LList([2, 3]),
                   periodicity=None, stride=I.LList([2, 1]), focus=I.LList([2, 1]), out_features=s["outw"], features=s["W"])
    cfg = space(it, net=space(it, **net), optimizer=optimizer or opt(it), data=space(it, classes=s["outw"]))
    return cfg, s


def logged(it, m):
    return [(it.getitem(x, 0), it.getitem(x, 1)) for x in it.iterate(attr(it, m, "logged"))]


def steps(cls, method, name, column=False):
    """column: targets of shape (B, 1) for labels, of shape (B,) for the values of a network with one output."""
    def fn(it):
        cfg, s = config(it)
        if column and cls == "RegressionNet":
            it.setattr(attr(it, cfg, "net.output"), "width", 1)
            s["outw"] = 1
        m = it.call(get(it, "modules." + cls), [cfg])
        havoc(it, m)
        B = it.size("B")
        x = leaf("x", B, s["inw"])
        z = it.call(attr(it, m, "model"), [x])
        f = it.call(m, [x])
        out = [Eq("the module applies its network", f, (B, s["outw"]), lambda *i: z.at(*i), anchor=MO)]
        if cls == "ClassificationNet":
            y = leaf("y", B, dtype="long", lo=0, hi=sub(nd(s["outw"]), const(1)))

            def ref():
                return div(Sum(B, lambda b: T.neg(sub(z.at(b, y.at(b)), T.app("log", Sum(s["outw"], lambda c: T.app("exp", z.at(b, c))))))), nd(B))
        else:
            y = leaf("y", B, s["outw"])

            def ref():
                return div(Sum(B, lambda b: Sum(s["outw"], lambda c: T.powi(sub(z.at(b, c), y.at(b, c)), 2))), mul(nd(B), nd(s["outw"])))
        given = y
        if column:
            given = it.call(it.getattr(y, "reshape"), [B, 1] if cls == "ClassificationNet" else [B])
        l = it.call(it.getattr(m, method), [(x, given), 0])
        out.append(Eq("%s returns the loss" % method, l, (), ref, anchor=MO))
        lg = logged(it, m)
        names = [a for a, _ in lg]
        want = ["%s_loss" % name] + (["%s_acc" % name] if cls == "ClassificationNet" else [])
        out.append(Fact("%s logs %s" % (method, ", ".join(want)), sorted(map(str, names)) == sorted(want), str(names), MO))
        for a, v in lg:
            if a == "%s_loss" % name:
                out.append(Eq("the logged loss is the loss", v, (), ref, anchor=MO, grad=False))
            if a == "%s_acc" % name:
                am = it.call(torch_(it, "argmax"), [z], dict(dim=1))
                out.append(Eq("the logged accuracy is the share of samples whose largest output is the label", v, (),
                              lambda: div(Sum(B, lambda b: T.ite(T.eq(am.at(b), y.at(b)), const(1), const(0))), nd(B)), anchor=MO, grad=False))
        return out
    return fn


def optimizer(name, cls, scheduler=None):
    def fn(it):
        o = opt(it, name=name, scheduler=scheduler)
        cfg, s = config(it, optimizer=o, normalize=True)
        m = it.call(get(it, "modules.RegressionNet"), [cfg])
        it.call(m, [leaf("x", it.size("B"), s["inw"])])
        if cls is None:
            e = raises(it, lambda: it.call(it.getattr(m, "configure_optimizers"), []))
            return [Fact("an unknown optimizer is refused", e is not None and e.name == "ValueError", str(e), MO)]
        r = it.call(it.getattr(m, "configure_optimizers"), [])
        out = []
        sch = None
        if scheduler in ("plateau", "exponential"):
            ok = isinstance(r, tuple) and len(r) == 2 and all(len(list(it.iterate(q))) == 1 for q in r)
            out.append(Fact("one optimizer and one scheduler are returned", ok, str(r), MO))
            if not ok:
                return out
            sch = list(it.iterate(r[1]))[0]
            r = list(it.iterate(r[0]))[0]
        ok = isinstance(r, I.Obj) and r.cls.name == cls
        out.append(Fact("%s selects %s" % (name, cls), ok, str(r), MO))
        if not ok:
            return out
        groups = list(it.iterate(it.getattr(r, "param_groups")))
        ps = [p for g in groups for p in it.iterate(it.getitem(g, "params"))]
        mine = parameters(m)
        out.append(Fact("all parameters are optimized, each once", sorted(id(p.st) for p in ps) == sorted(id(p.st) for _, p in mine),
                        "%d of %d" % (len(ps), len(mine)), MO))
        for g in groups:
            out.append(number("learning rate of the configuration", it.getitem(g, "lr"), it.getattr(o, "lr"), MO))
        if sch is not None:
            S = it.getitem(sch, "scheduler")
            out.append(Fact("the scheduler drives the optimizer", it.getattr(S, "optimizer") is r, "", MO))
            out.append(Fact("the training loss is monitored", it.getitem(sch, "monitor") == "train_loss", str(it.getitem(sch, "monitor")), MO))
            want = "ReduceLROnPlateau" if scheduler == "plateau" else "ExponentialLR"
            out.append(Fact("%s selects %s" % (scheduler, want), S.cls.name == want, S.cls.name, MO))
            out.append(Fact("reduce_on_plateau is set for the plateau scheduler only", it.getitem(sch, "reduce_on_plateau") == (scheduler == "plateau"), "", MO))
            for a in (("patience", "factor") if scheduler == "plateau" else ("gamma",)):
                if S.cls.name == want:
                    out.append(number("%s of the configuration" % a, it.getattr(S, a), it.getattr(o, a), MO))
            if scheduler == "plateau" and S.cls.name == want:
                out.append(Fact("the plateau is one of the smallest loss", it.getattr(S, "mode") == "min", str(it.getattr(S, "mode")), MO))
        return out
    return fn


def mlp(normalize, hidden, layer="continuous"):
    def fn(it):
        cfg, s = config(it, "high_order", normalize, hidden=hidden, layer=layer)
        net = it.call(get(it, "modules.select_network"), [cfg])
        parts = [documented(it, layer, s["inw"], s["hid"], s["nin"], s["sin"])]
        for i in range(hidden):
            parts += bn(it, normalize) + [documented(it, layer, s["hid"], s["hid"], s["nhid"], s["shid"])]
        parts += bn(it, normalize) + [documented(it, layer, s["hid"], s["outw"], s["nout"], s["sout"])]
        return finish(it, net, parts, leaf("x", it.size("B"), s["inw"]))
    return fn


def bn(it, on):
    return [it.call(torch_(it, "nn.LazyBatchNorm1d"), [])] if on else []


def finish(it, net, parts, x):
    it.call(it.getattr(net, "eval"), [])
    ref = Chain(*parts)
    for p in ref.mods():
        it.call(it.getattr(p, "eval"), [])
    return same(it, net, ref, x, None, "the network is the documented one", MO)


def first_high(normalize, hidden):
    def fn(it):
        cfg, s = config(it, "high_order_input", normalize, hidden=hidden)
        net = it.call(get(it, "modules.select_network"), [cfg])
        parts = [documented(it, "continuous", s["inw"], s["hid"], s["n"], s["sin"])] + bn(it, normalize)
        parts.append(it.call(torch_(it, "nn.Linear"), [s["hid"], s["hid"]]))
        for i in range(hidden - 1):
            parts += bn(it, normalize) + [it.call(torch_(it, "nn.ReLU"), []), it.call(torch_(it, "nn.Linear"), [s["hid"], s["hid"]])]
        parts += bn(it, normalize) + [it.call(torch_(it, "nn.ReLU"), []), it.call(torch_(it, "nn.Linear"), [s["hid"], s["outw"]])]
        return finish(it, net, parts, leaf("x", it.size("B"), s["inw"]))
    return fn


def convs(it, s):
    out = []
    for i, (k, ker, st) in enumerate((("polynomial1d", 2, 2), ("continuous1d", 3, 1))):
        kw = dict(n=s["ns"][i], in_channels=s["c"][i], out_channels=s["c"][i + 1], kernel_size=ker, stride=st)
        if k == "continuous1d":
            kw["segments"] = s["S"][i]
        b = it.call(torch_(it, "nn.BatchNorm1d"), [s["c"][i + 1]])
        out.append([build(it, CV[k], kw), b])
    return out


def conv(it):
    cfg, s = config(it, "high_order_conv")
    net = it.call(get(it, "modules.select_network"), [cfg])
    parts = [m for c in convs(it, s) for m in c] + [it.call(torch_(it, "nn.Flatten"), []), it.call(torch_(it, "nn.LazyLinear"), [s["outw"]])]
    return finish(it, net, parts, leaf("x", it.size("B"), s["c"][0], s["W"]))


def tail(it):
    cfg, s = config(it, "high_order_tail_focus")
    net = it.call(get(it, "modules.select_network"), [cfg])

    def f(it_, x, fs):
        a = fs[0](x)
        b = fs[1](a)
        cut = lambda t, n: it.call(it.getattr(it.getitem(t, (TT.Slice(None, None, None), TT.Slice(None, None, None), TT.Slice(-n, None, None))), "flatten"), [1])
        return it.call(torch_(it, "cat"), [I.LList([cut(x, 2), cut(a, 1), it.call(it.getattr(b, "flatten"), [1])])], dict(dim=1))
    cs = convs(it, s)
    parts = [Fn(f, *[Chain(*c) for c in cs]), it.call(torch_(it, "nn.LazyLinear"), [s["outw"]])]
    return finish(it, net, parts, leaf("x", it.size("B"), s["c"][0], s["W"]))


def refused(it):
    cfg, s = config(it, "?unknown")
    e = raises(it, lambda: it.call(get(it, "modules.select_network"), [cfg]))
    return [Fact("an unknown model type is refused", e is not None and e.name == "ValueError", str(e), MO)]


def obligations():
    out = []
    add_ = lambda nm, f: out.append(Obligation(nm, f, MO))
    for cls in ("ClassificationNet", "RegressionNet"):
        for meth, name in (("training_step", "train"), ("validation_step", "val"), ("test_step", "test")):
            add_("%s.%s" % (cls, meth), steps(cls, meth, name))
            add_("%s.%s, reshaped targets" % (cls, meth), steps(cls, meth, name, True))
    for n, c in (("adam", "Adam"), ("lion", "Lion"), ("unknown", None)):
        for sch in (None, "plateau", "exponential", "other"):
            if c or sch is None:
                add_("optimizer %s, scheduler %s" % (n, sch), optimizer(n, c, sch))
    for h in (0, 1, 2):
        add_("high_order, %d hidden layers" % h, mlp(False, h))
    add_("high_order, normalised", mlp(True, 1))
    add_("high_order, discontinuous", mlp(False, 1, "discontinuous"))
    for h in (1, 2):
        add_("high_order_input, %d layers" % h, first_high(False, h))
        add_("high_order_input, %d layers, normalised" % h, first_high(True, h))
    add_("high_order_conv", conv)
    add_("high_order_tail_focus", tail)
    add_("unknown model type", refused)
    return out
