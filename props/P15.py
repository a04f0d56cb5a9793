"""SparseLion."""
from .spec import *

SL = "high_order_layers_torch/sparse_optimizers/sparse_lion.py"
MOD = "sparse_optimizers.sparse_lion."


def param(it, name, *shape, grad=True):
    return it.call(get(it, MOD + "torch.nn.Parameter"), [leaf(name, *shape)])


def step(p, m, g, lr, wd, b1, b2):
    """parameter and momentum after one step, elementwise"""
    nz = T.not_(T.eq(g, const(0)))
    p2 = sub(mul(p, sub(1, mul(lr, wd))), mul(lr, T.app("sign", add(mul(b1, m), mul(sub(1, b1), g)))))
    m2 = add(mul(b2, m), mul(sub(1, b2), g))
    return T.ite(nz, p2, p), T.ite(nz, m2, m)


def hyper(it, tag=""):
    return (it.real("lr" + tag, 0), it.real("wd" + tag, 0), it.real("beta1" + tag, 0, 1), it.real("beta2" + tag, 0, 1))


def steps(nd_, count, defaults=False):
    def fn(it):
        shape = [it.size("N%d" % k) for k in range(nd_)]
        p = param(it, "p0", *shape)
        kw = {}
        if defaults:
            lr, wd, b1, b2 = div(1, 10000), const(0), div(9, 10), div(99, 100)
        else:
            lr, wd, b1, b2 = hyper(it)
            kw = dict(lr=lr, betas=(b1, b2), weight_decay=wd)
        o = it.call(get(it, MOD + "SparseLion"), [I.LList([p])], kw)
        gs = []
        for k in range(count):
            g = leaf("g%d" % k, *shape)
            gs.append(g)
            it.setattr(p, "grad", g)
            it.call(it.getattr(o, "step"), [])

        def f(*i):
            v, m = T.elem("p0", i), const(0)
            for k in range(count):
                v, m = step(v, m, T.elem("g%d" % k, i), lr, wd, b1, b2)
            return v
        out = [Eq("parameters after %d steps" % count, p, shape, f, grad=False, anchor=SL)]
        for k, g in enumerate(gs):
            out.append(Eq("gradient %d is left as it was" % k, g, shape, lambda *i, k=k: T.elem("g%d" % k, i), grad=False, anchor=SL))
        return out
    return fn


def groups(it):
    """two groups with their own settings, parameters without gradient, one step per pattern of gradients"""
    N, M = it.size("N"), it.size("M")
    a, b, c, d = param(it, "a0", N), param(it, "b0", N, M), param(it, "c0", M), param(it, "d0", N)
    h1, h2 = hyper(it, "_one"), hyper(it, "_two")
    g1 = I.LDict([("params", I.LList([a, b])), ("lr", h1[0]), ("betas", (h1[2], h1[3])), ("weight_decay", h1[1])])
    g2 = I.LDict([("params", I.LList([c, d])), ("lr", h2[0]), ("betas", (h2[2], h2[3])), ("weight_decay", h2[1])])
    o = it.call(get(it, MOD + "SparseLion"), [I.LList([g1, g2])], {})
    it.setattr(a, "grad", leaf("ga", N))
    it.setattr(b, "grad", leaf("gb", N, M))
    it.setattr(c, "grad", None)
    it.setattr(d, "grad", leaf("gd", N))
    it.call(it.getattr(o, "step"), [])
    it.setattr(b, "grad", None)
    it.setattr(c, "grad", leaf("gc", M))
    it.setattr(a, "grad", leaf("ga2", N))
    it.call(it.getattr(o, "step"), [])

    def one(nm, g, h):
        return lambda *i: step(T.elem(nm, i), const(0), T.elem(g, i), *h)[0]

    def two(*i):
        p, m = step(T.elem("a0", i), const(0), T.elem("ga", i), *h1)
        return step(p, m, T.elem("ga2", i), *h1)[0]

    def dd(*i):
        p, m = step(T.elem("d0", i), const(0), T.elem("gd", i), *h2)
        return step(p, m, T.elem("gd", i), *h2)[0]
    return [Eq("gradient in both steps", a, (N,), two, grad=False, anchor=SL),
            Eq("gradient only in the first step", b, (N, M), one("b0", "gb", h1), grad=False, anchor=SL),
            Eq("gradient only in the second step", c, (M,), one("c0", "gc", h2), grad=False, anchor=SL),
            Eq("second group, same gradient twice", d, (N,), dd, grad=False, anchor=SL)]


def changed(it):
    """a schedule changes the learning rate between the steps"""
    N = it.size("N")
    p = param(it, "p0", N)
    lr, wd, b1, b2 = hyper(it)
    o = it.call(get(it, MOD + "SparseLion"), [I.LList([p])], dict(lr=lr, betas=(b1, b2), weight_decay=wd))
    it.setattr(p, "grad", leaf("g0", N))
    it.call(it.getattr(o, "step"), [])
    lr2 = it.real("lr2", 0)
    grp = it.getitem(it.getattr(o, "param_groups"), 0)
    grp.put("lr", lr2)
    it.setattr(p, "grad", leaf("g1", N))
    it.call(it.getattr(o, "step"), [])

    def f(i):
        v, m = step(T.elem("p0", (i,)), const(0), T.elem("g0", (i,)), lr, wd, b1, b2)
        return step(v, m, T.elem("g1", (i,)), lr2, wd, b1, b2)[0]
    return [Eq("second step uses the group's current learning rate", p, (N,), f, grad=False, anchor=SL)]


def closure(it):
    N = it.size("N")
    p = param(it, "p0", N)
    lr, wd, b1, b2 = hyper(it)
    o = it.call(get(it, MOD + "SparseLion"), [I.LList([p])], dict(lr=lr, betas=(b1, b2), weight_decay=wd))
    calls = []

    def run(it2, a, k):
        calls.append(not TT.State.nograd)
        it2.setattr(p, "grad", leaf("g0", N))
        return loss
    loss = leaf("loss")
    r = it.call(it.getattr(o, "step"), [I.Builtin("closure", run)])
    return [Fact("the closure is called once", len(calls) == 1, str(calls), SL), Fact("gradients are enabled in the closure", all(calls), "", SL),
            Fact("the loss of the closure is returned", r is loss, "", SL),
            Eq("the gradient of the closure is used", p, (N,), lambda i: step(T.elem("p0", (i,)), const(0), T.elem("g0", (i,)), lr, wd, b1, b2)[0],
               grad=False, anchor=SL)]


def refused(kw, what):
    def fn(it):
        p = param(it, "p0", 3)
        e = raises(it, lambda: it.call(get(it, MOD + "SparseLion"), [I.LList([p])], {k: (I.PF(v) if not isinstance(v, tuple) else tuple(I.PF(x) for x in v)) for k, v in kw.items()}))
        return [Fact("%s is refused" % what, e is not None, "", SL)]
    return fn


def obligations():
    out = []
    for n in (1, 2, 3, 4):
        for c in (1, 2, 3):
            out.append(Obligation("%d dimensional parameter, %d steps" % (n, c), steps(n, c), SL))
    out.append(Obligation("default settings", steps(2, 2, defaults=True), SL))
    out.append(Obligation("groups", groups, SL))
    out.append(Obligation("changed learning rate", changed, SL))
    out.append(Obligation("closure", closure, SL))
    from fractions import Fraction as Q
    out.append(Obligation("zero learning rate", refused(dict(lr=Q(0)), "a learning rate of zero"), SL))
    out.append(Obligation("negative learning rate", refused(dict(lr=Q(-1)), "a negative learning rate"), SL))
    out.append(Obligation("beta above one", refused(dict(betas=(Q(3, 2), Q(1, 2))), "a beta above one"), SL))
    out.append(Obligation("negative beta", refused(dict(betas=(Q(1, 2), Q(-1, 2))), "a negative beta"), SL))
    return out
