"""Evaluating a module has no side effects and treats samples independently."""
from .catalog import *


def pure(build_, anchor):
    def fn(it):
        m, inputs = build_(it)
        havoc(it, m)
        b0 = it.size("b0", 0)
        B = add(b0, it.size("rest", 0), 1)
        x = inputs(B)[0]
        xs = x.shape
        y = it.call(m, [x])
        sn = y.snap()
        out = [Eq("the input is left as it was", x, xs, lambda *i: T.elem("x", i), grad=False, anchor=anchor)]
        for nm, p in parameters(m):
            if p.requires_grad and not (p.attrs and p.attrs.get("uninit_param")):
                out.append(Eq("parameter %s is left as it was" % nm, p, p.shape, lambda *i, nm=nm: T.elem("p." + nm, i), grad=False, anchor=anchor))
        it.call(m, [TT.leaf("other x", list(xs))])
        out.append(Eq("an earlier result is left as it was", y, y.shape, sn, grad=False, anchor=anchor))
        again = it.call(m, [TT.new(xs, lambda *i: T.elem("x", i), "float")])
        out.append(Eq("a later evaluation gives the same values", again, y.shape, sn, grad=False, anchor=anchor))
        one = TT.new([const(1)] + list(xs[1:]), lambda *i: T.elem("x", (nd(b0),) + tuple(i[1:])), "float")
        z = it.call(m, [one])
        out.append(Eq("a sample gives the same values alone and in a batch", z, (1,) + tuple(y.shape[1:]), lambda *i: sn(nd(b0), *i[1:]),
                      grad=False, anchor=anchor))
        return out
    return fn


def obligations():
    return [Obligation(nm, pure(b, a), a) for nm, b, a in LAYERS + CONVS + NETS + NORMS + EMB]
