"""Modules keep no hidden state and do not influence each other."""
from .catalog import *


def again(t, name):
    return TT.leaf(name, list(t.shape))


def history(build_, anchor, few):
    """another module of the kind, whose configuration differs in one respect, exists and has been used before"""
    def fn(it):
        B = it.size("B")
        it.asked = []
        build_(it)
        names = [n for n in dict.fromkeys(it.asked) if not n.startswith("W")]
        if few:
            names = [n for n in names if n[0] in "nS"][:2] or names[:1]
        out = []
        for v in names or [None]:
            it.modules = {}
            out += pair(it, B, [v] if v else [])
        return out

    def pair(it, B, vary):
        m1, in1 = build_(it)
        havoc(it, m1, "p")
        x1 = again(in1(B)[0], "x1")
        y1 = it.call(m1, [x1])
        s1 = y1.snap()
        it.rename = {v: v + "'" for v in vary}
        m2, in2 = build_(it)
        shared = [n for n, p in parameters(m2) for _, q in parameters(m1) if p.st is q.st]
        havoc(it, m2, "q")
        x2 = again(in2(B)[0], "x2")
        y2 = it.call(m2, [x2])
        s2, shape2 = y2.snap(), y2.shape
        it.rename = {}
        out = [Fact("modules share no parameters", not shared, ", ".join(shared), anchor),
               Eq("using another module leaves the first as it was", it.call(m1, [x1]), y1.shape, s1, grad=False, anchor=anchor)]
        havoc(it, m2, "r")
        z2 = it.call(m2, [x2])
        # the same module as the first one in a process
        it.modules = {}
        it.rename = {v: v + "'" for v in vary}
        m3, _ = build_(it)
        havoc(it, m3, "q")
        y3 = it.call(m3, [x2])
        out.append(Eq("a later module computes what the first would", TT.Tensor(TT.Storage(shape2, s2, "float"), shape2), y3.shape, y3.snap(),
                      grad=False, anchor=anchor))
        it.modules = {}
        m4, _ = build_(it)
        havoc(it, m4, "r")
        y4 = it.call(m4, [x2])
        out.append(Eq("an evaluation uses the present parameters", z2, y4.shape, y4.snap(), grad=False, anchor=anchor))
        it.rename = {}
        return out
    return fn


MORE = [("%s layer, any length" % k, fc(k, length=True), FCL) for k in ("continuous", "discontinuous", "polynomial", "fourier", "continuous_prod")]
MORE += [("%s %dd convolution, any length" % (k, d), conv(k, d, length=True), FC) for k, d in (("continuous", 1), ("polynomial", 2), ("fourier", 1), ("discontinuous", 2))]


def obligations():
    return [Obligation(nm, history(b, a, False), a) for nm, b, a in LAYERS + MORE + CONVS + NORMS + EMB] + \
        [Obligation(nm, history(b, a, True), a) for nm, b, a in NETS]
