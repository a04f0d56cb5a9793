"""Reference formulas of the properties, as terms of the analysis domain."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import interp as I, terms as T, tensor as TT, torchmodel as TM  # noqa: E402
from engine.terms import const, Unsupported, Node  # noqa: E402
from engine.tensor import PyErr  # noqa: E402
from engine.decide import Eq, Holds, Fact  # noqa: E402
from engine.obligations import Obligation  # noqa: E402

PK = "high_order_layers_torch."
MISSING = I.MISSING


def nd(v):
    """node of a python / analysed number"""
    return TT.scalar_node(v)[0]


def get(it, dotted):
    return it.getattr_path(PK + dotted)


def mk(it, dotted, *args, **kw):
    return it.call(get(it, dotted), list(args), kw)


def cos_node(n, m):
    """Chebyshev-Lobatto node m of n on [-1, 1]"""
    if isinstance(n, int) and n == 1:
        return const(0)
    if isinstance(n, Node) and n.op == "q" and T.cval(n) == 1:
        return const(0)
    return T.neg(T.app("cos", T.div(T.mul(T.pi(), m), T.sub(nd(n), const(1)))))


def X(n, L, m):
    return T.mul(T.div(nd(L), const(2)), cos_node(n, m))


def basis(n, L, x, j):
    """Lagrange basis function j on the Chebyshev-Lobatto nodes of [-L/2, L/2]"""
    if nd(n).op == "q" and T.cval(nd(n)) == 1:
        return const(1)
    m = T.var(nd(n))
    j = const(j)
    return T.red("prod", [m], T.ite(T.eq(m, j), const(1), T.div(T.sub(x, X(n, L, m)), T.sub(X(n, L, j), X(n, L, m)))))


def seg(x, L, S):
    """segment number of x"""
    L, S = nd(L), nd(S)
    raw = T.app("trunc", T.mul(S, T.div(T.add(x, T.div(L, const(2))), L)))
    return T.app("min", T.sub(S, const(1)), T.app("max", const(0), raw))


def xloc(x, L, S, s):
    """position within segment s, in [-L/2, L/2]"""
    L, S = nd(L), nd(S)
    # segment s covers [s*L/S - L/2, (s+1)*L/S - L/2]
    lo = T.sub(T.div(T.mul(s, L), S), T.div(L, const(2)))
    return T.sub(T.mul(S, T.sub(x, lo)), T.div(L, const(2)))


def Sum(hi, f):
    v = T.var(nd(hi))
    return T.red("sum", [v], f(v))


def Prod(hi, f):
    v = T.var(nd(hi))
    return T.red("prod", [v], f(v))


def add(*xs):
    return T.add(*[nd(x) for x in xs])


def mul(*xs):
    return T.mul(*[nd(x) for x in xs])


def sub(a, b):
    return T.sub(nd(a), nd(b))


def div(a, b):
    return T.div(nd(a), nd(b))


def link(kind, w, n, L, S, o, i, x):
    """value of the function on the link from input i to output o at x"""
    if kind == "poly":
        return Sum(n, lambda k: mul(w.at(o, i, k), basis(n, L, x, k)))
    s = seg(x, L, S)
    xl = xloc(x, L, S, s)
    step = sub(n, 1) if kind == "cont" else nd(n)
    return Sum(n, lambda k: mul(w.at(o, i, add(mul(s, step), k)), basis(n, L, xl, k)))


def periodic(x, P):
    """mirror periodic map with a domain of width P centred at 0: triangle wave"""
    P = nd(P)
    half = T.div(P, const(2))
    two = T.mul(const(2), P)
    t = T.add(x, half)
    r = T.sub(t, T.mul(two, T.app("floor", T.div(t, two))))
    return T.sub(T.sub(P, T.app("abs", T.sub(r, P))), half)


# ------------------------------------------------------------------ modules
def modules(m, prefix=""):
    """(name, object) of a module and everything registered below it"""
    out = [(prefix, m)]
    M = m.cell_get("_modules")
    if M is not MISSING:
        for k, v in M.pairs():
            if v is not None:
                out += modules(v, (prefix + "." if prefix else "") + str(k))
    return out


def parameters(m):
    """[(qualified name, tensor)] registered parameters, aliases removed"""
    out, seen = [], set()
    for name, o in modules(m):
        P = o.cell_get("_parameters")
        if P is MISSING:
            continue
        for k, v in P.pairs():
            if v is not None and id(v.st) not in seen:
                seen.add(id(v.st))
                out.append(((name + "." if name else "") + str(k), v))
    return out


def havoc(it, m, prefix="p"):
    """give every registered parameter arbitrary contents (any training state)"""
    for name, p in parameters(m):
        if p.attrs and p.attrs.get("uninit_param"):
            continue
        nm = "%s.%s" % (prefix, name)
        T.CTX.tensors[nm] = dict(shape=p.shape, kind="param", lo=None, hi=None, dtype="float")
        p.write(lambda *idx, nm=nm: T.elem(nm, idx))
    return m


def attr(it, o, dotted):
    """an attribute the specification reads; when the class no longer has it under that name, the claim is undecided"""
    for p in dotted.split("."):
        try:
            o = it.getattr(o, p)
        except TT.PyErr as e:
            if e.name == "AttributeError":
                raise T.Unsupported("the specification reads %s, which is not there" % p)
            raise
    return o


def leaf(name, *shape, **kw):
    return TT.leaf(name, [nd(s) for s in shape], **kw)


def shape_is(what, t, shape, anchor):
    ok = isinstance(t, TT.Tensor) and t.ndim == len(shape) and all(TT.same_dim(a, nd(b)) for a, b in zip(t.shape, shape))
    det = "" if ok else "shape %s" % ([T.show(s) for s in t.shape] if isinstance(t, TT.Tensor) else t)
    return Fact(what, ok, det, anchor)


def raises(it, fn, exc=None):
    """the exception raised by fn, or None"""
    try:
        fn()
    except PyErr as e:
        return e
    return None


# ------------------------------------------------------------------ fully connected layers
PL = "high_order_layers_torch/PolynomialLayers.py"


def fc_layer(it, cls, kind, n=None, L_sym=False, via=None, period=None, extra=None, fin=None, tag="p"):
    """construct a fully connected layer with symbolic sizes and arbitrary weights"""
    n = n if n is not None else it.size("n", 2)
    fin = fin if fin is not None else it.size("inf")
    fout, S = it.size("outf"), it.size("S")
    kw = dict(n=n, in_features=fin, out_features=fout)
    if kind in ("cont", "disc"):
        kw["segments"] = S
    L = const(2)
    if L_sym:
        L = it.real("L", 0)
        kw["length"] = L
    if period is not None:
        kw["periodicity"] = period
    kw.update(extra or {})
    if via:
        m = it.call(get(it, "layers.high_order_fc_layers"), [], dict(kw, layer_type=via))
    else:
        m = it.call(get(it, cls), [], kw)
    havoc(it, m, tag)
    return m, n, fin, fout, S, L


def nweights(kind, n, S):
    return add(mul(sub(n, 1), S), 1) if kind == "cont" else mul(n, S) if kind == "disc" else nd(n)


def fc_forward(cls, kind, combine="sum", anchor=PL, shape=True, periodic_=False, **opt):
    def fn(it):
        P = it.real("P", 0) if periodic_ else None
        m, n, fin, fout, S, L = fc_layer(it, cls, kind, period=P, **opt)
        w = attr(it, m, "w")
        B = it.size("B")
        x = leaf("x", B, fin)
        y = it.call(m, [x])

        def at(b, i):
            v = x.at(b, i)
            return mirror(v, P) if periodic_ else v

        def f(b, o):
            if combine == "sum":
                return Sum(fin, lambda i: link(kind, w, n, L, S, o, i, at(b, i)))
            return sub(Prod(fin, lambda i: add(1, link(kind, w, n, L, S, o, i, at(b, i)))), 1)
        out = []
        if shape:
            out.append(shape_is("one weight per output, input and node", w, (fout, fin, nweights(kind, n, S)), anchor))
        what = "output is the %s of each link's function" % ("sum over the inputs" if combine == "sum" else
                                                            "product over the inputs of (1 + value), minus 1,")
        out.append(Eq(what, y, (B, fout), f, anchor=anchor))
        return out
    return fn


def mirror(x, P):
    """mirror periodic image of x for a domain of width P centred at 0"""
    P = nd(P)
    half = T.div(P, const(2))
    r = T.app("mod", T.add(x, half), T.mul(const(2), P))
    return T.sub(T.ite(T.lt(P, r), T.sub(T.mul(const(2), P), r), r), half)


def coords(cls, kind, anchor=PL, **opt):
    """segment number, local and global coordinates"""
    def fn(it):
        m, n, fin, fout, S, L = fc_layer(it, cls, kind, **opt)
        B = it.size("B")
        x = leaf("x", B, fin)
        s = it.call(attr(it, m, "which_segment"), [x])
        sx = leaf("sx", B, fin, dtype="long", lo=0, hi=T.sub(nd(S), const(1)))
        xl = it.call(attr(it, m, "x_local"), [x, sx])
        xg = it.call(attr(it, m, "x_global"), [x, sx])
        L2 = T.div(nd(L), const(2))

        def glob(b, i):
            return T.sub(T.div(T.mul(nd(L), T.add(sx.at(b, i), T.div(T.add(x.at(b, i), L2), nd(L)))), nd(S)), L2)
        return [Eq("segment number of x", s, (B, fin), lambda b, i: seg(x.at(b, i), L, S), anchor=anchor),
                Eq("local coordinate within a segment", xl, (B, fin), lambda b, i: xloc(x.at(b, i), L, S, sx.at(b, i)), anchor=anchor),
                Eq("global coordinate of a local one", xg, (B, fin), glob, anchor=anchor)]
    return fn


# ------------------------------------------------------------------ convolutions
FC = "high_order_layers_torch/FunctionalConvolution.py"


def conv_basis_count(kind, n, S):
    return add(mul(sub(n, 1), S), 1) if kind == "cont" else mul(n, S) if kind == "disc" else nd(n)


def conv_link(kind, wk, n, L, S, x, g=lambda t: t):
    """function of one kernel tap; wk(k) is the weight of basis function k, g guards the padding"""
    if kind in ("poly",):
        return Sum(n, lambda k: g(mul(wk(k), basis(n, L, x, k))))
    s = seg(x, L, S)
    xl = xloc(x, L, S, s)
    step = sub(n, 1) if kind == "cont" else nd(n)
    return Sum(n, lambda k: g(mul(wk(add(mul(s, step), k)), basis(n, L, xl, k))))


def conv_layer(it, cls, kind, nd_, via=None, n=None, L_sym=False, period=None, opts=(), rescale=False, extra=None, transpose=False,
               fixed_k=None):
    n = n if n is not None else it.size("n", 2)
    cin, cout, S = it.size("cin"), it.size("cout"), it.size("S")
    K = fixed_k if fixed_k is not None else it.size("K")
    kw = dict(n=n, in_channels=cin, out_channels=cout, kernel_size=K)
    if kind in ("cont", "disc"):
        kw["segments"] = S
    L = const(2)
    if L_sym:
        L = it.real("L", 0)
        kw["length"] = L
    st = pad = dil = opad = None
    if "stride" in opts:
        st = kw["stride"] = it.size("stride")
    if "padding" in opts:
        pad = kw["padding"] = it.size("pad", 0)
    if "dilation" in opts:
        dil = kw["dilation"] = it.size("dil")
    if rescale:
        kw["rescale_output"] = True
    if period is not None:
        kw["periodicity"] = period
    kw.update(extra or {})
    if via:
        reg = "layers.high_order_convolution_transpose_layers" if transpose else "layers.high_order_convolution_layers"
        m = it.call(get(it, reg), [], dict(kw, layer_type=via))
    else:
        m = it.call(get(it, cls), [], kw)
    havoc(it, m)
    return m, n, cin, cout, S, K, L, 1 if st is None else st, 0 if pad is None else pad, 1 if dil is None else dil


def conv_forward(cls, kind, nd_, anchor=FC, periodic_=False, link_=None, extent=None, transpose=False, **opt):
    """nd_ = 1 or 2 spatial dimensions"""
    def fn(it):
        P = it.real("P", 0) if periodic_ else None
        m, n, cin, cout, S, K, L, st, pad, dil = conv_layer(it, cls, kind, nd_, period=P, transpose=transpose, **opt)
        w = attr(it, m, "conv.weight")
        B = it.size("B")
        nb = conv_basis_count(kind, n, S)
        # input extents: at least the kernel, with an arbitrary margin
        ext = []
        for d in range(nd_):
            e = it.size("W%d" % d, 0)
            ext.append(add(e, mul(dil, sub(K, 1)), 1) if not transpose else add(e, 1))
        x = leaf("x", B, cin, *ext)
        y = it.call(m, [x])
        K_, st_, pad_, dil_ = nd(K), nd(st), nd(pad), nd(dil)
        if not transpose:
            out = []
            for e in ext:
                d = sub(sub(add(e, mul(2, pad_)), mul(dil_, sub(K_, 1))), 1)
                out.append(add(d if st_ is const(1) else T.app("fdiv", d, st_), 1))
            wshape = (cout, mul(nb, cin)) + (K,) * nd_
        else:
            out = [add(sub(mul(sub(e, 1), st_), mul(2, pad_)), mul(dil_, sub(K_, 1)), 1) for e in ext]
            wshape = (mul(nb, cin), cout) + (K,) * nd_
        resc = const(1)
        if opt.get("rescale"):
            resc = div(1, mul(cin, *([K] * nd_)))

        def val(v):
            return mirror(v, P) if P is not None else v

        def f(b, o, *pos):
            c = T.var(nd(cin))
            ks = [T.var(K_) for _ in range(nd_)]
            conds, idx = [], []
            for d in range(nd_):
                if not transpose:
                    p = sub(add(mul(pos[d], st_), mul(ks[d], dil_)), pad_)
                    if pad_ is not const(0):
                        conds += [T.le(const(0), p), T.lt(p, nd(ext[d]))]
                    idx.append(p)
                else:
                    p = sub(add(pos[d], pad_), mul(ks[d], dil_))
                    if st_ is not const(1):
                        conds.append(T.eq(T.app("mod", p, st_), const(0)))
                        q = T.app("fdiv", p, st_)
                    else:
                        q = p
                    conds += [T.le(const(0), p), T.lt(q, nd(ext[d]))]
                    idx.append(q)

            def wk(k):
                ch = add(mul(c, nb), k)
                return w.at(o, ch, *ks) if not transpose else w.at(ch, o, *ks)
            g = (lambda t: T.ite(T.and_(*conds), t, const(0))) if conds else (lambda t: t)
            body = (link_ or conv_link)(kind, wk, n, L, S, val(x.at(b, c, *idx)), g)
            return mul(resc, T.red("sum", [c] + ks, body))
        return [shape_is("one weight per output channel, input channel, node and kernel tap", w, wshape, anchor),
                Eq("output is the sum over channels and kernel taps of the tap's function", y, (B, cout) + tuple(out), f, anchor=anchor)]
    return fn
