"""Attention modules."""
from .spec import *

AT = "high_order_layers_torch/attentions.py"
A = "attentions."


def lin(it, m, name, f, n, o):
    """output o of the linear map `name` applied to the vector f(k), k < n"""
    w, b = attr(it, m, name + ".weight"), attr(it, m, name + ".bias")
    v = Sum(n, lambda k: mul(w.at(o, k), f(k)))
    return v if b is None else add(v, b.at(o))


def softmax(score, k, n, keep=None):
    """weight of item k among n"""
    def e(j):
        x = T.app("exp", score(j))
        return x if keep is None else T.ite(keep(j), x, const(0))
    return div(e(k), Sum(n, e))


def mask(it, B, Q, K):
    """any mask that leaves at least one item per query"""
    m = leaf("mask", B, Q, K, dtype="bool")
    keep = leaf("keep", B, Q, dtype="long", lo=0, hi=sub(K, 1))
    return TT.new([nd(B), nd(Q), nd(K)], lambda b, q, k: T.and_(m.at(b, q, k), T.not_(T.eq(k, keep.at(b, q)))), "bool")


def scaled(masked):
    def fn(it):
        B, Q, K, D, E, dim = (it.size(s) for s in ("B", "Q", "K", "D", "E", "dim"))
        m = mk(it, A + "ScaledDotProductAttention", dim)
        q, k, v = leaf("q", B, Q, D), leaf("k", B, K, D), leaf("v", B, K, E)
        M = mask(it, B, Q, K) if masked else None
        c, a = it.iterate(it.call(m, [q, k, v] + ([M] if masked else [])))

        def at(b, i, j):
            return softmax(lambda jj: div(Sum(D, lambda d: mul(q.at(b, i, d), k.at(b, jj, d))), T.app("sqrt", nd(dim))), j, K,
                           (lambda jj: T.not_(M.at(b, i, jj))) if masked else None)
        return [Eq("weights are the softmax of the scaled scores%s" % (" over the items not masked" if masked else ""), a, (B, Q, K), at, anchor=AT),
                Eq("context is the weighted sum of the values", c, (B, Q, E), lambda b, i, e: Sum(K, lambda j: mul(at(b, i, j), v.at(b, j, e))), anchor=AT)]
    return fn


def dot(it):
    B, Q, K, D = (it.size(s) for s in "BQKD")
    m = mk(it, A + "DotProductAttention", D)
    q, v = leaf("q", B, Q, D), leaf("v", B, K, D)
    c, a = it.iterate(it.call(m, [q, v]))

    def at(b, i, j):
        return softmax(lambda jj: Sum(D, lambda d: mul(q.at(b, i, d), v.at(b, jj, d))), j, K)
    return [Eq("weights are the softmax of the scores", a, (B, Q, K), at, anchor=AT),
            Eq("context is the weighted sum of the values", c, (B, Q, D), lambda b, i, e: Sum(K, lambda j: mul(at(b, i, j), v.at(b, j, e))), anchor=AT)]


def additive(it):
    B, K, H, E = (it.size(s) for s in ("B", "K", "H", "E"))
    m = mk(it, A + "AdditiveAttention", H)
    havoc(it, m)
    q, k, v = leaf("q", B, 1, H), leaf("k", B, K, H), leaf("v", B, K, E)
    c, a = it.iterate(it.call(m, [q, k, v]))
    bias = attr(it, m, "bias")

    def score(b, j):
        return lin(it, m, "score_proj", lambda h: T.app("tanh", add(
            lin(it, m, "key_proj", lambda x: k.at(b, j, x), H, h), lin(it, m, "query_proj", lambda x: q.at(b, 0, x), H, h), bias.at(h))), H, 0)

    def at(b, j):
        return softmax(lambda jj: score(b, jj), j, K)
    return [Eq("weights are the softmax of the additive scores", a, (B, K), at, anchor=AT),
            Eq("context is the weighted sum of the values", c, (B, 1, E), lambda b, i, e: Sum(K, lambda j: mul(at(b, j), v.at(b, j, e))), anchor=AT)]


def conv3(w, b, src, n, cin, c, p):
    """1d convolution with 3 taps and padding 1"""
    def tap(ch, t):
        q = sub(add(p, t), 1)
        return T.ite(T.and_(T.le(const(0), q), T.lt(q, nd(n))), mul(w.at(c, ch, t), src(ch, q)), const(0))
    tot = Sum(cin, lambda ch: add(*[tap(ch, const(t)) for t in range(3)]))
    return add(tot, b.at(c)) if b is not None else tot


def location(smoothing, first):
    def fn(it):
        B, K, H = (it.size(s) for s in "BKH")
        m = it.call(get(it, A + "LocationAwareAttention"), [H], dict(smoothing=smoothing))
        havoc(it, m)
        q, v = leaf("q", B, 1, H), leaf("v", B, K, H)
        last = None if first else leaf("last", B, K)
        c, a = it.iterate(it.call(m, [q, v, last]))
        bias, w, cb = attr(it, m, "bias"), attr(it, m, "conv1d.weight"), attr(it, m, "conv1d.bias")

        def score(b, j):
            return lin(it, m, "score_proj", lambda h: T.app("tanh", add(
                lin(it, m, "value_proj", lambda x: v.at(b, j, x), H, h), lin(it, m, "query_proj", lambda x: q.at(b, 0, x), H, h),
                conv3(w, cb, lambda ch, p: const(0) if first else last.at(b, p), K, 1, h, j), bias.at(h))), H, 0)

        def at(b, j):
            if not smoothing:
                return softmax(lambda jj: score(b, jj), j, K)
            return div(T.app("sigmoid", score(b, j)), Sum(K, lambda jj: T.app("sigmoid", score(b, jj))))
        return [Eq("weights are the %s of the location aware scores" % ("normalised sigmoid" if smoothing else "softmax"), a, (B, K), at, anchor=AT),
                Eq("context is the weighted sum of the values", c, (B, H), lambda b, e: Sum(K, lambda j: mul(at(b, j), v.at(b, j, e))), anchor=AT)]
    return fn


def heads(it, N=None):
    N = N if N is not None else it.size("N")
    D = it.size("D")
    return N, D, mul(N, D)


def multi_location(first, N=None):
    def fn(it):
        B, K, C = it.size("B"), it.size("K"), it.size("C")
        N_, D, H = heads(it, N)
        m = it.call(get(it, A + "MultiHeadLocationAwareAttention"), [H], dict(num_heads=N_, conv_out_channel=C))
        havoc(it, m)
        q, v = leaf("q", B, 1, H), leaf("v", B, K, H)
        last = None if first else leaf("last", B, N_, K)
        c, a = it.iterate(it.call(m, [q, v, last]))
        bias, w, cb = attr(it, m, "bias"), attr(it, m, "conv1d.weight"), attr(it, m, "conv1d.bias")

        def val(b, n, j, d):
            return lin(it, m, "value_proj", lambda x: v.at(b, j, x), H, add(mul(n, D), d))

        def score(b, n, j):
            def loc(d):
                return T.app("tanh", lin(it, m, "loc_proj", lambda x: conv3(w, cb, lambda ch, p: const(0) if first else last.at(b, ch, p), K, N_, x, j), C, d))
            return lin(it, m, "score_proj", lambda d: T.app("tanh", add(
                val(b, n, j, d), lin(it, m, "query_proj", lambda x: q.at(b, 0, x), H, add(mul(n, D), d)), loc(d), bias.at(d))), D, 0)

        def at(b, n, j):
            return softmax(lambda jj: score(b, n, jj), j, K)

        def ctx(b, i, h):
            n = T.app("fdiv", h, nd(D))
            d = T.app("mod", h, nd(D))
            return Sum(K, lambda j: mul(at(b, n, j), val(b, n, j, d)))
        return [Eq("weights of every head are the softmax of its scores", a, (B, N_, K), at, anchor=AT),
                Eq("context of every head is its weighted sum of its projected values", c, (B, 1, H), ctx, anchor=AT)]
    return fn


def multi(masked, N=None):
    def fn(it):
        B, Q, K = it.size("B"), it.size("Q"), it.size("K")
        N_, D, H = heads(it, N)
        m = it.call(get(it, A + "MultiHeadAttention"), [H], dict(num_heads=N_))
        havoc(it, m)
        q, k, v = leaf("q", B, Q, H), leaf("k", B, K, H), leaf("v", B, K, H)
        M = mask(it, B, Q, K) if masked else None
        c, a = it.iterate(it.call(m, [q, k, v] + ([M] if masked else [])))

        def pr(name, t, b, i, n, d):
            return lin(it, m, name, lambda x: t.at(b, i, x), H, add(mul(n, D), d))

        def at(n, b, i, j):
            return softmax(lambda jj: div(Sum(D, lambda d: mul(pr("query_proj", q, b, i, n, d), pr("key_proj", k, b, jj, n, d))), T.app("sqrt", nd(D))),
                           j, K, (lambda jj: T.not_(M.at(b, i, jj))) if masked else None)

        def att(r, i, j):
            n = T.app("fdiv", r, nd(B))
            return at(n, T.app("mod", r, nd(B)), i, j)

        def ctx(b, i, h):
            n = T.app("fdiv", h, nd(D))
            d = T.app("mod", h, nd(D))
            return Sum(K, lambda j: mul(at(n, b, i, j), pr("value_proj", v, b, j, n, d)))
        return [Eq("weights of every head are the softmax of its scaled scores%s" % (" over the items not masked" if masked else ""), a, (mul(N_, B), Q, K), att, anchor=AT),
                Eq("context of every head is its weighted sum of its projected values", c, (B, Q, H), ctx, anchor=AT)]
    return fn


def relative(masked, N=None):
    def fn(it):
        B, Q = it.size("B"), it.size("Q")
        N_, D, H = heads(it, N)
        m = it.call(get(it, A + "RelativeMultiHeadAttention"), [H], dict(num_heads=N_))
        havoc(it, m)
        it.call(it.getattr(m, "eval"), [])
        q, k, v, pe = (leaf(s, B, Q, H) for s in ("q", "k", "v", "pe"))
        M = mask(it, B, Q, Q) if masked else None
        y = it.call(m, [q, k, v, pe] + ([M] if masked else []))
        u, vb = attr(it, m, "u_bias"), attr(it, m, "v_bias")

        def pr(name, t, b, i, n, d):
            return lin(it, m, name, lambda x: t.at(b, i, x), H, add(mul(n, D), d))

        def pos(b, n, i, j):
            return Sum(D, lambda d: mul(add(pr("query_proj", q, b, i, n, d), vb.at(n, d)), pr("pos_proj", pe, b, j, n, d)))

        def shifted(b, n, i, j):
            # row i is shifted left so that entry (i, j) belongs to the distance i - j
            f = add(mul(i, Q), j, Q)
            r = T.app("fdiv", f, add(Q, 1))
            cc = T.app("mod", f, add(Q, 1))
            return T.ite(T.eq(cc, const(0)), const(0), pos(b, n, r, sub(cc, 1)))

        def score(b, n, i, j):
            con = Sum(D, lambda d: mul(add(pr("query_proj", q, b, i, n, d), u.at(n, d)), pr("key_proj", k, b, j, n, d)))
            s = div(add(con, shifted(b, n, i, j)), T.app("sqrt", nd(H)))
            return T.ite(M.at(b, i, j), const(-10 ** 9), s) if masked else s

        def out(b, i, o):
            def ctx(h):
                n = T.app("fdiv", h, nd(D))
                d = T.app("mod", h, nd(D))
                return Sum(Q, lambda j: mul(softmax(lambda jj: score(b, n, i, jj), j, Q), pr("value_proj", v, b, j, n, d)))
            return lin(it, m, "out_proj", ctx, H, o)
        return [Eq("output projects the heads' sums of values weighted by content and relative position", y, (B, Q, H), out, anchor=AT)]
    return fn


def customizing(first, N=None):
    def fn(it):
        B, Q, K, C = it.size("B"), (1 if N == 1 else it.size("Q", 2)), it.size("K"), it.size("C")
        N_, D, H = heads(it, N)
        m = it.call(get(it, A + "CustomizingAttention"), [H], dict(num_heads=N_, conv_out_channel=C))
        havoc(it, m)
        q, v = leaf("q", B, Q, H), leaf("v", B, K, H)
        last = None if first else leaf("last", mul(B, N_), K)
        c, a = it.iterate(it.call(m, [q, v, last]))
        bias, w, cb = attr(it, m, "bias"), attr(it, m, "conv1d.weight"), attr(it, m, "conv1d.bias")

        def val(b, n, j, d):
            h = add(mul(n, D), d)
            loc = lin(it, m, "loc_proj", lambda x: conv3(w, cb, lambda ch, p: const(0) if first else last.at(add(mul(b, N_), n), p), K, 1, x, j), C, d)
            return add(lin(it, m, "value_proj", lambda x: v.at(b, j, x), H, h), loc, bias.at(h))

        def at(b, n, i, j):
            return softmax(lambda jj: div(Sum(D, lambda d: mul(lin(it, m, "query_proj", lambda x: q.at(b, i, x), H, add(mul(n, D), d)), val(b, n, jj, d))),
                                          T.app("sqrt", nd(D))), j, K)

        def ctx(b, i, h):
            n = T.app("fdiv", h, nd(D))
            d = T.app("mod", h, nd(D))
            return Sum(K, lambda j: mul(at(b, n, i, j), val(b, n, j, d)))

        def att(r, *ij):
            b = T.app("fdiv", r, nd(N_))
            i, j = ij if len(ij) == 2 else (const(0), ij[0])
            return at(b, T.app("mod", r, nd(N_)), i, j)
        sh = (mul(B, N_), K) if isinstance(Q, int) and Q == 1 else (mul(B, N_), Q, K)
        return [Eq("weights of every head, batch first as they are fed back", a, sh, att, anchor=AT),
                Eq("context of every head is its weighted sum of its located values", c, (B, Q, H), ctx, anchor=AT)]
    return fn


def obligations():
    out = []

    def add_(name, fn):
        out.append(Obligation(name, fn, AT))
    for k in (False, True):
        add_("scaled dot product%s" % (", masked" if k else ""), scaled(k))
    add_("dot product", dot)
    add_("additive", additive)
    for s in (True, False):
        for f in (True, False):
            add_("location aware%s%s" % (", smoothing" if s else "", ", first step" if f else ""), location(s, f))
    for N in (None, 1, 2):
        t = "" if N is None else ", %d heads" % N
        for f in (True, False):
            add_("multi head location aware%s%s" % (t, ", first step" if f else ""), multi_location(f, N))
            add_("multi head%s%s" % (t, ", masked" if f else ""), multi(f, N))
            add_("relative multi head%s%s" % (t, ", masked" if f else ""), relative(f, N))
            add_("customizing%s%s" % (t, ", first step" if f else ""), customizing(f, N))
    return out
