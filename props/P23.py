"""The variational autoencoder."""
from .nets import *


def vae(it):
    c0, c1, c2 = it.size("c0"), it.size("c1"), it.size("c2")
    D, C = it.size("D"), it.size("C")
    enc = it.call(get(it, "networks.HighOrderFullyConvolutionalNetwork"), [], dict(layer_type=I.LList(["polynomial2d"]), n=I.LList([it.size("ne", 2)]),
                  channels=I.LList([c0, c1]), segments=I.LList([1]), kernel_size=I.LList([2])))
    dec = it.call(get(it, "networks.HighOrderFullyDeconvolutionalNetwork"), [], dict(layer_type="continuous2d", n=I.LList([it.size("nd", 2)]),
                  channels=I.LList([C, c2]), segments=I.LList([it.size("S")]), kernel_size=I.LList([2])))
    m = it.call(get(it, "networks.VanillaVAE"), [D, enc, dec])
    havoc(it, m)
    B = it.size("B")
    x = leaf("x", B, c0, it.size("H", 2), it.size("W", 2))
    return m, enc, dec, x, B, D, C, c1


def items(it, o):
    return list(it.iterate(o))


def linear(it, m, name, f, n_in):
    w, b = attr(it, m, name + ".weight"), attr(it, m, name + ".bias")
    return lambda b_, o: add(Sum(n_in, lambda k: mul(w.at(o, k), f(b_, k))), b.at(o))


def encode(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    r = items(it, it.call(it.getattr(m, "encode"), [x]))
    h = it.call(enc, [x])
    out = [Fact("encode returns the mean and the log variance", len(r) == 2, str(len(r)), NW)]
    for nm, v in zip(("fc_mu", "fc_var"), r):
        out.append(Eq("%s of the encoded input" % nm, v, (B, D), linear(it, m, nm, lambda b, k: h.at(b, k), c1), anchor=NW))
    return out


def decode(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    z = leaf("z", B, D)
    y = it.call(it.getattr(m, "decode"), [z])
    f = linear(it, m, "decoder_input", lambda b, k: z.at(b, k), D)
    v = TT.new([nd(B), nd(C), const(1), const(1)], lambda b, c, i, j: f(b, c), "float")
    w = it.call(dec, [v])
    return [Eq("decoder of the projected code, one position with the decoder's channels", y, w.shape, lambda *i: w.at(*i), anchor=NW)]


def noise(n):
    return sorted({a for a in T.walk(n) if a.op == "elem" and T.CTX.tensors.get(a.args[0], {}).get("kind") == "randn"}, key=lambda a: a.id)


def normal_noise(what, t, B, D):
    """the standard normal numbers an entry [b, d] of t uses; one per entry"""
    b, d = T.var(nd(B)), T.var(nd(D))
    at = noise(t.at(b, d))
    if len(at) != 1:
        return [Fact(what + ": one standard normal number per entry", None if at else False, "%d numbers" % len(at), NW)], None
    nm, idx = at[0].args[0], at[0].args[1:]
    used = set()
    for i in idx:
        used |= {v.id for v in T.walk(i) if v.op == "var"}
    one = lambda n: nd(n).op == "q" and nd(n).args[0] == 1
    ok = (b.id in used or one(B)) and (d.id in used or one(D))
    out = [Fact(what + ": every entry has a standard normal number of its own", ok, "indexed by %s" % [T.show(i) for i in idx], NW)]
    if not ok or len(idx) != 2 or any(i.id != v.id and not (one(n) and T.show(i) == "0") for i, v, n in zip(idx, (b, d), (B, D))):
        return out, None
    return out, nm


def reparameterize(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    mu, lv = leaf("mu", B, D), leaf("lv", B, D)
    z = it.call(it.getattr(m, "reparameterize"), [mu, lv])
    out = [shape_is("one code per mean", z, (B, D), NW)]
    fs, nm = normal_noise("code", z, B, D)
    out += fs
    if nm:
        out.append(Eq("mean plus standard deviation times noise", z, (B, D), lambda b, d: add(mu.at(b, d), mul(T.app("exp", div(lv.at(b, d), const(2))),
                      T.elem(nm, (b, d)))), anchor=NW))
    return out


def forward(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    r = items(it, it.call(m, [x]))
    out = [Fact("forward returns reconstruction, input, mean and log variance", len(r) == 4, str(len(r)), NW)]
    if failed(out):
        return out
    mu, lv = items(it, it.call(it.getattr(m, "encode"), [x]))
    out.append(Eq("second: the input", r[1], x.shape, lambda *i: x.at(*i), anchor=NW))
    out.append(Eq("third: the mean", r[2], (B, D), lambda *i: mu.at(*i), anchor=NW))
    out.append(Eq("fourth: the log variance", r[3], (B, D), lambda *i: lv.at(*i), anchor=NW))
    at = noise(r[0].at(*[T.var(s) for s in r[0].shape]))
    names = sorted({a.args[0] for a in at})
    out.append(Fact("the reconstruction uses one draw of noise", len(names) == 1, str(names), NW))
    if len(names) == 1:
        z = TT.new([nd(B), nd(D)], lambda b, d: add(mu.at(b, d), mul(T.app("exp", div(lv.at(b, d), const(2))), T.elem(names[0], (b, d)))), "float")
        w = it.call(it.getattr(m, "decode"), [z])
        out.append(Eq("first: the decoded sample of the code", r[0], w.shape, lambda *i: w.at(*i), anchor=NW))
    return out


def generate(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    g = it.call(it.getattr(m, "generate"), [x])
    w = items(it, it.call(m, [x]))[0]
    n1 = {a.args[0] for a in noise(g.at(*[T.var(s) for s in g.shape]))}
    n2 = {a.args[0] for a in noise(w.at(*[T.var(s) for s in w.shape]))}
    if len(n1) != 1 or len(n2) != 1:
        return [Fact("generate uses one draw of noise", len(n1) == 1, str(n1), NW)]
    mu, lv = items(it, it.call(it.getattr(m, "encode"), [x]))
    nm = n1.pop()
    z = TT.new([nd(B), nd(D)], lambda b, d: add(mu.at(b, d), mul(T.app("exp", div(lv.at(b, d), const(2))), T.elem(nm, (b, d)))), "float")
    v = it.call(it.getattr(m, "decode"), [z])
    return [Eq("generate returns the reconstruction", g, v.shape, lambda *i: v.at(*i), anchor=NW)]


def sample(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    K = it.size("K")
    s = it.call(it.getattr(m, "sample"), [K])
    names = sorted({a.args[0] for a in noise(s.at(*[T.var(d) for d in s.shape]))})
    out = [Fact("samples use one draw of noise", len(names) == 1, str(names), NW)]
    if len(names) == 1:
        z = TT.new([nd(K), nd(D)], lambda b, d: T.elem(names[0], (b, d)), "float")
        w = it.call(it.getattr(m, "decode"), [z])
        out.append(Eq("samples are decoded standard normal codes", s, w.shape, lambda *i: w.at(*i), anchor=NW))
    return out


def loss(it):
    m, enc, dec, x, B, D, C, c1 = vae(it)
    sh = (B, it.size("c9"), it.size("h9"), it.size("w9"))
    rec, inp, mu, lv = leaf("rec", *sh), leaf("inp", *sh), leaf("mu", B, D), leaf("lv", B, D)
    k = it.real("k")
    d = it.call(it.getattr(m, "loss_function"), [rec, inp, mu, lv], dict(M_N=k))
    tot = const(1)
    for s in sh:
        tot = mul(tot, nd(s))
    rl = div(Sum(sh[0], lambda a: Sum(sh[1], lambda b: Sum(sh[2], lambda c: Sum(sh[3], lambda e: T.powi(sub(rec.at(a, b, c, e), inp.at(a, b, c, e)), 2))))), tot)
    kl = div(Sum(B, lambda b: mul(T.div(const(-1), const(2)),
             Sum(D, lambda j: sub(sub(add(const(1), lv.at(b, j)), T.powi(mu.at(b, j), 2)), T.app("exp", lv.at(b, j)))))), nd(B))
    return [Eq("loss", it.getitem(d, "loss"), (), lambda: add(rl, mul(nd(k), kl)), anchor=NW),
            Eq("reconstruction loss", it.getitem(d, "Reconstruction_Loss"), (), lambda: rl, anchor=NW, grad=False),
            Eq("divergence, reported with its sign reversed", it.getitem(d, "KLD"), (), lambda: T.neg(kl), anchor=NW, grad=False)]


def obligations():
    return [Obligation(nm, f, NW) for nm, f in (("encode", encode), ("decode", decode), ("reparameterize", reparameterize), ("forward", forward),
                                                ("generate", generate), ("sample", sample), ("loss", loss))]
