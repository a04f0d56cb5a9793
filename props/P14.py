"""Fixed rotations of coordinates."""
from .spec import *

UT, LY = "high_order_layers_torch/utils.py", "high_order_layers_torch/layers.py"


def cs(i, rot):
    th = T.div(T.mul(T.pi(), const(i)), const(2 * rot))
    return T.app("cos", th), T.app("sin", th)


def mesh(rot, norm, default=False):
    def fn(it):
        W, H = it.size("W", 2), it.size("H", 2)
        kw = dict(device="cpu")
        if not default:
            kw.update(rotations=rot, normalize=norm)
        r = it.call(get(it, "utils.positions_from_mesh"), [W, H], kw)
        items = it.iterate(r)
        out = [Fact("two axes per rotation", len(items) == 2 * rot, "%d axes" % len(items), UT)]
        if len(items) != 2 * rot:
            return out
        W_, H_ = nd(W), nd(H)
        M = T.app("max", W_, H_)
        for i in range(rot):
            c, s = cs(i, rot)

            def frac1(x, y, c=c, s=s):
                return div(add(mul(c, x), mul(s, y)), add(mul(c, sub(W_, 1)), mul(s, sub(H_, 1))))

            def frac2(x, y, c=c, s=s):
                return div(add(mul(c, y), mul(s, sub(sub(W_, 1), x))), add(mul(c, sub(H_, 1)), mul(s, sub(W_, 1))))
            for k, fr, nm in ((2 * i, frac1, "axis"), (2 * i + 1, frac2, "orthogonal axis")):
                def val(x, y, fr=fr):
                    f = fr(x, y)
                    return sub(mul(2, f), 1) if norm else mul(M, sub(f, div(1, 2)))
                out.append(Eq("%s %d spans the mesh uniformly at its angle" % (nm, i), items[k], (W, H), val, grad=False, anchor=UT))
        return out
    return fn


def rows(n, rot, norm):
    out = []
    for i in range(n):
        r = [const(0)] * n
        r[i] = const(1)
        out.append(r)
        for j in range(i + 1, n):
            for k in range(1, rot):
                c, s = cs(k, rot)
                if norm:
                    t = T.add(c, s)
                    c, s = T.div(c, t), T.div(s, t)
                a, b = [const(0)] * n, [const(0)] * n
                a[i], a[j] = c, s
                b[i], b[j] = s, T.neg(c)
                out += [a, b]
    return out


def value(n):
    """number of a closed term"""
    from engine import ground
    try:
        return float(ground.Eval({"pi": __import__("math").pi}, None).val(T.strip_detach(n)))
    except Exception:
        return None


def rotation(n, rot, norm, default=False):
    def fn(it):
        kw = {} if default else dict(rotations=rot, normalize=norm)
        r = it.call(get(it, "layers.fixed_rotation_layer"), [n], kw)
        layer, width = it.iterate(r)
        want = rows(n, rot, norm)
        w = attr(it, layer, "weight")
        N = n + n * (n - 1) * (rot - 1)
        out = [Holds("width of the output", T.eq(nd(width), const(N)), LY),
               shape_is("one row of weights per output", w, (N, n), LY),
               Fact("the weights are not trained", w.requires_grad is False, "", LY)]
        B = it.size("B")
        x = leaf("x", B, n)
        y = it.call(layer, [x])
        out.append(Eq("output is the linear map", y, (B, N), lambda b, o: Sum(n, lambda k: mul(w.at(o, k), x.at(b, k))), anchor=LY))
        if w.ndim != 2 or not (TT.same_dim(w.shape[0], const(N)) and TT.same_dim(w.shape[1], const(n))):
            return out
        have = [[value(w.at(const(o), const(k))) for k in range(n)] for o in range(N)]
        if any(v is None for h in have for v in h):
            out.append(Fact("rows", None, "weights are not constants", LY))
            return out
        left = list(have)
        for q in want:
            q = [value(v) for v in q]
            hit = [h for h in left if all(abs(a - b) < 1e-6 for a, b in zip(h, q))]
            if not hit:
                out.append(Fact("every input and both rotated axes of every pair appear once", False, "no output has weights %s, the outputs are %s" % (q, have), LY))
                break
            left.remove(hit[0])
        else:
            out.append(Fact("every input and both rotated axes of every pair appear once", True, "", LY))
        return out
    return fn


def refused(rot):
    def fn(it):
        e = raises(it, lambda: it.call(get(it, "layers.fixed_rotation_layer"), [2], dict(rotations=rot)))
        return [Fact("rotations below one are refused", e is not None and e.name == "ValueError", str(e), LY)]
    return fn


def obligations():
    out = []
    for rot in range(1, 7):
        for norm in (False, True):
            out.append(Obligation("mesh, %d rotations%s" % (rot, ", normalized" if norm else ""), mesh(rot, norm), UT))
    out.append(Obligation("mesh, defaults", mesh(1, False, default=True), UT))
    for n in range(1, 5):
        for rot in range(1, 5):
            for norm in (False, True):
                out.append(Obligation("layer, %d inputs, %d rotations%s" % (n, rot, ", normalized" if norm else ""), rotation(n, rot, norm), LY))
    out.append(Obligation("layer, defaults", rotation(2, 2, True, default=True), LY))
    for r in (0, -1):
        out.append(Obligation("layer, %d rotations" % r, refused(r), LY))
    return out
