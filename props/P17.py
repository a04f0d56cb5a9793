"""Registered parameters are exactly what a module learns."""
from .catalog import *

FLAT = {"detach", "trunc", "floor", "ceil", "round", "sign", "fdiv"}


def reads(n, smooth):
    """names of the tensors a term depends on; smooth: only where the derivative can be other than zero"""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x.id in seen or (smooth and x.isbool):
            continue
        seen.add(x.id)
        if x.op == "elem":
            out.add(x.args[0])
            if smooth:
                continue
        if x.op == "app" and x.args[0] in FLAT and smooth:
            continue
        stack.extend(T.children(x))
    return out


def blocked(n):
    """names of the tensors whose influence a detach cuts out of the derivative"""
    out, seen, stack = set(), set(), [n]
    while stack:
        x = stack.pop()
        if x.id in seen or x.isbool or x.op == "elem":
            continue
        seen.add(x.id)
        if x.op == "app" and x.args[0] in FLAT:
            if x.args[0] == "detach":
                for c in T.children(x):
                    out |= reads(c, True)
            continue
        stack.extend(T.children(x))
    return out


def owners(m):
    """[(class name, parameter name, qualified name, tensor)]"""
    out, seen = [], set()
    for name, o in modules(m):
        P = o.cell_get("_parameters")
        if P is MISSING:
            continue
        for k, v in P.pairs():
            if v is not None and id(v.st) not in seen:
                seen.add(id(v.st))
                out.append((o.cls.name, str(k), (name + "." if name else "") + str(k), v))
    return out


def reachable(m):
    """[(path, parameter)] of all parameters an object holds in any attribute, list, tuple or dict, registered or not"""
    out, seen, stack = [], set(), [("", m, 0)]
    while stack:
        path, o, d = stack.pop()
        if d > 12 or id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, TT.Tensor):
            if o.is_param:
                out.append((path, o))
        elif isinstance(o, I.LDict):
            stack += [("%s[%s]" % (path, k), v, d + 1) for k, v in o.pairs()]
        elif isinstance(o, I.LList):
            stack += [("%s[%d]" % (path, i), v, d + 1) for i, v in enumerate(o.items)]
        elif isinstance(o, (tuple, list)):
            stack += [("%s[%d]" % (path, i), v, d + 1) for i, v in enumerate(o)]
        elif isinstance(o, I.Obj):
            stack += [("%s.%s" % (path, k), v, d + 1) for k, v in o.cells.items()]
    return out


def learns(build_, anchor, through=True):
    def fn(it):
        m, inputs = build_(it)
        havoc(it, m)
        mine = {id(p.st) for _, p in parameters(m)}
        for path, p in reachable(m):
            if id(p.st) not in mine:
                nm = "unregistered parameter " + path
                T.CTX.tensors[nm] = dict(shape=p.shape, kind="param", lo=None, hi=None, dtype="float")
                p.write(lambda *idx, nm=nm: T.elem(nm, idx))
        B = it.size("B")
        x = inputs(B)[0]
        y = it.call(m, [x])
        n = y.at(*[T.var(s) for s in y.shape])
        used, smooth = reads(n, False), reads(n, True)
        own = owners(m)
        names = {"p." + q for _, _, q, _ in own}
        out = []
        other = sorted(u for u in used - names - {"x"} if T.CTX.tensors.get(u, {}).get("kind") != "input")
        out.append(Fact("the output depends on inputs and registered parameters only", not other,
                        "it depends on %s" % ", ".join(other), anchor))
        for c, k, q, p in own:
            if p.attrs and p.attrs.get("uninit_param"):
                continue
            if not p.requires_grad:
                continue
            out.append(Fact("%s.%s: every trainable parameter influences the output with a gradient" % (c, k), ("p." + q) in smooth,
                            "%s does not" % q, anchor))
        cut = sorted(u for u in blocked(n) if u in names or T.CTX.tensors.get(u, {}).get("kind") == "input" or u == "x")
        out.append(Fact("nothing in between is detached", not cut, "detached influence of %s" % ", ".join(cut), anchor))
        if through:
            out.append(Fact("gradients reach the input", "x" in smooth, "", anchor))
        return out
    return fn


def frozen(it):
    m, _ = linear_rotation()(it)
    ps = parameters(m)
    return [Fact("fixed rotations are not trained", all(not p.requires_grad for _, p in ps), str([n for n, p in ps if p.requires_grad]), LY)]


def trainable(build_, anchor):
    def fn(it):
        m, _ = build_(it)
        bad = [q for c, k, q, p in owners(m) if not p.requires_grad and c != "Linear"]
        return [Fact("parameters require gradients", not bad, ", ".join(bad), anchor)]
    return fn


def obligations():
    out = []
    for nm, b, a in LAYERS + CONVS + NETS + NORMS + EMB:
        out.append(Obligation(nm, learns(b, a), a))
        out.append(Obligation(nm + ", trainable", trainable(b, a), a))
    out.append(Obligation("fixed rotation", frozen, LY))
    for o in out:
        o.without = ("with gradients switched off", "with frozen parameters")
    return out
