"""Which device every tensor lives on and how precise it is (a flow analysis on top of the interpreter, switched on by it.devices).

A storage carries the name of its device or None when the analysis does not know it; unknown devices never conflict. Operations on tensors of two known, different
devices raise the RuntimeError the library raises, except for zero dimensional tensors on the cpu, copies between devices and indices on the cpu.
"""
from . import interp as I
from .tensor import Tensor, PyErr, Top
from . import tensor as TT

CPU = "cpu"
FACTORY = set("tensor as_tensor zeros ones empty full arange linspace logspace eye rand randn randint randperm Tensor range normal tril_indices triu_indices "
              "hann_window from_numpy scalar_tensor chebyshevLobatto bernoulli_".split())
LIKE = set("zeros_like ones_like empty_like full_like rand_like randn_like randint_like new_zeros new_ones new_empty new_full new_tensor".split())
MOVE = {"to", "cuda", "cpu", "type"}
FREE = {"copy_", "set_", "numel", "size", "dim", "manual_seed", "save", "load", "is_tensor"}
INDEX = {"__getitem__", "__setitem__"}


def name_of(v):
    if v is None:
        return None
    if v == "?":
        return None
    if isinstance(v, str):
        return v.split(":")[0]
    if isinstance(v, I.ExtMod) and v.path.startswith("torch.device#"):
        return v.path[len("torch.device#"):] or None
    if isinstance(v, int) and not isinstance(v, bool):
        return "cuda"
    return None


def is_device(v):
    return isinstance(v, str) and v.split(":")[0] in ("cpu", "cuda", "mps", "meta", "xpu", "xla", "hip") or isinstance(v, I.ExtMod) and v.path.startswith("torch.device#")


def obj(d):
    return I.ExtMod("torch.device#" + (d or ""))


def tensors(v, out, depth=0):
    if isinstance(v, Tensor):
        out.append(v)
    elif isinstance(v, (tuple, list)):
        for x in v:
            tensors(x, out, depth)
    elif isinstance(v, I.LList) and depth < 4:
        for x in v.items:
            if isinstance(x, I.Family):
                try:
                    x = x.at(0)
                except Exception:
                    continue
            tensors(x, out, depth + 1)
    return out


def of(t):
    return t.st.dev


def put(v, d=None, prec=None):
    for t in tensors(v, []):
        t.st.dev = d or t.st.dev
        t.st.prec = prec or t.st.prec


def join(name, ts):
    """the device of a result; raises where the library raises"""
    out = None
    big = [t for t in ts if t.ndim or of(t) not in (None, CPU)]
    for t in big:
        d = of(t)
        if d is None:
            continue
        if out is None:
            out = d
        elif out != d:
            raise PyErr("RuntimeError", "Expected all tensors to be on the same device, but found at least two devices, %s and %s (%s)" % (out, d, name))
    if big and out is None:
        return None
    if not big:
        return CPU if ts and all(of(t) == CPU for t in ts) else None
    return out


def run(it, name, f, a, k):
    if not it.devices or it.dev_depth:
        return f(it, a, k)
    ts = tensors(list(a) + [k[x] for x in k], [])
    before = {id(t.st) for t in ts}
    named = "device" in k and k["device"] is not None
    prec = precision(name, ts, a, k)
    if name in MOVE or name in CAST:
        own = of(ts[0]) if ts else None
        target = own
        for v in list(a[1:]) + [k[x] for x in k if x in ("device", "other")]:
            if isinstance(v, Tensor):
                target = of(v)
            elif is_device(v):
                target = name_of(v)
        if name in ("cuda", "cpu"):
            target = name
        r = inner(it, f, a, k)
        if isinstance(r, Tensor):
            if (target != own or r.dtype == "float" and prec != ts[0].st.prec) and id(r.st) in before:
                r = copy(r)
            if id(r.st) not in before:
                r.st.dev, r.st.prec = target, prec
        return r
    if name in FACTORY:
        d = name_of(k["device"]) if named else CPU
        if name in ("as_tensor", "tensor", "from_numpy") and not named and a and isinstance(a[0], Tensor):
            d = of(a[0])
        if name in ("normal",) and ts:
            d = join(name, ts)
    elif name in LIKE:
        d = name_of(k["device"]) if named else of(ts[0]) if ts else None
    elif name in FREE:
        d = of(ts[0]) if ts else None
    else:
        d = join(name, ts)
    r = inner(it, f, a, k)
    for t in tensors(r, []):
        if id(t.st) not in before:
            t.st.dev, t.st.prec = d, prec
    return r


CAST = set("float double half bfloat16 long int short type_as bool byte char".split())
WIDTH = {"f16": 0, "f32": 1, "f64": 2}
NAMES = {"float": "f32", "float32": "f32", "double": "f64", "float64": "f64", "half": "f16", "float16": "f16", "bfloat16": "f16"}
STRICT = set("einsum matmul bmm mm mv addmm baddbmm dot inner tensordot linear conv1d conv2d conv3d conv_transpose1d conv_transpose2d conv_transpose3d layer_norm "
             "batch_norm bilinear @ scaled_dot_product_attention".split())


def prec_of(v):
    return NAMES.get(v.path[6:]) if isinstance(v, I.ExtMod) and v.path.startswith("torch.") else None


def promote(ts):
    """precision of a floating point result computed from ts; None: unknown"""
    for group in ([t for t in ts if t.dtype == "float" and t.ndim], [t for t in ts if t.dtype == "float"]):
        if group:
            ps = {t.st.prec for t in group}
            return None if None in ps else max(ps, key=WIDTH.get)
    return "f32" if ts else None


def precision(name, ts, a, k):
    given = [p for p in [prec_of(k.get("dtype"))] if p]
    if name in MOVE or name in CAST:
        if name in NAMES:
            return NAMES[name]
        for v in list(a[1:]) + [k.get("other")]:
            if isinstance(v, Tensor):
                given.append(v.st.prec if v.dtype == "float" else None)
            elif prec_of(v):
                given.append(prec_of(v))
        return given[0] if given else ts[0].st.prec if ts and ts[0].dtype == "float" else "f32"
    if given:
        return given[0]
    if name in FACTORY and not ts:
        return "f32"
    if name in LIKE:
        return promote(ts[:1])
    if name in STRICT:
        ps = {t.st.prec for t in ts if t.dtype == "float"} - {None}
        if len(ps) > 1:
            raise PyErr("RuntimeError", "expected tensors of the same dtype, but found %s (%s)" % (" and ".join(sorted(ps)), name))
    return promote(ts)


def check_put(o, k, v):
    """storing by tensors of indices takes values of the same dtype only"""
    if isinstance(v, Tensor) and v.ndim and v.dtype == o.dtype == "float" and v.st.prec and o.st.prec and v.st.prec != o.st.prec:
        if any(t.ndim for t in tensors(k if isinstance(k, tuple) else (k,), [])):
            raise PyErr("RuntimeError", "Index put requires the source and destination dtypes match, got %s for the destination and %s for the source" % (o.st.prec, v.st.prec))


def copy(t):
    sn = t.snap()
    return Tensor(TT.Storage(t.shape, lambda *i: sn(*i), t.dtype), t.shape)


def inner(it, f, a, k):
    it.dev_depth += 1
    try:
        return f(it, a, k)
    finally:
        it.dev_depth -= 1


def track(name, f):
    def g(it, a, k):
        if not it.devices:
            return f(it, a, k)
        return run(it, name, f, a, k)
    return g


def index(it, o, k, f):
    if not it.devices or it.dev_depth:
        return f()
    check_index(o, k)
    it.dev_depth += 1
    try:
        r = f()
    finally:
        it.dev_depth -= 1
    if isinstance(r, Tensor) and r.st is not o.st:
        r.st.dev, r.st.prec = of(o), o.st.prec
    return r


def check_index(o, k):
    for t in tensors(k if isinstance(k, tuple) else (k,), []):
        d = of(t)
        if d not in (None, CPU) and of(o) is not None and d != of(o):
            raise PyErr("RuntimeError", "indices should be either on cpu or on the same device as the indexed tensor (%s)" % of(o))


def module_to(it, a, k):
    """Module.to / cuda / cpu: parameters and buffers move"""
    if not it.devices:
        return None
    target = prec = None
    for v in list(it.concrete(a[1])) + [x for x in [a[2].get("device")] if x is not I.MISSING]:
        if is_device(v):
            target = name_of(v)
        elif isinstance(v, Tensor):
            target, prec = of(v), v.st.prec
        elif prec_of(v):
            prec = prec_of(v)
    if prec_of(a[2].get("dtype")):
        prec = prec_of(a[2].get("dtype"))
    for m in it.concrete(it.call(it.getattr(a[0], "modules"), [])):
        for reg in ("_parameters", "_buffers"):
            d = m.cell_get(reg)
            for _, p in d.pairs() if isinstance(d, I.LDict) else []:
                if isinstance(p, Tensor):
                    p.st.dev = target or p.st.dev
                    p.st.prec = prec or p.st.prec
        if target and any(c.name == "LightningModule" for c in m.cls.mro):
            m.cell_set("device", obj(target))
    return None
