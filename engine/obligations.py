"""Running obligations: abstract interpretation of an entry point followed by
the decision of the claims made about its result."""
import ast
import signal
import time

from . import terms as T
from . import tensor as TT
from . import interp as I
from . import decide as D
from .tensor import PyErr
from .terms import Unsupported, Q


import os
FIXED = os.environ.get("VERIF_FIXED")  # a test of the analysis: as if no symbolic analysis had succeeded
DEBUG = os.environ.get("VERIF_DEBUG") == "2"


class Obligation:
    def __init__(self, name, fn, anchor, small=None, paths=40, expect_err=None, symbolic=True, grid=5):
        self.name, self.fn, self.anchor, self.small, self.paths = name, fn, anchor, small, paths
        self.symbolic = symbolic
        self.grid = grid
        self.without = ()  # modes of use the obligation does not speak of


class Outcome:
    def __init__(self, ob):
        self.ob = ob
        self.proved = 0
        self.instances = 0
        self.undecided = []
        self.violations = []
        self.paths = 0
        self.mode = "symbolic"
        self.notes = []
        self.wall = 0.0
        self.listed = None

    def new(self):
        """violations other than the listed findings"""
        return [v for v in self.violations if not (self.listed and self.listed(v))]

    @property
    def decided(self):
        return self.proved + self.instances + len(self.violations)


CUTS = ("min", "max", "clamp", "clip", "range", "split", "chunk", "narrow", "minimum", "maximum")


def literals_of(it):
    """integer literals in the functions analysed"""
    out = set()
    for path, qual in it.functions:
        tree = it.trees.get(path)
        if tree is None:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == qual.split(".")[-1]:
                for c in ast.walk(n):
                    if isinstance(c, (ast.Compare, ast.Slice)) or isinstance(c, ast.BinOp) and isinstance(c.op, (ast.FloorDiv, ast.Mod)) \
                            or isinstance(c, ast.Call) and getattr(c.func, "attr", getattr(c.func, "id", None)) in CUTS:
                        for x in ast.walk(c):
                            if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool) \
                                    and 4 < abs(x.value) <= 1024:
                                out.add(abs(x.value))
    return sorted(out)


MODES = (
    # what the code asks for, the other answer
    (("training",), "in evaluation mode", dict(training=False)),
    (("is_grad_enabled", "is_inference_mode_enabled", "is_inference"), "with gradients switched off", dict(grad=False)),
    (("requires_grad", "is_leaf", "grad_fn"), "with an input that requires a gradient", dict(requires=True)),
    (("requires_grad",), "with frozen parameters", dict(frozen=True)),
    (("dtype", "is_floating_point", "element_size"), "in double precision", dict(dtype="float64")),
)


def modes_of(it, ob):
    """the answers other than the usual ones that the code analysed can tell apart: evaluation mode, no gradients, double precision"""
    names = set()
    for path, qual in it.functions:
        tree = it.trees.get(path)
        if tree is None or path.startswith("<"):
            continue
        last = qual.split(".")[-1]
        for n in ast.walk(tree):
            if not (isinstance(n, (ast.FunctionDef, ast.Lambda)) and getattr(n, "name", "<lambda>") == last):
                continue
            tests = [x for c in ast.walk(n) for x in ([c] if isinstance(c, (ast.Compare, ast.Match)) else
                                                      [c.slice] if isinstance(c, ast.Subscript) else
                                                      [c.test] if isinstance(c, (ast.If, ast.IfExp, ast.While, ast.Assert)) else [])]
            for root, some in [(n, ("training", "is_grad_enabled", "is_inference_mode_enabled", "is_inference", "requires_grad", "is_leaf",
                                    "grad_fn"))] + [(c, ("dtype", "is_floating_point", "element_size")) for c in tests]:
                for x in ast.walk(root):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in some:
                        names.add(x.attr)
                    elif isinstance(x, ast.Name) and x.id in some and x.id.startswith("is_"):
                        names.add(x.id)
                    elif isinstance(x, ast.Constant) and x.value in some:
                        names.add(x.value)
    out = []
    for asked, text, env in MODES:
        if names.intersection(asked) and text not in ob.without:
            out.append((text, env))
    if len(out) > 1:
        out.append((", ".join(t for t, e in out), {k: v for t, e in out for k, v in e.items()}))
    return out


def run(it, ob, deadline=None, seed=1, thorough=False, listed=None):
    it.env = {}
    out = run_mode(it, ob, deadline, seed, thorough, listed)
    if out.new():
        return out
    for text, env in modes_of(it, ob):
        if deadline is not None and time.time() > deadline:
            out.notes.append("time limit")
            break
        it.env = env
        try:
            o = run_mode(it, ob, deadline, seed, thorough, listed)
        finally:
            it.env = {}
        out.proved += o.proved
        out.instances += o.instances
        out.paths += o.paths
        out.wall += o.wall
        out.undecided += ["%s: %s" % (text, u) for u in o.undecided]
        out.notes += ["%s: %s" % (text, u) for u in o.notes]
        out.functions = sorted(set(out.functions) | set(o.functions))
        for v in o.violations:
            v["path"]["mode"] = text
            v["detail"] = "%s: %s" % (text, v["detail"])
            out.violations.append(v)
        if out.new():
            break
    return out


def run_mode(it, ob, deadline=None, seed=1, thorough=False, listed=None):
    out = Outcome(ob)
    out.listed = listed
    t0 = time.time()
    it.functions.clear()
    names = {}
    unsup = None
    if ob.symbolic:
        unsup = sweep(it, ob, out, {}, names, seed, thorough, deadline)
        for v in out.new():
            why = unconfirmed(it, ob, v, listed, seed)
            if why:
                out.violations.remove(v)
                unsup = unsup or why
    if FIXED:
        unsup = unsup or "fixed sizes asked for"
    if not ob.symbolic or (unsup is not None and not out.new()):
        # loops and shapes the symbolic domain cannot summarise: fixed sizes, symbolic elements
        keep = out.proved, out.instances
        out2 = Outcome(ob)
        out2.mode = "fixed sizes"
        out2.listed = listed
        out2.violations += out.violations
        if unsup is not None:
            out2.notes.append("symbolic sizes: %s" % unsup)
        grids = ob.small or auto_small(names, it, 8 if thorough else ob.grid)
        bad = None
        n_ok = 0
        reals = {k[5:]: v for k, v in names.items() if k.startswith("real ")}
        queue = [(g, False) for g in grids]
        if reals and not ob.small:
            # only if real quantities are in the way as well
            queue += [(dict(g, **{k: v + (2, 1, 3)[i % 3] for k, v in reals.items()}), True) for i, g in enumerate(grids)]
        for g, last in queue:
            if last and n_ok:
                break
            if deadline is not None and time.time() > deadline:
                out2.notes.append("time limit")
                break
            u = sweep(it, ob, out2, g, {}, seed, thorough, deadline)
            if u is not None:
                bad = u
                out2.notes.append("%s: %s" % (g, u))
            else:
                n_ok += 1
            if out2.new():
                break
        out2.proved += keep[0]
        out2.instances += keep[1]
        out2.paths += out.paths
        if bad is not None and not out2.new() and n_ok == 0:
            out2.undecided.append(bad)
        out = out2
    out.functions = sorted(it.functions)
    out.wall = time.time() - t0
    return out


def unconfirmed(it, ob, v, listed, seed):
    """A violation found with symbolic sizes is analysed once more with the sizes of its certificate as constants, where the analyser has
    no size left to compare. Returns the reason when the violation is not there."""
    cert = v.get("cert") or {}
    sizes = dict(cert.get("sizes") or {})
    sizes.update((v.get("path") or {}).get("bindings") or {})
    full = {k: Q(x) for k, x in sizes.items() if k != "pi"}
    ints = {k: x for k, x in full.items() if k in it.sizes}
    if not ints:
        return None
    left, t0 = signal.alarm(CONFIRM), time.time()
    try:
        for fixed in (full, ints) if len(full) > len(ints) else (ints,):
            o = Outcome(ob)
            o.listed = listed
            if sweep(it, ob, o, fixed, {}, seed, True, None) is not None or o.new() or o.undecided:
                return None
        return "not confirmed with the sizes of the certificate: %s %s" % (v["rule"], sizes)
    except BaseException as e:
        if type(e).__name__ in ("TimeUp", "MemoryError"):
            return None
        raise
    finally:
        signal.alarm(max(5, int(left - (time.time() - t0))) if left else 0)


CONFIRM = 60


def auto_small(names, it, n):
    if not names:
        return [{}]
    out = []
    names = {k: v for k, v in names.items() if not k.startswith("real ")}
    ks = sorted(names)
    offs = [(0,), (1,), (2, 0, 1), (1, 2, 0), (0, 3, 1, 2), (3, 1, 0, 2), (2, 2, 1), (4, 0, 2, 1)]
    for o in offs[:n]:
        out.append({k: names[k] + o[i % len(o)] for i, k in enumerate(ks)})
    for lit in literals_of(it)[:4]:
        for k in ks:
            for v in (lit, lit + 1, 2 * lit):
                g = {x: names[x] + (1 if x != k else 0) for x in ks}
                g[k] = v
                if len(out) < n + 20:
                    out.append(g)
    return out


def sweep(it, ob, out, fixed, names, seed, thorough, deadline):
    """analyse all paths; returns the reason when some path is unsupported"""
    unsup = None
    for r, info in it.explore(ob.fn, max_paths=ob.paths * (2 if thorough else 1), fixed=fixed):
        out.paths += 1
        for n, lo in T.CTX.declared.items():
            if n != "pi" and lo.denominator == 1 and n not in fixed:
                names.setdefault(n if n in it.sizes else "real " + n, int(lo))
        kind, v = r
        if kind == "unsupported":
            unsup = "%s at %s" % (v, loc_str(T.CTX.cur_loc))
            if DEBUG:
                import traceback
                traceback.print_exception(v)
            if not fixed and not ob.small and ob.symbolic:
                # other paths cannot be trusted to be complete either; keep going, violations still count
                pass
            continue
        if kind == "err":
            w = D.feasible(seed=seed)
            if w is None:
                out.notes.append("infeasible path with %s" % v)
                continue
            out.violations.append(dict(rule="no exception on valid use", claim=ob.name, detail=str(v), where=loc_str(v.loc),
                                       path=path_str(info), cert=w.describe()))
            continue
        try:
            for cl in v or []:
                res = D.decide(cl, seed=seed, trials=(D.TRIALS * 4 if thorough else None))
                if res.status == "proved":
                    out.proved += 1
                elif res.status == "instances":
                    out.instances += 1
                elif res.status == "undecided":
                    out.undecided.append("%s: %s" % (cl.what, res.detail))
                else:
                    if isinstance(cl, D.Fact) or res.cert is None:
                        w = D.feasible(seed=seed)
                        if w is None:
                            continue
                        res.cert = w.describe()
                    out.violations.append(dict(rule=cl.what, claim=ob.name, detail=res.detail, where=cl.anchor,
                                               path=path_str(info), cert=res.cert))
                    if out.listed is None or not out.listed(out.violations[-1]):
                        return unsup
        except Unsupported as e:
            unsup = "%s (deciding)" % e
        except PyErr as e:
            # raised lazily by an element of the result
            w = D.feasible(seed=seed)
            if w is not None:
                out.violations.append(dict(rule="no exception on valid use", claim=ob.name, detail=str(e), where=loc_str(e.loc),
                                           path=path_str(info), cert=w.describe()))
        except RecursionError:
            unsup = "engine recursion limit"
        if deadline is not None and time.time() > deadline:
            out.notes.append("time limit")
            break
    if it.truncated:
        out.notes.append("path limit reached")
    return unsup


def loc_str(l):
    if not l:
        return "?"
    try:
        return "%s:%s in %s" % (l[0], l[1], l[2])
    except Exception:
        return str(l)


def path_str(info):
    return dict(branches=["%s: %s -> %s" % (loc_str(a), b, c) for a, b, c in info["branches"]],
                bindings={k: str(v) for k, v in info["bindings"].items()})
