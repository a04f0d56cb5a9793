"""Abstract interpreter for the Python source under analysis.

Walks the syntax tree of the analysed modules.  Numbers are concrete integers,
exact rationals (PF) or terms; tensors are abstract (tensor.py).  Loops over a
symbolic range are summarised, branches on undecided conditions split the
analysis (trace partitioning).  Nothing of the analysed program is executed.
"""
import ast
import os
from fractions import Fraction as Q

from . import terms as T
from .terms import Node, Unsupported, const
from . import tensor as TT
from .tensor import PyErr, Top, Tensor, J, Cells, MISSING, State, Slice


class PF:
    """a concrete python float, kept exactly"""
    __slots__ = ("q",)

    def __init__(self, q):
        if isinstance(q, float) and q == q and q not in (float("inf"), float("-inf")):
            q = Q(repr(q))
        elif isinstance(q, int):
            q = Q(q)
        self.q = q

    def __repr__(self):
        return repr(float(self.q))

    def __eq__(self, o):
        return isinstance(o, PF) and self.q == o.q

    def __hash__(self):
        return hash(("PF", self.q))


def simp(n, floaty=True):
    """node -> python value where it is a literal"""
    if isinstance(n, Node):
        if n.op == "b":
            return n.args[0]
        if n.op == "q":
            v = n.args[0]
            if not floaty and v.denominator == 1:
                return int(v)
            return PF(v)
        if n.op == "inf":
            return PF(float("inf") * n.args[0])
    return n


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Restart(Exception):
    """re-run the path with a size symbol bound to a constant"""

    def __init__(self, name, value):
        self.name, self.value = name, value


class Family:
    """`count` consecutive list items, item number k being at(k)"""
    __slots__ = ("count", "at")

    def __init__(self, count, at):
        self.count, self.at = count, at


class SymSeq:
    """iterable of symbolic length"""

    def __init__(self, count, at):
        self.count, self.at = count, at


class LList(Cells):
    kind = "list"

    def __init__(self, items=()):
        Cells.__init__(self)
        self.cells["items"] = tuple(items)

    @property
    def items(self):
        return self.cells["items"]

    def set(self, items):
        self.cell_set("items", tuple(items))


class LSet(LList):
    kind = "set"


class LDict(Cells):
    def __init__(self, pairs=(), default=None):
        Cells.__init__(self)
        self.default = default
        d = {}
        for k, v in pairs:
            d[dkey(k)] = (k, v)
        self.cells["d"] = d

    @property
    def d(self):
        return self.cells["d"]

    def get(self, k, dflt=MISSING):
        r = self.d.get(which_key(self.d, k))
        return dflt if r is None else r[1]

    def put(self, k, v):
        d = dict(self.d)
        kk = which_key(d, k)
        d[kk] = (d[kk][0] if kk in d else k, v)
        self.cell_set("d", d)

    def remove(self, k):
        d = dict(self.d)
        r = d.pop(which_key(d, k))
        self.cell_set("d", d)
        return r[1]

    def pairs(self):
        return list(self.d.values())


def symbolic_key(kk):
    return isinstance(kk, tuple) and (kk[:1] == ("node",) or kk[:1] != ("obj",) and any(symbolic_key(x) for x in kk))


def which_key(d, k):
    """the key of d (dkey -> (key, ...)) equal to k; the interpretation forks where that depends on symbols"""
    kk = dkey(k)
    if kk in d:
        return kk
    sym = symbolic_key(kk)
    for k2, (k0, *_) in d.items():
        if sym or symbolic_key(k2):
            r = same_key(k0, k, k2, kk)
            if isinstance(r, Node):
                r = CURRENT[0].decide(r)
            if r is True:
                return k2
    return kk


def same_key(a, b, ka, kb):
    if ka == kb:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = T.true()
        for x, y, kx, ky in zip(a, b, ka, kb):
            r = same_key(x, y, kx, ky)
            if r is False:
                return False
            if r is not True:
                out = T.and_(out, r)
        return out.args[0] if out.op == "b" else out
    if isnum(a) and isnum(b):
        return values_equal(CURRENT[0], a, b)
    return False


CURRENT = [None]


def dkey(k):
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, PF):
        return int(k.q) if isinstance(k.q, Q) and k.q.denominator == 1 else k.q
    if isinstance(k, tuple):
        return tuple(dkey(x) for x in k)
    if isinstance(k, Node):
        s = simp(k, False)
        return dkey(s) if not isinstance(s, Node) else ("node", k)
    if isinstance(k, (int, str)) or k is None:
        return k
    if isinstance(k, LList):
        raise PyErr("TypeError", "unhashable type: 'list'")
    return ("obj", id(k), k)


class Range:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Scope(Cells):
    def __init__(self, parent=None, glob=None, local_names=None):
        Cells.__init__(self)
        self.parent = parent
        self.glob = glob
        self.local_names = local_names or set()
        self.globals_decl = set()
        self.nonlocals = set()


class PyModule(Scope):
    def __init__(self, name, path):
        Scope.__init__(self)
        self.name = name
        self.path = path
        self.tree = None


class ExtMod:
    """a module or object of a library outside the repository"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


class Func:
    def __init__(self, node, scope, mod, qual, defaults, kwdefaults, cls=None):
        self.node, self.scope, self.mod, self.qual = node, scope, mod, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls
        self.locals = None
        self.attrs = Cells()

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class BType:
    def __init__(self, name, fn, test):
        self.name, self.fn, self.test = name, fn, test

    def __repr__(self):
        return "<type %s>" % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Cached:
    """functools.cached_property"""

    def __init__(self, fn):
        self.fn = fn


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class NoGradWrap:
    def __init__(self, fn):
        self.fn = fn


class Class(Cells):
    def __init__(self, name, bases, mod=None, qual=None):
        Cells.__init__(self)
        self.name, self.bases, self.mod = name, bases, mod
        self.qual = qual or name
        self.mro = c3(self)

    def __repr__(self):
        return "<class %s>" % self.name

    def lookup(self, name):
        for c in self.mro:
            v = c.cell_get(name)
            if v is not MISSING:
                return v, c
        return MISSING, None

    def derives(self, other):
        return other in self.mro


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise PyErr("TypeError", "cannot create a consistent MRO")
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
    return out


class Obj(Cells):
    def __init__(self, cls):
        Cells.__init__(self)
        self.cls = cls
        self.uid = TT.fresh_id()

    def __repr__(self):
        return "<%s object>" % self.cls.name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Poison:
    """value of a variable carried around a summarised loop that cannot be tracked"""

    def __repr__(self):
        return "Poison"


class ListMark:
    """prefix of a list whose loop is being summarised"""


EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError", "AttributeError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "AssertionError": "Exception",
    "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "StopIteration": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "FutureWarning": "Warning", "OSError": "Exception",
    "KeyboardInterrupt": "BaseException",
    "FileNotFoundError": "OSError", "RuntimeWarning": "Warning",
}


def assigned_names(node):
    out, glob, nonl = set(), set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    targets(x.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                targets(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            targets(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(n, ast.NamedExpr):
            targets(n.target)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in node.body if isinstance(node.body, list) else [node.body]:
        visit(s)
    return out - glob - nonl, glob, nonl


def has_jump(stmts):
    """return/raise/break/continue that leaves the statement list"""
    def v(n, inloop):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Return, ast.Raise, ast.Assert)):
            return not isinstance(n, ast.Assert)
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        il = inloop or isinstance(n, (ast.For, ast.While))
        return any(v(c, il) for c in ast.iter_child_nodes(n))
    return any(v(s, False) for s in stmts)


MAXDEPTH = 60


_NAMES = None


def _names():
    global _NAMES
    if _NAMES is None:
        import json
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "names.json")) as f:
            _NAMES = {k: set(v) for k, v in json.load(f).items()}
    return _NAMES


def known_attr(kind, name):
    return name in _names().get(kind, ())


class Interp:
    """one analysed program"""

    def __init__(self, root, packages=("high_order_layers_torch",), extra=None):
        self.root = root
        self.packages = packages
        self.trees = {}       # path -> ast (shared across paths)
        self.budget = 3000000
        self.devices = False  # follow the device of every tensor
        self.dev_depth = 0
        self.functions = set()
        self.env = {}         # answers to questions about the mode of use, where they differ from the usual ones
        self.reset()

    # ------------------------------------------------------------ path state
    def reset(self):
        T.reset_ctx()
        TT._dimeq.clear()
        TT.ground.clear()
        J.logs.clear()
        State.nograd = 0
        State.writes = None
        self.modules = {}
        self.rename = {}
        self.depth = 0
        self.steps = 0
        self.loopvars = []
        self.rand = 0
        self.script = []
        self.pos = 0
        self.bindings = {}
        self.branches = []
        self.taken = []
        self.stack = []
        self.logs = []
        CURRENT[0] = self
        self.builtins = None
        self.maxsteps = 1500000
        from . import builtins_model
        builtins_model.install(self)

    def loc(self, node=None):
        return T.CTX.cur_loc

    # ------------------------------------------------------------ forking
    def decide(self, node):
        if node.op == "b":
            return node.args[0]
        v = T.CTX.eqs.get(node)
        if v is not None:
            return v
        nv = T.CTX.eqs.get(T.not_(node))
        if nv is not None:
            return not nv
        if node.fv:
            raise Unsupported("branch on a loop variable: %s" % T.show(node))
        if self.pos < len(self.script):
            val = self.script[self.pos]
        else:
            val = True
            self.script.append(True)
        self.pos += 1
        self.branches.append((T.CTX.cur_loc, T.show(node), val))
        self.taken.append(node)
        self.assume(node, val)
        return val

    def assume(self, node, val):
        T.CTX.eqs[node] = val
        T._cache_nonneg.clear()
        if node.op == "not":
            self.assume(node.args[0], not val)
        elif node.op == "and" and val:
            for x in node.args:
                self.assume(x, True)
        elif node.op == "or" and not val:
            for x in node.args:
                self.assume(x, False)
        elif node.op == "le0":
            p = node.args[0]
            if val:
                T.CTX.facts.append(T.neg(p))
            else:
                T.CTX.facts.append(T.sub(p, const(1)) if p.isint else p)
            self.tighten(T.CTX.facts[-1])
        elif node.op == "eq0":
            p = node.args[0]
            if val:
                syms = [n for n in T.walk(p) if n.op == "sym" and n.args[0] != "pi"]
                if len(syms) == 1 and not any(n.op in ("elem", "app", "red", "ite", "inv") for n in T.walk(p)):
                    lr = T.linear_in(p, syms[0])
                    if lr is not None and lr[0].op == "q" and lr[1].op == "q":
                        v = -T.cval(lr[1]) / T.cval(lr[0])
                        raise Restart(syms[0].args[0], v)
                T.CTX.facts.append(p)
                T.CTX.facts.append(T.neg(p))

    def tighten(self, f):
        """f >= 0 as a bound of one integer symbol"""
        d = T.to_dict(f)
        atoms = {a for m in d for a, _ in m}
        if len(atoms) != 1:
            return
        a, = atoms
        if a.op != "sym" or not a.isint or set(d) - {(), ((a, 1),)}:
            return
        nm, c, k = a.args[0], d[((a, 1),)], d.get((), Q(0))
        b = -k / c
        if c > 0:
            b = Q(-((-b) // 1))
            if nm in T.CTX.lo and T.CTX.lo[nm] < b:
                T.CTX.lo[nm] = b
        else:
            b = Q(b // 1)
            h = T.CTX.hi.get(nm)
            if h is None or const(h).op == "q" and T.cval(const(h)) > b:
                T.CTX.hi[nm] = const(b)
        lo, h = T.CTX.lo.get(nm), T.CTX.hi.get(nm)
        if lo is not None and h is not None and const(h).op == "q" and T.cval(const(h)) == lo:
            raise Restart(nm, lo)

    sizes = set()
    rename = {}
    asked = []

    def explore(self, fn, max_paths=48, fixed=None):
        """run fn once per path; yields (result | exception, path-info)"""
        pending = [([], dict(fixed or {}))]
        done = 0
        self.truncated = False
        while pending:
            script, binds = pending.pop()
            if done >= max_paths:
                self.truncated = True
                return
            self.reset()
            self.script = list(script)
            self.bindings = dict(binds)
            n0 = len(script)
            try:
                try:
                    r = ("ok", fn(self))
                except PyErr as e:
                    r = ("err", e)
                except Unsupported as e:
                    r = ("unsupported", e)
                except RecursionError as e:
                    r = ("unsupported", Unsupported("engine recursion limit"))
            except Restart as e:
                # alternatives of the decisions taken so far, then the bound re-run
                for k in range(n0, self.pos):
                    pending.append((self.script[:k] + [not self.script[k]], dict(binds)))
                b2 = dict(binds)
                if e.name in b2:
                    raise Unsupported("rebinding %s" % e.name)
                b2[e.name] = e.value
                # decisions that the binding settles disappear (their conditions become constant)
                keep = []
                for node, val in zip(self.taken[:self.pos - 1], self.script):
                    r = T.subst(node, {n: const(e.value) for n in T.walk(node) if n.op == "sym" and n.args[0] == e.name})
                    if r.op != "b":
                        keep.append(val)
                    elif r.args[0] != val:
                        keep = None
                        break
                if keep is not None:
                    pending.append((keep, b2))
                continue
            done += 1
            for k in range(n0, min(self.pos, len(self.script))):
                pending.append((self.script[:k] + [not self.script[k]], dict(binds)))
            yield r, dict(branches=list(self.branches), bindings=dict(self.bindings))

    def size(self, name, lo=1, hi=None):
        """a symbolic configuration integer (or its bound value)"""
        self.asked.append(name)
        name = self.rename.get(name, name)
        self.sizes.add(name)
        if name in self.bindings:
            v = self.bindings[name]
            return int(v)
        return T.sym(name, True, lo=lo, hi=hi)

    def real(self, name, lo=None, hi=None):
        self.asked.append(name)
        name = self.rename.get(name, name)
        if name in self.bindings:
            return PF(self.bindings[name])
        return T.sym(name, False, lo=lo, hi=hi)

    # ------------------------------------------------------------ modules
    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def internal(self, name):
        return name.split(".")[0] in self.packages

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.find(name)
        if path is None:
            raise PyErr("ModuleNotFoundError", name)
        tree = self.trees.get(path)
        if tree is None:
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            self.trees[path] = tree
        m = PyModule(name, path)
        m.glob = m
        self.modules[name] = m
        m.cells["__name__"] = name
        m.cells["__file__"] = path
        m.ispkg = path.endswith("__init__.py")
        self.run_module(m, tree)
        return m

    def run_module(self, m, tree):
        old = T.CTX.cur_loc
        fr = Frame(self, m, None, m)
        try:
            for s in tree.body:
                fr.stmt(s)
        finally:
            T.CTX.cur_loc = old

    def getattr_path(self, dotted):
        """module.attr.attr of the analysed package"""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            if self.find(".".join(parts[:k])):
                v = self.module(".".join(parts[:k]))
                for p in parts[k:]:
                    v = self.getattr(v, p)
                return v
        raise PyErr("ModuleNotFoundError", dotted)

    def getitem(self, o, k):
        from .frame import Frame
        return Frame(self, Scope(), None, None).getitem(o, k)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        from . import torchmodel
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, Tensor):
            return torchmodel.tensor_attr(self, o, name)
        if isinstance(o, PyModule):
            v = o.cell_get(name)
            if v is MISSING:
                sub = o.name + "." + name
                if self.find(sub):
                    return self.module(sub)
                raise PyErr("AttributeError", "module %s has no attribute %s" % (o.name, name))
            return v
        if isinstance(o, ExtMod):
            return torchmodel.ext_attr(self, o.path, name)
        if isinstance(o, Class):
            v, c = o.lookup(name)
            if v is MISSING:
                if name == "__name__":
                    return o.name
                if name == "__mro__":
                    return tuple(o.mro)
                if name == "__init__":
                    return Builtin("object.__init__", lambda it, a, k: None)
                self.unmodelled(o, name)
                raise PyErr("AttributeError", "type object %s has no attribute %s" % (o.name, name))
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, ClassM):
                return Bound(v.fn, o)
            return v
        if isinstance(o, Super):
            return self.super_getattr(o, name)
        if isinstance(o, Top):
            return Top(o.why + "." + name)
        if isinstance(o, Poison):
            raise Unsupported("loop-carried value")
        from . import builtins_model
        r = builtins_model.value_attr(self, o, name)
        if r is MISSING:
            tn = typename(o)
            if tn not in _names() or known_attr(tn, name):
                raise Unsupported("%s.%s is not modelled" % (tn, name))
            raise PyErr("AttributeError", "%s has no attribute %s" % (typename(o), name))
        return r

    def bind(self, v, o):
        if isinstance(v, (Func, Builtin, NoGradWrap)):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.fn
        if isinstance(v, ClassM):
            return Bound(v.fn, o.cls)
        if isinstance(v, Prop):
            return self.call(v.fget, [o])
        if isinstance(v, Cached):
            r = self.call(v.fn, [o])
            o.cell_set(v.fn.name, r)
            return r
        return v

    def obj_getattr(self, o, name):
        v, c = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.fget, [o])
        iv = o.cell_get(name)
        if iv is not MISSING:
            return iv
        for reg in ("_parameters", "_buffers", "_modules"):
            d = o.cell_get(reg)
            if isinstance(d, LDict):
                r = d.get(name)
                if r is not MISSING:
                    return r
        if v is not MISSING:
            return self.bind(v, o)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return LDict([(k, x) for k, x in o.cells.items()])
        ga, _ = o.cls.lookup("__getattr__")
        if ga is not MISSING:
            return self.call(ga, [o, name])
        self.unmodelled(o.cls, name)
        raise PyErr("AttributeError", "'%s' object has no attribute '%s'" % (o.cls.name, name))

    def unmodelled(self, cls, name):
        """library classes are modelled in part: what they really have but the model lacks is not an error of the program"""
        for c in cls.mro:
            if c.mod is not None and getattr(c.mod, "islib", False):
                if c.name in ("Module", "Optimizer", "LightningModule", "Tensor"):
                    if known_attr(c.name, name):
                        raise Unsupported("%s.%s is not modelled" % (c.name, name))
                elif any(b.name == "Module" for b in c.mro):
                    if known_attr("nn." + c.name if "nn." + c.name in _names() else "nn", name):
                        raise Unsupported("%s.%s is not modelled" % (c.name, name))
                else:
                    raise Unsupported("%s.%s is not modelled" % (c.name, name))
            elif c.mod is None and c.name not in ("object",) and c.name not in EXC:
                raise Unsupported("%s.%s is not modelled" % (c.name, name))
        if known_attr("object", name) or known_attr("type", name):
            raise Unsupported("%s.%s is not modelled" % (cls.name, name))

    def super_getattr(self, s, name):
        mro = s.obj.cls.mro if isinstance(s.obj, Obj) else s.obj.mro
        i = mro.index(s.cls)
        for c in mro[i + 1:]:
            v = c.cell_get(name)
            if v is not MISSING:
                if isinstance(s.obj, Obj):
                    return self.bind(v, s.obj)
                if isinstance(v, ClassM):
                    return Bound(v.fn, s.obj)
                if isinstance(v, StaticM):
                    return v.fn
                return v
        if name == "__init__":
            return Builtin("object.__init__", lambda it, a, k: None)
        if name == "__setattr__":
            return Builtin("object.__setattr__", lambda it, a, k: self.obj_setattr(s.obj, a[0], a[1], raw=True))
        if name == "__init_subclass__":
            return Builtin("object.__init_subclass__", lambda it, a, k: None)
        self.unmodelled(s.obj.cls if isinstance(s.obj, Obj) else s.obj, name)
        raise PyErr("AttributeError", "'super' object has no attribute '%s'" % name)

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            sa, _ = o.cls.lookup("__setattr__")
            if sa is not MISSING:
                self.call(sa, [o, name, v])
                return
            self.obj_setattr(o, name, v)
            return
        if isinstance(o, Tensor):
            from . import torchmodel
            torchmodel.tensor_setattr(self, o, name, v)
            return
        if isinstance(o, (Class, PyModule)):
            o.cell_set(name, v)
            return
        if isinstance(o, Func):
            o.attrs.cell_set(name, v)
            return
        if isinstance(o, (ExtMod, Top)):
            return
        raise PyErr("AttributeError", "cannot set %s on %s" % (name, typename(o)))

    def obj_setattr(self, o, name, v, raw=False):
        p, _ = o.cls.lookup(name)
        if isinstance(p, Prop):
            if p.fset is None:
                raise PyErr("AttributeError", "property '%s' of '%s' object has no setter" % (name, o.cls.name))
            self.call(p.fset, [o, v])
            return
        if getattr(o.cls, "is_module", False) or any(getattr(c, "is_module", False) for c in o.cls.mro):
            from . import torchmodel
            torchmodel.module_setattr(self, o, name, v)
            return
        o.cell_set(name, v)

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyErr as e:
            if e.name == "AttributeError":
                return False
            raise

    # ------------------------------------------------------------ calls
    trace = None

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, BType):
            return f.fn(self, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__")
            if c is MISSING:
                raise PyErr("TypeError", "'%s' object is not callable" % f.cls.name)
            return self.call(c, [f] + args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + args, k)
        if isinstance(f, NoGradWrap):
            State.nograd += 1
            try:
                return self.call(f.fn, args, kw)
            finally:
                State.nograd -= 1
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw)
        if isinstance(f, ExtMod):
            from . import torchmodel
            return torchmodel.ext_call(self, f.path, args, kw)
        if isinstance(f, Top):
            return Top("call of " + f.why)
        if isinstance(f, Poison):
            raise Unsupported("loop-carried callable")
        raise PyErr("TypeError", "'%s' object is not callable" % typename(f))

    def instantiate(self, cls, args, kw):
        if getattr(cls, "is_tensor", False):
            from . import torchmodel
            return torchmodel.tensor_ctor(self, args, kw)
        if cls.name in EXC and cls.mod is None:
            o = Obj(cls)
            o.cell_set("args", tuple(args))
            return o
        nw, nc = cls.lookup("__new__")
        if nw is not MISSING:
            o = self.call(nw.fn if isinstance(nw, StaticM) else nw, [cls] + list(args), kw)
            if not isinstance(o, Obj) or cls not in o.cls.mro:
                return o
        else:
            o = Obj(cls)
        init, c = cls.lookup("__init__")
        if any(b.name in EXC and b.mod is None for b in cls.mro):
            o.cell_set("args", tuple(args))
            if init is MISSING:
                return o
        if init is not MISSING:
            r = self.call(init, [o] + list(args), kw)
            if r is not None:
                raise PyErr("TypeError", "__init__() should return None")
        elif args or kw:
            if any(c.mod is None or getattr(c.mod, "islib", False) for c in cls.mro if c.name != "object"):
                raise Unsupported("construction of %s" % cls.name)
            raise PyErr("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def call_func(self, f, args, kw):
        if self.trace is not None and args and isinstance(args[0], Obj) and f.name == "forward":
            self.trace.append(args[0])
        if self.depth >= MAXDEPTH:
            raise PyErr("RecursionError", "maximum recursion depth exceeded in %s" % f.qual)
        node = f.node
        a = node.args
        if f.locals is None:
            f.locals = assigned_names(node)
        names, glob, nonl = f.locals
        sc = Scope(f.scope, f.mod, names)
        sc.globals_decl, sc.nonlocals = glob, nonl
        sc.func = f
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        cells = sc.cells
        loc = T.CTX.cur_loc
        if len(args) > len(pos) and a.vararg is None:
            raise PyErr("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
        for n, v in zip(pos, args):
            cells[n] = v
        if a.vararg is not None:
            cells[a.vararg.arg] = tuple(args[len(pos):])
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        po = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in pos and k not in po) or k in kwonly:
                if k in cells:
                    raise PyErr("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                cells[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                raise PyErr("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            cells[a.kwarg.arg] = LDict(extra)
        for i, n in enumerate(pos):
            if n not in cells:
                j = i - (len(pos) - nd)
                if j >= 0:
                    cells[n] = f.defaults[j]
                else:
                    raise PyErr("TypeError", "%s() missing required argument: '%s'" % (f.name, n))
        for n in kwonly:
            if n not in cells:
                if n in f.kwdefaults:
                    cells[n] = f.kwdefaults[n]
                else:
                    raise PyErr("TypeError", "%s() missing required keyword-only argument: '%s'" % (f.name, n))
        sc.local_names = names | set(cells)
        self.depth += 1
        self.stack.append(f.qual)
        if f.mod is not None and not getattr(f.mod, "islib", False):
            self.functions.add((f.mod.path, f.qual))
        fr = Frame(self, sc, f, f.mod)
        try:
            if isinstance(node, ast.Lambda):
                return fr.expr(node.body)
            gen = getattr(node, "_isgen", None)
            if gen is None:
                gen = node._isgen = is_generator(node)
            if gen:
                fr.yields = []
                try:
                    fr.block(node.body)
                except ReturnEx:
                    pass
                return LList(fr.yields)
            try:
                fr.body_block(node.body)
            except ReturnEx as e:
                return e.v
            return None
        finally:
            self.depth -= 1
            self.stack.pop()
            T.CTX.cur_loc = loc

    # ------------------------------------------------------------ truth
    def truth(self, v):
        t = self.truth_node(v)
        if isinstance(t, bool):
            return t
        return self.decide(t)

    def truth_node(self, v):
        """bool or a bool node"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, PF):
            return v.q != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Node):
            if v.op == "b":
                return v.args[0]
            if v.isbool:
                return v
            n = T.not_(T.eq(v, const(0)))
            return n.args[0] if n.op == "b" else n
        if isinstance(v, Tensor):
            if v.mask is not None:
                raise Unsupported("truth of masked selection")
            for s in v.shape:
                if not TT.is_one(s):
                    if s.op == "q":
                        raise PyErr("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous")
                    raise Unsupported("truth of tensor of symbolic size")
            return self.truth_node(v.at(*[const(0)] * v.ndim))
        if isinstance(v, LList):
            n = self.length(v)
            if isinstance(n, Node):
                return self.truth_node(n)
            return n > 0
        if isinstance(v, LDict):
            return len(v.d) > 0
        if isinstance(v, Range):
            return self.truth_node(self.length(v))
        if isinstance(v, Obj):
            b, _ = v.cls.lookup("__bool__")
            if b is not MISSING:
                return self.truth_node(self.call(b, [v]))
            l, _ = v.cls.lookup("__len__")
            if l is not MISSING:
                return self.truth_node(self.call(l, [v]))
            return True
        if isinstance(v, (Top, Poison)):
            raise Unsupported("branch on an unknown value: %r" % (v,))
        return True

    # ------------------------------------------------------------ sequences
    def length(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, LList):
            n = 0
            sy = None
            for x in v.items:
                if isinstance(x, Family):
                    sy = x.count if sy is None else T.add(sy, x.count)
                elif isinstance(x, ListMark):
                    raise Unsupported("length of a list inside a summarised loop")
                else:
                    n += 1
            if sy is None:
                return n
            return simp(T.add(sy, const(n)), False)
        if isinstance(v, LDict):
            return len(v.d)
        if isinstance(v, Range):
            d = T.sub(v.b, v.a)
            s = T.cval(v.s)
            if s < 0:
                d = T.neg(d)
            s = abs(s)
            n = d if s == 1 else T.app("fdiv", T.add(d, const(s - 1)), const(s))
            if not T.nonneg(n):
                n = T.app("max", const(0), n)
            return simp(n, False)
        if isinstance(v, SymSeq):
            return simp(v.count, False)
        if isinstance(v, Tensor):
            if v.ndim == 0:
                raise PyErr("TypeError", "len() of a 0-d tensor")
            return simp(v.shape[0], False)
        if isinstance(v, Obj):
            l, _ = v.cls.lookup("__len__")
            if l is not MISSING:
                return self.call(l, [v])
        if isinstance(v, (Top, Poison)):
            raise Unsupported("len of unknown")
        raise PyErr("TypeError", "object of type '%s' has no len()" % typename(v))

    def iterate(self, v):
        """a python list of values, or a SymSeq"""
        from . import torchmodel
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, LList):
            if any(isinstance(x, ListMark) for x in v.items):
                raise Unsupported("iterating a list inside its own summarised loop")
            if any(isinstance(x, Family) for x in v.items):
                if len(v.items) == 1:
                    f = v.items[0]
                    return SymSeq(f.count, f.at)
                return SymSeq(const(self.length(v)), lambda k: self.seq_at(v, k))
            return list(v.items)
        if isinstance(v, LDict):
            return [k for k, _ in v.pairs()]
        if isinstance(v, Range):
            n = self.length(v)
            if isinstance(n, int):
                return [simp(T.add(v.a, T.mul(const(k), v.s)), False) for k in range(n)]
            return SymSeq(const(n), lambda k: simp(T.add(v.a, T.mul(k, v.s)), False))
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, Tensor):
            if v.ndim == 0:
                raise PyErr("TypeError", "iteration over a 0-d tensor")
            n = simp(v.shape[0], False)
            if isinstance(n, int):
                return [TT.index(v, (k,)) for k in range(n)]
            return SymSeq(const(n), lambda k: TT.index(v, (k,)))
        if isinstance(v, Obj):
            l, _ = v.cls.lookup("__iter__")
            if l is not MISSING:
                return self.iterate(self.call(l, [v]))
            l, _ = v.cls.lookup("__getitem__")
            if l is not MISSING:
                n = self.length(v)
                return [self.call(l, [v, k]) for k in range(n)]
        if isinstance(v, (Top, Poison)):
            raise Unsupported("iteration over unknown %r" % (v,))
        raise PyErr("TypeError", "'%s' object is not iterable" % typename(v))

    def concrete(self, v):
        r = self.iterate(v)
        if isinstance(r, SymSeq):
            n = simp(r.count, False)
            if isinstance(n, int):
                return [r.at(const(k)) for k in range(n)]
            raise Unsupported("need a sequence of literal length")
        return r

    def seq_at(self, v, k):
        """element number k (node, >= 0) of a list with families"""
        items = v.items if isinstance(v, LList) else v
        off = const(0)
        arms = []
        for x in items:
            if isinstance(x, Family):
                arms.append((off, x.count, x.at))
                off = T.add(off, x.count)
            else:
                arms.append((off, const(1), lambda _k, x=x: x))
                off = T.add(off, const(1))
        if len(arms) == 1:
            return arms[0][2](k)
        out = None
        for o, c, at in reversed(arms):
            rel = T.sub(k, o)
            if out is None:
                out = at(rel)
                continue
            cond = T.lt(k, T.add(o, c))
            if cond.op == "b":
                if cond.args[0]:
                    out = at(rel)
                continue
            out = self.ite_value(cond, at(rel), out)
        return out

    def ite_value(self, c, a, b):
        """value that is a where c holds, else b"""
        if a is b:
            return a
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            if a.ndim != b.ndim or any(not TT.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
                raise Unsupported("merging tensors of different shapes")
            sa, sb = a.snap(), b.snap()
            dt = a.dtype if a.dtype == b.dtype else "float"
            r = Tensor(TT.Storage(a.shape, lambda *i: T.ite(c, sa(*i), sb(*i)), dt), a.shape)
            r.st.dev = a.st.dev if a.st.dev == b.st.dev else None
            r.st.prec = a.st.prec if a.st.prec == b.st.prec else None
            return r
        if isnum(a) and isnum(b):
            na, nb = TT.scalar_node(a)[0], TT.scalar_node(b)[0]
            if na is nb:
                return a
            return T.ite(c, na, nb)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite_value(c, x, y) for x, y in zip(a, b))
        if isinstance(a, str) and a == b:
            return a
        if a is None and b is None:
            return None
        raise Unsupported("merging values of kinds %s / %s" % (typename(a), typename(b)))

    def fresh_rand(self, kind):
        self.rand += 1
        return "%s#%d" % (kind, self.rand)

    # ------------------------------------------------------------ raising
    def make_exc(self, v):
        if isinstance(v, Class):
            v = self.instantiate(v, [], {})
        if isinstance(v, Obj):
            a = v.cell_get("args")
            msg = ""
            if isinstance(a, tuple) and a:
                msg = a[0] if isinstance(a[0], str) else repr(a[0])
            return PyErr(v.cls.name, msg, obj=v)
        if isinstance(v, (Top, ExtMod)):
            return PyErr("Exception", repr(v))
        raise PyErr("TypeError", "exceptions must derive from BaseException")

    def exc_matches(self, e, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(e, c) for c in cls)
        if not isinstance(cls, Class):
            if isinstance(cls, (ExtMod, Top)):
                return False
            raise Unsupported("except clause")
        if isinstance(e.obj, Obj):
            return cls in e.obj.cls.mro
        n = e.name
        while n is not None:
            if n == cls.name:
                return True
            n = EXC.get(n)
        return False


def is_generator(node):
    def v(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(v(c) for c in ast.iter_child_nodes(n))
    return any(v(s) for s in node.body)


def isnum(v):
    return isinstance(v, (bool, int, PF, Node))


def typename(v):
    if isinstance(v, Obj):
        return v.cls.name
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, PF):
        return "float"
    if isinstance(v, Node):
        return "bool" if v.isbool else "int" if v.isint else "float"
    if isinstance(v, LList):
        return v.kind
    if isinstance(v, LDict):
        return "dict"
    if v is None:
        return "NoneType"
    return type(v).__name__


# ---------------------------------------------------------------- operators
def node_of(v):
    return TT.scalar_node(v)[0]


def is_inty(v):
    return isinstance(v, (bool, int)) or (isinstance(v, Node) and v.isint and not v.isbool)


def num_bin(it, op, a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, Node) and a.isbool:
        a = T._numeric(a)
    if isinstance(b, Node) and b.isbool:
        b = T._numeric(b)
    if isinstance(a, int) and isinstance(b, int):
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return PF(Q(a, b))
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "**":
                if b >= 0:
                    if b > 4096:
                        raise Unsupported("huge power")
                    return a ** b
                return PF(Q(a) ** b)
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
        except ZeroDivisionError:
            raise PyErr("ZeroDivisionError", "division by zero")
    inty = is_inty(a) and is_inty(b)
    na, nb = node_of(a), node_of(b)
    if op == "+":
        r = T.add(na, nb)
    elif op == "-":
        r = T.sub(na, nb)
    elif op == "*":
        r = T.mul(na, nb)
    elif op in ("/", "//", "%"):
        if nb.op == "q" and T.cval(nb) == 0:
            raise PyErr("ZeroDivisionError", "division by zero")
        if nb.op != "q" and not T.positive(nb) and not T.positive(T.neg(nb)):
            z = T.eq(nb, const(0))
            if not z.fv and z.op != "b":
                if it.decide(z):
                    raise PyErr("ZeroDivisionError", "division by zero")
        if op == "/":
            return simp(T.div(na, nb))
        r = T.app("fdiv" if op == "//" else "mod", na, nb)
    elif op == "**":
        r = T.power(na, nb)
    else:
        raise Unsupported("operator %s on symbolic numbers" % op)
    return simp(r, not inty)


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "@": "matmul",
          "&": "and", "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift"}


def binop(it, op, a, b):
    if isinstance(a, (Top,)) or isinstance(b, Top):
        return Top("binop")
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise Unsupported("loop-carried operand")
    if isinstance(a, ExtMod) or isinstance(b, ExtMod):
        return Top("ext op")
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        from . import torchmodel
        if (isinstance(a, Tensor) or isnum(a)) and (isinstance(b, Tensor) or isnum(b)):
            return torchmodel.device.run(it, op, lambda it, x, k: torchmodel.tensor_bin(it, op, *x), [a, b], {})
        if isinstance(b, Obj) or isinstance(a, Obj):
            pass
        else:
            raise PyErr("TypeError", "unsupported operand types for %s: %s and %s" % (op, typename(a), typename(b)))
    if isnum(a) and isnum(b):
        if op in "&|^" and (isinstance(a, Node) and a.isbool or isinstance(b, Node) and b.isbool or
                            isinstance(a, bool) and isinstance(b, bool)):
            x, y = node_of(a), node_of(b)
            if op == "&":
                r = T.and_(x, y)
            elif op == "|":
                r = T.or_(x, y)
            else:
                r = T.not_(T.eq(x, y))
            return simp(r)
        return num_bin(it, op, a, b)
    if isinstance(a, Obj):
        m, _ = a.cls.lookup("__%s__" % DUNDER[op])
        if m is not MISSING:
            return it.call(m, [a, b])
    if isinstance(b, Obj):
        m, _ = b.cls.lookup("__r%s__" % DUNDER[op])
        if m is not MISSING:
            return it.call(m, [b, a])
    if op == "%" and isinstance(a, str):
        return a
    if op == "+":
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, LList) and isinstance(b, LList) and a.kind == b.kind == "list":
            return LList(a.items + b.items)
    if op == "*":
        if isinstance(b, (LList, tuple, str)) and not isinstance(a, (LList, tuple, str)):
            a, b = b, a
        if isinstance(a, (LList, tuple, str)) and is_inty(b):
            if isinstance(b, Node):
                b = simp(b, False)
            if isinstance(b, Node):
                if isinstance(a, LList) and len(a.items) == 1 and not isinstance(a.items[0], Family):
                    x = a.items[0]
                    return LList([Family(b, lambda k, x=x: x)])
                raise Unsupported("sequence repetition by a symbolic count")
            if isinstance(a, LList):
                return LList(a.items * b)
            return a * b
    if op == "|" and isinstance(a, LDict) and isinstance(b, LDict):
        return LDict(a.pairs() + b.pairs())
    if op == "-" and isinstance(a, LSet) and isinstance(b, LSet):
        ks = {dkey(x) for x in b.items}
        return LSet([x for x in a.items if dkey(x) not in ks])
    if op in "|&" and isinstance(a, LSet) and isinstance(b, LSet):
        ks = {dkey(x) for x in b.items}
        if op == "&":
            return LSet([x for x in a.items if dkey(x) in ks])
        ka = {dkey(x) for x in a.items}
        return LSet(list(a.items) + [x for x in b.items if dkey(x) not in ka])
    if op == "|" and (isinstance(a, (Class, BType)) or isinstance(b, (Class, BType))):
        return Top("type union")
    raise PyErr("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, typename(a), typename(b)))


def values_equal(it, a, b):
    """bool or bool node for a == b"""
    if isinstance(a, (Top, Poison)) or isinstance(b, (Top, Poison)):
        raise Unsupported("comparison with unknown")
    if isnum(a) and isnum(b):
        x, y = node_of(a), node_of(b)
        if x.isbool != y.isbool:
            x, y = T._numeric(x), T._numeric(y)
        if x.op == "inf" and y.op == "inf":
            return x is y and x.args[0] != 0
        r = T.eq(x, y)
        return r.args[0] if r.op == "b" else r
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Obj):
        m, _ = a.cls.lookup("__eq__")
        if m is not MISSING:
            return it.truth_node(it.call(m, [a, b]))
        return a is b
    if (isinstance(a, tuple) and isinstance(b, tuple)) or (isinstance(a, LList) and isinstance(b, LList) and a.kind == b.kind):
        if isinstance(a, LSet):
            return {dkey(x) for x in a.items} == {dkey(x) for x in b.items}
        xs = a if isinstance(a, tuple) else it.concrete(a)
        ys = b if isinstance(b, tuple) else it.concrete(b)
        if len(xs) != len(ys):
            return False
        out = T.true()
        for x, y in zip(xs, ys):
            r = values_equal(it, x, y)
            if r is False:
                return False
            if r is not True:
                out = T.and_(out, r)
        return out.args[0] if out.op == "b" else out
    if isinstance(a, LDict) and isinstance(b, LDict):
        if set(a.d) != set(b.d):
            return False
        out = T.true()
        for k in a.d:
            r = values_equal(it, a.d[k][1], b.d[k][1])
            if r is False:
                return False
            if r is not True:
                out = T.and_(out, r)
        return out.args[0] if out.op == "b" else out
    if isinstance(a, ExtMod) and isinstance(b, ExtMod):
        return a.path == b.path
    return a is b


def compare(it, op, a, b):
    """python value (bool, node or tensor)"""
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, (Top, Poison)) or isinstance(b, (Top, Poison)):
            if a is None or b is None:
                raise Unsupported("identity test on unknown")
            raise Unsupported("identity test on unknown")
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Node) and a.isbool or isinstance(b, Node) and b.isbool:
                r = simp(T.eq(node_of(a), node_of(b)))
            else:
                r = isinstance(a, bool) and isinstance(b, bool) and a == b
        elif isnum(a) and isnum(b):
            r = values_equal(it, a, b)
        elif isinstance(a, str) and isinstance(b, str):
            r = a == b
        elif isinstance(a, ExtMod) and isinstance(b, ExtMod):
            r = a.path == b.path
        else:
            r = a is b
        return negate(r) if isinstance(op, ast.IsNot) else r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(it, b, a)
        return negate(r) if isinstance(op, ast.NotIn) else r
    if isinstance(a, Tensor) or isinstance(b, Tensor):
        from . import torchmodel
        if (isinstance(a, Tensor) or isnum(a)) and (isinstance(b, Tensor) or isnum(b)):
            return torchmodel.device.run(it, type(op).__name__, lambda it, x, k: torchmodel.tensor_cmp(it, type(op).__name__, *x), [a, b], {})
        if isinstance(op, ast.Eq):
            return False
        if isinstance(op, ast.NotEq):
            return True
        if isinstance(a, (Top, Poison)) or isinstance(b, (Top, Poison)):
            return Top("compare")
        raise PyErr("TypeError", "comparison of tensor with %s" % typename(b))
    if isinstance(op, ast.Eq):
        return values_equal(it, a, b)
    if isinstance(op, ast.NotEq):
        return negate(values_equal(it, a, b))
    if isinstance(a, (Top, Poison)) or isinstance(b, (Top, Poison)):
        return Top("compare")
    if isnum(a) and isnum(b):
        x, y = T._numeric(node_of(a)), T._numeric(node_of(b))
        if x.op == "inf" or y.op == "inf":
            fx = float("inf") * x.args[0] if x.op == "inf" else 0.0
            fy = float("inf") * y.args[0] if y.op == "inf" else 0.0
            if x.op == "inf" and x.args[0] == 0 or y.op == "inf" and y.args[0] == 0:
                return False
            return {"Lt": fx < fy, "LtE": fx <= fy, "Gt": fx > fy, "GtE": fx >= fy}[type(op).__name__]
        r = {"Lt": T.lt, "LtE": T.le, "Gt": lambda p, q: T.lt(q, p), "GtE": lambda p, q: T.le(q, p)}[type(op).__name__](x, y)
        return r.args[0] if r.op == "b" else r
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[type(op).__name__]
    if isinstance(a, Obj):
        m, _ = a.cls.lookup({"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[type(op).__name__])
        if m is not MISSING:
            return it.call(m, [a, b])
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 1:
        return compare(it, op, a[0], b[0])
    raise PyErr("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (type(op).__name__, typename(a), typename(b)))


def negate(r):
    if isinstance(r, bool):
        return not r
    return simp(T.not_(r))


def contains(it, c, x):
    if isinstance(c, str):
        if not isinstance(x, str):
            raise PyErr("TypeError", "'in <string>' requires string")
        return x in c
    if isinstance(c, LDict):
        return which_key(c.d, x) in c.d
    if isinstance(c, Range) and isnum(x):
        if T.cval(c.s) == 1:
            n = node_of(x)
            r = T.and_(T.le(c.a, n), T.lt(n, c.b))
            return r.args[0] if r.op == "b" else r
    if isinstance(c, (LList, tuple)):
        out = T.false()
        for y in (it.concrete(c)):
            r = values_equal(it, x, y) if x is not y else True
            if r is True:
                return True
            if r is not False:
                out = T.or_(out, r)
        return out.args[0] if out.op == "b" else out
    if isinstance(c, Obj):
        m, _ = c.cls.lookup("__contains__")
        if m is not MISSING:
            return it.call(m, [c, x])
        return contains(it, LList(it.concrete(c)), x)
    raise Unsupported("membership in %s" % typename(c))


from .frame import Frame  # noqa: E402  (mutual recursion)
