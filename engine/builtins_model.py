"""Model of the Python builtins and container methods."""
from fractions import Fraction as Q

from . import terms as T
from .terms import Node, Unsupported, const
from . import tensor as TT
from .tensor import PyErr, Top, Tensor, MISSING
from . import interp as I
from .interp import Builtin, BType, Class, LList, LDict, LSet, PF, Family, SymSeq, Range, isnum, node_of, simp, Obj


def b(name):
    def deco(f):
        TABLE[name] = Builtin(name, f)
        return f
    return deco


TABLE = {}


def install(it):
    d = dict(TABLE)
    obj = Class("object", [])
    d["object"] = obj
    for n, base in I.EXC.items():
        d[n] = Class(n, [d[base]] if base else [obj])
    d["int"] = BType("int", to_int, lambda v: isinstance(v, (bool, int)) or (isinstance(v, Node) and v.isint and not v.isbool))
    d["float"] = BType("float", to_float, lambda v: isinstance(v, PF) or (isinstance(v, Node) and not v.isint and not v.isbool))
    d["bool"] = BType("bool", to_bool, lambda v: isinstance(v, bool) or (isinstance(v, Node) and v.isbool))
    d["str"] = BType("str", to_str, lambda v: isinstance(v, str))
    d["list"] = BType("list", to_list, lambda v: isinstance(v, LList) and v.kind == "list")
    d["tuple"] = BType("tuple", lambda it, a, k: tuple(it.concrete(a[0])) if a else (), lambda v: isinstance(v, tuple))
    d["set"] = BType("set", to_set, lambda v: isinstance(v, LSet))
    d["frozenset"] = d["set"]
    d["dict"] = BType("dict", to_dict, lambda v: isinstance(v, LDict))
    d["complex"] = BType("complex", lambda it, a, k: Top("complex"), lambda v: False)
    d["bytes"] = BType("bytes", lambda it, a, k: Top("bytes"), lambda v: False)
    d["type"] = BType("type", type_of, lambda v: isinstance(v, (Class, BType)))
    d["slice"] = BType("slice", mkslice, lambda v: isinstance(v, TT.Slice))
    d["NotImplemented"] = Top("NotImplemented")
    d["Ellipsis"] = Ellipsis
    d["__name__"] = "__main__"
    d["__debug__"] = True
    it.builtins = d


def mkslice(it, a, k):
    if len(a) == 1:
        return TT.Slice(None, a[0], None)
    return TT.Slice(*(list(a) + [None])[:3])


def type_of(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "set", "dict"):
        if it.builtins[n].test(v):
            return it.builtins[n]
    return Top("type")


def to_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyErr("ValueError", "invalid literal for int(): %r" % v)
    if isinstance(v, bool) or isinstance(v, int):
        return int(v)
    if isinstance(v, PF):
        if isinstance(v.q, float):
            raise PyErr("OverflowError", "cannot convert float to int")
        return int(v.q)
    if isinstance(v, Tensor):
        v = item(it, v)
        if not isinstance(v, Node):
            return to_int(it, [v], {})
    if isinstance(v, Node):
        if v.isbool:
            return T._numeric(v)
        if v.isint:
            return v
        return simp(T.app("trunc", v), False)
    if isinstance(v, Top):
        return v
    raise PyErr("TypeError", "int() argument must be a number, not %s" % I.typename(v))


def to_float(it, a, k):
    if not a:
        return PF(0)
    v = a[0]
    if isinstance(v, str):
        try:
            return PF(float(v))
        except ValueError:
            raise PyErr("ValueError", "could not convert string to float: %r" % v)
    if isinstance(v, (bool, int)):
        return PF(int(v))
    if isinstance(v, PF):
        return v
    if isinstance(v, Tensor):
        return item(it, v)
    if isinstance(v, Node):
        return T._numeric(v)
    if isinstance(v, Top):
        return v
    raise PyErr("TypeError", "float() argument must be a number, not %s" % I.typename(v))


def to_bool(it, a, k):
    if not a:
        return False
    return simp(it.truth_node(a[0])) if not isinstance(it.truth_node(a[0]), bool) else it.truth_node(a[0])


def to_str(it, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, str):
        return v
    if isinstance(v, (int, PF)) or v is None:
        return repr(v)
    if isinstance(v, Node):
        return T.show(v)
    return "<%s>" % I.typename(v)


def to_list(it, a, k):
    if not a:
        return LList()
    v = a[0]
    if isinstance(v, LList):
        return LList(v.items)
    s = it.iterate(v)
    if isinstance(s, SymSeq):
        return LList([Family(s.count, s.at)])
    return LList(s)


def to_set(it, a, k):
    out, seen = [], set()
    for v in (it.concrete(a[0]) if a else []):
        if I.dkey(v) not in seen:
            seen.add(I.dkey(v))
            out.append(v)
    return LSet(out)


def to_dict(it, a, k):
    pairs = []
    if a:
        if isinstance(a[0], LDict):
            pairs = a[0].pairs()
        else:
            for p in it.concrete(a[0]):
                x, y = it.concrete(p)
                pairs.append((x, y))
    return LDict(list(pairs) + list(k.items()))


def item(it, t):
    for s in t.shape:
        if not TT.is_one(s):
            raise PyErr("RuntimeError", "a Tensor with more than one element cannot be converted to Scalar")
    n = t.at(*[const(0)] * t.ndim)
    return simp(T.app("detach", n) if False else n, t.dtype == "float")


@b("len")
def _(it, a, k):
    return it.length(a[0])


@b("range")
def _(it, a, k):
    for x in a:
        if isinstance(x, Tensor):
            pass
        elif not I.is_inty(x):
            if isinstance(x, Top):
                raise Unsupported("range of unknown")
            if isinstance(x, Node) and not x.isint:
                raise Unsupported("range of symbolic float")
            raise PyErr("TypeError", "'%s' object cannot be interpreted as an integer" % I.typename(x))
    a = [item(it, x) if isinstance(x, Tensor) else x for x in a]
    if len(a) == 1:
        return Range(const(0), node_of(a[0]), const(1))
    s = node_of(a[2]) if len(a) > 2 else const(1)
    if s.op != "q":
        raise Unsupported("symbolic range step")
    if T.cval(s) == 0:
        raise PyErr("ValueError", "range() arg 3 must not be zero")
    return Range(node_of(a[0]), node_of(a[1]), s)


@b("enumerate")
def _(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    s = it.iterate(a[0])
    if isinstance(s, SymSeq):
        return SymSeq(s.count, lambda q: (simp(T.add(q, node_of(start)), False), s.at(q)))
    return LList([(I.num_bin(it, "+", n, start), v) for n, v in enumerate(s)])


@b("zip")
def _(it, a, k):
    seqs = [it.iterate(x) for x in a]
    if not seqs:
        return LList()
    if any(isinstance(s, SymSeq) for s in seqs):
        ns = [s.count if isinstance(s, SymSeq) else const(len(s)) for s in seqs]
        n = ns[0]
        for m in ns[1:]:
            n = T.app("min", n, m) if not TT.same_dim(n, m) else n

        def at(q):
            out = []
            for s in seqs:
                out.append(s.at(q) if isinstance(s, SymSeq) else it.seq_at(tuple(s), q))
            return tuple(out)
        return SymSeq(n, at)
    return LList([tuple(x) for x in zip(*seqs)])


@b("reversed")
def _(it, a, k):
    s = it.iterate(a[0])
    if isinstance(s, SymSeq):
        return SymSeq(s.count, lambda q: s.at(T.sub(T.sub(s.count, const(1)), q)))
    return LList(list(reversed(s)))


@b("map")
def _(it, a, k):
    seqs = [it.iterate(x) for x in a[1:]]
    if any(isinstance(s, SymSeq) for s in seqs):
        if len(seqs) == 1:
            return SymSeq(seqs[0].count, lambda q: it.call(a[0], [seqs[0].at(q)]))
        raise Unsupported("map")
    return LList([it.call(a[0], list(x)) for x in zip(*seqs)])


@b("filter")
def _(it, a, k):
    return LList([x for x in it.concrete(a[1]) if it.truth(x if a[0] is None else it.call(a[0], [x]))])


@b("sum")
def _(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    s = it.iterate(a[0])
    if isinstance(s, SymSeq):
        j = T.var(s.count)
        v = s.at(j)
        if isinstance(v, Tensor):
            sn = v.snap()
            r = TT.new(v.shape, lambda *i: T.red("sum", [j], T._numeric(sn(*i))), v.dtype)
            return I.binop(it, "+", start, r)
        return I.binop(it, "+", start, simp(T.red("sum", [j], node_of(v)), not I.is_inty(v)))
    r = start
    for v in s:
        r = I.binop(it, "+", r, v)
    return r


def minmax(kind):
    def f(it, a, k):
        if len(a) == 1:
            s = it.iterate(a[0])
            if isinstance(s, SymSeq):
                j = T.var(s.count)
                v = s.at(j)
                if isnum(v):
                    return simp(T.red(kind, [j], node_of(v)), not I.is_inty(v))
                raise Unsupported("max of symbolic sequence")
        else:
            s = a
        key = k.get("key")
        if not s:
            if "default" in k:
                return k["default"]
            raise PyErr("ValueError", "%s() arg is an empty sequence" % kind)
        if key is not None:
            ks = [it.call(key, [x]) for x in s]
            if all(isinstance(x, (int, PF, bool)) for x in ks):
                q = [x.q if isinstance(x, PF) else Q(x) for x in ks]
                return s[q.index(max(q) if kind == "max" else min(q))]
            raise Unsupported("max with key")
        if all(isinstance(x, str) for x in s):
            return max(s) if kind == "max" else min(s)
        if any(isinstance(x, Tensor) for x in s):
            r = s[0]
            for x in s[1:]:
                c = I.compare(it, I.ast.Gt() if kind == "max" else I.ast.Lt(), x, r)
                c = it.truth_node(c)
                if c is True:
                    r = x
                elif c is not False:
                    r = x if it.decide(c) else r
            return r
        if not all(isnum(x) for x in s):
            if any(isinstance(x, Top) for x in s):
                return Top("max")
            raise PyErr("TypeError", "max of %s" % [I.typename(x) for x in s])
        r = s[0]
        for x in s[1:]:
            inty = I.is_inty(x) and I.is_inty(r)
            r = simp(T.app(kind, node_of(r), node_of(x)), not inty) if not (isinstance(r, int) and isinstance(x, int)) else \
                (max(r, x) if kind == "max" else min(r, x))
        return r
    return f


TABLE["max"] = Builtin("max", minmax("max"))
TABLE["min"] = Builtin("min", minmax("min"))


@b("abs")
def _(it, a, k):
    v = a[0]
    if isinstance(v, Tensor):
        return TT.ew(lambda x: T.app("abs", x), v)
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, PF):
        return PF(abs(v.q))
    if isinstance(v, Top):
        return v
    return simp(T.app("abs", node_of(v)), not I.is_inty(v))


@b("round")
def _(it, a, k):
    v = a[0]
    if isinstance(v, int):
        return v
    if isinstance(v, PF) and len(a) == 1:
        return round(v.q)
    if isinstance(v, PF):
        return PF(round(v.q, a[1]))
    if len(a) == 1 and isnum(v):
        return T.app("round", node_of(v))
    raise Unsupported("round")


@b("pow")
def _(it, a, k):
    return I.binop(it, "**", a[0], a[1])


@b("divmod")
def _(it, a, k):
    return (I.binop(it, "//", a[0], a[1]), I.binop(it, "%", a[0], a[1]))


def anyall(kind):
    def f(it, a, k):
        s = it.iterate(a[0])
        if isinstance(s, SymSeq):
            j = T.var(s.count)
            t = it.truth_node(s.at(j))
            t = T.bconst(t) if isinstance(t, bool) else t
            if kind == "any":
                return simp(T.red("any", [j], t))
            return simp(T.not_(T.red("any", [j], T.not_(t))))
        acc = T.bconst(kind == "all")
        for v in s:
            t = it.truth_node(v)
            t = T.bconst(t) if isinstance(t, bool) else t
            acc = T.and_(acc, t) if kind == "all" else T.or_(acc, t)
        return simp(acc)
    return f


TABLE["any"] = Builtin("any", anyall("any"))
TABLE["all"] = Builtin("all", anyall("all"))


@b("sorted")
def _(it, a, k):
    s = it.concrete(a[0])
    key = k.get("key")
    ks = [it.call(key, [x]) for x in s] if key is not None else s

    def conv(x):
        if isinstance(x, PF):
            return x.q
        if isinstance(x, (int, str)):
            return x
        if isinstance(x, tuple):
            return tuple(conv(y) for y in x)
        raise Unsupported("sorting symbolic values")
    order = sorted(range(len(s)), key=lambda i: conv(ks[i]), reverse=k.get("reverse", False) is True)
    return LList([s[i] for i in order])


@b("print")
def _(it, a, k):
    return None


@b("id")
def _(it, a, k):
    return id(a[0])


@b("repr")
def _(it, a, k):
    return to_str(it, a, k)


@b("hash")
def _(it, a, k):
    return Top("hash")


@b("callable")
def _(it, a, k):
    v = a[0]
    if isinstance(v, (I.Func, Builtin, BType, Class, I.Bound, I.Partial, I.NoGradWrap)):
        return True
    if isinstance(v, Obj):
        return v.cls.lookup("__call__")[0] is not MISSING
    if isinstance(v, (Top, I.ExtMod)):
        raise Unsupported("callable(unknown)")
    return False


@b("iter")
def _(it, a, k):
    s = it.iterate(a[0])
    if isinstance(s, SymSeq):
        return s
    return LList(s)


@b("next")
def _(it, a, k):
    v = a[0]
    if isinstance(v, LList):
        if not v.items:
            if len(a) > 1:
                return a[1]
            raise PyErr("StopIteration", "")
        x = v.items[0]
        if isinstance(x, Family):
            raise Unsupported("next on symbolic")
        v.set(v.items[1:])
        return x
    if isinstance(v, Obj) and v.cls.lookup("__next__")[0] is not MISSING:
        return it.call(it.getattr(v, "__next__"), [])
    raise Unsupported("next")


@b("isinstance")
def _(it, a, k):
    return isinst(it, a[0], a[1])


def isinst(it, v, c):
    if isinstance(c, tuple):
        for x in c:
            if isinst(it, v, x):
                return True
        return False
    if isinstance(v, (Top, I.Poison)):
        raise Unsupported("isinstance of unknown")
    if isinstance(c, BType):
        return bool(c.test(v))
    if isinstance(c, Class):
        if isinstance(v, Obj):
            return c in v.cls.mro
        if c.name == "object":
            return True
        if c.name == "Tensor":
            return isinstance(v, Tensor)
        return False
    from . import torchmodel
    if isinstance(c, I.ExtMod):
        r = torchmodel.ext_isinstance(it, v, c.path)
        if r is not None:
            return r
        raise Unsupported("isinstance(%s)" % c.path)
    if isinstance(c, Builtin):
        r = torchmodel.ext_isinstance(it, v, c.name)
        if r is not None:
            return r
    raise Unsupported("isinstance with %r" % (c,))


@b("issubclass")
def _(it, a, k):
    c, d = a
    if isinstance(c, Class):
        ds = d if isinstance(d, tuple) else (d,)
        return any(x in c.mro for x in ds)
    raise Unsupported("issubclass")


@b("hasattr")
def _(it, a, k):
    if isinstance(a[0], Top):
        raise Unsupported("hasattr of unknown")
    return it.hasattr(a[0], a[1])


@b("getattr")
def _(it, a, k):
    if len(a) == 3:
        try:
            return it.getattr(a[0], a[1])
        except PyErr as e:
            if e.name == "AttributeError":
                return a[2]
            raise
    return it.getattr(a[0], a[1])


@b("setattr")
def _(it, a, k):
    it.setattr(a[0], a[1], a[2])


@b("delattr")
def _(it, a, k):
    a[0].cell_del(a[1])


@b("vars")
def _(it, a, k):
    return it.getattr(a[0], "__dict__")


@b("property")
def _(it, a, k):
    return I.Prop(a[0])


@b("staticmethod")
def _(it, a, k):
    return I.StaticM(a[0])


@b("classmethod")
def _(it, a, k):
    return I.ClassM(a[0])


@b("super")
def _(it, a, k):
    return I.Super(a[0], a[1])


@b("input")
def _(it, a, k):
    return Top("input")


@b("open")
def _(it, a, k):
    return Top("open")


# ---------------------------------------------------------------- methods of values
def value_attr(it, o, name):
    if isinstance(o, str):
        return str_attr(it, o, name)
    if isinstance(o, LList):
        f = LIST.get(name)
        return MISSING if f is None else Builtin("list." + name, lambda it, a, k: f(it, o, a, k))
    if isinstance(o, LDict):
        f = DICT.get(name)
        return MISSING if f is None else Builtin("dict." + name, lambda it, a, k: f(it, o, a, k))
    if isinstance(o, tuple):
        if name == "index":
            return Builtin("index", lambda it, a, k: LIST["index"](it, LList(o), a, k))
        if name == "count":
            return Builtin("count", lambda it, a, k: sum(1 for x in o if it.truth(I.compare(it, I.ast.Eq(), x, a[0]))))
        if name == "numel":
            return Builtin("numel", lambda it, a, k: simp(TT.prod_nodes(node_of(x) for x in o), False))
        r = getattr(o, "_fields", None)
        if r and name in r:
            return o[r.index(name)]
        return MISSING
    if isinstance(o, (I.Func,)):
        v = o.attrs.cell_get(name)
        if v is not MISSING:
            return v
        if name == "__name__":
            return o.name
        if name == "__doc__":
            return None
        return MISSING
    if isinstance(o, I.NoGradWrap):
        return value_attr(it, o.fn, name)
    if isinstance(o, I.Bound):
        if name == "__self__":
            return o.self_
        if name == "__func__":
            return o.fn
        return value_attr(it, o.fn, name) if isinstance(o.fn, I.Func) else MISSING
    if isinstance(o, (Builtin, BType)):
        if name == "__name__":
            return o.name.split(".")[-1]
        if isinstance(o, BType):
            if o.name == "dict" and name == "fromkeys":
                return Builtin("fromkeys", lambda it, a, k: LDict([(x, a[1] if len(a) > 1 else None) for x in it.concrete(a[0])]))
            if o.name == "float" and name == "fromhex":
                return MISSING
            return Builtin(o.name + "." + name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k))
        return MISSING
    if isinstance(o, I.Prop):
        if name == "setter":
            return Builtin("setter", lambda it, a, k: I.Prop(o.fget, a[0]))
        return MISSING
    if isinstance(o, PF) or isinstance(o, int) or isinstance(o, Node):
        if name == "is_integer":
            def isint(it, a, k):
                n = node_of(o)
                return simp(T.eq(n, T.app("floor", n)))
            return Builtin(name, isint)
        if name == "item":
            return MISSING
        if name in ("real",):
            return o
        if name == "bit_length" and isinstance(o, int):
            return Builtin(name, lambda it, a, k: o.bit_length())
        return MISSING
    if isinstance(o, TT.Slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return MISSING
    if isinstance(o, I.Partial):
        if name == "func":
            return o.fn
        return MISSING
    return MISSING


STR_OK = {"lower", "upper", "startswith", "endswith", "strip", "replace", "lstrip", "rstrip", "capitalize", "title", "find",
          "count", "isdigit", "zfill", "removeprefix", "removesuffix", "isalpha", "swapcase", "casefold", "rfind", "isupper"}


def str_attr(it, o, name):
    if name in STR_OK:
        def f(it, a, k):
            if not all(isinstance(x, (str, int, tuple)) for x in a):
                raise Unsupported("str method arguments")
            return getattr(o, name)(*a)
        return Builtin("str." + name, f)
    if name == "split":
        return Builtin("split", lambda it, a, k: LList(o.split(*a)))
    if name == "join":
        return Builtin("join", lambda it, a, k: o.join(str(x) for x in it.concrete(a[0])))
    if name == "format":
        return Builtin("format", lambda it, a, k: o)
    if name == "partition":
        return Builtin("partition", lambda it, a, k: o.partition(a[0]))
    return MISSING


def l_append(it, o, a, k):
    if o.kind == "set":
        raise PyErr("AttributeError", "append")
    o.set(o.items + (a[0],))


def l_extend(it, o, a, k):
    v = a[0]
    if isinstance(v, LList):
        o.set(o.items + v.items)
        return
    s = it.iterate(v)
    if isinstance(s, SymSeq):
        o.set(o.items + (Family(s.count, s.at),))
    else:
        o.set(o.items + tuple(s))


def nofam(o):
    if any(isinstance(x, (Family, I.ListMark)) for x in o.items):
        raise Unsupported("list method on a symbolic list")
    return list(o.items)


def l_pop(it, o, a, k):
    xs = nofam(o)
    if not xs:
        raise PyErr("IndexError", "pop from empty list")
    i = TT.int_of(a[0]) if a else -1
    v = xs.pop(i)
    o.set(xs)
    return v


def l_insert(it, o, a, k):
    i = TT.int_of(a[0])
    if i == 0:
        o.set((a[1],) + o.items)
        return
    xs = nofam(o)
    xs.insert(i, a[1])
    o.set(xs)


def l_index(it, o, a, k):
    for n, x in enumerate(nofam(o)):
        if x is a[0] or it.truth(I.compare(it, I.ast.Eq(), x, a[0])):
            return n
    raise PyErr("ValueError", "not in list")


def l_remove(it, o, a, k):
    i = l_index(it, o, a, k)
    xs = nofam(o)
    xs.pop(i)
    o.set(xs)


def l_sort(it, o, a, k):
    r = TABLE["sorted"].fn(it, [o], k)
    o.set(r.items)


def s_add(it, o, a, k):
    if not any(I.dkey(x) == I.dkey(a[0]) for x in o.items):
        o.set(o.items + (a[0],))


LIST = {
    "append": l_append, "extend": l_extend, "pop": l_pop, "insert": l_insert, "index": l_index, "remove": l_remove,
    "copy": lambda it, o, a, k: type(o)(o.items),
    "clear": lambda it, o, a, k: o.set(()),
    "reverse": lambda it, o, a, k: o.set(tuple(reversed(nofam(o)))),
    "count": lambda it, o, a, k: sum(1 for x in nofam(o) if x is a[0] or it.truth(I.compare(it, I.ast.Eq(), x, a[0]))),
    "sort": l_sort, "add": s_add,
    "update": lambda it, o, a, k: [s_add(it, o, [x], k) for x in it.concrete(a[0])] and None,
    "discard": lambda it, o, a, k: o.set([x for x in o.items if I.dkey(x) != I.dkey(a[0])]),
    "union": lambda it, o, a, k: to_set(it, [LList(o.items + tuple(it.concrete(a[0])))], {}),
}


def d_get(it, o, a, k):
    return o.get(a[0], a[1] if len(a) > 1 else k.get("default"))


def d_setdefault(it, o, a, k):
    v = o.get(a[0])
    if v is MISSING:
        v = a[1] if len(a) > 1 else None
        o.put(a[0], v)
    return v


def d_update(it, o, a, k):
    if a:
        v = a[0]
        ps = v.pairs() if isinstance(v, LDict) else [tuple(it.concrete(p)) for p in it.concrete(v)]
        for x, y in ps:
            o.put(x, y)
    for x, y in k.items():
        o.put(x, y)


def d_pop(it, o, a, k):
    v = o.get(a[0])
    if v is MISSING:
        if len(a) > 1:
            return a[1]
        raise PyErr("KeyError", repr(a[0]))
    o.remove(a[0])
    return v


DICT = {
    "get": d_get, "setdefault": d_setdefault, "update": d_update, "pop": d_pop,
    "keys": lambda it, o, a, k: LList([x for x, _ in o.pairs()]),
    "values": lambda it, o, a, k: LList([y for _, y in o.pairs()]),
    "items": lambda it, o, a, k: LList([(x, y) for x, y in o.pairs()]),
    "copy": lambda it, o, a, k: LDict(o.pairs()),
    "clear": lambda it, o, a, k: o.cell_set("d", {}),
}
