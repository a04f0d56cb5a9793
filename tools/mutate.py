#!/usr/bin/env python3
"""mutate.py [file substring] [--n N] [--seed S] [--jobs J]: systematic mutants of the package, each given to the checks that
analyse the mutated function; prints those that no check reports."""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/high_order_layers_torch"


def args():
    a = dict(n=200, seed=1, jobs=4, sub="", tests=0)
    xs = sys.argv[1:]
    i = 0
    while i < len(xs):
        if xs[i].startswith("--"):
            a[xs[i][2:]] = int(xs[i + 1])
            i += 2
        else:
            a["sub"] = xs[i]
            i += 1
    return a


def checks_of():
    m, cost = {}, {}
    for f in glob.glob(ROOT + "/evidence/P??.json"):
        d = json.load(open(f))
        cost[d["property"]] = d["wall_s"]
        for fn in d["coverage"]["functions_analysed"]:
            m.setdefault(fn, []).append(d["property"])
    for k in m:
        m[k].sort(key=lambda p: cost[p])
    return m


SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*", ast.MatMult: "*"}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}


def seg(lines, n):
    a, b = n.lineno - 1, n.end_lineno - 1
    return (a, n.col_offset), (b, n.end_col_offset)


def offs(src):
    o = [0]
    for l in src.splitlines(True):
        o.append(o[-1] + len(l.encode()))
    return o


def mutants(path):
    src = open(path).read()
    bs = src.encode()
    o = offs(src)
    tree = ast.parse(src)

    def span(n):
        return o[n.lineno - 1] + n.col_offset, o[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return bs[a:b].decode()

    out = []

    def put(n, new, what, qual):
        a, b = span(n)
        out.append((path, qual, n.lineno, what, (bs[:a] + new.encode() + bs[b:]).decode()))

    def visit(n, qual, infn):
        for c in ast.iter_child_nodes(n):
            q = qual
            inf = infn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + c.name
                inf = isinstance(c, ast.FunctionDef) or infn
                if isinstance(c, ast.FunctionDef):
                    for k, dflt in enumerate(c.args.defaults + [d for d in c.args.kw_defaults if d is not None]):
                        mut_const(dflt, q, "default ")
                    for st in c.body:
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                            continue
                        one(st, q)
                    continue
            visit(c, q, inf)

    def mut_const(c, q, pre=""):
        if isinstance(c, ast.Constant):
            v = c.value
            if isinstance(v, bool):
                put(c, str(not v), pre + "%s -> %s" % (v, not v), q)
            elif isinstance(v, int):
                put(c, str(v + 1), pre + "%d -> %d" % (v, v + 1), q)
                if v > 0:
                    put(c, str(v - 1), pre + "%d -> %d" % (v, v - 1), q)
            elif isinstance(v, float):
                put(c, repr(v * 2 if v else 0.5), pre + "%r -> %r" % (v, v * 2), q)

    def one(n, q):
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n:
                pass
            if isinstance(x, ast.Constant):
                mut_const(x, q)
            elif isinstance(x, ast.BinOp) and type(x.op) in SWAP:
                put(x, "(%s) %s (%s)" % (text(x.left), SWAP[type(x.op)], text(x.right)), "op %s: %s" % (type(x.op).__name__, text(x)[:50]), q)
                if isinstance(x.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow)):
                    put(x, "(%s) %s (%s)" % (text(x.right), {ast.Sub: "-", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**"}[type(x.op)], text(x.left)),
                        "swap operands: %s" % text(x)[:50], q)
                put(x, "(%s)" % text(x.left), "drop right: %s" % text(x)[:50], q)
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in CMP:
                for s in CMP[type(x.ops[0])]:
                    put(x, "(%s) %s (%s)" % (text(x.left), s, text(x.comparators[0])), "cmp -> %s: %s" % (s, text(x)[:50]), q)
            elif isinstance(x, ast.BoolOp):
                s = " or " if isinstance(x.op, ast.And) else " and "
                put(x, "(" + s.join("(%s)" % text(v) for v in x.values) + ")", "boolop: %s" % text(x)[:50], q)
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.Not)):
                put(x, "(%s)" % text(x.operand), "drop unary: %s" % text(x)[:50], q)
            elif isinstance(x, ast.If):
                put(x.test, "not (%s)" % text(x.test), "negate if: %s" % text(x.test)[:50], q)
            elif isinstance(x, ast.IfExp):
                put(x.test, "not (%s)" % text(x.test), "negate ifexp: %s" % text(x.test)[:50], q)
            elif isinstance(x, ast.Call):
                for k in x.keywords:
                    if k.arg:
                        a, b = span(k)
                        rest = bs[b:]
                        j = b
                        while bs[j:j + 1] in (b" ", b"\n", b","):
                            j += 1
                            if bs[j - 1:j] == b",":
                                break
                        if bs[j - 1:j] != b"," or j == b:
                            j = b
                        out.append((path, q, k.value.lineno, "drop keyword %s" % text(k)[:40], (bs[:a] + bs[j:]).decode()))
                if len(x.args) >= 2 and not any(isinstance(y, ast.Starred) for y in x.args):
                    a0, b0 = span(x.args[0])
                    a1, b1 = span(x.args[1])
                    out.append((path, q, x.lineno, "swap args: %s" % text(x)[:50],
                                (bs[:a0] + bs[a1:b1] + bs[b0:a1] + bs[a0:b0] + bs[b1:]).decode()))
                if isinstance(x.func, ast.Attribute) and x.func.attr not in ("append", "items", "format", "super") and isinstance(x.func.value, (ast.Call, ast.BinOp)) \
                        and not text(x).startswith("super("):
                    put(x, "(%s)" % text(x.func.value), "drop method .%s: %s" % (x.func.attr, text(x)[:50]), q)
                if isinstance(x.func, ast.Attribute) and x.func.attr in OTHER:
                    f = x.func
                    a, b = span(f)
                    new = bs[:b - len(f.attr)] + OTHER[f.attr].encode() + bs[b:]
                    out.append((path, q, x.lineno, "%s -> %s" % (f.attr, OTHER[f.attr]), new.decode()))
            elif isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign)):
                if isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or text(x).startswith(("logger", "print", "logging"))):
                    continue
                put(x, "pass", "delete: %s" % text(x)[:60].replace("\n", " "), q)
            elif isinstance(x, ast.Raise):
                put(x, "pass", "delete raise", q)
            elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and x.slice.lower is not None and x.slice.upper is not None:
                put(x.slice, ":" + text(x.slice.upper), "slice lower dropped: %s" % text(x)[:40], q)
    visit(tree, "", False)
    return out


OTHER = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "sum": "prod", "prod": "sum", "minimum": "maximum", "maximum": "minimum", "floor": "ceil",
         "ceil": "floor", "mean": "sum", "clone": "detach", "zeros": "ones", "ones": "zeros", "unsqueeze": "squeeze", "permute": "reshape",
         "zeros_like": "ones_like", "sigmoid": "tanh", "relu": "tanh", "mul": "add", "add": "mul", "mul_": "add_", "ModuleList": "list"}


def run(m, checks, idx, tests):
    path, qual, line, what, new = m
    key = "high_order_layers_torch/%s:%s" % (os.path.relpath(path, PKG), qual)
    cs = checks.get(key)
    if cs is None:
        return "UNCOVERED", None, 0
    w = "/tmp/mutw.%d.%d" % (os.getpid(), idx)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    t0 = time.time()
    try:
        shutil.copytree(PKG, w + "/high_order_layers_torch", ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(w, "high_order_layers_torch", os.path.relpath(path, PKG)), "w") as f:
            f.write(new)
        env = dict(os.environ, VERIF_REPO=w, VERIF_JOBS="1", VERIF_EVIDENCE=w)
        odd = []
        for c in cs:
            try:
                r = subprocess.run([sys.executable, ROOT + "/check.py", c, "quick"], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(c + " timeout")
                continue
            if r.returncode == 1:
                return "caught", c, time.time() - t0
            if r.returncode != 0:
                odd.append("%s rc=%d" % (c, r.returncode))
            elif "undecided: " in r.stdout:
                odd.append("%s undecided" % c)
        if tests:
            for d in ("tests", "pyproject.toml", "setup.cfg", "examples"):
                if os.path.exists("/repo/" + d):
                    os.symlink("/repo/" + d, w + "/" + d)
            r = subprocess.run("cd %s && PYTHONPATH=%s:/opt/vp/plugins OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg timeout 600 /opt/venv/bin/python -m pytest -q "
                               "--no-header -x -p no:cacheprovider -p vp_seed --ignore=tests/test_examples.py tests" % (w, w), shell=True, capture_output=True, text=True)
            t = r.stdout.strip().splitlines()[-1:] or ["?"]
            if r.returncode != 0:
                return "tests", ",".join(odd) + " " + t[0][:60], time.time() - t0
        return "SURVIVED", ",".join(cs) + " " + ",".join(odd), time.time() - t0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def done(futs):
    from concurrent.futures import as_completed
    back = {f: m for m, f in futs}
    for f in as_completed(back):
        yield back[f], f


def main():
    a = args()
    checks = checks_of()
    ms = []
    for f in sorted(glob.glob(PKG + "/*.py")):
        if a["sub"] in f:
            ms += mutants(f)
    total = len(ms)
    ok = []
    for m in ms:
        try:
            ast.parse(m[4])
            ok.append(m)
        except SyntaxError:
            pass
    rng = random.Random(a["seed"])
    rng.shuffle(ok)
    ok = ok[:a["n"]]
    print("%d mutants, %d run" % (total, len(ok)), flush=True)
    cnt = {}
    with ThreadPoolExecutor(a["jobs"]) as ex:
        futs = [(m, ex.submit(run, m, checks, i, a["tests"])) for i, m in enumerate(ok)]
        for m, f in done(futs):
            k, c, dt = f.result()
            cnt[k] = cnt.get(k, 0) + 1
            if k in ("SURVIVED", "UNCOVERED"):
                print("%s %s:%d %s | %s | %s (%.0fs)" % (k, os.path.basename(m[0]), m[2], m[1], m[3], c, dt), flush=True)
    print(cnt)


main()
