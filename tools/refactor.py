"""refactor.py <group>: apply behaviour preserving edits to a scratch copy of /repo and run the checks on it (all must stay quiet).

usage: refactor.py group [check ...]"""
import os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
D = "high_order_layers_torch/"
G = {}


def edit(group, file, old, new, count=1):
    G.setdefault(group, []).append((D + file, old, new, count))


exec(open(os.path.join(os.path.dirname(__file__), "refactors.py")).read())


def main():
    g = sys.argv[1]
    W = "/tmp/refac." + g
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])
    for f, old, new, count in G[g]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != count:
            print("EDIT DOES NOT FIT", f, s.count(old), old[:80])
            continue
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, PYTHONPATH=W + ":/opt/vp/plugins", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "-p", "vp_seed", "--ignore=tests/test_examples.py", "tests", "-x"],
                       cwd=W, env=env, capture_output=True, text=True)
    print(g, "tests:", t.stdout.strip().splitlines()[-1])
    ids = sys.argv[2:] or sorted(x[:3] for x in os.listdir("/verif/props") if re.match(r"P\d\d\.py", x))

    def run(i):
        r = subprocess.run(["python3", "/verif/check.py", i, "quick"], env=dict(os.environ, VERIF_REPO=W, VERIF_EVIDENCE=W), capture_output=True, text=True)
        last = [l for l in r.stdout.splitlines() if l.startswith(i)][-1:] or r.stdout.splitlines()[-1:] or r.stderr.splitlines()[-1:]
        open("/tmp/refac.%s.%s.log" % (g, i), "w").write(r.stdout + r.stderr)
        return i, r.returncode, last
    with ThreadPoolExecutor(int(os.environ.get("T", 2))) as ex:
        for i, rc, last in ex.map(run, ids):
            print("   " if rc == 0 else "***", i, rc, (last or [""])[0][:170], flush=True)
    if not os.environ.get("KEEP"):
        shutil.rmtree(W)


main()
