"""mkseed.py: helper to write /verif/seeded/<id>/ from an edit of a scratch copy."""
import json, os, shutil, subprocess, sys
def seed(id, prop, edits, demo, needs, breaks):
    W = "/tmp/mkseed"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) >= 1, (id, f, old)
        assert s.count(old) == 1, (id, "ambiguous", old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    S = "/verif/seeded/" + id
    os.makedirs(S, exist_ok=True)
    open(S + "/patch.diff", "w").write(d)
    open(S + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(S + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(S + "/meta.json", "w"), indent=1)
    shutil.rmtree(W)
