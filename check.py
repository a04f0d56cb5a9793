#!/usr/bin/env python3
"""Decides one property: python3 check.py <ID> [quick|thorough]"""
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")


class TimeUp(BaseException):
    """one obligation took too long: it stays undecided"""


def time_up(*a):
    raise TimeUp()


def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def matches(k, v):
    """a listed finding names its obligation, rule and the construct that fails"""
    if k.get("obligation") not in (v["claim"], "*") or k.get("rule") != v["rule"]:
        return False
    return k.get("contains", "") in v["detail"] and k.get("in", "") in str(v["where"])


def one(it, ob, t0, limit, seed, tier, listed, O):
    """analyse one obligation: (outcome, None) or (None, reason)"""
    left = limit - (time.time() - t0)
    if left <= 0:
        return None, "%s: time limit before analysis" % ob.name
    share = left / 2 + 10
    signal.setitimer(signal.ITIMER_REAL, share + 30)
    try:
        return O.run(it, ob, deadline=time.time() + share, seed=seed, thorough=(tier == "thorough"),
                     listed=lambda v: any(matches(k, v) for k in listed)), None
    except TimeUp:
        return None, "%s: time limit" % ob.name
    except MemoryError:
        return None, "%s: memory limit" % ob.name
    except Exception as e:  # an analyser fault is never an alarm
        import traceback
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return None, "%s: analyser fault %r %s" % (ob.name, e, traceback.format_exc().splitlines()[-3:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def analyse(it, obs, t0, limit, seed, tier, listed, O):
    """every obligation in a process of its own, forked from the same state, so that neither the order nor the
    scheduling of obligations has a bearing on what is decided"""
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if len(obs) == 1 or jobs == 1:
        return [one(it, ob, t0, limit, seed, tier, listed, O) for ob in obs]
    res = [None] * len(obs)
    todo = list(range(len(obs)))
    live = {}  # read end -> (index, pid, chunks)
    found = None  # when the first violation turned up: the others get another minute
    while todo or live:
        if found and tier == "quick" and time.time() - found > 60:
            for i in todo:
                res[i] = (None, "%s: not analysed, a violation had been found" % obs[i].name)
            todo = []
        while todo and len(live) < jobs:
            i = todo.pop(0)
            rd, wr = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (7 << 29, 7 << 29))
                    r, err = one(it, obs[i], t0, limit, seed, tier, listed, O)
                    if r is not None:
                        r.ob = r.listed = None
                        for v in r.violations:
                            v["cert"] = json.loads(json.dumps(v["cert"], default=str))
                            v["detail"], v["where"] = str(v["detail"]), v["where"] and str(v["where"])
                        r.undecided = [str(u) for u in r.undecided]
                        r.notes = [str(u) for u in r.notes]
                    data = pickle.dumps((r, err))
                    while data:
                        data = data[os.write(wr, data):]
                    code = 0
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(wr)
            live[rd] = (i, pid, [])
        ready, _, _ = select.select(list(live), [], [], 5)
        late = time.time() - t0 > limit + 90 or (found and tier == "quick" and time.time() - found > 60)
        for rd in list(live):
            i, pid, chunks = live[rd]
            if rd in ready:
                d = os.read(rd, 1 << 20)
                if d:
                    chunks.append(d)
                    continue
            elif late:
                os.kill(pid, signal.SIGKILL)
            else:
                continue
            os.close(rd)
            os.waitpid(pid, 0)
            del live[rd]
            try:
                res[i] = pickle.loads(b"".join(chunks))
                if res[i][0] is not None and any(not any(matches(k, v) for k in listed) for v in res[i][0].violations):
                    found = found or time.time()
            except Exception:
                res[i] = (None, "%s: the analysis of this obligation ended early" % obs[i].name)
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    signal.signal(signal.SIGALRM, time_up)
    from engine import interp as I, obligations as O
    mod = importlib.import_module("props." + pid)
    it = I.Interp(REPO)
    obs = mod.obligations()
    if only:
        obs = [o for o in obs if only in o.name]
    limit = 620 if tier == "quick" else 3000
    outs = []
    viol, kn = [], []
    errors = []
    listed = known(pid)
    for i, (r, err) in enumerate(analyse(it, obs, t0, limit, seed, tier, listed, O)):
        if err:
            errors.append(err)
            continue
        r.ob = obs[i]
        outs.append(r)
        for v in r.violations:
            hit = [k for k in listed if matches(k, v)]
            (kn if hit else viol).append((v, hit[0] if hit else None))
        if only or os.environ.get("VERIF_DEBUG"):
            print(r.ob.name, r.mode, "proved", r.proved, "instances", r.instances, "undecided", r.undecided, "paths", r.paths,
                  "notes", r.notes, "%.1fs" % r.wall)
            for v in r.violations:
                print("   VIOL", json.dumps(v, default=str)[:1500])
    # syntactic lints of the module (same contract)
    decided = sum(o.decided for o in outs)
    proved = sum(o.proved for o in outs)
    inst = sum(o.instances for o in outs)
    und = [u for o in outs for u in ["%s: %s" % (o.ob.name, x) for x in o.undecided]]
    funcs = sorted(set(f for o in outs for f in o.functions))
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2), violations=len(viol),
              coverage=dict(
                  explanation="Abstract interpretation of the current source of %s: for each obligation the entry points are "
                  "evaluated over normal-form terms (sizes, inputs and parameters symbolic), one trace partition per undecided "
                  "configuration branch, and the resulting term is compared with the property's reference formula. "
                  "'same_normal_form' claims hold for every value of the symbols; 'agree_on_instances' claims have different "
                  "normal forms with no difference certificate; 'undecided' were not decided." % REPO,
                  obligations=len(obs), claims_decided=decided, same_normal_form=proved, agree_on_instances=inst,
                  undecided=und + errors, trace_partitions=sum(o.paths for o in outs),
                  functions_analysed=["%s:%s" % (os.path.relpath(a, REPO) if str(a).startswith(REPO) else a, b) for a, b in funcs
                                      if str(a).startswith(REPO)],
                  per_obligation=[dict(name=o.ob.name, anchor=o.ob.anchor, mode=o.mode, same_normal_form=o.proved,
                                       agree_on_instances=o.instances, partitions=o.paths, notes=o.notes[:6],
                                       wall_s=round(o.wall, 2)) for o in outs],
                  known_findings=sorted(set(v["claim"] + ": " + v["rule"] for v, _ in kn))))
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d claims decided (%d same normal form, %d on instances), %d undecided, %d functions, %.1fs" % (
        pid, len(obs), decided, proved, inst, len(und) + len(errors), len(ev["coverage"]["functions_analysed"]), time.time() - t0))
    for u in und + errors:
        print("  undecided: " + u)
    for what in dict.fromkeys(k["what"] for _, k in kn):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if viol:
        rp = os.path.join(evdir, "%s.violation.json" % pid)
        with open(rp, "w") as f:
            json.dump([v for v, _ in viol], f, indent=1, default=str)
        for v, _ in viol:
            print("  %s" % (v["where"] or v["claim"]))
            print("    obligation: %s" % v["claim"])
            print("    rule: %s" % v["rule"])
            print("    %s" % v["detail"])
            print("    certificate: %s" % json.dumps(v["cert"], default=str))
            if v["path"]["branches"]:
                print("    path: %s" % "; ".join(v["path"]["branches"][:8]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if decided == 0 and not kn:
        print("%s: nothing could be decided" % pid)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
