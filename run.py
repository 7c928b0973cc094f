#!/usr/bin/env python3
"""Decide one property on /repo's current tree: run.py ID [quick|thorough] [--replay IDX] [--part N]"""
import os, sys, time, traceback, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from checks import CHECKS


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[pid]
    t0 = time.time()
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        return replay(pid, chk, tier, seed, sys.argv[i + 1])
    res = core.Result()
    extra = {}
    parts = chk["parts"]
    budget = chk.get("budget", {}).get(tier, 90 if tier == "quick" else 600)
    for n, p in enumerate(parts):
        left = max(10, budget - (time.time() - t0))
        share = left * p.get("share", 1.0) if n < len(parts) - 1 else left
        if "fn" in p:
            r = p["fn"](pid, seed, tier, share)
        else:
            b = core.build_part(p)
            cnt = p["n"][0 if tier == "quick" else 1]
            r = core.run_cases(b, p.get("prop", pid), seed, cnt, tier, deadline=share, opts=p.get("opts"), workers=p.get("workers"))
        for v in r.viols:
            v["part"] = n
        r.feat["part%d_cases" % n] = r.evals
        res.merge(r)
    miss = [f for f in chk.get("need", []) if not res.feat.get(f)]
    if (miss or res.evals == 0) and not res.viols:
        print("ERROR: inconclusive, nothing observed of: %s %s" % (miss, res.notes[:3]))
        return 2
    core.prune()
    return core.finish(pid, tier, seed, res, chk["rule"], t0, assumptions=chk.get("assume", ()),
                       replay_cmd="VERIF_SEED=%d python3 /verif/run.py %s %s --replay {part}:{idx}" % (seed, pid, tier), extra=extra)


def replay(pid, chk, tier, seed, spec):
    n, idx = spec.split(":") if ":" in spec else ("0", spec)
    p = chk["parts"][int(n)]
    if "fn" in p:
        r = p["fn"](pid, seed, tier, 300, only=int(idx))
    else:
        b = core.build_part(p)
        o = dict(p.get("opts") or {}); o["replay"] = "1"
        r = core.run_cases(b, p.get("prop", pid), seed, 1, tier, deadline=300, opts=o, workers=1, first=int(idx))
    for v in r.viols:
        print("[%s] %s" % (v["sig"], v["msg"]))
    return 1 if r.viols else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.BuildError as e:
        print("ERROR: " + str(e)); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
