#!/usr/bin/env python3
"""python3 tools/sweep.py [-q] [lane:debug ...] [-- scenario ...]: runs scenarios (all of them) outside any
property and prints those with failures, open paths or errors, and the slowest ones."""
import collections
import os
import sys
import time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import build, run  # noqa: E402


def job(j):
    run.DEADLINE[0] = time.time() + 10000
    run.DEADLINE[1] = float(os.environ.get("PER", "150"))
    return run.execute(j)


def main():
    run.load_specs()
    a = sys.argv[1:]
    names = []
    if "--" in a:
        names = a[a.index("--") + 1:]
        a = a[:a.index("--")]
    modes = a or [l + ":" + d for l in build.LANES for d in "01"]
    jobs = []
    for m in modes:
        lane, d = m.split(":")
        run.world(lane, d == "1")
        for n, sc in run.SCENS.items():
            if names and n not in names:
                continue
            if sc.nightly and not lane.startswith("nightly"):
                continue
            if sc.lanes and lane not in sc.lanes and not sc.opts.get("lanes_all"):
                continue
            if run.scen_fn(run.world(lane, d == "1"), sc.fn) is None:
                continue
            if sc.feat and sc.feat not in build.LANES[lane][1]:
                continue
            for z in sc.zst:
                for c in sc.copy:
                    jobs.append(run.Job(lane, d == "1", n, z, c))
    t = time.time()
    res = []
    with Pool(int(os.environ.get("NP", "8"))) as p:
        for r in p.imap_unordered(job, jobs):
            res.append(r)
            if r["fails"] or r["unknown"] or r["error"]:
                print("%s %.1fs exits=%d err=%s" % (r["label"], r["time"], r["exits"], r["error"]))
                for x in collections.Counter(f["kind"] + ": " + f["msg"][:150] + " | " + f["where"][:120] for f in r["fails"]).most_common(4):
                    print("     FAIL", x)
                for u in r["unknown"][:3]:
                    print("     open:", u[:260])
                sys.stdout.flush()
    print("jobs", len(res), "clean", sum(1 for r in res if not (r["fails"] or r["unknown"] or r["error"])), "%.0fs" % (time.time() - t))
    for r in sorted(res, key=lambda r: -r["time"])[:12]:
        print("   %6.1fs %s" % (r["time"], r["label"]))


if __name__ == "__main__":
    main()
