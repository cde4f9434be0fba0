#!/usr/bin/env python3
"""python3 /verif/check.py <property id>: decides one property on /repo's
current working tree by static analysis.  Exit 0: it holds on everything that
was analysed; exit 1: a line `VIOLATION property=<id> replay=<path>`."""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
EV = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import build  # noqa: E402


def known():
    """key -> text for the findings that are recorded and not repaired."""
    r = {}
    for ln in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
        if m:
            r[(m.group(1), m.group(2))] = m.group(3).strip()
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from engine import props
    spec = props.PROPS[prop]
    viol = []          # dicts with key, what, detail
    cov = {}
    samples = []
    floors = []
    assumptions = list(props.COMMON_ASSUMPTIONS) + spec.get("assumptions", [])
    if spec.get("witness"):
        from engine import witness
        v, stats, ws = witness.run({prop})
        viol += v
        cov["witness_programs_checked"] = stats["programs"]
        cov["witness_accepted_as_required"] = stats["accepted"]
        cov["witness_rejected_as_required"] = stats["rejected"]
        cov["witness_inconclusive"] = stats["inconclusive"]
        samples += ws[:3] + ws[-2:]
        floors.append(("witness programs", stats["programs"], spec["witness_floor"]))
    if spec.get("engine"):
        from engine import run
        v, c, s = run.run(prop, tier)
        viol += v
        cov.update(c)
        samples += s
        for name, n in spec.get("floors", {}).items():
            floors.append((name, c.get(name, 0), n))
    if spec.get("extra"):
        for f in spec["extra"]:
            v, c, s = f(prop, tier)
            viol += v
            cov.update(c)
            samples += s
    for name, n, lo in floors:
        if n < lo:
            print("note: %s: only %d %s were analysed (%d on the tree this was written for)" % (prop, n, name, lo))
    cov["floors"] = ["%s: %d (written for >= %d)" % f for f in floors]
    cov["samples"] = samples[:12]
    cov["explanation"] = spec["explain"]
    kn = known()
    real = []
    shown = set()
    for x in viol:
        k = (prop, x["key"])
        if k in kn:
            if k not in shown:
                shown.add(k)
                print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
        else:
            real.append(x)
    wall = time.time() - t0
    cov["findings"] = [dict(key=x["key"], what=x["what"], where=x.get("where"), lane=x.get("lane")) for x in real[:20]]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "other"), coverage=cov,
              assumptions=assumptions, wall_s=round(wall, 2), violations=len(real))
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if real:
        rp = os.path.join(EV, "%s-violation.txt" % prop)
        with open(rp, "w") as f:
            for x in real:
                f.write("== %s\nlane: %s\nwhat: %s\nwhere: %s\n%s\n" % (x["key"], x.get("lane"), x["what"], x.get("where"), x.get("detail", "")))
                if x.get("src"):
                    f.write("-- program:\n" + x["src"] + "\n")
                f.write("\n")
        for x in real[:8]:
            print("%s: %s [%s] %s" % (prop, x["what"], x["key"], x.get("where") or ""))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: holds (%s) in %.1fs" % (prop, ", ".join("%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, (int, float))), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
