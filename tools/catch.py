#!/usr/bin/env python3
"""Which checks catch which planted bugs: python3 tools/catch.py [-a] [id ...]
(-a: every claimed check, not only the bug's own).  Works on a copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from engine.props import PROPS
every = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(H + "/seeded"))
T = tempfile.mkdtemp(prefix="catch")
R = T + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
for i in ids:
    d = H + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
    out = []
    for p in (sorted(PROPS) if every else [m["property"]]):
        if p not in PROPS:
            out.append(p + ":unclaimed"); continue
        e = dict(os.environ, VERIF_REPO=R, VERIF_EVIDENCE=T + "/ev")
        r = subprocess.run([sys.executable, H + "/check.py", p], capture_output=True, text=True, cwd=H, env=e)
        v = "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed" if r.returncode == 0 else "BROKEN %d" % r.returncode
        if not every or v != "missed":
            first = [l for l in r.stdout.splitlines() if l.startswith(p + ":")][:1]
            out.append("%s:%s" % (p, v) + ("" if every else "  " + (first[0][:200] if first else "")))
            if "BROKEN" in v:
                out.append(r.stderr[-800:])
    print(i, "[%s]" % m["property"], " ".join(out), flush=True)
shutil.rmtree(T)
