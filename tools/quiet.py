#!/usr/bin/env python3
"""Are the checks quiet on the edits of tools/refactors/*.py, which change no behaviour?
python3 tools/quiet.py [name ...]     on scratch copies of /repo; also builds and runs the stable tests."""
import glob
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import mutate  # noqa: E402

CODE = '''
if __name__ == "__main__":
    js = json.load(open(sys.argv[1]))
    run.world(LANE, False)
    hit, opened = [], []
    with Pool(5) as p:
        for r in p.imap_unordered(job, [tuple(j) for j in js]):
            for f in r["fails"]:
                hit.append((r["label"], r["job"][2], f["kind"], f["msg"][:300]))
            if r["unknown"] or r["error"]:
                opened.append((r["label"], r["job"][2], (r["error"] or r["unknown"][0])[-300:]))
    print("RESULT " + json.dumps(dict(hit=hit[:6], nhit=len(hit), open=opened[:4], nopen=len(opened), n=len(js))))
'''


def main():
    names = sys.argv[1:]
    lanes = os.environ.get("LANE", "stable-std nightly-std").split()
    R = {}
    for f in sorted(glob.glob(H + "/tools/refactors/*.py")):
        R.update(runpy.run_path(f)["R"])
    tmp = tempfile.mkdtemp(prefix="quiet")
    root = tmp + "/repo"
    shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git"))
    for n, edits in R.items():
        if names and n not in names:
            continue
        shutil.rmtree(root + "/src")
        shutil.copytree("/repo/src", root + "/src")
        for f, a, b in edits:
            s = open(root + "/" + f).read()
            if a not in s:
                print(n, "DOES NOT APPLY", f, repr(a[:60]))
                break
            # every occurrence is replaced only if it is unique; else the first
            open(root + "/" + f, "w").write(s.replace(a, b, 1))
        else:
            e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1")
            r = subprocess.run(["cargo", "+stable", "test", "-q", "--offline", "--target-dir", tmp + "/target", "--lib", "--tests", "--no-default-features", "--features", "std"],
                               cwd=root, env=e, capture_output=True, text=True)
            if r.returncode:
                print(n, "BUILD OR TESTS FAIL", (r.stderr + r.stdout)[-1500:])
                continue
            fns = set()
            for f, a, b in edits:
                src = open("/repo/" + f).read()
                ln = src[:src.index(a)].count("\n") + (1 if a.startswith("\n") else 0)
                lines = src.split("\n")
                for i in range(ln, ln + a.count("\n") + 1):
                    g = mutate.fn_of(lines, i)
                    if g:
                        fns.add(g)
            for lane in lanes:
                base = mutate.do_base(lane)
                pat = re.compile("(::|^)(%s)($|::\\{|\\b)" % "|".join(map(re.escape, fns)))
                js = mutate.select(base, pat, dict(file=edits[0][0], old=""))
                open(tmp + "/run.py", "w").write(mutate.SCN % dict(H=H, lane=lane) + CODE)
                json.dump(js, open(tmp + "/js.json", "w"))
                r = subprocess.run(["python3-vt", tmp + "/run.py", tmp + "/js.json"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=root))
                m = re.search(r"RESULT (.*)", r.stdout)
                d = json.loads(m.group(1)) if m else dict(error=r.stderr[-800:])
                ok = m and not d["nhit"]
                print(n, lane, sorted(fns), "quiet" if ok else "ALARM", "jobs", d.get("n"), "open", d.get("nopen"), "" if ok and not d["nopen"] else json.dumps(d)[:1500], flush=True)
    shutil.rmtree(tmp)


main()
