#!/usr/bin/env python3
"""Authoring of planted bugs.  plants/*.py call plant(...); this writes
seeded/<id>/ and confirms it in a scratch copy of /repo:
python3 tools/plant.py FILE [id ...]"""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/plant"
DEMO = """#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_AUTO_INSTALL=0 RUSTC_BOOTSTRAP=1
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
set -e
rustc +%(tc)s --edition 2018 --crate-type rlib --crate-name generic_vec src/lib.rs %(cfg)s --cap-lints allow %(opt)s -o "$t/libgeneric_vec.rlib"
rustc +%(tc)s --edition 2018 %(ce)s "$d/demo.rs" --cap-lints allow %(opt)s --extern generic_vec="$t/libgeneric_vec.rlib" -o "$t/demo"
timeout 60 "$t/demo"
"""
ALL = {}


def plant(id, prop, edits, demo, needs, breaks, nightly=False, features=("std", "alloc"), opt="-C debug-assertions=off -C overflow-checks=off"):
    ALL[id] = dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, nightly=nightly, features=features, opt=opt)


def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def scratch():
    if not os.path.isdir(SC + "/repo"):
        os.makedirs(SC, exist_ok=True)
        sh("cp -a /repo %s/repo; cp -a /opt/vp %s/vp" % (SC, SC))
        sh("grep -rlE '/repo|/opt/vp' %s/vp | xargs sed -i 's#/repo#%s/repo#g; s#/opt/vp#%s/vp#g'" % (SC, SC, SC))
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SC + "/repo")


def stable_ok(path):
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open(path))
    return base, got


def do(p):
    scratch()
    R = SC + "/repo"
    out = os.path.join(H, "seeded", p["id"])
    os.makedirs(out, exist_ok=True)
    for f, old, new in p["edits"]:
        t = open(os.path.join(R, f)).read()
        if t.count(old) != 1:
            print(p["id"], "edit does not match once:", f, t.count(old)); return False
        open(os.path.join(R, f), "w").write(t.replace(old, new))
    d = sh("git diff", cwd=R).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    cfg = " ".join("--cfg 'feature=\"%s\"'" % f for f in list(p["features"]) + (["nightly"] if p["nightly"] else []))
    ds = DEMO % dict(tc="1.52.1" if p["nightly"] else "stable", cfg=cfg, opt=p["opt"], ce=cfg)
    open(os.path.join(out, "demo.sh"), "w").write(ds)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.rs"), "w").write(p["demo"])
    json.dump(dict(property=p["prop"], needs=p["needs"], what_it_breaks=p["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    ok = True
    r = sh("bash %s/demo.sh" % out, cwd=R)
    if r.returncode == 0:
        print(p["id"], "demo does not fail with the change"); ok = False
    elif "error" in r.stderr and "could not compile" in r.stderr or "error[" in r.stderr:
        print(p["id"], "demo does not compile:", r.stderr[-1500:]); ok = False
    r = sh("bash %s/demo.sh" % out, cwd="/repo")
    if r.returncode != 0:
        print(p["id"], "demo fails without the change:", r.stdout[-500:], r.stderr[-1500:]); ok = False
    r = sh("bash %s/vp/build.sh" % SC)
    if r.returncode != 0:
        print(p["id"], "does not build", r.stderr[-1500:]); ok = False
    r = sh("bash %s/vp/test.sh %s/out.json" % (SC, SC))
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open(SC + "/out.json"))
    need = set(base.get("stable") or base.get("passed") or [])
    have = set(got.get("passed") or [])
    miss = need - have
    if not need:
        print("baseline keys", list(base)); ok = False
    if miss:
        print(p["id"], "breaks tests:", sorted(miss)[:6], len(miss)); ok = False
    sh("git checkout -q -- .", cwd=R)
    print(p["id"], "confirmed" if ok else "REJECTED")
    if not ok:
        shutil.rmtree(out)
    return ok


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    bad = [i for i in (sys.argv[2:] or ALL) if not do(ALL[i])]
    sys.exit(1 if bad else 0)
