"""Type-level witnesses: pairs of client programs of which one has to be
rejected by the type checker and its twin (which differs by the offending
construct only) has to be accepted.  Nothing is run; `rustc --emit=metadata`
is the decision procedure, on the current source of the crate.

A witness file consists of blocks

    //# name: <id>   prop: C16   lanes: stable-std,nightly-std   expect: E0277
    <prelude and common code>
    //+ ok
    <lines of the accepted twin>
    //- bad
    <lines of the rejected twin>
    //= common
    <more common code>

A block without a `//- bad` section is a positive witness (must compile).
"""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import build


def load(props):
    d = os.path.join(build.VERIF, "witness")
    out = []
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".rs"):
            continue
        cur = None
        for ln in open(os.path.join(d, fn)):
            m = re.match(r"//# name: (\S+)\s+prop: (\S+)\s+lanes: (\S+)(?:\s+expect: (\S+))?", ln)
            if m:
                cur = dict(file=fn, name=m.group(1), prop=m.group(2), lanes=m.group(3),
                           expect=(m.group(4) or "").split(",") if m.group(4) else [], parts=[], what="")
                mode = "="
                out.append(cur)
                continue
            if cur is None:
                continue
            if ln.startswith("//? "):
                cur["what"] = ln[4:].strip()
            elif ln.startswith("//+"):
                mode = "+"
            elif ln.startswith("//-"):
                mode = "-"
            elif ln.startswith("//="):
                mode = "="
            else:
                cur["parts"].append((mode, ln))
    names = set()
    for w in out:
        assert w["name"] not in names, w["name"]
        names.add(w["name"])
    return [w for w in out if w["prop"] in props]


ALL = {"all": ["stable-std", "stable-no_std", "nightly-std", "nightly-no_std"],
       "std": ["stable-std", "nightly-std"],
       "stable": ["stable-std"],
       "nightly": ["nightly-std"],
       "no_std": ["stable-no_std", "nightly-no_std"]}


def lanes_of(w):
    r = []
    for x in w["lanes"].split(","):
        r += ALL.get(x, [x])
    return r


def compile_one(job):
    w, lane, kind = job
    src = "".join(l for m, l in w["parts"] if m == "=" or m == kind)
    d = os.path.join(build.work(), "wit")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-%s-%s" % (w["name"].replace("/", "_"), lane, {"+": "ok", "-": "bad"}[kind]))
    f = base + ".rs"
    head = "#![allow(unused, deprecated)]\n"
    if lane.startswith("nightly"):
        head = "#![feature(allocator_api)]\n" + head
    open(f, "w").write(head + src)
    r = build.rustc(lane, ["--edition", "2018", "--crate-type", "lib", "--crate-name", "w", f,
                           "--emit=metadata", "-o", base + ".rmeta", "--error-format=short",
                           "--extern", "generic_vec=" + build.rmeta(lane)], cwd=d)
    try:
        os.unlink(base + ".rmeta")
    except OSError:
        pass
    codes = sorted(set(re.findall(r"error\[(E\d+)\]", r.stderr)))
    return dict(w=w, lane=lane, kind=kind, ok=r.returncode == 0, codes=codes, err=r.stderr[:1500], src=head + src)


def run(props, quick=True):
    """Returns (violations, summary)."""
    ws = load(props)
    jobs = []
    for w in ws:
        for lane in lanes_of(w):
            jobs.append((w, lane, "+"))
            if any(m == "-" for m, _ in w["parts"]):
                jobs.append((w, lane, "-"))
    for lane in sorted(set(j[1] for j in jobs)):
        build.rmeta(lane)
    build.work()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(compile_one, jobs))
    oks = {(r["w"]["name"], r["lane"]): r for r in res if r["kind"] == "+"}
    viol = []
    stats = dict(programs=len(res), accepted=0, rejected=0, inconclusive=[])
    samples = []
    for r in res:
        key = "witness:%s" % r["w"]["name"]
        if r["kind"] == "+":
            if r["ok"]:
                stats["accepted"] += 1
            else:
                viol.append(dict(key=key + ":rejected", lane=r["lane"], prop=r["w"]["prop"],
                                 what="a sound program no longer compiles: " + r["w"]["what"],
                                 detail=r["err"], src=r["src"]))
        else:
            if r["ok"]:
                viol.append(dict(key=key + ":accepted", lane=r["lane"], prop=r["w"]["prop"],
                                 what="an unsound program compiles: " + r["w"]["what"],
                                 detail="accepted by the type checker in lane " + r["lane"], src=r["src"]))
            else:
                stats["rejected"] += 1
                exp = r["w"]["expect"]
                if exp and not (set(exp) & set(r["codes"])) and not any(x.replace("_", " ") in r["err"] for x in exp):
                    stats["inconclusive"].append("%s in %s: %s instead of %s" % (r["w"]["name"], r["lane"], r["codes"] or r["err"][:200], exp))
    return viol, stats, [dict(witness=w["name"], claim=w["what"], lanes=lanes_of(w)) for w in ws]
