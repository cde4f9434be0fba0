#!/usr/bin/env python3
"""Systematic source mutants of /repo/src, for finding gaps in the checks (not a check itself).

python3 tools/mutate.py gen OUT.json [file ...]     generate mutants
python3 tools/mutate.py filter OUT.json [workers]   keep those that build and pass the stable tests
python3 tools/mutate.py run OUT.json [n]            run the scenarios that visit the mutated function on them
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

OPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bif !", ["if "]), (r"\bif (?!let|!)", ["if !"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]),
    (r"\.len\(\)", [".capacity()", ".len() + 1"]), (r"\.capacity\(\)", [".len()", ".capacity() + 1"]),
    (r"\bfront\b", ["back"]), (r"\bback\b", ["front"]), (r"_front\b", ["_back"]), (r"_back\b", ["_front"]),
    (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]),
    (r"wrapping_add", ["wrapping_sub"]), (r"wrapping_sub", ["wrapping_add"]), (r"saturating_sub", ["wrapping_sub"]), (r"saturating_mul", ["wrapping_mul"]),
    (r"checked_mul", ["wrapping_mul"]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
    (r"copy_nonoverlapping\(", ["copy("]), (r"\bcopy\(", ["copy_nonoverlapping("]),
    (r"\bindex\b", ["index + 1", "len"]), (r"\blen\b(?!\(|_)", ["len + 1", "len - 1"]),
    (r"size_of::<", ["align_of::<"]), (r"align_of::<", ["size_of::<"]),
    (r"ManuallyDrop::new\(([a-z_.]+)\)", [r"\1"]), (r"\? Sized", [""]),
]


def code_lines(src):
    """line numbers that hold code outside comments, docs and tests."""
    out = []
    block = 0
    for i, l in enumerate(src.split("\n")):
        s = l.strip()
        if s.startswith("/*"):
            block = 1
        if block:
            if "*/" in s:
                block = 0
            continue
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("#!") or s.startswith("use ") or s.startswith("pub use"):
            continue
        if re.match(r"(pub(\(.*\))? )?(unsafe )?(impl|struct|enum|trait|mod|const fn|type)\b", s):
            continue
        out.append(i)
    return out


def noise(m):
    """messages and adjacent bindings: nothing that a user relies on."""
    o, n = m["old"].strip(), m["new"].strip()
    return bool(re.match(r'"', o) or "panic!(" in o or m.get("swap") and o.startswith("let ") and n.startswith("let ") or re.search(r"_fail\(.*\)", o) and "_fail(" in n)


def fn_of(lines, i):
    ind = len(lines[i]) - len(lines[i].lstrip())
    for k in range(i, -1, -1):
        m = re.search(r"\bfn ([a-z_0-9]+)", lines[k])
        if m and (k == i or len(lines[k]) - len(lines[k].lstrip()) < ind):
            return m.group(1)
    return None


def gen(files):
    muts = []
    for f in files:
        src = open(os.path.join(R, f)).read()
        lines = src.split("\n")
        for i in code_lines(src):
            l = lines[i]
            cut = l.find(" //")
            end = len(l) if cut < 0 else cut
            fn = fn_of(lines, i)
            s = l.strip()
            if re.match(r".*\bfn \w+", s) and "{" not in s:
                continue
            alts = []
            for pat, reps in OPS:
                for m in re.finditer(pat, l[:end]):
                    if re.search(r"\bfn \w+", l) and m.start() < l.find("{"):
                        continue
                    for r in reps:
                        x = l[:m.start()] + m.expand(r) + l[m.end():]
                        if x != l:
                            alts.append(x)
            # statement deletion
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("}") and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                alts.append(re.match(r"\s*", l).group(0))
            for x in alts:
                muts.append(dict(file=f, line=i + 1, fn=fn, old=l, new=x))
        # swapped neighbouring statements
        for i in range(len(lines) - 1):
            a, b = lines[i], lines[i + 1]
            if all(y.strip().endswith(";") and y.count("(") == y.count(")") and y.count("{") == y.count("}") and not y.strip().startswith(("}", "//", "use", "pub use", "const", "type", "#"))
                   for y in (a, b)) and re.match(r"\s*", a).group(0) == re.match(r"\s*", b).group(0) and a != b:
                fn = fn_of(lines, i)
                if fn:
                    muts.append(dict(file=f, line=i + 1, fn=fn, old=a, new=b, swap=True))
    return muts


def apply(root, m):
    p = os.path.join(root, m["file"])
    lines = open(os.path.join(R, m["file"])).read().split("\n")
    i = m["line"] - 1
    assert lines[i] == m["old"]
    if m.get("swap"):
        lines[i], lines[i + 1] = lines[i + 1], lines[i]
    else:
        lines[i] = m["new"]
    open(p, "w").write("\n".join(lines))


def restore(root, m):
    shutil.copy(os.path.join(R, m["file"]), os.path.join(root, m["file"]))


def stable_pass(out, base):
    try:
        d = json.load(open(out))
    except Exception:
        return False
    return base <= set(d.get("passed", d.get("pass", [])))


def do_filter(path, workers):
    muts = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="mutf")
    roots = []
    for w in range(workers):
        d = "%s/w%d" % (tmp, w)
        subprocess.run(["cp", "-a", R, d], check=True)
        roots.append(d)
    todo = [m for m in muts if "status" not in m]
    n = [0]

    def one(m):
        root = roots.pop()
        try:
            apply(root, m)
            night = "nightly" in m["file"]
            e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0" if night else "1",
                     CARGO_PROFILE_DEV_DEBUG="1" if night else "line-tables-only")
            if night:
                e.update(RUSTC="/opt/vp/shim/rustc", RUSTDOC="/opt/vp/shim/rustdoc")
            cmd = ["cargo", "+1.79.0" if night else "+stable", "test", "-q", "--offline", "--target-dir", root + "/target/" + ("nightly" if night else "stable"),
                   "--lib", "--tests", "--no-default-features", "--features", "std,nightly" if night else "std"]
            r = subprocess.run(cmd + ["--no-run"], cwd=root, env=e, capture_output=True, text=True, timeout=200)
            if r.returncode:
                m["status"] = "nobuild"
                return
            try:
                r = subprocess.run(cmd + ["--", "--test-threads", "4"], cwd=root, env=e, capture_output=True, text=True, timeout=30)
            except subprocess.TimeoutExpired:
                m["status"] = "killed"
                return
            m["status"] = "alive" if r.returncode == 0 else "killed"
        except Exception as ex:
            m["status"] = "error " + str(ex)[:80]
        finally:
            restore(root, m)
            roots.append(root)
            n[0] += 1
            if n[0] % 20 == 0:
                json.dump(muts, open(path, "w"))
                print(n[0], len(todo), {s: sum(1 for x in muts if x.get("status") == s) for s in {x.get("status") for x in muts}}, flush=True)
    with ThreadPoolExecutor(workers) as p:
        list(p.map(one, todo))
    json.dump(muts, open(path, "w"), indent=0)
    shutil.rmtree(tmp)


SCN = r'''
import json, os, sys, time
sys.path.insert(0, %(H)r)
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from engine import run
run.load_specs()
LANE = %(lane)r
def job(a):
    run.DEADLINE[:] = [time.time() + 200, 60]
    return run.execute(run.Job(*a))
def jobs():
    out = []
    run.world(LANE, False)
    for n, sc in run.SCENS.items():
        if sc.nightly and not LANE.startswith("nightly"): continue
        if sc.lanes and LANE not in sc.lanes and not sc.opts.get("lanes_all"): continue
        if run.scen_fn(run.world(LANE, False), sc.fn) is None: continue
        for z in sc.zst:
            for c in sc.copy:
                out.append((LANE, False, n, z, c))
    return out
'''


def do_base(lane):
    """which functions each scenario visits (on the unchanged tree)."""
    p = "/tmp/mutbase.%s.json" % lane
    if os.path.exists(p):
        return json.load(open(p))
    code = SCN % dict(H=H, lane=lane) + '''
if __name__ == "__main__":
    js = jobs()
    res = []
    with Pool(8) as p:
        for r in p.imap_unordered(job, js, 4):
            res.append((r["job"], sorted({f for c, f, b in r["visited"] if c == "generic_vec"}), r["time"]))
    json.dump(res, open(sys.argv[1], "w"))
'''
    open("/tmp/mutbase.py", "w").write(code)
    subprocess.run(["python3-vt", "/tmp/mutbase.py", p], check=True)
    return json.load(open(p))


def select(base, pat, m):
    if " const " in " " + m["old"]:
        stem = os.path.splitext(os.path.relpath(m["file"], "src"))[0].replace("/", "::")
        pat = re.compile(re.escape(stem) + "::")
    js = [(t, j) for j, fns, t in base if any(pat.search(f) for f in fns)]
    if "debug_assert" in m.get("context", ""):
        js += [(t, [j[0], True] + list(j[2:])) for t, j in js]
    # raw storage scenarios with one layout each are plenty: a sample of them
    js.sort(key=lambda x: x[0])
    raw = [j for t, j in js if "." in j[2]]
    rest = [j for t, j in js if "." not in j[2]]
    quick = [j for t, j in js if "." not in j[2] and t < 10]
    if len(quick) > 12:
        rest = quick
    if len(raw) > 160 and not m["file"].startswith("src/raw"):
        raw = random.Random(1).sample(raw, 160)
    return rest + raw


def do_run(path, count):
    muts = json.load(open(path))
    lane = os.environ.get("LANE", "stable-std")
    base = do_base(lane)
    code = SCN % dict(H=H, lane=lane) + '''
if __name__ == "__main__":
    js = json.load(open(sys.argv[1]))
    run.prepare(sorted({(LANE, j[1]) for j in js}))
    hit, opened = [], []
    with Pool(8) as p:
        for r in p.imap_unordered(job, [tuple(j) for j in js]):
            if r["fails"]:
                hit.append((r["label"], r["fails"][0]["kind"], r["fails"][0]["msg"][:160]))
                if len(hit) >= 1:
                    p.terminate()
                    break
            elif r["unknown"] or r["error"]:
                opened.append((r["label"], (r["error"] or r["unknown"][0])[:200]))
    print("RESULT " + json.dumps(dict(hit=hit, open=opened[:5], nopen=len(opened), n=len(js))))
'''
    open("/tmp/mutrun.py", "w").write(code)
    rnd = random.Random(7)
    todo = [m for m in muts if m.get("status") == "alive" and "res" not in m and lane not in m.get("absent", []) and (lane.startswith("nightly") or "nightly" not in m["file"])]
    rnd.shuffle(todo)
    tmp = tempfile.mkdtemp(prefix="mutr")
    root = tmp + "/repo"
    shutil.copytree(R, root, ignore=shutil.ignore_patterns("target", ".git"))
    for m in todo[:count]:
        ls = open(os.path.join(R, m["file"])).read().split("\n")
        m["context"] = "debug_assert" if any("debug_assert" in ls[k] and not any(";" in x for x in ls[k:m["line"] - 1]) for k in range(max(0, m["line"] - 8), m["line"])) else ""
        if noise(m) or m["context"] and re.match(r"[\w., ()+-]*,?$", m["old"].strip()):
            continue
        m["fn"] = fn_of(open(os.path.join(R, m["file"])).read().split("\n"), m["line"] - 1) or m["fn"]
        pat = re.compile(r"(::|^)%s($|::\{|\b)" % re.escape(m["fn"] or "?"))
        js = select(base, pat, m)
        if not js:
            m.setdefault("absent", []).append(lane)
            continue
        else:
            apply(root, m)
            json.dump(js, open(tmp + "/jobs.json", "w"))
            r = subprocess.run(["python3-vt", "/tmp/mutrun.py", tmp + "/jobs.json"], env=dict(os.environ, VERIF_REPO=root), capture_output=True, text=True)
            restore(root, m)
            x = re.search(r"^RESULT (.*)$", r.stdout, re.M)
            m["res"] = json.loads(x.group(1)) if x else dict(hit=[], open=[["?", r.stderr[-300:]]], nopen=1, n=len(js), crash=True)
        s = "CAUGHT" if m["res"]["hit"] else "open" if m["res"]["nopen"] else "MISSED"
        print(s, "%s:%d %s" % (m["file"], m["line"], m["fn"]), "| %s => %s" % (m["old"].strip(), m["new"].strip()), "" if s == "CAUGHT" else "n=%d" % m["res"]["n"],
              m["res"]["open"][:1] if s == "open" else "", flush=True)
        json.dump(muts, open(path, "w"), indent=0)
    shutil.rmtree(tmp)


def main():
    cmd, path = sys.argv[1:3]
    if cmd == "gen":
        files = sys.argv[3:]
        if not files:
            for d, _, fs in os.walk(R + "/src"):
                files += [os.path.relpath(os.path.join(d, f), R) for f in fs if f.endswith(".rs")]
        ms = gen(sorted(files))
        json.dump(ms, open(path, "w"), indent=0)
        print(len(ms), "mutants")
    elif cmd == "filter":
        do_filter(path, int(sys.argv[3]) if len(sys.argv) > 3 else 6)
    else:
        do_run(path, int(sys.argv[3]) if len(sys.argv) > 3 else 100000)


if __name__ == "__main__":
    main()
