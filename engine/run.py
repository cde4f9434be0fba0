"""Runs scenarios in their modes."""
import os
import signal
import sys
import time

from . import build
from .interp import Interp, fn_name
from .lin import L
from .scen import SCENS, run_scen
from .core import Budget, Unknown
from .loops import LoopCtl
from .world import World

PEEL = int(os.environ["PEEL"]) if "PEEL" in os.environ else None
WIDEN = os.environ.get("WIDEN", "1") == "1"

_worlds = {}


def world(lane, debug, copy=False):
    k = (lane, debug)
    w = _worlds.get(k)
    if w is None:
        w = World()
        w.lane = lane
        feats = build.LANES[lane][1]
        src = w.load("generic_vec", build.mir(lane, debug), build.REPO, "src/lib.rs", feats)
        w.add_empty_impls(src)
        src2 = w.load("scen", build.mir_of_cached(lane, "scen/scenarios.rs", debug), build.VERIF, "scen/scenarios.rs", feats)
        w.add_empty_impls(src2)
        w.load_models(build.mir_of_cached(lane, "scen/stdmodel.rs", False, name="stdmodel"), build.VERIF, "scen/stdmodel.rs")
        _worlds[k] = w
    if w.mode_copy != copy:
        w.mode_copy = copy
        w.rcache.clear()
    return w


def load_specs():
    from . import specs_elem, specs_bulk, specs_iter, specs_misc, specs_views, specs_fwd, specs_raw, specs_conv, specs_macro


def gens_of(w, f):
    for cr, chain, gs, fname in w.fn_gens.get(f.name, []):
        if cr == "scen":
            return [g[1] for g in gs]
    return []


def scen_fn(w, name):
    for f in w.free.get(name, ()):
        if f.crate == "scen":
            return f
    return None


def run_one(lane, debug, name, zst, copy, panics, loops=None):
    w = world(lane, debug, copy)
    sc = SCENS[name]
    f = scen_fn(w, sc.fn)
    if f is None:
        raise LookupError("scenario %s is not in lane %s" % (sc.fn, lane))
    m = {g: ("abs", g) for g in gens_of(w, f)}
    if sc.env:
        m.update(sc.env)
    ip = Interp(w, zst=zst, debug=debug, panics=panics)
    ip.loopctl = loops
    t = time.time()
    fails, stats = run_scen(ip, sc, f, w.env(m))
    stats["time"] = time.time() - t
    stats["steps"] = ip.nsteps
    stats["visited"] = ip.visited
    stats["forks"] = ip.forks
    return fails, stats



# ---------------------------------------------------------------- jobs of one property
class Job:
    __slots__ = ("lane", "debug", "name", "zst", "copy")

    def __init__(self, lane, debug, name, zst, copy):
        self.lane, self.debug, self.name, self.zst, self.copy = lane, debug, name, zst, copy

    def key(self):
        return (self.lane, self.debug, self.name, self.zst, self.copy)

    def label(self):
        return "%s, %s, %s%s%s" % (self.name, self.lane, "checked" if self.debug else "unchecked",
                                   ", zero-sized elements" if self.zst else "", ", Copy elements" if self.copy else "")


DEADLINE = [None, None]     # end of the whole run, most seconds for one pass


class limit:
    """raises Budget in the analysis when the pass or the whole run is out of time."""

    def __init__(self, share=1.0):
        self.share = share

    def __enter__(self):
        if DEADLINE[0] is None:
            return
        left = min(DEADLINE[0] - time.time(), DEADLINE[1] * self.share)
        if left <= 0.05:
            raise Budget("time")
        signal.signal(signal.SIGALRM, expired)
        signal.setitimer(signal.ITIMER_REAL, left)

    def __exit__(self, *a):
        if DEADLINE[0] is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)


def expired(*a):
    # again, in case that a handler of the interrupted code swallowed it
    signal.setitimer(signal.ITIMER_REAL, 1.0)
    raise Budget("time")


def control(o, peel=None, widen=True):
    return LoopCtl(peel=o.get("peel", 2) if peel is None else peel, widen=widen, max_nodes=o.get("nodes", 60),
                   max_ver=o.get("vers", 20), merge=o.get("merge", 40))


def execute(job):
    """runs one job; returns plain data."""
    sc = SCENS[job.name]
    r = dict(job=job.key(), label=job.label(), fails=[], unknown=[], exits=0, checked=0, partitions=0, steps=0,
             visited=[], loops={}, heads=[], time=0.0, error=None, forks=0)
    t = time.time()
    try:
        o = sc.opts
        lc = control(o)
        unsure = []
        try:
            with limit():
                fails, st = run_one(job.lane, job.debug, job.name, job.zst, job.copy, sc.panics, lc)
            unsure = [f for f in fails if not f.sure]
            add(r, st, lc)
            r["fails"] += [plain(f) for f in fails if f.sure]
        except Budget as b:
            r["unknown"].append("out of %s" % b)
        if (unsure or r["unknown"]) and not r["fails"]:
            # a failure of a generalised state (or no result): look for a concrete partition
            for deep in o.get("deep", (3, 6, 12)):
                lc = LoopCtl(peel=deep, widen=False)
                try:
                    with limit(0.5):
                        f2, st2 = run_one(job.lane, job.debug, job.name, job.zst, job.copy, sc.panics, lc)
                except (Unknown, Budget):
                    break
                r["fails"] += [plain(f) for f in f2 if f.sure]
                if r["fails"] or not lc.stats["cut"]:
                    break
            if not r["fails"]:
                r["unknown"] += ["not decided: " + f.msg + " | " + f.where for f in unsure[:5]]
    except (Budget, Exception) as e:          # the analysis itself fails: nothing is claimed for this scenario
        r["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        if os.environ.get("VERIF_TRACE"):
            import traceback
            traceback.print_exc()
    finally:
        if DEADLINE[0] is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if not r["exits"] and not r["error"]:
        r["error"] = "no exit was reached"
    r["time"] = time.time() - t
    return r


def add(r, st, lc):
    for k in ("exits", "checked", "partitions", "steps", "forks"):
        r[k] += st[k]
    r["unknown"] += sorted(set(st["unknown"]))[:20]
    r["visited"] = sorted({(f.crate, fn_name(f), b) for f, b in st["visited"]})
    r["blocks"] = {}
    r["loops"] = dict(lc.stats)
    r["heads"] = sorted({fn_name(f) for f, b in lc.heads})


def plain(f):
    return dict(kind=f.kind, msg=f.msg, where=f.where, model=str(f.model), exit=f.exit.kind,
                unw=f.exit.st.unw, facts=str(f.exit.st.facts)[:1500])


def select(prop, tier):
    """jobs for a property."""
    quick = ["stable-std", "nightly-std"]
    every = list(build.LANES)
    jobs = []
    for name, sc in SCENS.items():
        if not relevant(prop, sc):
            continue
        lanes = list(sc.lanes) if sc.lanes else list(quick)
        if tier != "quick":
            lanes = [l for l in every if not sc.lanes or l in sc.lanes or sc.opts.get("lanes_all")]
        if sc.nightly:
            lanes = [l for l in lanes if l.startswith("nightly")]
        if sc.feat:
            lanes = [l for l in lanes if sc.feat in build.LANES[l][1]]
        dbg = (False, True) if (tier != "quick" or prop == "C22") else (False,)
        for lane in lanes:
            for d in dbg:
                for z in sc.zst:
                    if prop == "C12" and not z:
                        continue
                    for c in sc.copy:
                        jobs.append(Job(lane, d, name, z, c))
    return jobs


def relevant(prop, sc):
    if prop in sc.props:
        return True
    if sc.opts.get("raw"):
        return prop == "C22" and all(v in ((0, 1), (4, 4), (8, 8), (12, 4)) for v in sc.opts["cfg"].values())
    if prop in ("C04", "C05", "C22"):
        return True
    if prop == "C12":
        return True in sc.zst
    if prop == "C06":
        # user code, or the storage's reserve, may panic
        return sc.panics or not sc.opts.get("raw") and bool(set(sc.props) & {"C01", "C02", "C03", "C07", "C08", "C10"})
    return False


def matters(prop, sc, f):
    """does the failure f of scenario sc contradict the property?"""
    if sc.opts.get("raw") and prop != "C22":
        if f["kind"] == "block" and "C14" in sc.props:
            return prop in ("C13", "C14")
        k = {"alloc": "C14", "align": "C18"}.get(f["kind"], "C13")
        return prop == k if len(sc.props) > 1 else prop in sc.props
    if f["kind"] == "align":
        return prop == "C18" or prop == "C24" and prop in sc.props
    if prop == "C18":
        return f["kind"] == "panic"
    unwinding = f["unw"] is not None and (f["unw"].startswith("user:") or f["unw"].startswith("storage:"))
    if prop == "C04":
        return f["kind"] in ("memory", "validity")
    if prop == "C05":
        return f["kind"] in ("owner", "ownership") and not unwinding
    if prop == "C06":
        return unwinding
    if prop == "C12":
        return True
    if prop == "C22":
        return True
    return prop in sc.props and not (unwinding and prop not in ("C09", "C10", "C15", "C21", "C11", "C23"))


def prepare(lanes):
    """compiles and loads the worlds (in parallel)."""
    from concurrent.futures import ThreadPoolExecutor
    errs = {}

    def comp(k):
        lane, d = k
        try:
            build.rmeta(lane)
            build.mir(lane, d)
            build.mir_of_cached(lane, "scen/scenarios.rs", d)
            build.mir_of_cached(lane, "scen/stdmodel.rs", False, name="stdmodel")
        except build.BuildError as e:
            errs[k] = str(e)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(comp, lanes))
    for k in lanes:
        if k not in errs:
            world(k[0], k[1])
    return errs


def run(prop, tier):
    load_specs()
    jobs = select(prop, tier)
    keys = sorted({(j.lane, j.debug) for j in jobs})
    t = time.time()
    if tier == "quick":
        DEADLINE[:] = [t + 600, 150]
    else:
        DEADLINE[:] = [t + 840, 200]
    errs = prepare(keys)
    tb = time.time() - t
    skipped = []
    for k, e in errs.items():
        skipped.append("lane %s (%s): %s" % (k[0], "checked" if k[1] else "unchecked", e[-400:]))
    jobs = [j for j in jobs if (j.lane, j.debug) not in errs]
    jobs2 = []
    for j in jobs:
        if scen_fn(world(j.lane, j.debug), SCENS[j.name].fn) is not None:
            jobs2.append(j)
    jobs = jobs2
    weight = {}
    jobs.sort(key=lambda j: -SCENS[j.name].opts.get("cost", 1))
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    res = []
    if jobs:
        with ctx.Pool(min(8, len(jobs)), maxtasksperchild=None) as pool:
            res = list(pool.imap_unordered(execute, jobs, chunksize=1))
    return report(prop, tier, jobs, res, skipped, tb)


def report(prop, tier, jobs, res, skipped, tb):
    viol, samples = [], []
    fns, blocks, heads = set(), set(), set()
    tot = dict(exits=0, checked=0, partitions=0, steps=0, forks=0)
    loops = {}
    unknown, errors = [], []
    by = {tuple(r["job"]): r for r in res}
    complete = 0
    for r in sorted(res, key=lambda r: r["job"]):
        sc = SCENS[r["job"][2]]
        for k in tot:
            tot[k] += r[k]
        for cr, f, b in r["visited"]:
            if cr == "generic_vec":
                fns.add(f)
                blocks.add((r["job"][0], r["job"][1], f, b))
        heads |= set(r["heads"])
        for k, v in r["loops"].items():
            loops[k] = max(loops.get(k, 0), v) if k == "maxver" else loops.get(k, 0) + v
        for u in r["unknown"]:
            unknown.append("%s: %s" % (r["label"], u))
        if r["error"]:
            errors.append("%s: %s" % (r["label"], r["error"]))
        if not r["unknown"] and not r["error"]:
            complete += 1
        twin = None
        if prop == "C22":
            if not r["job"][1]:
                continue
            j = list(r["job"])
            j[1] = False
            t = by.get(tuple(j))
            twin = {(f["kind"], f["msg"]) for f in t["fails"]} if t else set()
        seen = set()
        for f in r["fails"]:
            if not matters(prop, sc, f):
                continue
            if twin is not None and (f["kind"], f["msg"]) in twin:
                continue
            k = (f["kind"], f["msg"])
            if k in seen:
                continue
            seen.add(k)
            viol.append(dict(key="%s:%s:%s" % (r["job"][2], f["kind"], f["msg"][:60].replace(" ", "_")),
                             what="%s: %s" % (r["job"][2], f["msg"]), where=f["where"], lane=r["label"],
                             detail="rule: the exit of the scenario contradicts its specification (%s)\nkind: %s\nexit: %s%s\npartition: %s\nwitness: %s\n" % (
                                 sc.fn, f["kind"], f["exit"], " while unwinding from " + f["unw"] if f["unw"] else "", f["facts"], f["model"])))
        if len(samples) < 6 and r["checked"] and r["job"][2] not in [s.get("scenario") for s in samples]:
            samples.append(dict(scenario=r["job"][2], mode=r["label"], exits=r["exits"], partitions_satisfying_the_specification=r["checked"],
                                blocks=len(r["visited"]), functions=sorted({f for _, f, _ in r["visited"]})[:12]))
    cov = dict(analysed_scenarios=len(res), scenarios_without_open_paths=complete, functions_analysed=len(fns),
               basic_blocks_analysed=len(blocks), exits=tot["exits"], partitions_discharged=tot["checked"], abstract_steps=tot["steps"], case_splits=tot["forks"],
               loops_solved=sorted(heads), loop_statistics=loops, open_paths=unknown[:60], open_path_count=len(unknown),
               analysis_errors=errors[:20], skipped_lanes=skipped, functions=sorted(fns), build_s=round(tb, 2),
               rule="every exit of the abstract semantics of the scenario (client program) satisfies its specification; partitions are "
                    "polyhedral (linear facts over lengths, capacities, indices, counts), elements are named by ghost sequences")
    return viol, cov, samples


def main():
    load_specs()
    lane = sys.argv[1]
    debug = sys.argv[2] == "1"
    names = sys.argv[3:] or list(SCENS)
    for n in names:
        sc = SCENS[n]
        if sc.nightly and not lane.startswith("nightly"):
            continue
        for zst in sc.zst:
            for cp in sc.copy:
                for pn in ((False, True) if sc.panics else (False,)):
                    lc = control(sc.opts, PEEL, WIDEN)
                    fails, st = run_one(lane, debug, n, zst, cp, pn, lc)
                    print("%-22s zst=%d copy=%d pan=%d exits=%d ok=%d part=%d forks=%d steps=%d %.2fs unknown=%d fails=%d" % (
                        n, zst, cp, pn, st["exits"], st["checked"], st["partitions"], st["forks"], st["steps"], st["time"], len(st["unknown"]), len(fails)), {k: v for k, v in lc.stats.items() if v})
                    for u in sorted(set(st["unknown"]))[:4]:
                        print("     unknown:", u[:300])
                    seen = set()
                    for f in fails:
                        k = (f.kind, f.msg)
                        if k in seen or len(seen) > 5:
                            continue
                        seen.add(k)
                        print("     FAIL [%s]%s %s | %s | %s" % (f.kind, "" if f.sure else "?", f.msg, f.where[:200], f.model))


if __name__ == "__main__":
    main()
