"""Compiles /repo's working tree with the project's own toolchains (metadata and
MIR only; nothing that is built here is ever run)."""
import os
import shutil
import subprocess
import tempfile
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# lane -> (toolchain, features)
LANES = {
    "stable-std": ("stable", ["alloc", "std"]),
    "stable-no_std": ("stable", []),
    "stable-alloc": ("stable", ["alloc"]),
    "nightly-std": ("1.52.1", ["alloc", "std", "nightly"]),
    "nightly-alloc": ("1.52.1", ["alloc", "nightly"]),
    "nightly-no_std": ("1.52.1", ["nightly"]),
}

_work = None


def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="w", dir=base)
        import atexit
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_work, ignore_errors=True)
        atexit.register(clean)
    return _work


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["RUSTC_BOOTSTRAP"] = "1"
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_AUTO_INSTALL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    return e


def rustc(lane, args, cwd=None, timeout=240):
    tc = LANES[lane][0]
    return subprocess.run(["rustc", "+" + tc] + args, cwd=cwd or REPO, env=env(),
                          capture_output=True, text=True, timeout=timeout)


def cfgs(lane):
    r = []
    for f in LANES[lane][1]:
        r += ["--cfg", 'feature="%s"' % f]
    return r


def lib_args(lane):
    return ["--edition", "2018", "--crate-type", "lib", "--crate-name", "generic_vec",
            "src/lib.rs", "--cap-lints", "allow"] + cfgs(lane)


_rmeta = {}
_rl = {}


def rmeta(lane):
    """Path of the crate's metadata for the lane."""
    with _rl.setdefault(lane, threading.Lock()):
        return _rmeta1(lane)


def _rmeta1(lane):
    if lane not in _rmeta:
        d = os.path.join(work(), "meta-" + lane)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "libgeneric_vec.rmeta")
        r = rustc(lane, lib_args(lane) + ["--emit=metadata", "-o", out])
        if r.returncode != 0:
            raise BuildError("generic-vec does not compile in lane %s:\n%s" % (lane, r.stderr[-3000:]))
        _rmeta[lane] = out
    return _rmeta[lane]


def mir_flags(lane, debug):
    v = "on" if debug else "off"
    r = ["--emit=mir", "-C", "debug-assertions=" + v, "-C", "overflow-checks=" + v,
         "-Z", "mir-opt-level=0", "-Z", "trim-diagnostic-paths=no"]
    if LANES[lane][0] == "stable":
        # the compiler's own run time checks of raw pointers are no part of the program
        r += ["-Z", "ub-checks=no", "-Z", "mir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"]
    return r


_mir = {}


def mir(lane, debug=False):
    """Text MIR of the crate."""
    k = (lane, debug)
    if k not in _mir:
        out = os.path.join(work(), "gv-%s-%d.mir" % k)
        a = lib_args(lane) + mir_flags(lane, debug) + ["-o", out]
        if LANES[lane][0] == "stable":
            a += ["-Z", "mir-include-spans=on"]
        r = rustc(lane, a)
        if r.returncode != 0:
            raise BuildError("generic-vec does not compile in lane %s:\n%s" % (lane, r.stderr[-3000:]))
        _mir[k] = open(out).read()
    return _mir[k]


def mir_of(lane, src, debug=False, name="scen", extra=()):
    """Text MIR of a client crate of generic-vec (source file under /verif)."""
    out = os.path.join(tempfile.mkdtemp(dir=work()), "%s-%s-%d.mir" % (name, lane, debug))
    a = ["--edition", "2018", "--crate-type", "lib", "--crate-name", name, src,
         "--cap-lints", "allow"] + cfgs(lane) + mir_flags(lane, debug) + list(extra) + ["-o", out]
    if name != "stdmodel":
        a += ["--extern", "generic_vec=" + rmeta(lane)]
    if LANES[lane][0] == "stable":
        a += ["-Z", "mir-include-spans=on"]
    r = rustc(lane, a, cwd=VERIF)
    if r.returncode != 0:
        raise BuildError("%s does not compile in lane %s:\n%s" % (src, lane, r.stderr[-4000:]))
    return open(out).read()


_mirof = {}
_lock = {}


def mir_of_cached(lane, src, debug=False, name="scen"):
    k = (lane, src, debug, name)
    if k not in _mirof:
        _mirof[k] = mir_of(lane, src, debug, name=name)
    return _mirof[k]
