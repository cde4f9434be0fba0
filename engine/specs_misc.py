"""Specifications: dedup."""
from . import prims
from .core import UNIT, same_runs, show_runs
from .lin import IMAX, UMAX, L, sym
from .scen import Bad, scen
from .specs_bulk import user_panic, x
from .specs_elem import n0
from .specs_iter import alarm, total


# ---------------------------------------------------------------- dedup
# The elements get new names: K (kept, in order) and R (reported equal; anonymous,
# since the code may permute them).
def dedup_start(c, st):
    g = st.g
    g["calls"] = L(0)
    if c.zst:
        g["n_K"] = g["n_R"] = L(0)
        g["dropped"] = L(0)
        return
    g["made:K"] = L(0)
    g["anon:R"] = L(0)
    g["consumed"] = (("x", L(0), 1, L(0)),)


def rename(ip, st, p, t, name):
    if ip.zst:
        st.g["n_" + name] = st.get("n_" + name) + 1
        return
    st.log("consumed", ((t[1], t[2], 1, L(1)),))
    if name == "R":
        st.g["anon:R"] = st.get("anon:R") + 1
        prims.store_ref(ip, st, p, ("T", "R", L(0)))
        return
    i = st.get("made:K")
    st.g["made:K"] = i + 1
    prims.store_ref(ip, st, p, ("T", "K", i))


def compare(ip, st, pa, pb):
    """one comparison: of the next element with the last kept one."""
    i = st.get("calls")
    if not st.lt(i, n0 - 1):
        alarm("spec", "compares more often than there are neighbours")
    first = st.eq(i, 0)
    if ip.zst:
        if first:
            rename(ip, st, pb, None, "K")
    else:
        a, b = prims.tok_of(ip, st, pa), prims.tok_of(ip, st, pb)
        if a[1] != "x" or not st.eq(a[2], i + 1):
            alarm("spec", "compares %s[%s], expected the element x[%s]" % (a[1], a[2], i + 1))
        if first:
            if b[1] != "x" or not st.eq(b[2], 0):
                alarm("spec", "compares with %s[%s], expected the first element" % (b[1], b[2]))
            rename(ip, st, pb, b, "K")
        elif b[1] != "K" or not st.eq(b[2], st.get("made:K") - 1):
            alarm("spec", "compares with %s[%s], expected the last kept element" % (b[1], b[2]))
    ans = st.choose(2) == 1
    st.g["calls"] = i + 1
    rename(ip, st, pa, None if ip.zst else prims.tok_of(ip, st, pa), "R" if ans else "K")
    return ans


def by(c):
    def call(ip, k, f, vals):
        if ip.user_panic(k.st, "comparison"):
            return prims.do_panic(ip, k, "user:comparison")
        return compare(ip, k.st, vals[0], vals[1])
    return {"user": {"f": call}}


def by_eq(c):
    def eq(ip, k, ra, rb):
        st = k.st
        for _ in range(3):
            if ra[0] == "R" and isinstance(prims.load_ref(ip, st, ra), tuple) and prims.load_ref(ip, st, ra)[0] in ("R", "E", "P"):
                ra, rb = prims.load_ref(ip, st, ra), prims.load_ref(ip, st, rb)
        if ip.user_panic(st, "comparison"):
            return prims.do_panic(ip, k, "user:comparison")
        return compare(ip, st, ra, rb)
    return {"eq": {"T": eq}}


def by_key(c):
    def call(ip, k, f, vals):
        st = k.st
        if ip.user_panic(st, "key function"):
            return prims.do_panic(ip, k, "user:key function")
        prims.tok_of(ip, st, vals[0])
        n = st.g.get("pending", ())
        if len(n) >= 2:
            alarm("spec", "computes a third key before comparing")
        st.g["pending"] = n + (vals[0],)
        st.g["keys"] = st.get("keys") + 1
        return ("I", "key%d" % len(n))

    def eq(ip, k, ra, rb):
        st = k.st
        a, b = prims.load_ref(ip, st, ra), prims.load_ref(ip, st, rb)
        p = st.g.get("pending", ())
        if a != ("I", "key0") or b != ("I", "key1") or len(p) != 2:
            alarm("spec", "compares %s with %s, expected the keys of the two elements" % (a, b))
        if ip.user_panic(st, "comparison"):
            return prims.do_panic(ip, k, "user:comparison")
        st.g["pending"] = ()
        return compare(ip, st, p[0], p[1])
    return {"user": {"f": call}, "eq": {"K": eq}}


def dedup_start_key(c, st):
    dedup_start(c, st)
    st.g["keys"] = L(0)
    st.g["pending"] = ()


def dedup_end(c):
    st = c.st
    c.same_storage()
    i = st.get("calls")
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
    else:
        k = n0 - 1 - i
        if not (st.eq(n0, 0) and st.eq(i, 0) or st.eq(k, 0)):
            c.bad("spec", "not every element was compared")
    kept = st.get("n_K") if c.zst else st.get("made:K")
    n, s = c.vec()
    early = c.panicked and c.reason != "user:destructor"
    late = c.panicked and not early     # the destructor of a removed element panics: the others may still be there
    if c.zst:
        rest = st.get("n_R") if early else L(0)
        seen = kept + st.get("n_R")
        if late:
            m = n - kept - (n0 - seen)
            c.need(st.ge(m, 0) and st.lt(m, st.get("n_R")), "the length is %s" % n)
        else:
            c.is_int(n, kept + rest + (n0 - seen), "the length")
    else:
        r = st.get("anon:R")
        first = st.eq(i, 0)
        p = L(0) if first else i + 1
        want = [c.run("K", 0, kept)]
        if early:
            want.append(("R", L(0), 0, r))
        d = L(0)
        for q in st.g.get("drops", ()):
            if q[0] == "R":
                d = d + q[3]
        if late:
            m = n - kept - (n0 - p)
            if not (st.ge(m, 0) and st.le(m, r - d)):
                c.bad("owner", "%s elements were removed and %s dropped, the length is %s" % (r, d, n))
            want.append(("R", L(0), 0, m))
        want.append(c.run("x", p, n0 - p))
        c.contents_are(want)
        if not early and not late:
            if not st.eq(d, r):
                c.bad("owner", "%s elements were removed, %s dropped" % (r, d))
    if "keys" in st.g:
        d = total(st, "users")
        want = st.get("keys")
        fs = L(0)
        for q in st.g.get("users", ()):
            if not q[0].startswith("key"):
                fs = fs + q[3]
        if not st.eq(d - fs, want):
            c.bad("owner", "%s keys were made, %s dropped" % (want, d - fs))


@scen("dedup", "v", "C21", panics=True, pre=dedup_start, hooks=by_eq, peel=1, vers=60)
def _(c):
    dedup_end(c)


@scen("dedup_by", "v f", "C21", panics=True, pre=dedup_start, hooks=by, peel=1, vers=60)
def _(c):
    dedup_end(c)


@scen("dedup_by_key", "v f", "C21", panics=True, pre=dedup_start_key, hooks=by_key, peel=1, vers=60)
def _(c):
    dedup_end(c)
