"""Specifications: gvec! and the spare-capacity protocol."""
from .core import UNIT
from .interp import show
from .lin import IMAX, UMAX, L, Lin, sym
from .scen import scen, vec_fields
from .specs_bulk import alloc_panic, producer, ret_vec, unaligned, user_panic, x
from .specs_elem import n0


# ---------------------------------------------------------------- gvec!
def with_f(c, seq="g"):
    def left(ip, c2, n):
        c2.st.g["counted"] = c2.st.g.get("counted", 0) + 1
    return {"user": {"f": producer(seq, "closure")}, "ghost": {"g_left": left}}


def request(c, n):
    """the storage is asked for room for the values, and for no more."""
    a = c.st.g.get("asked_cap")
    if c.panicked and a is None:
        c.bad("panic", "panics (%s)" % c.reason)
    if a is not None and not c.st.le(a, n):
        c.bad("spec", "asks for a capacity of %s for %s values" % (a, n))


def listed(k):
    args = "f" if k else ""

    @scen("gvec_%d" % k, args, "C23", panics=bool(k), hooks=with_f if k else None)
    def _(c):
        if unaligned(c, "B"):
            return
        if c.panicked:
            if user_panic(c):
                return
            c.need(alloc_panic(c), "panics (%s)" % c.reason, "panic")
            request(c, L(k))
            return
        request(c, L(k))
        if k:
            c.is_int(c.st.get("made:g"), k, "the number of evaluations")
        ret_vec(c, [c.run("g", 0, k)] if k else [])


for _k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 17):
    listed(_k)


def repeated(c, seq, n):
    """n values, each the given one or a clone of it."""
    st = c.st
    m, s = vec_fields(c.ip, c.ret)
    c.is_int(m, n, "the length")
    if c.zst:
        return
    got = st.runs_at(("E", s[1], L(0), st.region(s[1]).gen), n)
    for r in got:
        if st.le(r[3], 0):
            continue
        c.need(r[0] in (seq, "c:" + seq), "the vector holds %s" % (r[0],))


@scen("gvec_n", "a n", "C23", panics=True)
def _(c):
    if unaligned(c, "B") or user_panic(c):
        return
    if c.panicked:
        c.need(alloc_panic(c) or c.zst, "panics (%s)" % c.reason, "panic")
        if not c.zst:
            request(c, sym("n"))
        return
    repeated(c, "a", sym("n"))


@scen("gvec_n_expr", "f n", "C23", panics=True, hooks=lambda c: with_f(c, "a"))
def _(c):
    if unaligned(c, "B") or user_panic(c):
        return
    if c.panicked:
        c.need(alloc_panic(c) or c.zst, "panics (%s)" % c.reason, "panic")
        if not c.zst:
            request(c, sym("n"))
        return
    c.is_int(c.st.get("made:a"), 1, "the number of evaluations of the value")
    c.is_int(L(c.st.g.get("counted", 0)), 1, "the number of evaluations of the count")
    repeated(c, "a", sym("n"))


# ---------------------------------------------------------------- spare capacity
def spare_hooks(c):
    def left(ip, c2, n):
        # the length of the spare vector is the number of values pushed
        st = c2.st
        st.g["spare"] = L(n)
        if not st.eq(n, st.get("made:g")):
            st.g["spare_bad"] = "the spare vector has length %s after %s values" % (n, st.get("made:g"))
    return {"user": {"f": producer("g", "closure")}, "ghost": {"g_left": left}}


def spare_ok(c):
    b = c.st.g.get("spare_bad")
    c.need(not b, b)


@scen("spare_saved", "v f", "C23 C04 C05", panics=True, hooks=spare_hooks)
def _(c):
    spare_ok(c)
    k = c.st.get("made:g") if not c.zst else c.st.get("made")
    if c.panicked:
        if not user_panic(c):
            c.need(c.zst and c.st.gt(n0 + k, IMAX), "panics (%s)" % c.reason, "panic")
            c.leaks = True
        c.unchanged()
        return
    if c.zst:
        c.need(c.st.le(n0 + k, IMAX), "saves more values than a vector can hold")
    c.same_storage()
    c.contents_are(x(c) + [c.run("g", 0, c.st.get("made:g"))])


@scen("spare_dropped", "v f", "C23", panics=True, hooks=spare_hooks)
def _(c):
    spare_ok(c)
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
    c.same_storage()
    c.unchanged()


@scen("spare_forgotten", "v f", "C23 C11", panics=True, hooks=spare_hooks, leak=True)
def _(c):
    spare_ok(c)
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
    c.same_storage()
    c.unchanged()


@scen("spare_shape", "v", "C23")
def _(c):
    c.returns()
    n, cap, p = c.ret[3]
    c.is_int(n, 0, "the length of the spare vector")
    if c.zst:
        c.is_int(cap, L(IMAX), "the capacity of the spare vector")
    else:
        c.is_int(cap, sym("cap_S") - n0, "the capacity of the spare vector")
        c.need(p[0] == "E" and p[1] == "S" and c.st.eq(p[2], n0), "the spare vector is at %s" % show(p))
    c.same_storage()
    c.unchanged()
