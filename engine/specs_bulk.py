"""Specifications: bulk operations."""
from . import prims
from .core import same_runs, show_runs
from .lin import IMAX, UMAX, L, sym
from .scen import scen
from .specs_elem import added, full, n0


# ---- user code
def producer(seq, reason):
    """a closure or iterator step that makes the next element of seq."""
    def make(ip, c, *a):
        st = c.st
        if ip.user_panic(st, reason):
            return prims.do_panic(ip, c, "user:" + reason)
        k = st.get("made:" + seq)
        st.g["made:" + seq] = k + 1
        if ip.zst:
            st.count("made")
            return ("T", "z", L(0))
        return ("T", seq, k)
    return make


def iterator(seq):
    """a user iterator: yields elements of seq, ends at any point, stays at its end."""
    mk = producer(seq, "next")

    def nxt(ip, c, v):
        st = c.st
        if st.g.get("done:" + seq):
            return prims.NONE
        if st.choose(2) == 1:
            # the end may be a panic, too
            if ip.user_panic(st, "next"):
                return prims.do_panic(ip, c, "user:next")
            st.g["done:" + seq] = True
            return prims.NONE
        k = st.get("made:" + seq)
        st.g["made:" + seq] = k + 1
        st.assume(L(UMAX) - k - 1)
        if ip.zst:
            st.count("made")
            return prims.some(("T", "z", L(0)))
        return prims.some(("T", seq, k))
    return nxt


def with_f(c):
    return {"user": {"f": producer("g", "closure")}}


def with_it(c):
    return {"next": {"it": iterator("it")}}


# ---- rules
def user_panic(c):
    return c.panicked and c.reason.startswith("user:")


def keeps(c, runs, name="v"):
    """the vector starts with these elements (a panic interrupted the operation)."""
    m, s = c.vec(name)
    k = c.total(runs)
    c.need(c.st.le(k, m), "the vector lost elements that the operation had not removed")
    if c.zst:
        return
    got = c.st.runs_at(("E", s[1], L(0), c.st.region(s[1]).gen), k)
    c.need(same_runs(c.st, got, runs), "the vector starts with %s, expected %s" % (show_runs(got), show_runs(runs)))


def x(c):
    return [c.run("x", 0, n0)]


def grow_panics(c, k):
    """panics because there is no room for k more elements (True), or by user code (True)."""
    if not c.panicked:
        if c.zst:
            c.need(not full(c, k), "accepts more zero-sized elements than the capacity")
        return False
    if user_panic(c):
        keeps(c, x(c))
        return True
    c.need(full(c, k), "panics (%s) although there is room" % c.reason, "panic")
    c.need(c.reason == "storage:reserve" or c.zst or not c.st.le(n0 + k, UMAX), "panics (%s)" % c.reason, "panic")
    c.unchanged()
    return True


def new_values(c, base, k, seq="a"):
    """base elements, then k values each of which is the passed one or a clone of it."""
    m, s = c.vec()
    st = c.st
    if not st.eq(m, c.total(base) + k):
        c.bad("spec", "the vector has length %s, expected %s" % (m, c.total(base) + k))
    keeps(c, base)
    if c.zst:
        return
    got = st.runs_at(("E", s[1], c.total(base), st.region(s[1]).gen), k)
    for r in got:
        if st.le(r[3], 0):
            continue
        if r[0] not in (seq, "c:" + seq):
            c.bad("spec", "the vector ends with %s, expected clones of %s" % (show_runs(got), seq))
    c.need(st.le(st.get("nclone_" + seq), k), "makes more clones than there are new elements")


@scen("grow", "v n a", "C03 C01", panics=True, copy=(False, True))
def _(c):
    n = sym("n")
    if grow_panics(c, n):
        return
    new_values(c, x(c), n)
    if not full(c, n):
        c.same_storage()


@scen("resize", "v n a", "C03 C01", panics=True, copy=(False, True))
def _(c):
    n = sym("n")
    if c.st.lt(n, n0):
        if c.panicked:
            c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        keeps(c, [c.run("x", 0, n)])
        m, s = c.vec()
        c.is_int(m, n, "the length")
        c.same_storage()
        return
    if grow_panics(c, n - n0):
        return
    new_values(c, x(c), n - n0)


def made_exactly(c, seq, k, what):
    c.is_int(c.st.get("made:" + seq), k, "the number of calls of " + what)


@scen("grow_with", "v n f", "C03 C01", panics=True, hooks=with_f)
def _(c):
    n = sym("n")
    if grow_panics(c, n):
        return
    made_exactly(c, "g", n, "the closure")
    c.contents_are(x(c) + [c.run("g", 0, n)])
    if not full(c, n):
        c.same_storage()


@scen("resize_with", "v n f", "C03 C01", panics=True, hooks=with_f)
def _(c):
    n = sym("n")
    if c.st.lt(n, n0):
        if c.panicked:
            c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        c.contents_are([c.run("x", 0, n)])
        made_exactly(c, "g", 0, "the closure")
        c.same_storage()
        return
    if grow_panics(c, n - n0):
        return
    made_exactly(c, "g", n - n0, "the closure")
    c.contents_are(x(c) + [c.run("g", 0, n - n0)])


def cloned_in_order(c, seq, frm, k):
    """each source element was cloned exactly once, in order."""
    if c.ip.w.mode_copy:
        return
    if c.zst:
        c.is_int(c.st.get("cloned"), k, "the number of clones")
        return
    got = c.st.g.get("cloned", ())
    c.need(same_runs(c.st, got, [(seq, L(frm), 1, L(k))]), "cloned %s, expected each of the source's elements once in order" % show_runs(got))


def clones(c, seq, frm, k):
    return c.run(seq if c.ip.w.mode_copy else "c:" + seq, frm, k)


slen = sym("slen")


@scen("extend_from_slice", "v s", "C03", panics=True, copy=(False, True))
def _(c):
    if c.ip.w.mode_copy:
        c.init["s"] = slen
    if grow_panics(c, slen):
        return
    c.contents_are(x(c) + [clones(c, "s", 0, slen)])
    cloned_in_order(c, "s", 0, slen)
    if not full(c, slen):
        c.same_storage()


def room_s(c, st):
    st.assume((L(IMAX) if c.zst else sym("cap_S")) - n0 - slen)


@scen("extend_from_slice_unchecked", "v s", "C03", pre=room_s)
def _(c):
    c.returns()
    c.init["s"] = slen
    c.same_storage()
    c.contents_are(x(c) + [c.run("s", 0, slen)])


def added_or_stopped(c, base, seq, seqname=None):
    """base ++ what was made so far; on a panic a last element may be missing."""
    made = c.st.get("made:" + seq)
    if c.panicked:
        c.need(user_panic(c) or c.reason == "storage:reserve" or c.zst, "panics (%s)" % c.reason, "panic")
        keeps(c, base)
        return True
    c.contents_are(base + [c.run(seq, 0, made)])
    return False


@scen("extend", "v it", "C03", panics=True, hooks=with_it)
def _(c):
    if added_or_stopped(c, x(c), "it"):
        return
    c.need(c.st.g.get("done:it"), "stops before the iterator is at its end")


@scen("extend_refs", "v s", "C03", panics=True, copy=(False, True))
def _(c):
    if c.panicked:
        c.need(user_panic(c) or c.reason == "storage:reserve" or c.zst, "panics (%s)" % c.reason, "panic")
        keeps(c, x(c))
        return
    if c.ip.w.mode_copy:
        c.init["s"] = slen
    c.contents_are(x(c) + [clones(c, "s", 0, slen)])
    cloned_in_order(c, "s", 0, slen)


def ret_vec(c, want, what="the new vector"):
    from .scen import vec_fields
    n, s = vec_fields(c.ip, c.ret)
    c.vec_is(n, s, want, what)
    return n, s


def alloc_panic(c):
    return c.panicked and c.reason in ("storage:with_capacity", "storage:reserve")


def unaligned(c, *names):
    """with_storage refuses storages that are not aligned: a documented panic."""
    return c.panicked and any(c.st.g.get("aligned:" + n) is False for n in names)


@scen("from_iter", "it", "C03 C18", panics=True, hooks=with_it)
def _(c):
    if unaligned(c, "S"):
        return
    if c.panicked:
        c.need(user_panic(c) or alloc_panic(c) or c.zst, "panics (%s)" % c.reason, "panic")
        return
    c.need(c.st.g.get("done:it"), "stops before the iterator is at its end")
    ret_vec(c, [c.run("it", 0, c.st.get("made:it"))])


@scen("clone", "v", "C03 C18", panics=True, copy=(False, True))
def _(c):
    c.unchanged()
    c.same_storage()
    if unaligned(c, "S"):
        return
    if c.panicked:
        c.need(user_panic(c) or alloc_panic(c), "panics (%s)" % c.reason, "panic")
        return
    if c.ip.w.mode_copy:
        ret_vec(c, x(c))
    else:
        ret_vec(c, [c.run("c:x", 0, n0)])


@scen("clone_from_slice", "v s", "C03", panics=True, copy=(False, True))
def _(c):
    st = c.st
    m, s = c.vec()
    if c.panicked:
        c.need(user_panic(c) or (c.reason == "storage:reserve" or c.zst) and full(c, slen - n0), "panics (%s)" % c.reason, "panic")
        return
    if c.ip.w.mode_copy:
        c.init["s"] = slen
    c.contents_are([clones(c, "s", 0, slen)])
    cloned_in_order(c, "s", 0, slen)


@scen("clone_from_vec", "v o", "C03", panics=True)
def _(c):
    st = c.st
    m = sym("olen")
    c.unchanged("o")
    if c.panicked:
        c.need(user_panic(c) or (c.reason == "storage:reserve" or c.zst) and full(c, m - n0), "panics (%s)" % c.reason, "panic")
        return
    c.contents_are([clones(c, "y", 0, m)])
    cloned_in_order(c, "y", 0, m)


@scen("split_off", "v i", "C01 C03 C18")
def _(c):
    i = sym("i")
    c.same_storage()
    if not c.st.le(i, n0):
        c.must_panic("a split outside the vector")
        c.unchanged()
        return
    if unaligned(c, "B") or alloc_panic(c):
        c.unchanged()
        return
    c.returns()
    c.contents_are([c.run("x", 0, i)])
    ret_vec(c, [c.run("x", i, n0 - i)])


def other_full(c, k):
    return not c.st.le(sym("olen") + k, L(IMAX) if c.zst else sym("cap_B"))


@scen("split_off_into", "v i o", "C01 C03")
def _(c):
    i = sym("i")
    c.same_storage()
    if not c.st.le(i, n0):
        c.must_panic("a split outside the vector")
        c.unchanged()
        c.unchanged("o")
        return
    if c.panicked:
        c.need(other_full(c, n0 - i), "panics (%s) although there is room" % c.reason, "panic")
        c.unchanged()
        c.unchanged("o")
        return
    if c.zst:
        c.need(not other_full(c, n0 - i), "accepts more zero-sized elements than the capacity")
    c.contents_are([c.run("x", 0, i)])
    c.contents_are([c.run("y", 0, sym("olen")), c.run("x", i, n0 - i)], "o", "the other vector")


@scen("append", "v o", "C03")
def _(c):
    m = sym("olen")
    c.same_storage("o")
    if c.panicked:
        c.need(full(c, m), "panics (%s) although there is room" % c.reason, "panic")
        c.unchanged()
        c.unchanged("o")
        return
    if c.zst:
        c.need(not full(c, m), "accepts more zero-sized elements than the capacity")
    c.contents_are(x(c) + [c.run("y", 0, m)])
    c.contents_are([], "o", "the emptied vector")


@scen("convert", "vo", "C03 C18 C20")
def _(c):
    if unaligned(c, "B") or alloc_panic(c):
        return
    c.returns()
    ret_vec(c, x(c))


@scen("with_capacity", "n", "C03 C13 C18")
def _(c):
    if unaligned(c, "B") or alloc_panic(c):
        return
    c.returns()
    n, s = ret_vec(c, [])
    if not c.zst:
        c.need(c.st.le(sym("n"), c.vcap(s[1])), "with_capacity returns a vector with a smaller capacity")


@scen("default", "", "C03 C18")
def _(c):
    if unaligned(c, "B"):
        return
    c.returns()
    ret_vec(c, [])
