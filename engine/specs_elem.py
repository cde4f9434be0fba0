"""Specifications: operations on single elements and arrays, capacity."""
from .core import UNIT
from .lin import IMAX, UMAX, L, Lin, sym
from .scen import scen

n0 = sym("len")


def added(c, i, seq, k=1):
    """x[0..i] seq[0..k] x[i..len]"""
    return [c.run("x", 0, i), c.run(seq, 0, k), c.run("x", i, n0 - i)]


def removed(c, i, k=1):
    return [c.run("x", 0, i), c.run("x", L(i) + k, n0 - i - k)]


def full(c, k=1):
    """is there no room for k more elements?  (capacity at the start)"""
    return not c.st.le(n0 + k, L(IMAX) if c.zst else sym("cap_S"))


def grew_or_failed(c, k=1):
    """the only panic of a growing operation: the storage refused.  True if it panicked."""
    if c.panicked:
        if c.zst:
            c.need(full(c, k), "panics (%s) although there is room" % c.reason, "panic")
        else:
            c.need(full(c, k), "panics (%s) although there is room" % c.reason, "panic")
            c.need(c.reason == "storage:reserve" or not c.st.le(n0 + k, UMAX), "panics (%s)" % c.reason, "panic")
        c.unchanged()
        return True
    if c.zst:
        c.need(not full(c, k), "accepts more zero-sized elements than the capacity")
    return False


@scen("push", "v a", "C02")
def _(c):
    if grew_or_failed(c):
        return
    c.contents_are(added(c, n0, "a"))
    c.is_slot(c.ret, n0)
    if not full(c):
        c.same_storage()


@scen("try_push", "v a", "C02 C07")
def _(c):
    c.returns()
    c.same_storage()
    if full(c):
        c.is_tok(c.err(c.ret), "a", 0)
        c.unchanged()
    else:
        c.is_slot(c.ok(c.ret), n0)
        c.contents_are(added(c, n0, "a"))


@scen("insert", "v i a", "C01 C02")
def _(c):
    i = sym("i")
    if not c.st.le(i, n0):
        c.must_panic("an insertion after the end")
        c.unchanged()
        c.same_storage()
        return
    if grew_or_failed(c):
        return
    c.contents_are(added(c, i, "a"))
    c.is_slot(c.ret, i)
    if not full(c):
        c.same_storage()


@scen("try_insert", "v i a", "C01 C02 C07")
def _(c):
    i = sym("i")
    c.returns()
    c.same_storage()
    if full(c) or not c.st.le(i, n0):
        c.is_tok(c.err(c.ret), "a", 0)
        c.unchanged()
    else:
        c.is_slot(c.ok(c.ret), i)
        c.contents_are(added(c, i, "a"))


@scen("pop", "v", "C01 C02")
def _(c):
    c.same_storage()
    if c.st.le(n0, 0):
        c.must_panic("pop of an empty vector")
        c.unchanged()
        return
    c.returns()
    c.is_tok(c.ret, "x", n0 - 1)
    c.contents_are(removed(c, n0 - 1))


@scen("try_pop", "v", "C02 C07")
def _(c):
    c.same_storage()
    c.returns()
    if c.st.le(n0, 0):
        c.none(c.ret)
        c.unchanged()
        return
    c.is_tok(c.some(c.ret), "x", n0 - 1)
    c.contents_are(removed(c, n0 - 1))


@scen("remove", "v i", "C01 C02")
def _(c):
    i = sym("i")
    c.same_storage()
    if not c.st.lt(i, n0):
        c.must_panic("a removal outside the vector")
        c.unchanged()
        return
    c.returns()
    c.is_tok(c.ret, "x", i)
    c.contents_are(removed(c, i))


@scen("try_remove", "v i", "C01 C02 C07")
def _(c):
    i = sym("i")
    c.same_storage()
    c.returns()
    if not c.st.lt(i, n0):
        c.none(c.ret)
        c.unchanged()
        return
    c.is_tok(c.some(c.ret), "x", i)
    c.contents_are(removed(c, i))


def swapped(c, i):
    if c.st.eq(i, n0 - 1):
        return [c.run("x", 0, n0 - 1)]
    return [c.run("x", 0, i), c.run("x", n0 - 1, 1), c.run("x", i + 1, n0 - i - 2)]


@scen("swap_remove", "v i", "C01 C02")
def _(c):
    i = sym("i")
    c.same_storage()
    if not c.st.lt(i, n0):
        c.must_panic("a removal outside the vector")
        c.unchanged()
        return
    c.returns()
    c.is_tok(c.ret, "x", i)
    c.contents_are(swapped(c, i))


@scen("try_swap_remove", "v i", "C01 C02 C07")
def _(c):
    i = sym("i")
    c.same_storage()
    c.returns()
    if not c.st.lt(i, n0):
        c.none(c.ret)
        c.unchanged()
        return
    c.is_tok(c.some(c.ret), "x", i)
    c.contents_are(swapped(c, i))


@scen("truncate", "v n", "C01 C02", panics=True)
def _(c):
    n = sym("n")
    c.same_storage()
    if c.panicked:
        c.need(c.reason == "user:destructor", "truncate panics (%s)" % c.reason, "panic")
    if c.st.lt(n, n0):
        c.contents_are([c.run("x", 0, n)])
    else:
        c.unchanged()


@scen("clear", "v", "C02", panics=True)
def _(c):
    c.same_storage()
    if c.panicked:
        c.need(c.reason == "user:destructor", "clear panics (%s)" % c.reason, "panic")
    c.contents_are([])


@scen("drop_vec", "vo", "C05", panics=True)
def _(c):
    if c.panicked:
        c.need(c.reason == "user:destructor", "dropping a vector panics (%s)" % c.reason, "panic")


# ---- unchecked forms, within their contracts
def room(k):
    def pre(c, st):
        st.assume((L(IMAX) if c.zst else sym("cap_S")) - n0 - k)
    return pre


def room_at(k):
    def pre(c, st):
        st.assume((L(IMAX) if c.zst else sym("cap_S")) - n0 - k)
        st.assume(n0 - sym("i"))
    return pre


@scen("push_unchecked", "v a", "C02", pre=room(1))
def _(c):
    c.returns()
    c.same_storage()
    c.contents_are(added(c, n0, "a"))
    c.is_slot(c.ret, n0)


@scen("insert_unchecked", "v i a", "C02", pre=room_at(1))
def _(c):
    c.returns()
    c.same_storage()
    c.contents_are(added(c, sym("i"), "a"))
    c.is_slot(c.ret, sym("i"))


@scen("pop_unchecked", "v", "C02", pre=lambda c, st: st.assume(n0 - 1))
def _(c):
    c.returns()
    c.same_storage()
    c.is_tok(c.ret, "x", n0 - 1)
    c.contents_are(removed(c, n0 - 1))


@scen("remove_unchecked", "v i", "C02", pre=lambda c, st: st.assume(n0 - 1 - sym("i")))
def _(c):
    c.returns()
    c.same_storage()
    c.is_tok(c.ret, "x", sym("i"))
    c.contents_are(removed(c, sym("i")))


@scen("swap_remove_unchecked", "v i", "C02", pre=lambda c, st: st.assume(n0 - 1 - sym("i")))
def _(c):
    c.returns()
    c.same_storage()
    c.is_tok(c.ret, "x", sym("i"))
    c.contents_are(swapped(c, sym("i")))


# ---- arrays
N = sym("N")


@scen("push_array", "v A", "C02", nightly=True)
def _(c):
    if grew_or_failed(c, N):
        return
    c.contents_are(added(c, n0, "a", N))
    c.is_slot(c.ret, n0)
    if not full(c, N):
        c.same_storage()


@scen("try_push_array", "v A", "C02 C07", nightly=True)
def _(c):
    c.returns()
    c.same_storage()
    if full(c, N):
        c.is_arr(c.err(c.ret), [c.run("a", 0, N)])
        c.unchanged()
    else:
        c.is_slot(c.ok(c.ret), n0)
        c.contents_are(added(c, n0, "a", N))


@scen("insert_array", "v i A", "C01 C02", nightly=True)
def _(c):
    i = sym("i")
    if not c.st.le(i, n0):
        c.must_panic("an insertion after the end")
        c.unchanged()
        c.same_storage()
        return
    if grew_or_failed(c, N):
        return
    c.contents_are(added(c, i, "a", N))
    c.is_slot(c.ret, i)
    if not full(c, N):
        c.same_storage()


@scen("try_insert_array", "v i A", "C01 C02 C07", nightly=True)
def _(c):
    i = sym("i")
    c.returns()
    c.same_storage()
    if full(c, N) or not c.st.le(i, n0):
        c.is_arr(c.err(c.ret), [c.run("a", 0, N)])
        c.unchanged()
    else:
        c.is_slot(c.ok(c.ret), i)
        c.contents_are(added(c, i, "a", N))


def bound_n(c, st):
    st.assume(L(IMAX) - N)


@scen("pop_array", "v", "C01 C02", nightly=True, pre=bound_n)
def _(c):
    c.same_storage()
    if not c.st.le(N, n0):
        c.must_panic("a removal of more elements than there are")
        c.unchanged()
        return
    c.returns()
    c.is_arr(c.ret, [c.run("x", n0 - N, N)])
    c.contents_are(removed(c, n0 - N, N))


@scen("try_pop_array", "v", "C01 C02 C07", nightly=True, pre=bound_n)
def _(c):
    c.same_storage()
    c.returns()
    if not c.st.le(N, n0):
        c.none(c.ret)
        c.unchanged()
        return
    c.is_arr(c.some(c.ret), [c.run("x", n0 - N, N)])
    c.contents_are(removed(c, n0 - N, N))


@scen("remove_array", "v i", "C01 C02", nightly=True, pre=bound_n)
def _(c):
    i = sym("i")
    c.same_storage()
    if not c.st.le(i + N, n0):
        c.must_panic("a removal that reaches outside the vector")
        c.unchanged()
        return
    c.returns()
    c.is_arr(c.ret, [c.run("x", i, N)])
    c.contents_are(removed(c, i, N))


@scen("try_remove_array", "v i", "C01 C02 C07", nightly=True, pre=bound_n)
def _(c):
    i = sym("i")
    c.same_storage()
    c.returns()
    if not c.st.le(i + N, n0):
        c.none(c.ret)
        c.unchanged()
        return
    c.is_arr(c.some(c.ret), [c.run("x", i, N)])
    c.contents_are(removed(c, i, N))


@scen("push_array_unchecked", "v A", "C02", nightly=True, pre=room(N))
def _(c):
    c.returns()
    c.same_storage()
    c.contents_are(added(c, n0, "a", N))
    c.is_slot(c.ret, n0)


@scen("insert_array_unchecked", "v i A", "C02", nightly=True, pre=room_at(N))
def _(c):
    c.returns()
    c.same_storage()
    c.contents_are(added(c, sym("i"), "a", N))
    c.is_slot(c.ret, sym("i"))


@scen("pop_array_unchecked", "v", "C02", nightly=True, pre=lambda c, st: st.assume(n0 - N))
def _(c):
    c.returns()
    c.same_storage()
    c.is_arr(c.ret, [c.run("x", n0 - N, N)])
    c.contents_are(removed(c, n0 - N, N))


@scen("remove_array_unchecked", "v i", "C02", nightly=True, pre=lambda c, st: st.assume(n0 - N - sym("i")))
def _(c):
    c.returns()
    c.same_storage()
    c.is_arr(c.ret, [c.run("x", sym("i"), N)])
    c.contents_are(removed(c, sym("i"), N))


# ---- capacity
@scen("reserve", "v n", "C01 C03")
def _(c):
    n = sym("n")
    c.unchanged()
    if c.panicked:
        c.need(full(c, n), "reserve panics (%s) although there is room" % c.reason, "panic")
        return
    m, s = c.vec()
    c.need(c.st.le(n0 + n, c.vcap(s[1])), "reserve returns without room for the requested elements")
    if not full(c, n):
        c.same_storage()


@scen("try_reserve", "v n", "C07")
def _(c):
    n = sym("n")
    c.returns("try_reserve")
    c.unchanged()
    m, s = c.vec()
    room = c.st.le(n0 + n, c.vcap(s[1]))
    c.is_bool(c.ret, room, "the result of try_reserve")
    if not full(c, n):
        c.same_storage()


@scen("queries", "vs", "C01 C12")
def _(c):
    c.returns()
    r = c.ret[3]
    cap = L(IMAX) if c.zst else sym("cap_S")
    c.is_int(r[0], n0, "len")
    c.is_int(r[1], cap, "capacity")
    c.is_bool(r[2], c.st.eq(n0, 0), "is_empty")
    c.is_bool(r[3], c.st.eq(n0, cap), "is_full")
    c.is_int(r[4], cap - n0, "remaining_capacity")


def init_storage(c, st):
    """a storage whose memory is initialised up to its capacity."""
    if not c.zst:
        r = st.regs["S"]
        st.regs["S"] = r.but(segs=((L(0), r.cap, "x", L(0), 1),))
        c.init["x"] = r.cap


@scen("set_len", "v n", "C01 C04", copy=(True,), setup=init_storage)
def _(c):
    n = sym("n")
    c.same_storage()
    ok = c.st.le(n, sym("cap_S"))
    if c.zst:
        ok = ok and c.st.le(n, IMAX)
    if not ok:
        c.must_panic("a length beyond the capacity")
        m, s = c.vec()
        c.is_int(m, n0, "the length after a rejected set_len")
        return
    c.returns("set_len")
    m, s = c.vec()
    c.is_int(m, n, "the length")
