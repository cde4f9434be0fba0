"""Specifications: draining, filtering, splicing, cursors, owning iterators."""
from . import prims
from .core import UNIT, same_runs, show_runs
from .lin import IMAX, UMAX, L, sym
from .scen import Bad, scen
from .specs_bulk import iterator, user_panic, x
from .specs_elem import n0

s0, e0 = sym("rs"), sym("re")


# ---- ranges
def range_arg(c):
    """(valid, start, end) of the caller's range; decides the partition."""
    st = c.st
    b = st.g.get("bound_start")
    lo = L(0)
    if b is not None and b[0] != "Unbounded":
        lo = b[1] + (1 if b[0] == "Excluded" else 0)
    b = st.g.get("bound_end")
    hi = n0
    if b is not None and b[0] != "Unbounded":
        hi = b[1] + (1 if b[0] == "Included" else 0)
    if not st.le(lo, hi) or not st.le(hi, n0):
        return False, lo, hi
    return True, lo, hi


# ---- ghost logs
def total(st, name):
    t = L(0)
    for r in st.g.get(name, ()):
        t = t + r[3]
    return t


def out(name):
    """hands an element to the caller."""
    def f(ip, c, v):
        st = c.st
        if ip.zst:
            st.count("handed")
            st.count(name)
            return
        if not (isinstance(v, tuple) and v[0] == "T"):
            raise Bad("spec", "yields %s" % (v,))
        r = ((v[1], v[2], 1, L(1)),)
        st.log("handed", r)
        st.log(name, r)
    return f


def yielded(c, name):
    return c.st.get(name) if c.zst else total(c.st, name)


def log_is(c, name, want, what):
    if c.zst:
        return
    got = c.st.g.get(name, ())
    if not same_runs(c.st, got, want):
        c.bad("spec", "%s %s, expected %s" % (what, show_runs(got), show_runs(want)))


def back_run(c, seq, e, n):
    return ("z", L(0), 0, n) if c.zst else (seq, L(e) - 1, -1, n)


class At:
    """a specification that is evaluated in the middle of a scenario."""

    def __init__(self, ip, st):
        self.ip = ip
        self.st = st
        self.zst = ip.zst


def range_pre(c, st):
    st.assume(e0 - s0)
    st.assume(n0 - e0)


def alarm(kind, msg):
    from .core import Alarm
    raise Alarm(kind, msg)


def taking(s, e):
    """the ghost logs exist from the start (fewer shapes of states)."""
    def f(c, st):
        if s is s0:
            range_pre(c, st)
        g = st.g
        if c.zst:
            for a in ("front", "back", "handed"):
                g[a] = L(0)
            return
        split(c, st, s, e)
        a, b = ("m", L(s), 1, L(0)), ("m", L(e) - 1, -1, L(0))
        g["front"], g["back"] = (a,), (b,)
        g["handed"] = (a, b)
    return f


def split(c, st, s, e):
    """other names for the elements of the range (m) and those after it (t); x are those before it.
    Slots of different parts are never merged, so states of different kinds have different shapes."""
    r = st.regs["S"]
    (sg,) = [q for q in r.segs if q[2] == "x"]
    assert sg[0] == L(0) and sg[1] == n0 and sg[4] == 1
    parts = [("x", L(0), L(s)), ("m", L(s), L(e)), ("t", L(e), n0)]
    del c.init["x"]
    new = []
    for q, a, b in parts:
        if a != b:
            new.append((a, b, q, a, 1))
            c.init[q] = ("span", a, b)
    i = r.segs.index(sg)
    st.regs["S"] = r.but(segs=r.segs[:i] + tuple(new) + r.segs[i + 1:])


# ---------------------------------------------------------------- drain
def left_of(ip, st):
    p = st.get("front") if ip.zst else total(st, "front")
    q = st.get("back") if ip.zst else total(st, "back")
    return e0 - s0 - p - q


def drain_hooks(c):
    def at_end(ip, k):
        if not k.st.eq(left_of(ip, k.st), 0):
            alarm("spec", "the iterator ends before its last element")

    def check_len(ip, k, n):
        if not k.st.eq(left_of(ip, k.st), n):
            alarm("spec", "the iterator reports %s remaining elements, expected %s" % (n, left_of(ip, k.st)))
    return {"ghost": {"out_front": out("front"), "out_back": out("back"), "at_end": at_end, "check_len": check_len}}


def around(c, mid, s=s0, e=e0, tail="t"):
    return [c.run("x", 0, s)] + mid + [c.run(tail, e, n0 - e)]


def ends_with(c, s, e, hi, seq="m", tail="t"):
    """the vector after a panic: x[0..s), some elements x[..hi) that were not removed yet, x[e..len)"""
    m, _ = c.vec()
    mid = m - s - (n0 - e)
    c.need(c.st.ge(mid, 0), "the vector lost elements outside the range")
    c.contents_are([c.run("x", 0, s), c.run(seq, hi - mid, mid), c.run(tail, e, n0 - e)])


def drained_in_order(c):
    p, q = yielded(c, "front"), yielded(c, "back")
    log_is(c, "front", [c.run("m", s0, p)], "next yields")
    log_is(c, "back", [back_run(c, "m", e0, q)], "next_back yields")
    return p, q


@scen("drain_bounds", "v R", "C01 C09", panics=True)
def _(c):
    ok, s, e = range_arg(c)
    c.same_storage()
    if not ok:
        c.must_panic("a range outside the vector")
        c.unchanged()
        return
    if c.panicked:
        c.need(user_panic(c), "panics (%s) although the range is valid" % c.reason, "panic")
        ends_with(c, s, e, e, "x", "x")
        return
    c.contents_are(around(c, [], s, e, "x"))


@scen("drain", "v rg", "C09", panics=True, pre=taking(s0, e0), hooks=drain_hooks)
def _(c):
    c.same_storage()
    p, q = drained_in_order(c)
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        ends_with(c, s0, e0, e0 - q)
        return
    c.contents_are(around(c, []))


@scen("drain_forget", "v rg", "C11", pre=taking(s0, e0), hooks=drain_hooks, leak=True)
def _(c):
    c.returns()
    drained_in_order(c)


# ---------------------------------------------------------------- drain_filter, retain
def predicate(c):
    """the predicate sees each element once; the element gets a new name that tells the answer:
    Y / Z selected by next / next_back, M / N kept."""
    def call(ip, k, f, vals):
        st = k.st
        t = prims.tok_of(ip, st, vals[0])
        if st.g.get("predicate panicked"):
            alarm("spec", "the predicate is called again after it panicked")
        if ip.user_panic(st, "predicate"):
            st.g["predicate panicked"] = True
            return prims.do_panic(ip, k, "user:predicate")
        b = st.g.get("backwards", False)
        ans = st.choose(2) == 1
        name = (("M", "Y"), ("N", "Z"))[b][ans]
        i = st.get("made:" + name)
        if ip.zst:
            st.g["n_" + name] = st.get("n_" + name) + 1
            return ans
        st.log("consumed", ((t[1], t[2], 1, L(1)),))
        st.log("seen_b" if b else "seen_f", ((t[1], t[2], 1, L(1)),))
        st.g["made:" + name] = i + 1
        prims.store_ref(ip, st, vals[0], ("T", name, i))
        return ans

    def back(ip, k, v):
        k.st.g["backwards"] = v
    h = drain_hooks(c)
    h["user"] = {"f": call}
    h["ghost"]["back"] = back

    def at_end(ip, k):
        st = k.st
        if ip.zst:
            n = sum((st.get("n_" + a) for a in "YZMN"), L(0))
        else:
            n = total(st, "seen_f") + total(st, "seen_b")
        if not st.eq(n, e0 - s0):
            alarm("spec", "the iterator ends before its last element")
    h["ghost"]["at_end"] = at_end
    return h


def cnt(c, name):
    return c.st.get("n_" + name) if c.zst else c.st.get("made:" + name)


def filtered(c, s, e, seq="m"):
    """checks order of calls and results; (number seen from the front, from the back)"""
    p = cnt(c, "Y") + cnt(c, "M") if c.zst else total(c.st, "seen_f")
    q = cnt(c, "Z") + cnt(c, "N") if c.zst else total(c.st, "seen_b")
    log_is(c, "seen_f", [c.run(seq, s, p)], "the predicate is called with")
    log_is(c, "seen_b", [back_run(c, seq, e, q)], "the predicate is called from the back with")
    f, b = yielded(c, "front"), yielded(c, "back")
    log_is(c, "front", [c.run("Y", 0, f)], "next yields")
    log_is(c, "back", [c.run("Z", 0, b)], "next_back yields")
    return p, q


def kept(c, s, e, p, q, seq="m", tail="t"):
    """the vector's contents: what the predicate refused stays in order."""
    a, b = cnt(c, "M"), cnt(c, "N")
    return [c.run("x", 0, s), c.run("M", 0, a), c.run(seq, s + p, e - s - p - q), back_run(c, "N", b, b), c.run(tail, e, n0 - e)]


def filter_end(c, s, e, seq="m", tail="t"):
    c.same_storage()
    p, q = filtered(c, s, e, seq)
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
    elif not c.st.eq(p + q, e - s):
        c.bad("spec", "the predicate was not called for every element of the range")
    c.contents_are(kept(c, s, e, p, q, seq, tail))
    if c.zst and not c.panicked:
        c.is_int(c.st.get("handed") + c.st.get("dropped"), cnt(c, "Y") + cnt(c, "Z"), "the number of removed elements")


def filter_start(s, e):
    """the ghost logs exist from the start (fewer shapes of states)."""
    def f(c, st):
        if s is s0:
            range_pre(c, st)
        g = st.g
        if c.zst:
            for a in "YZMN":
                g["n_" + a] = L(0)
            for a in ("front", "back", "handed", "dropped"):
                g[a] = L(0)
            return
        for a in "YZMN":
            g["made:" + a] = L(0)
        split(c, st, s, e)
        f, b = ("m", L(s), 1, L(0)), ("m", L(e) - 1, -1, L(0))
        y, z = ("Y", L(0), 1, L(0)), ("Z", L(0), 1, L(0))
        g["seen_f"], g["seen_b"] = (f,), (b,)
        g["consumed"] = (f, b)
        g["front"], g["back"] = (y,), (z,)
        g["handed"] = (y, z)
    return f


def first_of_range(c):
    """the predicate accepts the first (or last) element it is given."""
    def call(ip, k, f, vals):
        if not ip.zst:
            t = prims.tok_of(ip, k.st, vals[0])
            k.st.g["saw"] = (t[1], t[2])
        return True

    def check_len(ip, k, n):
        k.st.g["n"] = n

    def at_end(ip, k):
        k.st.g["ended"] = True
    h = drain_hooks(c)
    h["user"] = {"f": call}
    h["ghost"]["check_len"] = check_len
    h["ghost"]["at_end"] = at_end
    return h


@scen("drain_filter_bounds", "v R f", "C01 C09", hooks=first_of_range, leak=True)
def _(c):
    ok, s, e = range_arg(c)
    if not ok:
        c.same_storage()
        c.must_panic("a range outside the vector")
        c.unchanged()
        return
    c.returns()
    g = c.st.g
    c.need(c.st.ge(g["n"], e - s), "the upper bound of the number of elements is %s, but the range has %s" % (g["n"], e - s))
    c.need(g.get("ended", False) == (not c.st.gt(e, s)), "the iterator is empty exactly if the range is")
    if not g.get("ended") and not c.zst:
        f = total(c.st, "front")
        log_is(c, "front", [c.run("x", s, f)], "next yields")
        log_is(c, "back", [c.run("x", e - 1, 1 - f)], "next_back yields")


@scen("drain_filter", "v rg f", "C09", panics=True, pre=filter_start(s0, e0), hooks=predicate, peel=0, vers=60, nodes=100)
def _(c):
    filter_end(c, s0, e0)


@scen("drain_filter_forget", "v rg f", "C11", panics=True, pre=filter_start(s0, e0), hooks=predicate, leak=True, peel=0, vers=60, nodes=100)
def _(c):
    filtered(c, s0, e0)


def keep_hooks(c):
    """retain's closure: true keeps."""
    h = predicate(c)
    f = h["user"]["f"]

    def call(ip, k, g, vals):
        r = f(ip, k, g, vals)
        return r if r is prims.CONTROL else not r
    h["user"] = {"f": call}
    return h


@scen("retain", "v f", "C09", panics=True, hooks=keep_hooks, peel=1, vers=60, nodes=100)
def _(c):
    filter_end(c, L(0), n0, "x", "x")


# ---------------------------------------------------------------- cursor
# The model: F (written or skipped at the front), hf unfilled slots, x[rf..rb) not
# reached, hb unfilled slots, B (written or skipped at the back, last one first).
def m_free(g, st, front):
    """unfilled slots that can be written from a side."""
    if st.le(g["rb"] - g["rf"], 0):
        return g["hf"] + g["hb"]
    return g["hf"] if front else g["hb"]


def m_fill(g, st, front, n):
    """n slots get filled from a side."""
    a, b = ("hf", "hb") if front else ("hb", "hf")
    if st.le(n, g[a]):
        g[a] = g[a] - n
    else:
        g[b] = g[b] - (n - g[a])
        g[a] = L(0)


def cursor_hooks(c):
    def take(front):
        def f(ip, k, n):
            g, st = k.st.g, k.st
            g["ok"] = st.le(n, g["rb"] - g["rf"])
            if not g["ok"]:
                return
            a, b = ("rf", "hf") if front else ("rb", "hb")
            g[a] = g[a] + n if front else g[a] - n
            g[b] = g[b] + n
            if not ip.zst:
                g["tok"] = ("x", g["rf"] - 1 if front else g["rb"])
        return f

    def skip(front):
        def f(ip, k, n):
            g, st = k.st.g, k.st
            g["ok"] = st.le(n, g["rb"] - g["rf"])
            if not g["ok"]:
                return
            if front:
                g["F"] = g["F"] + (c.run("x", g["rf"], n),)
                g["rf"] = g["rf"] + n
            else:
                g["rb"] = g["rb"] - n
                g["B"] = g["B"] + (c.run("x", g["rb"], n),)
        return f

    def write(front):
        def f(ip, k, r):
            g, st = k.st.g, k.st
            t = prims.tok_of(ip, st, r)
            g["tok"] = (t[1], t[2])
            g["ok"] = st.ge(m_free(g, st, front), 1)
            if g["ok"]:
                m_fill(g, st, front, L(1))
                g["F" if front else "B"] = g["F" if front else "B"] + (c.run(t[1], t[2], 1),)
        return f

    def slice_(front):
        def f(ip, k, s):
            g, st = k.st.g, k.st
            n = s[2]
            g["ok"] = st.ge(m_free(g, st, front), n)
            if g["ok"]:
                m_fill(g, st, front, n)
                g["F" if front else "B"] = g["F" if front else "B"] + (c.run("s", 0, n),)
        return f

    def reserve(ip, k, n):
        g, st = k.st.g, k.st
        g["ok"] = st.le(g["rb"] - g["rf"], 0)
        g["space"] = n
        # may it fail? only if the unfilled slots don't suffice and the result exceeds the capacity
        g["tight"] = g["ok"] and not st.le(n, g["hf"] + g["hb"]) and not st.le(n0 - g["hf"] - g["hb"] + n, c.vcap0("S"))

    def reserved(ip, k, n):
        g, st = k.st.g, k.st
        old = g["hf"] + g["hb"]
        if not st.ge(n, g["space"]):
            alarm("spec", "reserve(%s) leaves %s unfilled slots" % (g["space"], n))
        if not st.ge(n, old):
            alarm("spec", "reserve lost unfilled slots: %s of %s" % (n, old))
        if ip.zst and g["tight"]:
            alarm("spec", "reserve makes room for more zero-sized elements than fit")
        g["tight"] = False
        g["hb"] = n - g["hf"]

    def done(ip, k):
        if not k.st.g["ok"]:
            alarm("panic", "the cursor accepts an operation for which there is no element or no unfilled slot")

    def same(ip, st, v, what):
        g = st.g
        if not (isinstance(v, tuple) and v[0] == "T"):
            raise Bad("spec", "%s is %s" % (what, v))
        if ip.zst:
            return
        if v[1] != g["tok"][0] or not st.eq(v[2], g["tok"][1]):
            alarm("spec", "%s is %s[%s], expected %s[%s]" % (what, v[1], v[2], g["tok"][0], g["tok"][1]))

    def took(ip, k, v):
        if not k.st.g["ok"]:
            alarm("panic", "the cursor hands out an element although none remains")
        same(ip, k.st, v, "the element that was taken")
        out("took")(ip, k, v)

    def rejected(ip, k, v):
        if k.st.g["ok"]:
            alarm("spec", "try_write fails although there is an unfilled slot")
        same(ip, k.st, v, "the rejected value")
        out("back")(ip, k, v)

    def at(front):
        def f(ip, k, r):
            g, st = k.st.g, k.st
            if st.le(g["rb"] - g["rf"], 0):
                alarm("spec", "an element is shown although none remains")
            if ip.zst:
                return
            t = prims.tok_of(ip, st, r)
            w = g["rf"] if front else g["rb"] - 1
            if t[1] != "x" or not st.eq(t[2], w):
                alarm("spec", "the element at the %s is %s[%s], expected x[%s]" % ("front" if front else "back", t[1], t[2], w))
        return f

    def none(ip, k):
        if k.st.gt(k.st.g["rb"] - k.st.g["rf"], 0):
            alarm("spec", "no element is shown although some remain")

    def same_int(st, got, want, what):
        if not st.eq(got, want):
            alarm("spec", "%s is %s, expected %s" % (what, got, want))

    def lens(ip, k, n, f, b):
        g, st = k.st.g, k.st
        same_int(st, n, g["rb"] - g["rf"], "len")
        same_int(st, f, m_free(g, st, True), "write_front_len")
        same_int(st, b, m_free(g, st, False), "write_back_len")

    def flags(ip, k, e, we, fe, be):
        g, st = k.st.g, k.st
        for got, want, what in ((e, st.le(g["rb"] - g["rf"], 0), "is_empty"),
                                (fe, st.le(m_free(g, st, True), 0), "is_write_front_empty"),
                                (be, st.le(m_free(g, st, False), 0), "is_write_back_empty"),
                                (we, st.le(g["rb"] - g["rf"] + g["hf"] + g["hb"], 0), "is_write_empty")):
            if got != want:
                alarm("spec", "%s is %s, expected %s" % (what, got, want))

    def write_len(ip, k, n):
        same_int(k.st, n, k.st.g["hf"] + k.st.g["hb"], "write_len")

    def finish(ip, k):
        g = k.st.g
        g["F"] = g["F"] + (c.run("x", g["rf"], g["rb"] - g["rf"]),)
        g["rf"] = g["rb"]
        g["hf"], g["hb"] = L(0), L(0)
    h = {"g_take_front": take(True), "g_take_back": take(False), "g_skip_front": skip(True), "g_skip_back": skip(False),
         "g_write_front": write(True), "g_write_back": write(False), "g_slice_front": slice_(True), "g_slice_back": slice_(False),
         "g_reserve": reserve, "g_reserved": reserved, "g_done": done, "g_took": took, "g_rejected": rejected,
         "g_at_front": at(True), "g_at_back": at(False), "g_none": none, "g_lens": lens, "g_flags": flags, "g_write_len": write_len, "g_finish": finish}
    return {"ghost": h}


def cursor_pre(c, st):
    range_pre(c, st)
    st.assume(e0 - s0 - sym("j") - sym("n"))
    g = st.g
    g["F"], g["B"] = (), ()
    g["hf"], g["hb"] = L(0), L(0)
    g["rf"], g["rb"] = s0, e0


def cursor_end(c):
    g = c.st.g
    if c.panicked and not user_panic(c):
        if g["ok"] and not g.get("tight"):
            c.bad("panic", "the cursor panics (%s) although the operation is possible" % c.reason)
    want = [c.run("x", 0, s0)] + list(g["F"]) + [c.run("x", g["rf"], g["rb"] - g["rf"])] + list(reversed(g["B"])) + [c.run("x", e0, n0 - e0)]
    c.contents_are(want)


@scen("cursor_bounds", "v R", "C01 C08", hooks=first_of_range)
def _(c):
    ok, s, e = range_arg(c)
    c.same_storage()
    c.unchanged()
    if not ok:
        c.must_panic("a range outside the vector")
        return
    c.returns()
    c.is_int(c.st.g["n"], e - s, "len")


@scen("cursor_step", "v rg j n m a", "C08", panics=True, pre=cursor_pre, hooks=cursor_hooks)
def _(c):
    c.same_storage()
    cursor_end(c)


@scen("cursor_two", "v rg j n a b", "C08", pre=cursor_pre, hooks=cursor_hooks)
def _(c):
    c.same_storage()
    cursor_end(c)


@scen("cursor_slices", "v rg j n s", "C08", copy=(True,), pre=cursor_pre, hooks=cursor_hooks)
def _(c):
    c.same_storage()
    cursor_end(c)


@scen("cursor_reserve", "v rg j n m a", "C08", panics=True, pre=cursor_pre, hooks=cursor_hooks)
def _(c):
    cursor_end(c)


@scen("cursor_forget", "v rg j n m a", "C11", pre=cursor_pre, hooks=cursor_hooks, leak=True)
def _(c):
    pass


@scen("cursor_finish", "v rg j n m a", "C08 C11", pre=cursor_pre, hooks=cursor_hooks)
def _(c):
    c.same_storage()
    cursor_end(c)


@scen("cursor_finished", "v rg j n m a", "C04 C05 C11", pre=cursor_pre, hooks=cursor_hooks, leak=True)
def _(c):
    if c.panicked:
        c.need(user_panic(c) or not c.st.le(sym("m"), c.vcap("S") - n0), "panics (%s)" % c.reason, "panic")


# ---------------------------------------------------------------- splice
def splice_hooks(c):
    h = drain_hooks(c)
    h["next"] = {"it": iterator("it")}
    return h


def splice_len(c):
    def check_len(ip, k, n):
        k.st.g["n"] = n
    return {"ghost": {"check_len": check_len}, "next": {"it": iterator("it")}}


@scen("splice_bounds", "v R it", "C01 C10", hooks=splice_len, leak=True)
def _(c):
    ok, s, e = range_arg(c)
    c.same_storage()
    if not ok:
        c.must_panic("a range outside the vector")
        c.unchanged()
        return
    c.returns()
    c.is_int(c.st.g["n"], e - s, "len")


@scen("splice", "v rg it", "C10", panics=True, lanes=("stable-std", "nightly-std", "stable-no_std"), lanes_all=True, pre=taking(s0, e0), hooks=splice_hooks, peel=0, nodes=100)
def _(c):
    p, q = drained_in_order(c)
    k = c.st.get("made:it")
    if not c.panicked:
        c.need(c.st.g.get("done:it"), "stops before the replacement iterator is at its end")
        c.contents_are(around(c, [c.run("it", 0, k)]))
        return
    if not user_panic(c):
        # no room for the new elements (a vector of zero-sized elements may fail at its length)
        need = n0 - e0 + s0 + k
        c.need(c.zst or c.reason == "storage:reserve" or not c.st.le(need, UMAX), "panics (%s)" % c.reason, "panic")
        if "asked" in c.st.g:
            c.need(c.st.le(c.st.g["asked"], need), "asks the storage for %s slots, needs %s" % (c.st.g["asked"], need), "panic")
    # the elements around the range, with some of those of the range that were not removed yet, or some of the new ones
    m, _ = c.vec()
    mid = m - s0 - (n0 - e0)
    c.need(c.st.ge(mid, 0), "the vector lost elements outside the range")
    if c.st.eq(k, 0):
        ends_with(c, s0, e0, e0 - q)
    else:
        c.need(c.st.le(mid, k), "the vector got elements from nowhere")
        c.contents_are(around(c, [c.run("it", 0, mid)]))


@scen("splice_forget", "v rg it", "C11", lanes=("stable-std", "nightly-std", "stable-no_std"), lanes_all=True, pre=taking(s0, e0), hooks=splice_hooks, leak=True)
def _(c):
    c.returns()
    drained_in_order(c)


# ---------------------------------------------------------------- owning iterator; the other methods of iterators
def seq_hooks(s, e):
    """the client uses an iterator over the elements m[s..e)."""
    s, e = L(s), L(e)

    def left(ip, k):
        st = k.st
        p = st.get("front") if ip.zst else total(st, "front")
        q = st.get("back") if ip.zst else total(st, "back")
        return p, q, e - s - p - q - st.get("skipped")

    def at_end(ip, k):
        if not k.st.eq(left(ip, k)[2], 0):
            alarm("spec", "the iterator ends before its last element")

    def check_len(ip, k, n):
        w = left(ip, k)[2]
        if not k.st.eq(w, n):
            alarm("spec", "the iterator reports %s remaining elements, expected %s" % (n, w))

    def empty(ip, k, b):
        w = left(ip, k)[2]
        if b != k.st.eq(w, 0):
            alarm("spec", "is_empty is %s, but %s elements remain" % (b, w))

    def is_elem(ip, k, v, i, what):
        if not ip.zst and (v[0] != "T" or v[1] != "m" or not k.st.eq(v[2], i)):
            alarm("spec", "%s yields %s[%s], expected m[%s]" % (what, v[1], v[2], i))

    def nth(back):
        def f(ip, k, v):
            st = k.st
            m = sym("m")
            p, q, w = left(ip, k)
            if not st.lt(m, w):
                alarm("spec", "nth(m) yields an element although only %s remain" % w)
            is_elem(ip, k, v, e - 1 - q - m if back else s + p + m, "nth(m)")
            st.g["skipped"] = m + 1
            out("nth")(ip, k, v)
        return f

    def none(ip, k):
        st = k.st
        w = left(ip, k)[2]
        if not st.ge(sym("m"), w):
            alarm("spec", "nth(m) yields nothing although %s elements remain" % w)
        st.g["skipped"] = w

    def last(ip, k, v):
        p, q, w = left(ip, k)
        if not k.st.ge(w, 1):
            alarm("spec", "last yields an element although none remains")
        is_elem(ip, k, v, e - 1 - q, "last")
        k.st.g["skipped"] = w
        out("nth")(ip, k, v)

    def last_none(ip, k):
        if not k.st.eq(left(ip, k)[2], 0):
            alarm("spec", "last yields nothing although elements remain")

    def item(ip, k, i, r):
        if ip.zst:
            return
        t = prims.tok_of(ip, k.st, r)
        if t[1] != "x" or not k.st.eq(t[2], i):
            alarm("spec", "item %s of the iterator is %s[%s]" % (i, t[1], t[2]))

    def hooks(c):
        def rest(ip, k, f):
            st = k.st
            p, q, w = left(ip, k)
            if not st.eq(f[2], w):
                alarm("spec", "the slice has %s elements, expected %s" % (f[2], w))
            if ip.zst:
                return
            got = st.runs_at(f[1], f[2])
            want = [c.run("m" if "m" in c.init else "x", p, w)]
            if not same_runs(st, got, want):
                alarm("spec", "the slice is %s, expected %s" % (show_runs(got), show_runs(want)))
        return {"ghost": {"out_front": out("front"), "out_back": out("back"), "at_end": at_end, "check_len": check_len, "g_item": item, "g_left": check_len,
                          "g_nth": nth(False), "g_nth_back": nth(True), "g_nth_none": none, "g_rest": rest, "g_last": last, "g_last_none": last_none, "g_empty": empty}}
    return hooks


owned_hooks = seq_hooks(L(0), n0)
range_hooks = seq_hooks(s0, e0)


def range_scens(name, props, **kw):
    """the provided methods of a draining iterator: they must act like their definitions by next and next_back."""
    def end(c, back=False):
        c.same_storage()
        p, q = drained_in_order(c)
        if c.panicked:
            c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
            ends_with(c, s0, e0, e0 - q - (c.st.get("skipped") if back else L(0)))
        else:
            c.contents_are(around(c, []))
        return p, q

    def plain(c):
        end(c)

    def plain_back(c):
        end(c, True)

    def counted(c):
        p, q = end(c)
        if not c.panicked:
            c.is_int(c.ret, e0 - s0 - p - q, "count")

    def all_of(front):
        def f(c):
            p, q = end(c)
            if not c.panicked:
                if not c.st.eq(p + q, e0 - s0):
                    c.bad("spec", "stops before the last element")
                # every call of the closure counts once: the fold starts after any number of calls of next
                c.need(c.st.le(c.ret, p if front else q), "the fold loses its result")
        return f
    for m, f, arg in (("hint", plain, ""), ("nth", plain, " m"), ("nth_back", plain_back, " m"), ("count", counted, ""), ("last", plain, ""),
                      ("fold", all_of(True), ""), ("rfold", all_of(False), "")):
        # (the closure of std's last forgets its result when the destructor of the previous one panics)
        scen("%s_%s" % (name, m), "v rg" + arg, props, panics=m != "last", pre=taking(s0, e0), hooks=range_hooks, **kw)(f)


range_scens("drain", "C09")
range_scens("splice", "C10")


def some_filtered(c, back=False):
    h = predicate(c)

    def is_elem(ip, k, v, i, what):
        n = "Z" if k.st.g.get("backwards") else "Y"
        if not ip.zst and (v[0] != "T" or v[1] != n or not k.st.eq(v[2], i)):
            alarm("spec", "%s yields %s[%s], expected %s[%s]" % (what, v[1], v[2], n, i))

    def made(ip, k):
        n = "Z" if k.st.g.get("backwards") else "Y"
        return k.st.get("n_" + n) if ip.zst else k.st.get("made:" + n)

    def nth(ip, k, v):
        m = sym("m")
        if not k.st.eq(made(ip, k), m + 1):
            alarm("spec", "nth(m) yields an element after %s were selected" % made(ip, k))
        is_elem(ip, k, v, m, "nth(m)")
        out("nth")(ip, k, v)

    def none(ip, k):
        if not k.st.le(made(ip, k), sym("m")):
            alarm("spec", "nth(m) yields nothing although %s elements were selected" % made(ip, k))
        h["ghost"]["at_end"](ip, k)

    def hint(ip, k, lo, hi):
        st = k.st
        if ip.zst:
            n = sum((st.get("n_" + a) for a in "YZMN"), L(0))
        else:
            n = total(st, "seen_f") + total(st, "seen_b")
        if not st.le(lo, 0):
            alarm("spec", "the lower bound of the number of elements is %s, but none may be selected" % lo)
        if not st.ge(hi, e0 - s0 - n):
            alarm("spec", "the upper bound of the number of elements is %s, but %s are left" % (hi, e0 - s0 - n))
    h["ghost"].update(g_nth=nth, g_nth_back=nth, g_nth_none=none, g_hint=hint)
    return h


def filter_all(c):
    filter_end(c, s0, e0)


def filter_count(c):
    filter_end(c, s0, e0)
    if not c.panicked:
        c.is_int(c.ret, cnt(c, "Y"), "count")


def filter_fold(c):
    filter_end(c, s0, e0)
    if not c.panicked:
        c.is_int(c.ret, cnt(c, "Y") + cnt(c, "Z"), "the result of the fold")
        c.is_int(yielded(c, "front") + yielded(c, "back"), cnt(c, "Y") + cnt(c, "Z"), "the number of yielded elements")


for m_, f_, a_ in (("nth", filter_all, " m"), ("nth_back", filter_all, " m"), ("count", filter_count, ""), ("fold", filter_fold, ""), ("rfold", filter_fold, "")):
    scen("drain_filter_" + m_, "v rg f" + a_, "C09", panics=m_ in ("count", "fold", "rfold"), pre=filter_start(s0, e0), hooks=some_filtered, peel=0, vers=60, nodes=100)(f_)


@scen("drain_filter_hint", "v rg f", "C09", pre=filter_start(s0, e0), hooks=some_filtered, leak=True, peel=0, vers=60, nodes=100)
def _(c):
    filtered(c, s0, e0)


def taken_in_order(c):
    p, q = yielded(c, "front"), yielded(c, "back")
    log_is(c, "front", [c.run("m", 0, p)], "next yields")
    log_is(c, "back", [back_run(c, "m", n0, q)], "next_back yields")
    return p, q


def only_user_panics(c):
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")


@scen("into_iter", "vo", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)
def _(c):
    taken_in_order(c)
    only_user_panics(c)


@scen("into_iter_forget", "vo", "C11 C15", pre=taking(L(0), n0), hooks=owned_hooks, leak=True)
def _(c):
    taken_in_order(c)
    c.returns()


@scen("into_iter_nth", "vo m", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)
def _(c):
    taken_in_order(c)
    only_user_panics(c)


@scen("into_iter_nth_back", "vo m", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)
def _(c):
    taken_in_order(c)
    only_user_panics(c)


@scen("into_iter_count", "vo", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)
def _(c):
    p, q = taken_in_order(c)
    only_user_panics(c)
    if not c.panicked:
        c.is_int(c.ret, n0 - p - q, "count")


@scen("into_iter_last", "vo", "C15", pre=taking(L(0), n0), hooks=owned_hooks)
def _(c):
    taken_in_order(c)
    only_user_panics(c)


def owned_fold(front):
    def f(c):
        p, q = taken_in_order(c)
        only_user_panics(c)
        if not c.panicked:
            if not c.st.eq(p + q, n0):
                c.bad("spec", "stops before the last element")
            c.need(c.st.le(c.ret, p if front else q), "the fold loses its result")
    return f


scen("into_iter_fold", "vo", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)(owned_fold(True))
scen("into_iter_rfold", "vo", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)(owned_fold(False))


@scen("into_iter_slices", "vo", "C15", panics=True, pre=taking(L(0), n0), hooks=owned_hooks)
def _(c):
    taken_in_order(c)
    only_user_panics(c)


@scen("iter_refs", "v", "C15", hooks=owned_hooks)
def _(c):
    c.returns()
    c.unchanged()
