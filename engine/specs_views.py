"""Specifications: comparisons, hashing, formatting, indexing and views."""
from . import prims
from .core import UNIT, Alarm, Unknown
from .interp import CONTROL, show
from .lin import IMAX, L, Lin, sym
from .scen import scen
from .specs_bulk import user_panic
from .specs_elem import n0

ORD = ("p", "std::Ordering", ())
NAMES = ("Less", "Equal", "Greater")


def ordv(k):
    return ("A", ORD, k, ())


def lens(c, other):
    return n0, (sym("olen") if other == "o" else sym("slen"))


def which(ip, st, f):
    """(side, offset, length) of a slice operand."""
    f = prims.load_ref(ip, st, f) if f[0] == "R" and isinstance(prims.load_ref(ip, st, f), tuple) and prims.load_ref(ip, st, f)[0] in ("F", "E", "P") else f
    if f[0] != "F":
        raise Unknown("operand %s of a comparison" % show(f))
    p, n = f[1], L(f[2])
    if ip.zst:
        if st.eq(n, 0):
            return None, L(0), n
        return {"addr_src": "s", "addr_B": "y", "addr_S": "x"}.get(str(p[1])) or guess(st, p), L(0), n
    if st.eq(n, 0):
        return None, L(0), n
    r = st.runs_at(p, n)
    if len(r) != 1 or r[0][2] != 1:
        raise Unknown("operand of a comparison")
    return r[0][0], r[0][1], n


def guess(st, p):
    s = str(p[1])
    for k, v in (("src", "s"), ("B", "y"), ("S", "x")):
        if k in s:
            return v
    raise Unknown("operand at %s" % s)


def slice_hook(other):
    def op(ip, c, name, a, b):
        st = c.st
        if name == "hash":
            st.g["fed"] = st.g.get("fed", ()) + (("slice",) + which(ip, st, a) + (b,),)
            return UNIT
        if name == "debug":
            st.g["fed"] = st.g.get("fed", ()) + (("slice",) + which(ip, st, a) + (b,),)
            return ("I", "fmt::Result")
        wa, wb = which(ip, st, a), which(ip, st, b)
        if ip.user_panic(st, "comparison"):
            return prims.do_panic(ip, c, "user:comparison")
        if name == "eq":
            if not st.eq(wa[2], wb[2]):
                return False
            if st.eq(wa[2], 0):
                return True
            r = st.choose(2) == 1
            st.g["cmps"] = st.g.get("cmps", ()) + (("eq", wa, wb, r),)
            return r
        if st.eq(wa[2], 0) or st.eq(wb[2], 0):
            k = "Equal" if st.eq(wa[2], wb[2]) else "Less" if st.lt(wa[2], wb[2]) else "Greater"
        else:
            opts = NAMES + ((None,) if name == "partial_cmp" else ())
            k = opts[st.choose(len(opts))]
            st.g["cmps"] = st.g.get("cmps", ()) + ((name, wa, wb, k),)
        if name == "partial_cmp":
            return prims.NONE if k is None else prims.some(ordv(k))
        return ordv(k)
    return op


def behind(ip, st, r):
    """the innermost reference."""
    for _ in range(3):
        if r[0] == "R":
            v = prims.load_ref(ip, st, r)
            if isinstance(v, tuple) and v[0] in ("R", "E", "P"):
                r = v
    return r


def hooks_for(other):
    def make(c):
        def as_ref(ip, k, r):
            st = k.st
            if ip.user_panic(st, "as_ref"):
                return prims.do_panic(ip, k, "user:as_ref")
            return c.other
        def eq(ip, k, ra, rb):
            st = k.st
            if ip.user_panic(st, "comparison"):
                return prims.do_panic(ip, k, "user:comparison")
            ra, rb = behind(ip, st, ra), behind(ip, st, rb)
            r = st.choose(2) == 1
            if ip.zst:
                if r:
                    st.g["same"] = st.get("same") + 1
                else:
                    st.g["differs"] = True
                return r
            a, b = prims.tok_of(ip, st, ra), prims.tok_of(ip, st, rb)
            name = "y" if other == "o" else "s"
            if a[1] == name:
                a, b = b, a
            if a[1] != "x" or b[1] != name:
                raise Alarm("spec", "compares an element of %s with one of %s" % (a[1], b[1]))
            if st.eq(a[2], b[2]):
                if r:
                    st.log("same", ((a[1], a[2], 1, L(1)),))
                else:
                    st.g["differs"] = True
            return r
        def order(ip, k, name, ra, rb):
            """the user's comparison of two elements."""
            st = k.st
            if ip.user_panic(st, "comparison"):
                return prims.do_panic(ip, k, "user:comparison")
            opts = NAMES + ((None,) if name == "partial_cmp" else ())
            r = opts[st.choose(len(opts))]
            at = st.get("same") if ip.zst else None
            flip = False
            if not ip.zst:
                ra, rb = behind(ip, st, ra), behind(ip, st, rb)
                a, b = prims.tok_of(ip, st, ra), prims.tok_of(ip, st, rb)
                second = "y" if other == "o" else "s"
                if a[1] == second:
                    a, b, flip = b, a, True
                if a[1] != "x" or b[1] != second:
                    raise Alarm("spec", "compares an element of %s with one of %s" % (a[1], b[1]))
                at = a[2] if st.eq(a[2], b[2]) else None
            if r == "Equal":
                if ip.zst:
                    st.g["same"] = at + 1
                elif at is not None:
                    st.log("same", (("x", at, 1, L(1)),))
            elif at is not None:
                st.g["differs"] = True
                if "order" not in st.g:
                    st.g["order"] = FLIP[r] if flip else r
                    st.g["order_at"] = at
            if name == "partial_cmp":
                return prims.NONE if r is None else prims.some(ordv(r))
            return ordv(r)
        return {"slice_op": slice_hook(other), "as_ref": as_ref, "eq": {"T": eq}, "order": {"T": order}}
    return make


def pre_user(c, st):
    """the other operand is a user value: the slice that its as_ref gives."""
    c.other = c.arg(st, "s")
    st.g["cmps"] = ()


def pre_vec(c, st):
    st.g["cmps"] = ()


def prefix(c):
    """the number of leading elements that were found equal, one by one."""
    st = c.st
    if c.zst:
        return st.get("same")
    pos = L(0)
    for q in st.g.get("same", ()):
        if st.eq(q[1], pos) and q[2] == 1:
            pos = pos + q[3]
    return pos


def decide_eq(c, other):
    st = c.st
    n, m = lens(c, other)
    name = "y" if other == "o" else "s"
    pos = prefix(c)
    differs = bool(st.g.get("differs"))
    for op, a, b, r in st.g.get("cmps", ()):
        if op != "eq":
            raise Unknown("equality by ordering")
        if a[0] == name:
            a, b = b, a
        if a[0] != "x" or b[0] != name:
            c.bad("spec", "compares %s with %s" % (a[0], b[0]))
        if not st.eq(a[1], b[1]):
            continue
        if not r:
            differs = True
        elif st.le(a[1], pos) and st.le(pos, a[1] + a[2]):
            pos = a[1] + a[2]
    if not st.eq(n, m):
        return False
    if st.eq(n, 0):
        return True
    if differs:
        return False
    if st.eq(pos, n):
        return True
    return None


def is_eq(c, other, neg=False):
    c.same_storage()
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        return
    w = decide_eq(c, other)
    if w is None:
        c.bad("spec", "answers %s without comparing all elements" % c.ret)
    c.is_bool(c.ret, w != neg, "the result")


FLIP = {"Less": "Greater", "Greater": "Less", "Equal": "Equal", None: None}


def decide_cmp(c, other):
    st = c.st
    n, m = lens(c, other)
    name = "y" if other == "o" else "s"
    for op, a, b, r in st.g.get("cmps", ()):
        flip = a[0] == name
        if flip:
            a, b, r = b, a, FLIP[r]
        if op == "eq":
            raise Unknown("ordering by equality")
        if a[0] != "x" or b[0] != name:
            c.bad("spec", "compares %s with %s" % (a[0], b[0]))
        if not (st.eq(a[1], 0) and st.eq(b[1], 0)):
            continue
        if st.eq(a[2], n) and st.eq(b[2], m):
            return r
        if r != "Equal" and st.eq(a[2], b[2]):
            return r
        if r == "Equal" and st.eq(a[2], b[2]) and (st.eq(a[2], n) or st.eq(a[2], m)):
            return "Less" if st.lt(n, m) else "Greater"
    pos = prefix(c)
    if "order" in st.g and st.eq(pos, st.g["order_at"]):
        return st.g["order"]
    if st.eq(pos, n) or st.eq(pos, m):
        return "Equal" if st.eq(n, m) else "Less" if st.lt(n, m) else "Greater"
    return "?"


def is_cmp(c, other, test=None, partial=True):
    c.same_storage()
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        return
    w = decide_cmp(c, other)
    if w == "?":
        c.bad("spec", "the result is %s without comparing the elements" % show(c.ret))
    if test is not None:
        c.is_bool(c.ret, w in test, "the result")
        return
    got = c.ret
    if partial:
        got = None if got[2] == "None" else got[3][0]
    k = None if got is None else got[2]
    c.need(k == w, "the result is %s, expected %s" % (k, w))


@scen("eq", "v O", "C19", panics=True, pre=pre_user, hooks=hooks_for("O"))
def _(c):
    is_eq(c, "O")


@scen("ne", "v O", "C19", panics=True, pre=pre_user, hooks=hooks_for("O"))
def _(c):
    is_eq(c, "O", True)


@scen("eq_vec", "v o", "C19", panics=True, pre=pre_vec, hooks=hooks_for("o"))
def _(c):
    is_eq(c, "o")


@scen("partial_cmp", "v O", "C19", panics=True, pre=pre_user, hooks=hooks_for("O"))
def _(c):
    is_cmp(c, "O")


@scen("partial_cmp_vec", "v o", "C19", panics=True, pre=pre_vec, hooks=hooks_for("o"))
def _(c):
    is_cmp(c, "o")


def ordering(name, test):
    @scen(name, "v O", "C19", panics=True, pre=pre_user, hooks=hooks_for("O"))
    def _(c):
        is_cmp(c, "O", test)


ordering("lt", ("Less",))
ordering("le", ("Less", "Equal"))
ordering("gt", ("Greater",))
ordering("ge", ("Greater", "Equal"))


@scen("cmp", "v o", "C19", panics=True, pre=pre_vec, hooks=hooks_for("o"))
def _(c):
    is_cmp(c, "o", partial=False)


# ------------------------------------------------------------------ hashing and formatting
def pre_fed(c, st):
    st.g["fed"] = ()


def hash_hooks(c):
    def feed(ip, k, name, a, b):
        st = k.st
        if ip.user_panic(st, "hasher"):
            return prims.do_panic(ip, k, "user:hasher")
        if name == "debug":
            st.g["fed"] = st.g.get("fed", ()) + (("slice",) + which(ip, st, a) + (b,),)
            return ("I", "fmt::Result")
        if name == "hash_usize":
            st.g["fed"] = st.g.get("fed", ()) + (("len", a, b),)
            return UNIT
        if name == "hash":
            w = which(ip, st, a)
            st.g["fed"] = st.g.get("fed", ()) + (("len", w[2], b), ("run",) + w + (b,))
            return UNIT
        if name == "hash_slice":
            st.g["fed"] = st.g.get("fed", ()) + (("run",) + which(ip, st, a) + (b,),)
            return UNIT
        if name == "debug_builder":
            st.g["fed"] = st.g.get("fed", ()) + (("builder", a, b),)
            return ("I", "fmt::Builder")
        if name == "debug_finish":
            st.g["fed"] = st.g.get("fed", ()) + (("finish", b),)
            return ("I", "fmt::Result")
        if name == "debug_entry":
            a, b, name = b, None, "hash_elem"
        if name == "hash_elem":
            f = st.g.get("fed", ())
            if not (f and f[-1][0] == "elems" and f[-1][1] == b):
                if any(y[0] == "elems" for y in f):
                    raise Unknown("elements and slices in turns")
                st.g["fed"] = f + (("elems", b),)
            if ip.zst:
                st.count("fed_elems")
                return UNIT
            t = prims.tok_of(ip, st, behind(ip, st, a))
            st.log("fed_elems", ((t[1], t[2], 1, L(1)),))
            return UNIT
        raise Unknown("slice operation " + name)
    return {"slice_op": feed}


def full(c, e):
    st = c.st
    return (e[1] == "x" or e[1] is None) and st.eq(e[2], 0) and st.eq(e[3], n0)


def in_order(c, e):
    """these runs and single elements are all elements in order."""
    st = c.st
    pos = L(0)
    for q in e:
        if q[0] == "run":
            c.need(st.eq(q[3], 0) or (q[1] == "x" or q[1] is None) and (c.zst or st.eq(q[2], pos)), "the elements are %s[%s..+%s] after %s elements" % (q[1:4] + (pos,)))
            pos = pos + q[3]
        elif q[0] == "elems":
            if c.zst:
                pos = pos + st.get("fed_elems")
                continue
            for r in st.g.get("fed_elems", ()):
                c.need(st.eq(r[3], 0) or r[0] == "x" and (r[2] == 1 or st.eq(r[3], 1)) and st.eq(r[1], pos), "the elements are %s[%s..] (step %s) after %s elements" % (r[:3] + (pos,)))
                pos = pos + r[3]
        else:
            c.bad("spec", "the length comes twice")
    c.is_int(pos, n0, "the number of elements")


@scen("hash", "v H", "C19", panics=True, pre=pre_fed, hooks=hash_hooks)
def _(c):
    c.same_storage()
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        return
    e = c.st.g.get("fed", ())
    want = ("R", ("arg", "H"), ())
    c.need(e and e[0][0] == "len", "the hasher gets %s, expected the length and the elements" % [x[0] for x in e])
    c.is_int(e[0][1], n0, "the length that the hasher gets")
    for q in e:
        c.need(q[-1] == want, "another hasher is fed")
    in_order(c, e[1:])


@scen("debug", "v H", "C19", panics=True, pre=pre_fed, hooks=hash_hooks)
def _(c):
    c.same_storage()
    if c.panicked:
        c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
        return
    e = c.st.g.get("fed", ())
    if len(e) >= 2 and e[0][0] == "builder" and e[-1][0] == "finish":
        # the entries, one by one
        c.need(e[0][1] == "list", "formats a %s, expected a list" % e[0][1])
        c.need(e[0][2] == ("R", ("arg", "H"), ()), "formats into something else")
        in_order(c, e[1:-1])
        return
    c.need(len(e) == 1 and e[0][0] == "slice" and full(c, e[0]) and e[0][4] == ("R", ("arg", "H"), ()), "formats something else than the slice")
    c.need(c.ret == ("I", "fmt::Result"), "the result is not that of the slice")


# ------------------------------------------------------------------ views
def whole(c, v, what):
    if not (isinstance(v, tuple) and v[0] == "F"):
        c.bad("spec", "%s is %s" % (what, show(v)))
    c.is_slot(v[1], 0, what=what)
    c.is_int(v[2], n0, "the length of " + what)


@scen("views", "v", "C19")
def _(c):
    c.returns()
    c.same_storage()
    for x, what in zip(c.ret[3], ("as_slice", "deref", "as_ref", "borrow", "v[..]")):
        whole(c, x, what)
    c.is_slot(c.ret[3][5], 0, what="as_ptr")


def view_hooks(c):
    def rest(ip, k, f):
        st = k.st
        old, c.st = c.st, st
        try:
            i = st.get("calls")
            st.g["calls"] = i + 1
            if f[0] != "F" or not st.eq(L(f[2]), n0):
                raise Alarm("spec", "view %s has length %s, expected %s" % (i, f[2] if f[0] == "F" else "?", n0))
            if not ip.zst:
                if f[1][0] != "E" or f[1][1] != "S" or not st.eq(f[1][2], 0):
                    raise Alarm("spec", "view %s starts at %s" % (i, f[1]))
        finally:
            c.st = old
    return {"ghost": {"g_rest": rest}}


@scen("views_mut", "v", "C19", pre=lambda c, st: st.g.__setitem__("calls", L(0)), hooks=view_hooks)
def _(c):
    c.returns()
    c.same_storage()
    c.unchanged()
    c.is_slot(c.ret, 0, what="as_mut_ptr")


def any_hooks(c):
    def op(ip, k, name, f, i):
        st = k.st
        if name != "index":
            raise Unknown("slice operation " + name)
        if i != ("I", "I"):
            raise Alarm("spec", "indexes with %s, expected the caller's index" % show(i))
        w = which(ip, st, f)
        if not ((w[0] == "x" or w[0] is None) and st.eq(w[1], 0) and st.eq(w[2], n0)):
            raise Alarm("spec", "indexes %s[%s..+%s], expected the slice of all elements" % w)
        if ip.user_panic(st, "index"):
            return prims.do_panic(ip, k, "user:index")
        st.g["calls"] = st.get("calls") + 1
        st.cells[("arg", "out")] = ("I", "output")
        return ("R", ("arg", "out"), ())
    return {"slice_op": op}


for _n in ("index_any", "index_any_mut"):
    @scen(_n, "v I", "C19 C01", panics=True, pre=lambda c, st: st.g.__setitem__("calls", L(0)), hooks=any_hooks)
    def _(c):
        c.same_storage()
        c.unchanged()
        if c.panicked:
            c.need(user_panic(c), "panics (%s)" % c.reason, "panic")
            return
        c.need(c.ret == ("R", ("arg", "out"), ()) and c.st.eq(c.st.get("calls"), 1), "the result is %s, expected that of indexing the slice" % show(c.ret))


for _n in ("index_one", "index_one_mut"):
    @scen(_n, "v i", "C19 C01")
    def _(c):
        c.same_storage()
        c.unchanged()
        if c.st.lt(sym("i"), n0):
            c.returns()
            c.is_slot(c.ret, sym("i"))
        else:
            c.must_panic()


for _n in ("index_range", "index_range_mut"):
    @scen(_n, "v rg", "C19 C01")
    def _(c):
        st = c.st
        c.same_storage()
        c.unchanged()
        a, b = sym("rs"), sym("re")
        if st.le(a, b) and st.le(b, n0):
            c.returns()
            c.need(c.ret[0] == "F", "returns %s" % show(c.ret))
            if not st.eq(a, b):
                c.is_slot(c.ret[1], a)
            c.is_int(c.ret[2], b - a, "the length")
        else:
            c.must_panic()
