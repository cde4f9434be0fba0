"""Specifications: storages behind a borrow or a box."""
from . import prims
from .core import UNIT, Alarm, Unknown
from .interp import show
from .lin import IMAX, UMAX, L, Lin, sym
from .scen import mk_vec, scen, vec_value

S = ("abs", "S")


def wrap_ty(shape):
    t = S
    for k in reversed(shape):
        t = ("ref", True, t) if k == "m" else ("p", "std::Box", (t,))
    return t


def wrap(st, shape, v):
    """the value of a storage v behind borrows (m) and boxes (b); outermost first."""
    for i, k in enumerate(reversed(shape)):
        key = ("arg", "w%d" % i)
        st.cells[key] = v
        v = ("R", key, ()) if k == "m" else ("X", key)
    return v


SHAPES = ("m", "b", "mm", "mb", "bm", "bb")


def pre(shape):
    def f(c, st):
        st.g["asked_log"] = ()
        v = vec_value(c.ip, st, "S", "x", sym("len"))
        c.init["x"] = sym("len")
        if "W" in c.sc.args:
            del st.g["aligned:S"]
        w = wrap(st, shape, ("S", "S"))
        c.extra = [("arg", "w%d" % i) for i in range(len(shape))]
        if "W" in c.sc.args:
            st.cells[("arg", "W")] = w
        else:
            st.cells[("arg", "v")] = mk_vec(c.ip, wrap_ty(shape), sym("len"), w)
    return f


def trace(c):
    def f(ip, st, name, rid, args):
        st.g["asked_log"] = st.g.get("asked_log", ()) + ((name, rid) + tuple(args),)
    return {"trace": f}


def asked(c, *names):
    return [e for e in c.st.g.get("asked_log", ()) if e[0] in names]


def kept(c, n0=None):
    """the elements are where they were (or where the storage moved them)."""
    st = c.st
    if c.zst:
        return
    r = st.region("S")
    got = st.runs_at(("E", "S", L(0), r.gen), sym("len"))
    from .core import same_runs
    c.need(same_runs(st, got, [("x", L(0), 1, sym("len"))]), "the storage's contents change")


def one_request(c, name, n):
    e = asked(c, "reserve", "try_reserve")
    c.need(len(e) == 1 and e[0][0] == name and e[0][1] == "S", "the storage gets the requests %s, expected one %s" % ([x[0] for x in e], name))
    c.is_int(e[0][2], n, "the capacity that the storage is asked for")


def for_shapes(name, args, props="C24", **kw):
    def d(f):
        for sh in SHAPES:
            if "b" in sh:
                kw2 = dict(kw, lanes=("stable-std", "nightly-std", "stable-alloc", "nightly-alloc"))
            else:
                kw2 = dict(kw)
            scen("%s.%s" % (name, sh), args, props, fn=name, env={"W": wrap_ty(sh)}, pre=pre(sh), hooks=trace, leak=True, **kw2)(f)
        return f
    return d


@for_shapes("fwd_reserve", "W n")
def _(c):
    one_request(c, "reserve", sym("n"))
    kept(c)
    if c.panicked:
        c.need(c.growth_failed(), "panics (%s)" % c.reason, "panic")


@for_shapes("fwd_try_reserve", "W n")
def _(c):
    c.returns()
    one_request(c, "try_reserve", sym("n"))
    c.is_bool(c.ret, not c.st.g.get("reserve_failed"), "the result")
    kept(c)


@for_shapes("fwd_queries", "W", props="C24 C18")
def _(c):
    c.returns()
    st = c.st
    cap, p, q, cc, al = c.ret[3]
    c.is_int(cap, sym("cap_S"), "capacity")
    for v, what in ((p, "as_ptr"), (q, "as_mut_ptr")):
        if c.zst:
            c.need(v[0] == "P" and st.eq(v[1], sym("addr_S")), "%s is %s" % (what, show(v)))
        else:
            c.need(v[0] == "E" and v[1] == "S" and st.eq(v[2], 0), "%s is %s" % (what, show(v)))
    want = st.g.get("const:S")
    c.need(want is not None, "the constant capacity is not the storage's")
    if want == "None":
        c.none(cc, "CONST_CAPACITY")
    else:
        c.is_int(c.some(cc, "CONST_CAPACITY"), want, "CONST_CAPACITY")
    c.need("aligned:S" in st.g, "IS_ALIGNED is not the storage's", "align")
    c.need(al == st.g["aligned:S"], "IS_ALIGNED is %s for a storage for which it is %s" % (show(al), st.g["aligned:S"]), "align")
    c.need(not asked(c, "reserve", "try_reserve"), "a query makes a request")


def made(c, w, shape):
    """a new storage behind the boxes."""
    v = w
    for _ in shape:
        c.need(isinstance(v, tuple) and v[0] == "X", "returns %s" % show(v))
        v = c.st.cells[v[1]]
    c.need(isinstance(v, tuple) and v[0] == "S", "returns %s" % show(v))
    return v[1]


def pre_none(c, st):
    st.g["asked_log"] = ()


def pre_old(c, st):
    pre_none(c, st)
    st.cells[("arg", "old")] = UNIT


for _sh in ("b", "bb"):
    def _post(c, _sh=_sh):
        e = asked(c, "with_capacity", "checked")
        c.need(len(e) == 1 and e[0][0] == "with_capacity", "the requests are %s, expected one with_capacity" % [x[0] for x in e])
        c.is_int(e[0][2], sym("n"), "the capacity that is asked for")
        if c.panicked:
            c.need(c.growth_failed(), "panics (%s)" % c.reason, "panic")
            return
        rid = made(c, c.ret, _sh)
        c.need(c.zst or c.st.le(sym("n"), c.st.region(rid).cap), "the new storage is too small")
    scen("fwd_with_capacity." + _sh, "n", "C24", fn="fwd_with_capacity", env={"W": wrap_ty(_sh)}, pre=pre_none, hooks=trace,
         lanes=("stable-std", "nightly-std", "stable-alloc", "nightly-alloc"))(_post)

    def _post2(c, _sh=_sh):
        e = asked(c, "with_capacity", "checked")
        c.need(len(e) == 1 and e[0][0] == "checked", "the requests are %s, expected the one with the constant capacity" % [x[0] for x in e])
        c.is_int(e[0][2], sym("n"), "the capacity that is asked for")
        o = e[0][3]
        c.need(o[2] == c.st.g["old"] and (o[2] == "None" or c.st.eq(o[3][0], sym("m"))), "the constant capacity that is passed on is %s" % show(o))
        if c.panicked:
            c.need(c.growth_failed(), "panics (%s)" % c.reason, "panic")
            return
        made(c, c.ret, _sh)
    for _o in ("None", "Some"):
        def _pre(c, st, _o=_o):
            pre_none(c, st)
            st.g["old"] = _o
            st.assume(L(UMAX) - sym("m"))
            if _o == "Some":
                st.assume(sym("m") - sym("n"))
        scen("fwd_checked.%s.%s" % (_sh, _o), "n opt" + _o, "C24", fn="fwd_checked", env={"W": wrap_ty(_sh)}, pre=_pre, hooks=trace,
             lanes=("stable-std", "nightly-std", "stable-alloc", "nightly-alloc"))(_post2)


@for_shapes("fwd_vec_reserve", "V n")
def _(c):
    e = asked(c, "reserve", "try_reserve")
    kept(c)
    if c.panicked:
        if not c.st.le(sym("len") + sym("n"), UMAX if not c.zst else IMAX):
            return
        c.need(c.growth_failed(), "panics (%s)" % c.reason, "panic")
    elif not c.zst:
        c.need(c.st.le(sym("len") + sym("n"), c.st.region("S").cap), "returns without the capacity")


@for_shapes("fwd_vec_try_reserve", "V n")
def _(c):
    c.returns()
    kept(c)
    if not c.zst and c.ret is True:
        c.need(c.st.le(sym("len") + sym("n"), c.st.region("S").cap), "returns true without the capacity")


@for_shapes("fwd_vec_queries", "V")
def _(c):
    c.returns()
    cap, p, q = c.ret[3]
    c.is_int(cap, IMAX if c.zst else sym("cap_S"), "capacity")
    if not c.zst:
        for v, what in ((p, "as_ptr"), (q, "as_mut_ptr")):
            c.need(v[0] == "E" and v[1] == "S" and c.st.eq(v[2], 0), "%s is %s" % (what, show(v)))
