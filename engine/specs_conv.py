"""Specifications: construction over a storage, and conversions from and to std's Vec, arrays and raw parts."""
from . import prims
from .core import UNINIT, Region, same_runs, show_runs
from .prims import T_ABS
from .interp import show
from .lin import IMAX, UMAX, L, Lin, sym
from .scen import mk_vec, scen, vec_fields
from .specs_bulk import unaligned

S = ("abs", "S")
n0 = sym("len")
A = ("S", "A0")            # the allocator: a value that nothing may copy or lose


def storage(c, st, full):
    """a storage by value; its first len slots hold elements if full."""
    cap = sym("cap_S")
    if c.zst:
        st.assume(L(UMAX) - cap)
        segs = ()
    else:
        st.assume(L(IMAX) - cap)
        segs = ((L(0), n0, "x", L(0), 1),) if full else ()
    if full:
        st.assume(L(IMAX) - n0)
        st.assume(cap - n0)
        c.init["x"] = n0
    st.regs["S"] = Region(cap, 0, segs)
    c.stores.append("S")
    return ("S", "S")


def holds(c, ptr, n, what="the memory"):
    """n elements x[0..n) at ptr."""
    if c.zst:
        return
    st = c.st
    got = st.runs_at(ptr, n)
    c.need(same_runs(st, got, [("x", L(0), 1, L(n))]), "%s holds %s" % (what, show_runs(got)))


def kept(c):
    c.need(not c.st.g.get("drops") and not c.st.g.get("cloned") and (not c.zst or c.st.eq(c.st.get("dropped"), 0)), "elements are dropped or copied")


# ---------------------------------------------------------------- storages and raw parts
@scen("with_storage", "so", "C18 C03", pre=None, setup=lambda c, st: storage(c, st, False))
def _(c):
    if c.panicked:
        c.need(unaligned(c, "S"), "panics (%s) over an aligned storage" % c.reason, "panic")
        return
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, 0, "the length")
    c.need(s == ("S", "S"), "the vector has another storage: %s" % show(s))


def _n(c, st):
    storage(c, st, True)
    f = st.facts.add_eq(sym("n") - n0)
    st.facts = f


@scen("from_raw", "n so", "C18 C20", setup=_n, leak=True)
def _(c):
    if c.panicked:
        c.need(unaligned(c, "S"), "panics (%s) over an aligned storage" % c.reason, "panic")
        return
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, n0, "the length")
    c.need(s == ("S", "S"), "the vector has another storage: %s" % show(s))
    c.vec_is(n, s, [c.run("x", 0, n0)], "the vector")
    kept(c)


for _n in ("storage_ref", "storage_ref_mut"):
    @scen(_n, "v", "C20")
    def _(c):
        c.returns()
        c.same_storage()
        c.unchanged()
        r = c.ret
        c.need(r[0] == "R" and r[1] == ("arg", "v"), "returns %s, expected a reference into the vector" % show(r))
        v = prims.load_ref(c.ip, c.st, r)
        c.need(v == ("S", "S"), "returns a reference to %s, expected the storage" % show(v))


@scen("into_raw", "vo", "C20", leak=True)
def _(c):
    c.returns()
    n, s = c.ret[3]
    c.is_int(n, n0, "the length")
    c.need(s == ("S", "S"), "returns another storage: %s" % show(s))
    if not c.zst:
        r = c.st.region("S")
        c.need(r.live and r.gen == 0, "the storage is released or reallocated")
        holds(c, ("E", "S", L(0), r.gen), n0)
    kept(c)


@scen("zs_vec_new", "", "C20 C03", zst=(True,))
def _(c):
    c.returns()
    c.is_int(vec_fields(c.ip, c.ret)[0], 0, "the length")


@scen("zs_vec_const", "", "C20 C03", zst=(True,))
def _(c):
    c.returns()
    c.is_int(vec_fields(c.ip, c.ret)[0], 0, "the length")


def buf(full):
    def f(c, st):
        st.assume(L(IMAX) - sym("slots"))
        st.assume(sym("slots"))
        if c.zst:
            c.w = ("F", ("P", sym("addr_buf")), sym("slots"))
            return
        if full:
            c.init["x"] = sym("slots")
        st.regs["buf"] = Region(sym("slots"), 0, ((L(0), sym("slots"), "x", L(0), 1),) if full else ())
        c.w = ("F", ("E", "buf", L(0), 0), sym("slots"))
    return f


def over_buf(c, s):
    """s is the borrowed buffer."""
    while isinstance(s, tuple) and s[0] == "R":
        s = c.ip.load(c.st, ("c", s[1], s[2]))
    p = ("P", sym("addr_buf")) if c.zst else ("E", "buf", L(0), 0)
    c.need(isinstance(s, tuple) and s[0] == "F" and s[1][0] == p[0] and (s[1][1] == "buf" and c.st.eq(s[1][2], 0) or s[1] == p) and c.st.eq(s[2], sym("slots")),
           "the storage is %s, not the given buffer" % show(s))


@scen("slice_vec_new", "FW", "C20 C03 C18", pre=buf(False))
def _(c):
    c.returns()
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, 0, "the length")
    over_buf(c, s)


@scen("init_slice_vec_new", "FW", "C20 C03 C18", pre=buf(True), copy=(True,))
def _(c):
    c.returns()
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, sym("slots"), "the length")
    over_buf(c, s)
    if not c.zst:
        holds(c, ("E", "buf", L(0), 0), sym("slots"))


# ---------------------------------------------------------------- the heap
def block(c, st):
    """a block of memory with x[0..len)."""
    st.assume(L(IMAX) - n0)
    c.init["x"] = n0
    cap = L(UMAX) if c.zst else sym("cap_V")
    if not c.zst:
        st.assume(L(IMAX) - cap)
        st.assume(cap - n0)
    st.regs["V"] = Region(cap, 0, () if c.zst else ((L(0), n0, "x", L(0), 1),), "vec")
    c.stores.append("V")
    return cap


def ptr(c):
    return ("P", sym("addr_vec")) if c.zst else ("E", "V", L(0), 0)


def heap(c, alloc=None):
    names = c.ip.w.structs["Heap"]
    g = ("A", ("p", "std::Global", ()), None, ())
    vals = {"capacity": c.cap, "ptr": ptr(c), "allocator": alloc or g}
    ty = ("p", "Heap", (T_ABS, ("abs", "A")) if alloc else (T_ABS, ("p", "std::Global", ())) if "allocator" in names else (T_ABS,))
    return ty, ("A", ty, None, tuple(vals[n] for n in names))


def heap_hooks(c):
    # the destructor of Heap is analysed by C14
    def drop(ip, st, v):
        f = heap_fields(c, v)
        if f["ptr"][0] == "E":
            return [("release", f["ptr"][1])] + ([("release", f["allocator"][1])] if f.get("allocator", ("",))[0] == "S" else [])
        return [("release", f["allocator"][1])] if f.get("allocator", ("",))[0] == "S" else []
    return {"drop_struct": {"Heap": drop}}


def heap_fields(c, v):
    return dict(zip(c.ip.w.structs["Heap"], v[3]))


def pre_vec(c, st):
    c.cap = block(c, st)
    if "in" in c.sc.opts:
        c.stores.append("A0")
        st.g["vec_alloc"] = {"V": A}
    c.w = ("Ve", "V", n0)


def pre_heap(c, st):
    c.cap = block(c, st)
    if c.zst:
        c.cap = sym("cap_V")
        st.assume(L(UMAX) - c.cap)
        st.assume(c.cap)
    al = None
    if "in" in c.sc.opts:
        c.stores.append("A0")
        al = A
    ty, h = heap(c, al)
    c.w = mk_vec(c.ip, ty, n0, h)


def pre_raw(c, st):
    pre_heap(c, st)
    st.facts = st.facts.add_eq(sym("n") - n0)


def same_block(c, p, cap, what="the conversion"):
    st = c.st
    if c.zst:
        return
    c.need(p[0] == "E" and p[1] == "V" and st.eq(p[2], 0), "%s yields other memory: %s" % (what, show(p)))
    c.is_int(cap, c.cap, "the capacity")
    r = st.region("V")
    c.need(r.live, "the memory is released")
    holds(c, ("E", "V", L(0), r.gen), n0)


def conv(name, args, pre, nightly=False, **kw):
    def d(f):
        lanes = ("stable-std", "nightly-std", "stable-alloc", "nightly-alloc")
        scen(name, args, "C20", pre=pre, lanes=lanes, hooks=heap_hooks, **kw)(f)
        if not nightly:
            scen(name + "_in", args + (" alc" if args == "n hp hc" else ""), "C20", pre=pre, lanes=lanes[1::2], hooks=heap_hooks, **dict(kw, **{"in": True}))(f)
        return f
    return d


def alloc_kept(c, v):
    if "in" in c.sc.opts:
        c.need(v == A, "the allocator is %s" % show(v))


@conv("heap_from_vec", "FW", pre_vec)
def _(c):
    c.returns()
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, n0, "the length")
    f = heap_fields(c, s)
    same_block(c, f["ptr"], f["capacity"])
    alloc_kept(c, f.get("allocator"))
    kept(c)


@conv("vec_from_heap", "FW", pre_heap)
def _(c):
    c.returns()
    c.need(c.ret[0] == "Ve", "returns %s" % show(c.ret))
    c.is_int(c.ret[2], n0, "the length")
    if not c.zst:
        c.need(c.ret[1] == "V", "the conversion yields other memory")
        same_block(c, ("E", c.ret[1], L(0), 0), c.st.region(c.ret[1]).cap)
    alloc_kept(c, c.st.g.get("vec_alloc", {}).get(c.ret[1]))
    kept(c)


@conv("heap_into_raw", "FW", pre_heap, leak=True)
def _(c):
    c.returns()
    n, (_, _, _, h) = c.ret[3][0], c.ret[3][1]
    c.is_int(n, n0, "the length")
    if c.zst:
        c.is_int(h[1], c.cap, "the capacity")
    same_block(c, h[0], h[1])
    alloc_kept(c, h[2] if len(h) > 2 else None)
    c.need("V" not in [r[0] for r in c.st.g.get("released", ())], "the memory is released")
    kept(c)


@conv("heap_from_raw", "n hp hc", pre_raw, leak=True)
def _(c):
    c.returns()
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, n0, "the length")
    f = heap_fields(c, s)
    if c.zst:
        c.is_int(f["capacity"], c.cap, "the capacity")
    same_block(c, f["ptr"], f["capacity"])
    alloc_kept(c, f.get("allocator"))
    kept(c)


def empty_heap(c):
    c.returns()
    n, s = vec_fields(c.ip, c.ret)
    c.is_int(n, 0, "the length")
    f = heap_fields(c, s)
    if c.zst:
        c.need(c.st.ge(f["capacity"], IMAX), "the capacity is %s" % f["capacity"])
    else:
        c.is_int(f["capacity"], 0, "the capacity")
    return f


@scen("heap_vec_new", "", "C20 C03", feat="alloc")
def _(c):
    empty_heap(c)


def pre_al(c, st):
    c.stores.append("A0")
    c.w = A


@scen("heap_vec_with_alloc", "FW", "C20 C03 C18", lanes=("nightly-std", "nightly-alloc"), pre=pre_al, hooks=heap_hooks)
def _(c):
    f = empty_heap(c)
    c.need(f["allocator"] == A, "the allocator is %s" % show(f["allocator"]))


# ---------------------------------------------------------------- arrays
ARR = ("arr", T_ABS, ("abs", "N"))
NLANES = ("nightly-std", "nightly-alloc", "nightly-no_std")


def array_value(c, s):
    """the array in an UninitBuffer, or in a storage that is an array."""
    from .prims import array_place
    c.st.cells[("arg", "ret")] = s
    p = array_place(c.ip, c.st, ("R", ("arg", "ret"), ()))
    return c.ip.load(c.st, ("c", p[1], p[2]))


def arr_holds(c, s):
    v = array_value(c, s)
    c.need(v is not None and v[0] in ("V", "B"), "the storage is %s" % show(s))
    if v[0] == "B":
        r = c.st.region(v[1])
        return holds2(c, c.st.runs_at(("E", v[1], L(0), r.gen), sym("N")))
    holds2(c, v[1])


def holds2(c, got):
    if c.zst:
        return
    c.need(same_runs(c.st, got, [("a", L(0), 1, sym("N"))]), "the array holds %s" % show_runs(got))


def from_array(name, copy):
    @scen(name, "A", "C20", lanes=NLANES, copy=(copy,), leak=True)
    def _(c):
        c.returns()
        n, s = vec_fields(c.ip, c.ret)
        c.is_int(n, sym("N"), "the length")
        arr_holds(c, s)
        kept(c)


from_array("array_from", False)
from_array("array_from2", False)
from_array("init_array_new", True)
from_array("init_array_from", True)


def pre_arr(c, st):
    """an array vector with a[0..len) and, behind them, slots without a value."""
    st.assume(L(IMAX) - sym("N"))
    st.assume(sym("N") - n0)
    ty = ("p", "UninitBuffer", (ARR, T_ABS))
    if c.zst:
        arr = ("V", (("z", L(0), 0, sym("N")),))
    else:
        st.regs["arr"] = Region(sym("N"), 0, ((L(0), n0, "x", L(0), 1),), "arr")
        arr = ("B", "arr", T_ABS)
    c.init["x"] = n0
    mu = ("A", ("p", "std::MaybeUninit", (("arr", T_ABS, ("const", 0)),)), None, (UNINIT,))
    ab = ("A", ("p", "AlignedBuffer", (ARR, T_ABS)), None, tuple({"align": mu, "value": arr}[f] for f in c.ip.w.structs["AlignedBuffer"]))
    st.cells[("arg", "v")] = v = mk_vec(c.ip, ty, n0, ("A", ty, None, (("A", ("p", "std::MaybeUninit", (ab[1],)), None, (ab,)),)))
    c.w = v


@scen("array_into", "FW", "C20", lanes=NLANES, pre=pre_arr)
def _(c):
    st = c.st
    if not st.eq(n0, sym("N")):
        c.must_panic("a conversion of a vector that isn't full")
        return
    c.returns("a conversion of a full vector")
    c.is_arr(c.ret, [c.run("x", 0, n0)])
    kept(c)
