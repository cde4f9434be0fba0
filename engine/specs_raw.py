"""Specifications: the storages themselves, for concrete layouts of the storage's
unit X, the element type Y and the alignment type Z, and symbolic capacities."""
from . import alloc
from .core import UNINIT, UNIT, Alarm, Unknown
from .interp import show
from .lin import IMAX, UMAX, L, Lin, sym
from .prims import NONE, some
from .scen import SCENS, Bad, scen

X, Y, Z, A = ("abs", "X"), ("abs", "Y"), ("abs", "Z"), ("abs", "A")
LAYS = ((0, 1), (1, 1), (2, 2), (3, 1), (4, 4), (8, 8), (12, 4), (16, 16), (24, 8), (0, 8), (40, 8), (4096, 4096))
ALLOC = ("stable-std", "nightly-std", "stable-alloc", "nightly-alloc")
INIT_ALLOC = 4


def tag(**kw):
    return ",".join("%s%d/%d" % (k, s, a) for k, (s, a) in sorted(kw.items()))


def fit(c, n, unit):
    """do n units of this size fit the address space?"""
    return c.st.le(L(n) * unit, IMAX)


class Raw:
    """context of a scenario: the configuration."""

    def __init__(self, c):
        self.c = c
        self.cfg = c.sc.opts["cfg"]

    def size(self, k):
        return self.cfg[k][0]

    def al(self, k):
        return self.cfg[k][1]


def live(st):
    return [k[4:] for k, v in st.g.items() if k.startswith("blk:") and v[3]]


def no_blocks(c, what):
    l = live(c.st)
    if l:
        raise Bad("alloc", "%s: %d blocks are never released" % (what, len(l)))


def owns(c, p, cap, keep=None):
    """the parts (p, cap) of a heap own exactly the live block, with the layout of cap units."""
    st = c.st
    s, a = c.sc.opts["cfg"]["X"]
    if s == 0 or st.le(cap, 0):
        no_blocks(c, "a heap without memory")
        if p[0] == "P" and p[1].is_const():
            if p[1].c % a or p[1].c <= 0:
                raise Bad("alloc", "the dangling pointer %s is not aligned" % p[1].c)
        return
    n = alloc.name_of(p)
    b = st.g.get("blk:" + n) if n else None
    if b is None or not b[3]:
        raise Bad("block", "the heap's pointer %s is not to a live block" % show(p))
    if live(st) != [n]:
        raise Bad("alloc", "blocks other than the heap's are never released")
    if not (st.ge(cap * s, b[0]) and st.le(cap * s, b[1])):
        raise Bad("block", "the heap says it has %s units of %d bytes, its block has %s bytes" % (cap, s, b[0]))
    if not st.eq(b[2], a):
        raise Bad("block", "the heap's block is aligned to %s, its type to %s" % (b[2], a))
    if keep is not None and not st.le(keep, 0):
        o = b[4]
        if o is None or o[0] != "C0" or not st.ge(o[1], keep):
            raise Bad("block", "the contents are lost")


def kept(c, p, cap):
    """the heap's memory and capacity are those from before."""
    st = c.st
    if not st.eq(cap, sym("c")):
        raise Bad("raw", "the capacity changes from %s to %s" % (sym("c"), cap))
    if not (p[0] == "P" and st.eq(p[1], c.old[1])):
        raise Bad("raw", "the memory changes although it should not")
    if st.g.get("moved"):
        raise Bad("raw", "the memory changes although it should not")


def heap_pre(full):
    def f(c, st):
        s, a = c.sc.opts["cfg"]["X"]
        st.assume(L(UMAX) - sym("c"))
        if full and s:
            st.assume(sym("c") - 1)
            st.assume(L(IMAX) - sym("c") * s)
            st.assume(sym("blk0") - 1)
            c.old = alloc.block(st, "blk0", sym("c") * s, a, ("C0", sym("c") * s))
        else:
            c.old = ("P", sym("dangling"))
            st.assume(sym("dangling") - 1)
            if s:
                st.facts = st.facts.add_eq(sym("c"))
        st.cells[("arg", "c")] = sym("c")
    return f


def capacity_ok(c, cap, units, exact=False):
    """cap elements of Y fit into units units of X."""
    st = c.st
    s, e = c.sc.opts["cfg"]["X"][0], c.sc.opts["cfg"]["Y"][0]
    if e == 0:
        if exact and not st.ge(cap, IMAX):
            raise Bad("raw", "the capacity for zero-sized elements is %s" % cap)
        return
    if not st.le(cap * e, units * s):
        raise Bad("raw", "the capacity %s for elements of %d bytes exceeds the %s bytes of memory" % (cap, e, units * s))
    if exact and not st.gt((cap + 1) * e, units * s):
        raise Bad("raw", "the capacity %s for elements of %d bytes is less than the %s bytes of memory can hold" % (cap, e, units * s))


def parts_of(c, v):
    v = v[3]
    if len(v) > 2:
        al = v[2]
        c.need(al == ("I", "al") or isinstance(al, tuple) and al[0] == "S", "the allocator is lost: %s" % show(al), "alloc")
    return v[0], v[1]


def unreachable_size(c, n):
    """can a heap of X units not provide n elements of Y, doubling included?"""
    st = c.st
    s, e = c.sc.opts["cfg"]["X"][0], c.sc.opts["cfg"]["Y"][0]
    if s == 0:
        return e != 0
    if st.gt(L(n) * e, IMAX - (s - 1)) or st.gt(sym("c") * 2 * s, IMAX):
        return True
    return st.gt(L(INIT_ALLOC * s), IMAX)


def al_once(c):
    """the allocator is dropped once when the operation unwinds."""
    if "al" in c.sc.args and c.panicked:
        n = sum(1 for r in c.st.g.get("users", ()) for _ in range(r[3].c) if r[0] == "al")
        if n != 1:
            raise Bad("alloc", "the allocator is dropped %d times" % n)


def heap(name, args, **kw):
    """heap scenarios: one per layouts, with and without a block at the start."""
    two = kw.pop("two", True)
    starts = kw.pop("starts", (True, False))
    inn = kw.pop("inn", True)
    props = kw.pop("props", "C13 C14")

    def d(f):
        for i, x in enumerate(LAYS):
            for j, y in enumerate(LAYS if two else (None,)):
                for full in starts:
                    if x[0] == 0 and full and len(starts) > 1:
                        continue
                    cfg = {"X": x}
                    if y is not None:
                        cfg["Y"] = y
                    n = "%s.%s%s%s" % (name, tag(**cfg), "" if full else ",empty", ",none" if "optNone" in args else "")
                    o = dict(kw, cfg=cfg, raw=True, pre=heap_pre(full) if 'p' in args.split() else None, hooks=hook(cfg), zst=(False,), leak=True)
                    scen("heap_" + n, args, props, fn="heap_" + name, lanes=ALLOC, **o)(f)
                    if inn:
                        scen("heapa_" + n, args + " al", props, fn="heapa_" + name, nightly=True, lanes=("nightly-std", "nightly-alloc"), **o)(f)
        return f
    return d


def hook(cfg):
    def f(c):
        h = alloc.hooks(cfg)
        h["default"] = {"A": lambda ip, c2, *a: ("I", "al")}
        return h
    return f


# ---------------------------------------------------------------- Heap
@heap("queries", "p c", props="C13 C14 C18")
def _(c):
    c.returns()
    cap, q, m, cc, al, parts = c.ret[3]
    p, n = parts_of(c, parts)
    kept(c, p, n)
    owns(c, p, n, n * c.sc.opts["cfg"]["X"][0])
    capacity_ok(c, cap, sym("c") if c.sc.opts["cfg"]["X"][0] else L(0), True)
    for x, what in ((q, "as_ptr"), (m, "as_mut_ptr")):
        if not (x[0] == "P" and c.st.eq(x[1], c.old[1])):
            raise Bad("raw", "%s is %s, not the heap's memory" % (what, show(x)))
    if cc[2] != "None":
        raise Bad("raw", "a heap has the constant capacity %s" % show(cc))
    want = c.sc.opts["cfg"]["X"][1] >= c.sc.opts["cfg"]["Y"][1]
    if al is not want:
        raise Bad("align", "IS_ALIGNED is %s for memory aligned to %d and elements aligned to %d" % (al, c.sc.opts["cfg"]["X"][1], c.sc.opts["cfg"]["Y"][1]))


def grown(c, n, before, after, p, cap):
    st = c.st
    s = c.sc.opts["cfg"]["X"][0]
    if not st.ge(after, n):
        raise Bad("raw", "reports success, but the capacity %s is less than the requested %s" % (after, n))
    if not st.ge(after, before) or not st.ge(cap, sym("c")):
        raise Bad("raw", "the capacity shrinks from %s to %s" % (sym("c"), cap))
    if st.ge(before, n):
        kept(c, p, cap)
    elif s and not st.eq(cap, sym("c")) and not st.ge(cap * 5, sym("c") * 6):
        raise Bad("alloc", "grows from %s to %s only: not geometric" % (sym("c"), cap))


@heap("reserve", "p c n")
def _(c):
    st = c.st
    al_once(c)
    if c.panicked:
        no_blocks(c, "a heap that is dropped by a panic")
        if not st.g.get("alloc_failed") and not unreachable_size(c, sym("n")):
            raise Bad("raw", "panics (%s) although the memory can be had" % c.reason)
        return
    before, after, parts = c.ret[3]
    p, cap = parts_of(c, parts)
    owns(c, p, cap, sym("c") * c.sc.opts["cfg"]["X"][0])
    capacity_ok(c, after, cap if c.sc.opts["cfg"]["X"][0] else L(0))
    grown(c, sym("n"), before, after, p, cap)


@heap("try_reserve", "p c n")
def _(c):
    st = c.st
    c.returns()
    before, after, parts, ok = c.ret[3]
    p, cap = parts_of(c, parts)
    owns(c, p, cap, sym("c") * c.sc.opts["cfg"]["X"][0])
    capacity_ok(c, after, cap if c.sc.opts["cfg"]["X"][0] else L(0))
    if ok is True:
        grown(c, sym("n"), before, after, p, cap)
        return
    kept(c, p, cap)
    if st.ge(before, sym("n")):
        raise Bad("raw", "fails although the capacity suffices")
    if not st.g.get("alloc_failed") and not unreachable_size(c, sym("n")):
        raise Bad("raw", "fails although the memory can be had")


@heap("drop", "p c", two=False)
def _(c):
    c.returns()
    no_blocks(c, "a dropped heap")
    n = sum(1 for r in c.st.g.get("users", ()) for _ in range(r[3].c) if r[0] == "al")
    if "al" in c.sc.args and n != 1:
        raise Bad("alloc", "the allocator is dropped %d times" % n)


def made(c, n):
    st = c.st
    s, e = c.sc.opts["cfg"]["X"][0], c.sc.opts["cfg"]["Y"][0]
    if c.panicked:
        no_blocks(c, "a failed construction")
        if s == 0:
            ok = e != 0 and st.gt(n, 0)
        else:
            ok = st.g.get("alloc_failed") or st.gt(L(n) * e, IMAX - (s - 1))
        if not ok:
            raise Bad("raw", "panics (%s) although the memory can be had" % c.reason)
        return
    cap, parts = c.ret[3]
    p, u = parts_of(c, parts)
    owns(c, p, u)
    capacity_ok(c, cap, u if s else L(0))
    if not st.ge(cap, n):
        raise Bad("raw", "the capacity %s is less than the requested %s" % (cap, n))


@heap("with_capacity", "n", starts=(True,))
def _(c):
    made(c, sym("n"))


for o in ("optOld", "optNone"):
    @heap("with_capacity_checked", "n " + o, starts=(True,), inn=False)
    def _(c):
        made(c, sym("n"))


@heap("new", "", starts=(True,), inn=False)
def _(c):
    c.returns()
    made(c, L(0))
    if c.st.g.get("requests"):
        raise Bad("alloc", "an empty heap allocates")


SPEC_NEW = SCENS["heap_new.X8/8,Y8/8"].post


@heap("default", "", starts=(True,), inn=True)
def _(c):
    SPEC_NEW(c)


@heap("with_alloc", "", starts=(True,), inn=True)
def _(c):
    SPEC_NEW(c)


# ---------------------------------------------------------------- storages of fixed capacity
class Fixed:
    """a fixed storage: its type, its value and its exact size."""

    def __init__(self, name, ty, cfg, memory, align, make, lanes=None, const=None, ptr=None, slots=None, build=False):
        self.name, self.ty, self.cfg, self.memory, self.align = name, ty, cfg, memory, align
        self.make, self.lanes, self.const, self.ptr, self.slots, self.build = make, lanes, const, ptr, slots, build


def fixed_storages():
    for x in LAYS:
        for y in LAYS:
            cfg = {"X": x, "Y": y}
            n = sym("slots")
            yield Fixed("slice." + tag(**cfg), ("p", "UninitSlice", (X,)), cfg, n * x[0], x[1],
                        lambda c, st, x=x: slice_mem(st, x[0]), ptr=lambda c, st, v: v == ("P", sym("buf")), const="None")
    for x in LAYS:
        for z in ((1, 1), (8, 8), (0, 16), (4, 4)):
            for y in LAYS:
                cfg = {"X": x, "Y": y, "Z": z}
                a = max(x[1], z[1])
                size = -(-x[0] // a) * a
                ty = ("p", "UninitBuffer", (X, Z))
                v = ("A", ty, None, (("A", ("p", "std::MaybeUninit", (("p", "AlignedBuffer", (X, Z)),)), None, (UNINIT,)),))
                yield Fixed("buffer." + tag(**cfg), ty, cfg, L(size), a, lambda c, st, v=v: cell(st, v), const="cap", ptr=at_start, build=True)
    for y in LAYS:
        cfg = {"Y": y}
        if y[0] == 0:
            yield Fixed("zs." + tag(**cfg), ("p", "ZeroSized", (Y,)), cfg, L(0), y[1], lambda c, st: cell(st, ("A", ("p", "ZeroSized", (Y,)), None, ())), const="cap",
                        ptr=lambda c, st, v, a=y[1]: v[0] == "P" and v[1].is_const() and v[1].c > 0 and v[1].c % a == 0, build=True)
        for k in (0, 1, 2, 3, 5, 16, 31, 32):
            ty = ("arr", Y, ("const", k))
            yield Fixed("array.%s,%d" % (tag(**cfg), k), ty, cfg, L(k * y[0]), y[1], lambda c, st, k=k: cell(st, ("V", (("w", L(0), 1, L(k)),))),
                        const="cap", ptr=at_array, slots=L(k), build=True)
        ty = ("arr", Y, ("abs", "N"))
        yield Fixed("array.%s,N" % tag(**cfg), ty, cfg, sym("N") * y[0], y[1], lambda c, st, k=y[0]: array_n(st, k),
                    const="cap", ptr=at_array, slots=sym("N"), lanes=("nightly-std", "nightly-alloc", "nightly-no_std"), build=True)
        yield Fixed("init." + tag(**cfg), ("sl", Y), cfg, sym("slots") * y[0], y[1], lambda c, st, k=y[0]: slice_mem(st, k),
                    const="None", ptr=lambda c, st, v: v == ("P", sym("buf")), slots=sym("slots"))


def slice_mem(st, size):
    n = sym("slots")
    st.assume(L(UMAX) - n)
    if size:
        st.assume(L(IMAX) - n * size)
    st.assume(sym("buf") - 1)
    return ("F", ("P", sym("buf")), n)


def array_n(st, size):
    n = sym("N")
    st.assume(L(UMAX) - n)
    if size:
        st.assume(L(IMAX) - n * size)
    return cell(st, ("V", (("w", L(0), 1, n),)))


def cell(st, v):
    st.cells[("arg", "W")] = v
    return ("R", ("arg", "W"), ())


def at_start(c, st, v):
    """a pointer to the start of the storage."""
    return v[0] == "R" and v[1] == ("arg", "W")


def at_array(c, st, v):
    w = st.cells[("arg", "W")]
    return v[0] == "R" and v[1] == ("arg", "W") or v[0] == "F" and at_array(c, st, v[1]) or v[0] == "E" and w == ("B", v[1], w[2]) and st.eq(v[2], 0)


def exact(c, cap, what="the capacity"):
    """cap is the exact capacity of the fixed storage for Y."""
    fx = c.sc.opts["fixed"]
    st = c.st
    e = fx.cfg["Y"][0]
    if e == 0:
        # slots of initialised values may be fewer than the address space has
        if fx.slots is not None and what == "the capacity":
            if not st.ge(cap, IMAX) and not st.eq(cap, fx.slots):
                raise Bad("raw", "%s for zero-sized elements is %s" % (what, cap))
        elif not st.ge(cap, IMAX):
            raise Bad("raw", "%s for zero-sized elements is %s" % (what, cap))
        return
    if not (st.le(cap * e, fx.memory) and st.gt((cap + 1) * e, fx.memory)):
        raise Bad("raw", "%s %s is not exact for %s bytes and elements of %d bytes" % (what, cap, fx.memory, e))


def fixed_cap(c):
    """the capacity the storage must have, as a number of elements (decided by splitting)."""
    fx = c.sc.opts["fixed"]
    e = fx.cfg["Y"][0]
    if e == 0:
        return fx.slots
    if fx.memory.is_const():
        return L(fx.memory.c // e)
    return None


def fits(c, n):
    """do n elements fit?"""
    fx = c.sc.opts["fixed"]
    st = c.st
    e = fx.cfg["Y"][0]
    if e == 0:
        return True if fx.slots is None else st.le(n, fx.slots)
    return st.le(L(n) * e, fx.memory)


def fixed(name, args, build=False, props="C13 C18"):
    def d(f):
        for fx in fixed_storages():
            if build and not fx.build:
                continue
            env = {"W": fx.ty}
            scen("fixed_%s.%s%s" % (name, fx.name, ",none" if "optNone" in args else ""), args, props, fn="fixed_" + name, env=env, cfg=fx.cfg, raw=True, fixed=fx, zst=(False,),
                 hooks=hook(fx.cfg), copy=(fx.name.startswith(('array', 'init')),), lanes=fx.lanes or ("stable-std", "nightly-std", "stable-no_std", "nightly-no_std"), leak=True, pre=fixed_pre)(f)
        return f
    return d


def fixed_pre(c, st):
    fx = c.sc.opts["fixed"]
    c.st = st
    r = fx.make(c, st)
    c.w = r


@fixed("queries", "FW")
def _(c):
    fx = c.sc.opts["fixed"]
    c.returns()
    cap, p, q, cc, al = c.ret[3]
    exact(c, cap)
    for v, what in ((p, "as_ptr"), (q, "as_mut_ptr")):
        if not fx.ptr(c, c.st, v):
            raise Bad("raw", "%s is %s, not the storage's memory" % (what, show(v)))
    if cc[2] == "Some":
        exact(c, cc[3][0], "the constant capacity")
        if fx.cfg["Y"][0] and not c.st.eq(cc[3][0], cap):
            raise Bad("raw", "the constant capacity %s differs from the capacity %s" % (cc[3][0], cap))
    elif fx.const != "None":
        raise Bad("raw", "the storage has no constant capacity")
    want = fx.align >= fx.cfg["Y"][1]
    if al is not want:
        raise Bad("align", "IS_ALIGNED is %s for memory aligned to %d and elements aligned to %d" % (al, fx.align, fx.cfg["Y"][1]))


@fixed("reserve", "FW n", props="C13")
def _(c):
    if fits(c, sym("n")):
        c.returns("a request that fits")
    else:
        if c.sc.opts["fixed"].cfg["Y"][0] == 0 and not c.panicked:
            return
        c.must_panic("a request that doesn't fit")


@fixed("try_reserve", "FW n", props="C13")
def _(c):
    c.returns()
    w = fits(c, sym("n"))
    if not w and c.sc.opts["fixed"].cfg["Y"][0] == 0:
        return
    c.is_bool(c.ret, w, "the result of try_reserve")


def built(c, n):
    fx = c.sc.opts["fixed"]
    if fx.name.startswith("array"):
        if c.st.g.get("user_default_panicked"):
            return
    if n is not None and not fits(c, n):
        c.must_panic("a request that doesn't fit")
    else:
        c.returns("a request that fits")


@fixed("with_capacity", "n", build=True, props="C13")
def _(c):
    built(c, sym("n"))


for o in ("optOld", "optNone"):
    @fixed("checked", "n " + o, build=True, props="C13")
    def _(c):
        built(c, sym("n"))


@fixed("default", "", build=True, props="C13")
def _(c):
    c.returns()


# ---------------------------------------------------------------- UninitBuffer, ZeroSized, TypeVec
def lays(fn, args, keys, props):
    def d(f):
        import itertools
        for cs in itertools.product(LAYS, *[LAYS if k == "X" else ((1, 1), (8, 8), (0, 16), (4, 4)) if k == "Z" else LAYS for k in keys[1:]]):
            cfg = dict(zip(keys, cs))
            scen("%s.%s" % (fn, tag(**cfg)), args, props, fn=fn, cfg=cfg, raw=True, zst=(False,), hooks=hook(cfg), leak=True,
                 lanes=("stable-std", "nightly-std", "stable-no_std", "nightly-no_std"))(f)
        return f
    return d


def buf(cfg):
    a = max(cfg["X"][1], cfg["Z"][1])
    return -(-cfg["X"][0] // a) * a, a


@lays("buffer_capacity", "", "YXZ", "C13")
def _(c):
    c.returns()
    cfg = c.sc.opts["cfg"]
    e = cfg["Y"][0]
    if e:
        c.is_int(c.ret, L(buf(cfg)[0] // e), "the capacity")
    elif not c.st.ge(c.ret, IMAX):
        raise Bad("raw", "the capacity for zero-sized elements is %s" % c.ret)


@lays("type_vec_with_align", "", "YXZ", "C18")
def _(c):
    cfg = c.sc.opts["cfg"]
    if buf(cfg)[1] >= cfg["Y"][1]:
        c.returns("a construction over aligned memory")
    else:
        c.must_panic("a construction over misaligned memory")


@lays("type_vec_new", "", "YX", "C18")
def _(c):
    c.returns("a construction over aligned memory")


@lays("zs_new", "", "X", "C13")
def _(c):
    if c.sc.opts["cfg"]["X"][0]:
        c.must_panic("a zero-sized storage for elements with a size")
    else:
        c.returns()


@lays("zs_try_new", "", "X", "C13")
def _(c):
    c.returns()
    if c.sc.opts["cfg"]["X"][0]:
        c.none(c.ret)
    else:
        c.some(c.ret)


@lays("uninit_slice_of", "US", "XY", "C13 C18")
def _(c):
    c.returns()
    cfg = c.sc.opts["cfg"]
    cap, p, q, cc, al = c.ret[3]
    st = c.st
    e = cfg["Y"][0]
    mem = sym("slots") * cfg["X"][0]
    if e and not (st.le(cap * e, mem) and st.gt((cap + 1) * e, mem)):
        raise Bad("raw", "the capacity %s is not exact" % cap)
    for v in (p, q):
        if v != ("P", sym("buf")):
            raise Bad("raw", "the pointer is %s, not the buffer's" % show(v))


@lays("uninit_slice_mut", "US", "X", "C13")
def _(c):
    c.returns()
    f = c.ret
    if f[0] != "F" or f[1] != ("P", sym("buf")):
        raise Bad("raw", "the slice is %s, expected the whole buffer" % show(f))
    c.is_int(f[2], sym("slots"), "the length of the slice")
