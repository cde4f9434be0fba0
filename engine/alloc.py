"""Concrete layouts and an abstract allocator: a ledger of blocks with the layout they were
allocated with.  Used by the scenarios that analyse the storages themselves."""
from .core import UNIT, Alarm, Dead, Unknown
from .interp import SIZES, head_name
from .lin import IMAX, UMAX, L, Lin, sym
from .prims import CONTROL, NONE, do_panic, err, ok, prim, some, tup

LAYOUT = ("p", "std::Layout", ())


# ---------------------------------------------------------------- sizes
def lay(ip, cfg, t):
    """(size, align) of a type; sizes may be linear in an array length."""
    k = t[0]
    if k == "abs":
        if t[1] in cfg:
            s, a = cfg[t[1]]
            return L(s), a
        raise Unknown("layout of %s" % (t,))
    if k == "arr":
        s, a = lay(ip, cfg, t[1])
        return s * ip.const_len(t[2]), a
    if k in ("ref", "ptr"):
        return L(16 if t[2][0] == "sl" else 8), 8
    if k == "tup":
        if not t[1]:
            return L(0), 1
        raise Unknown("layout of a tuple")
    if k == "p":
        n = t[1]
        if n in SIZES:
            return L(SIZES[n]), SIZES[n]
        if n in ("std::MaybeUninit", "std::ManuallyDrop", "std::UnsafeCell", "std::Cell"):
            return lay(ip, cfg, t[2][0])
        if n in ("std::PhantomData", "std::Global"):
            return L(0), 1
        if n in ("std::NonNull", "std::Box"):
            return L(8), 8
        fl = ip.w.field_types(t)
        if fl is not None:
            fs = [lay(ip, cfg, x) for _, x in fl]
            if "C" not in ip.w.struct_types[t[1]][2]:
                fs.sort(key=lambda x: -x[1])
            size, al = L(0), 1
            for s, a in fs:
                size = up(size, a) + s
                al = max(al, a)
            return up(size, al), al
    raise Unknown("layout of %s" % (t,))


def up(size, a):
    if a == 1:
        return size
    if not size.is_const():
        if size.c % a == 0 and all(v % a == 0 for v in size.t.values()):
            return size
        raise Unknown("rounding of %s" % size)
    return L(-(-size.c // a) * a)


def hooks(cfg):
    return {"size_of": lambda ip, st, t: lay(ip, cfg, t)[0],
            "align_of": lambda ip, st, t: L(lay(ip, cfg, t)[1])}


# ---------------------------------------------------------------- layouts
def layout(size, align):
    return ("A", LAYOUT, None, (L(size), L(align)))


def parts(ip, st, v):
    if v[0] in ("R", "X"):
        from .prims import load_ref
        v = load_ref(ip, st, v)
    if v[0] == "A" and v[1] == LAYOUT:
        return v[3]
    raise Unknown("layout %s" % (v,))


LERR = ("A", ("p", "std::LayoutError", ()), None, ())
AERR = ("A", ("p", "std::AllocError", ()), None, ())


def valid(ip, st, size, align):
    """is (size, align) a layout?  The limit on the size is the one of the toolchain's core."""
    if not align.is_const():
        raise Unknown("alignment %s" % align)
    a = align.c
    if a <= 0 or a & (a - 1):
        return False
    lim = (UMAX if ip.w.lane.startswith("nightly") else IMAX) - (a - 1)
    return st.le(size, lim)


@prim("Layout::new")
def _(ip, c):
    t = c.targs[0]
    return layout(ip.ty_size(c.st, t), ip.ty_align(c.st, t))


@prim("Layout::for_value")
def _(ip, c, r):
    t = c.targs[0]
    if t[0] == "sl":
        return layout(ip.ty_size(c.st, t[1]) * r[2], ip.ty_align(c.st, t[1]))
    return layout(ip.ty_size(c.st, t), ip.ty_align(c.st, t))


@prim("Layout::size")
def _(ip, c, l):
    return parts(ip, c.st, l)[0]


@prim("Layout::align")
def _(ip, c, l):
    return parts(ip, c.st, l)[1]


@prim("Layout::from_size_align")
def _(ip, c, s, a):
    return ok(layout(s, a)) if valid(ip, c.st, s, a) else err(LERR)


@prim("Layout::from_size_align_unchecked")
def _(ip, c, s, a):
    if not valid(ip, c.st, s, a):
        raise Alarm("alloc", "makes a layout with the invalid size %s" % s)
    return layout(s, a)


@prim("Layout::array")
def _(ip, c, n):
    t = c.targs[0]
    s, a = ip.ty_size(c.st, t), ip.ty_align(c.st, t)
    return ok(layout(s * n, a)) if valid(ip, c.st, s * n, a) else err(LERR)


@prim("Layout::repeat")
def _(ip, c, l, n):
    st = c.st
    s, a = parts(ip, st, l)
    s = up(s, a.c)
    t = s * n
    if ip.w.lane.startswith("nightly"):
        if st.gt(t, UMAX):
            return err(LERR)
    elif not valid(ip, st, t, a):
        return err(LERR)
    return ok(tup(layout(t, a), s))


@prim("Layout::pad_to_align")
def _(ip, c, l):
    s, a = parts(ip, c.st, l)
    return layout(up(s, a.c), a)


@prim("Layout::align_to")
def _(ip, c, l, a):
    s, b = parts(ip, c.st, l)
    n = L(max(a.c, b.c))
    return ok(layout(s, n)) if valid(ip, c.st, s, n) else err(LERR)


@prim("Layout::dangling")
def _(ip, c, l):
    return ("P", parts(ip, c.st, l)[1])


# ---------------------------------------------------------------- the allocator
def block(st, name, size, align, origin=None, most=None):
    st.g["blk:" + name] = (L(size), L(most if most is not None else size), L(align), True, origin)
    return ("P", sym(name))


def fresh(st, size, align, origin=None, slack=False):
    k = st.g.get("#blk", 1)
    st.g["#blk"] = k + 1
    name = "blk%d" % k
    st.assume(sym(name) - 1)
    st.assume(L(UMAX) - sym(name))
    most = None
    if slack:
        most = sym("most%d" % k)
        st.assume(most - size)
        st.assume(L(IMAX) - most)
    return block(st, name, size, align, origin, most), most


def name_of(p):
    if p[0] == "F":
        p = p[1]
    if p[0] == "P" and p[1].c == 0 and len(p[1].t) == 1:
        (k, v), = p[1].t.items()
        if v == 1 and isinstance(k, str) and k.startswith("blk"):
            return k
    return None


def take(st, p, size, align, what):
    """the block at p, which must be live and have this layout."""
    n = name_of(p)
    b = st.g.get("blk:" + n) if n else None
    if b is None:
        raise Alarm("alloc", "%s memory that it did not allocate" % what)
    if not b[3]:
        raise Alarm("alloc", "%s a block that was released" % what)
    if not (st.ge(size, b[0]) and st.le(size, b[1])) or not st.eq(align, b[2]):
        raise Alarm("alloc", "%s a block with a layout (%s, %s) other than the one it was allocated with (%s, %s)" % (what, size, align, b[0], b[2]))
    return n, b


def check_size(ip, st, size, align):
    if st.le(size, 0):
        raise Alarm("alloc", "allocates zero bytes")
    if st.gt(size, IMAX - (align.c - 1)):
        raise Alarm("alloc", "allocates more than the address space can hold")


def fails(st):
    if st.choose(2) == 1:
        st.g["alloc_failed"] = True
        return True
    return False


def asked(st):
    st.g["requests"] = st.g.get("requests", 0) + 1


@prim("alloc::alloc", "alloc::alloc_zeroed")
def _(ip, c, l):
    st = c.st
    s, a = parts(ip, st, l)
    check_size(ip, st, s, a)
    asked(st)
    if fails(st):
        return ("P", L(0))
    return fresh(st, s, a)[0]


@prim("alloc::dealloc")
def _(ip, c, p, l):
    st = c.st
    s, a = parts(ip, st, l)
    n, b = take(st, p, s, a, "releases")
    st.g["blk:" + n] = b[:3] + (False,) + b[4:]
    return UNIT


@prim("alloc::realloc")
def _(ip, c, p, l, new):
    st = c.st
    s, a = parts(ip, st, l)
    n, b = take(st, p, s, a, "reallocates")
    check_size(ip, st, new, a)
    asked(st)
    if fails(st):
        return ("P", L(0))
    return moved(st, n, b, new, a)


def moved(st, n, b, new, a, slack=False):
    o = b[4]
    if o is not None:
        o = (o[0], o[1] if st.le(o[1], new) else new)
    st.g["blk:" + n] = b[:3] + (False,) + b[4:]
    r = fresh(st, new, a, o, slack)
    return r if slack else r[0]


@prim("alloc::handle_alloc_error")
def _(ip, c, l):
    return do_panic(ip, c, "alloc_error")


@prim("Allocator::allocate", "Allocator::allocate_zeroed")
def _(ip, c, r, l):
    st = c.st
    s, a = parts(ip, st, l)
    check_size(ip, st, s, a)
    asked(st)
    if fails(st):
        return err(AERR)
    p, most = fresh(st, s, a, None, True)
    return ok(("F", p, most))


@prim("Allocator::deallocate")
def _(ip, c, r, p, l):
    st = c.st
    s, a = parts(ip, st, l)
    n, b = take(st, p, s, a, "releases")
    st.g["blk:" + n] = b[:3] + (False,) + b[4:]
    return UNIT


@prim("Allocator::grow", "Allocator::grow_zeroed")
def _(ip, c, r, p, old, new):
    return regrow(ip, c, p, old, new, True)


@prim("Allocator::shrink")
def _(ip, c, r, p, old, new):
    return regrow(ip, c, p, old, new, False)


def regrow(ip, c, p, old, new, grow):
    st = c.st
    s, a = parts(ip, st, old)
    n, b = take(st, p, s, a, "reallocates")
    s2, a2 = parts(ip, st, new)
    check_size(ip, st, s2, a2)
    if not (st.ge(s2, s) if grow else st.le(s2, s)):
        raise Alarm("alloc", "%s a block from %s to %s bytes" % ("grows" if grow else "shrinks", s, s2))
    asked(st)
    if fails(st):
        return err(AERR)
    p2, most = moved(st, n, b, s2, a2, True)
    return ok(("F", p2, most))


def copy_bytes(st, src, dst, n):
    """copies bytes between blocks (ptr::copy on raw memory)."""
    a, b = name_of(src), name_of(dst)
    if a is None or b is None:
        return False
    x, y = st.g["blk:" + a], st.g["blk:" + b]
    if not x[3] or not y[3]:
        raise Alarm("memory", "copies from or to released memory")
    if not st.le(n, x[0]) or not st.le(n, y[1]):
        raise Alarm("memory", "copies outside a block")
    o = x[4]
    if o is not None:
        o = (o[0], o[1] if st.le(o[1], n) else n)
    st.g["blk:" + b] = y[:4] + (o,)
    return True
