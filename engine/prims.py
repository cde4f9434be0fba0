"""Abstract transformers of the standard library functions the crate calls, of
the abstract element type, the abstract storage and user code."""
from . import core
from .core import UNINIT, UNIT, Alarm, Dead, Frame, Region, Unknown
from .interp import CONTROL, GHOSTS, SIZES, T_ABS, USIZE, Call, nat_drops, show
from .lin import IMAX, UMAX, L, Lin, sym

TABLE = {}
OPT = ("p", "std::Option", ())
BOOL = ("p", "bool", ())


def prim(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def some(v):
    return ("A", OPT, "Some", (v,))


NONE = ("A", OPT, "None", ())


def ok(v):
    return ("A", ("p", "std::Result", ()), "Ok", (v,))


def err(v):
    return ("A", ("p", "std::Result", ()), "Err", (v,))


def opt(st, cond, v):
    return some(v) if cond else NONE


def tup(*vs):
    return ("A", ("tup", ("?",) * len(vs)), None, tuple(vs))


def agg(name, *vs):
    return ("A", ("p", name, ()), None, tuple(vs))


def control(c, r):
    c.result = r
    return CONTROL


def do_panic(ip, c, reason):
    return control(c, ip.panic(c.st, reason, c.unwind))


def is_t(ip, t):
    return t == T_ABS


def wraps_t(t):
    while t[0] == "p" and t[1] in ("std::MaybeUninit", "std::ManuallyDrop"):
        t = t[2][0]
    return t == T_ABS


# ------------------------------------------------------------------ integers
def _ints(name):
    return ["%s::%s" % (t, name) for t in ("usize", "u64", "u128", "isize")]


def rng(t):
    return UMAX


def tmax(c):
    if c.selfty and c.selfty[0] == "p" and c.selfty[1] == "u128":
        return (1 << 128) - 1
    return UMAX


@prim(*_ints("checked_add"))
def _(ip, c, a, b):
    v = a + b
    return opt(c.st, c.st.le(v, tmax(c)), v)


@prim(*_ints("checked_sub"))
def _(ip, c, a, b):
    v = a - b
    return opt(c.st, c.st.ge(v, 0), v)


@prim(*_ints("checked_mul"))
def _(ip, c, a, b):
    v = a * b
    return opt(c.st, c.st.le(v, tmax(c)), v)


@prim(*_ints("wrapping_add"))
def _(ip, c, a, b):
    if tmax(c) != UMAX:
        return a + b
    return ip.wrap(c.st, a + b)


@prim(*_ints("wrapping_sub"))
def _(ip, c, a, b):
    if tmax(c) != UMAX:
        return a - b
    return ip.wrap(c.st, a - b)


@prim(*_ints("wrapping_mul"))
def _(ip, c, a, b):
    v = a * b
    if not c.st.le(v, tmax(c)):
        raise Unknown("wrapping multiplication")
    return v


@prim(*_ints("saturating_mul"))
def _(ip, c, a, b):
    v = a * b
    return v if c.st.le(v, tmax(c)) else L(tmax(c))


@prim(*_ints("saturating_add"))
def _(ip, c, a, b):
    v = a + b
    return v if c.st.le(v, tmax(c)) else L(tmax(c))


@prim(*_ints("saturating_sub"))
def _(ip, c, a, b):
    v = a - b
    return v if c.st.ge(v, 0) else L(0)


@prim(*_ints("overflowing_add"))
def _(ip, c, a, b):
    v = a + b
    o = c.st.gt(v, UMAX)
    return tup(ip.wrap(c.st, v), o)


@prim(*_ints("overflowing_sub"))
def _(ip, c, a, b):
    v = a - b
    o = c.st.lt(v, 0)
    return tup(ip.wrap(c.st, v), o)


@prim(*_ints("abs_diff"))
def _(ip, c, a, b):
    return a - b if c.st.ge(a, b) else b - a


@prim("Ord::max", "cmp::max")
def _(ip, c, a, b):
    if not isinstance(a, Lin):
        raise Unknown("max")
    return b if c.st.le(a, b) else a


@prim("Ord::min", "cmp::min")
def _(ip, c, a, b):
    if not isinstance(a, Lin):
        raise Unknown("min")
    return a if c.st.le(a, b) else b


def user_order(ip, c, name, s, ra, rb):
    h = ip.hooks.get("order", {}).get(s[1])
    if h is None:
        raise Unknown("ordering of %s" % (s,))
    return h(ip, c, name, ra, rb)


@prim("Ord::cmp")
def _(ip, c, ra, rb):
    if c.selfty is not None and c.selfty[0] == "abs":
        return user_order(ip, c, "cmp", c.selfty, ra, rb)
    a, b = load_ref(ip, c.st, ra), load_ref(ip, c.st, rb)
    if isinstance(a, Lin) and isinstance(b, Lin):
        o = ("p", "std::Ordering", ())
        if c.st.lt(a, b):
            return ("A", o, "Less", ())
        if c.st.eq(a, b):
            return ("A", o, "Equal", ())
        return ("A", o, "Greater", ())
    return slice_op(ip, c, "cmp", ra, rb)


# ------------------------------------------------------------------ pointers
def ptr_add(ip, st, p, n):
    if p[0] == "E":
        off = p[2] + n
        r = st.regs.get(p[1])
        if r is None:
            raise Unknown("pointer to an unknown region")
        if p[3] == r.gen:
            if not (st.ge(off, 0) and st.le(off, r.cap)):
                raise Alarm("memory", "pointer arithmetic leaves the allocation")
        return ("E", p[1], off, p[3])
    if isinstance(n, Lin) and n.is_const() and n.c == 0:
        return p
    if p[0] == "P":
        return p
    if p[0] == "R" and st.eq(n, 0):
        return p
    raise Unknown("arithmetic on %s" % (show(p),))


def pointee(c):
    return c.targs[0] if c.targs else T_ABS


def zst_ptr(ip, c):
    t = pointee(c)
    return ip.zst and wraps_t(t)


def add_n(ip, c, p, n):
    if zst_ptr(ip, c):
        return p
    t = pointee(c)
    if t[0] == "arr":
        n = n * ip.const_len(t[2])
    if p[0] == "P":
        if c.st.eq(n, 0):
            return p
        h = ip.hooks.get("ptr_add")
        if h:
            return h(ip, c, p, n)
        return ("P", p[1] + n * ip.ty_size(c.st, t))
    if p[0] == "R" and wraps_t(t) and not (n.is_const() and n.c == 0):
        p = slots(ip, c.st, p)
    return ptr_add(ip, c.st, p, n)


@prim("ptr::add", "ptr::wrapping_add", "NonNull::add")
def _(ip, c, p, n):
    return add_n(ip, c, p, n)


@prim("ptr::sub", "ptr::wrapping_sub", "NonNull::sub")
def _(ip, c, p, n):
    return add_n(ip, c, p, -n)


@prim("ptr::offset", "ptr::wrapping_offset", "NonNull::offset")
def _(ip, c, p, n):
    return add_n(ip, c, p, n)


def ptr_diff(ip, st, a, b):
    """Lin difference in slots, True (equal), False (unrelated) or None."""
    if a[0] == "F" and b[0] == "F":
        a, b = a[1], b[1]
    if a[0] == "E" and b[0] == "E":
        if a[1] != b[1]:
            return False
        if a[3] != b[3]:
            raise Unknown("compares pointers across a reallocation")
        return a[2] - b[2]
    if a[0] == "P" and b[0] == "P":
        return a[1] - b[1]
    if a[0] == "R" and b[0] == "R":
        return True if a == b else False
    if a[0] in ("E", "R", "P") and b[0] in ("E", "R", "P"):
        return False
    return None


@prim("ptr::offset_from", "ptr::sub_ptr", "ptr::offset_from_unsigned", "NonNull::offset_from")
def _(ip, c, a, b):
    if zst_ptr(ip, c):
        raise Alarm("panic", "offset_from on pointers to zero-sized elements panics")
    if a[0] == "E" and b[0] == "E":
        if a[1] != b[1]:
            raise Alarm("memory", "offset_from between different allocations")
        if a[3] != b[3]:
            raise Alarm("memory", "offset_from with a pointer from before a reallocation")
        return a[2] - b[2]
    raise Unknown("offset_from %s %s" % (show(a), show(b)))


@prim("ptr::cast", "NonNull::cast", "ptr::cast_mut", "ptr::cast_const", "NonNull::as_ptr", "NonNull::new_unchecked",
      "Unique::as_ptr", "ptr::as_mut_ptr", "ptr::as_ptr")
def _(ip, c, p, *r):
    if p[0] == "F" and c.targs and c.targs[-1][0] not in ("sl",) and len(c.targs) > 1 and not ip.unsized(c.targs[-1]):
        return p[1]
    return p


@prim("From::from", "Into::into")
def _(ip, c, v):
    s = c.selfty
    if s[0] == "p" and s[1] == "std::NonNull":
        return v
    if s[0] == "p" and s[1] in ("usize", "u64", "u128") and isinstance(v, Lin):
        return v
    if s == ("p", "std::NoneError", ()):
        return v
    raise Unknown("From for %s" % (s,))


@prim("ptr::addr", "ptr::expose_provenance")
def _(ip, c, p):
    return ptr_to_int(ip, c.st, p)


def ptr_to_int(ip, st, v):
    if v[0] == "P":
        return v[1]
    if v[0] == "E":
        a = sym("addr_%s_%d" % (v[1], v[3]))
        return a + v[2] * ip.ty_size(st, T_ABS)
    if v[0] == "F":
        return ptr_to_int(ip, st, v[1])
    raise Unknown("address of %s" % (show(v),))


@prim("ptr::is_null")
def _(ip, c, p):
    if p[0] == "P":
        return c.st.eq(p[1], 0)
    return False


@prim("ptr::null_mut", "ptr::null")
def _(ip, c):
    return ("P", L(0))


@prim("NonNull::dangling", "ptr::dangling_mut", "ptr::dangling", "ptr::without_provenance_mut")
def _(ip, c, *a):
    if a:
        return ("P", a[0])
    c.st.assume(ip.ty_align(c.st, pointee(c)) - 1)
    return ("P", ip.ty_align(c.st, pointee(c)))


@prim("NonNull::new")
def _(ip, c, p):
    if p[0] == "P":
        return NONE if c.st.eq(p[1], 0) else some(p)
    return some(p)


@prim("NonNull::as_ref", "NonNull::as_mut")
def _(ip, c, r):
    return load_ref(ip, c.st, r)


@prim("ptr::as_ref", "ptr::as_mut")
def _(ip, c, p):
    return some(p)


def load_ref(ip, st, r, ty=None):
    """value behind a reference."""
    if r[0] == "R":
        return ip.load(st, ("c", r[1], r[2]))
    if r[0] == "E" or r[0] == "P":
        return ip.load(st, ("e" if r[0] == "E" else "z", r), ty)
    if r[0] == "X":
        return ip.load(st, ("c", r[1], ()))
    if r[0] == "F":
        return r
    raise Unknown("load through %s" % (show(r),))


def store_ref(ip, st, r, v):
    if r[0] == "R":
        ip.store(st, ("c", r[1], r[2]), v)
    elif r[0] == "E":
        ip.write_at(st, r, v)
    elif r[0] == "P":
        pass
    elif r[0] == "X":
        ip.store(st, ("c", r[1], ()), v)
    else:
        raise Unknown("store through %s" % (show(r),))


@prim("ptr::read", "ptr::read_unaligned", "NonNull::read")
def _(ip, c, p):
    st = c.st
    if p[0] == "R":
        if pointee(c)[0] == "arr":
            p = array_place(ip, st, p)
        elif wraps_t(pointee(c)) and in_array(ip, st, p):
            if ip.zst:
                return ("T", "z", L(0))
            c2 = slots(ip, st, p)
            v = ip.read_at(st, c2, pointee(c))
            st.mark_stale(c2, L(1))
            return v
        v = ip.load(st, ("c", p[1], p[2]))
        if v[0] == "B" and pointee(c)[0] == "arr":
            e = ("E", v[1], L(0), st.region(v[1]).gen)
            v = ip.read_at(st, e, pointee(c))
            st.mark_stale(e, ip.const_len(pointee(c)[2]))
            return v
        h = ip.hooks.get("read_cell")
        if h:
            v = h(ip, c, p, v)
        return v
    if p[0] == "F" and pointee(c)[0] == "arr":
        p = p[1]
    if p[0] == "P" and not ip.zst:
        raise Alarm("memory", "reads through a dangling pointer")
    v = ip.read_at(st, p, pointee(c))
    if p[0] == "E":
        t = pointee(c)
        st.mark_stale(p, ip.const_len(t[2]) if t[0] == "arr" else L(1))
    return v


@prim("ptr::write", "ptr::write_unaligned", "NonNull::write")
def _(ip, c, p, v):
    st = c.st
    if p[0] == "P" and not ip.zst:
        raise Alarm("memory", "writes through a dangling pointer")
    if p[0] == "R" and isinstance(v, tuple) and v[0] == "T":
        if ip.zst and in_array(ip, st, p):
            return UNIT
        p = slots(ip, st, p)
    if p[0] == "R":
        ip.store(st, ("c", p[1], p[2]), v)
    else:
        ip.write_at(st, p, v)
    return UNIT


@prim("ptr::replace", "mem::replace")
def _(ip, c, p, v):
    st = c.st
    if p[0] in ("E", "P"):
        old = ip.read_at(st, p, T_ABS)
    else:
        old = load_ref(ip, st, p)
    store_ref(ip, st, p, v)
    return old


def as_int_len(ip, c, n):
    t = pointee(c)
    if t[0] == "arr":
        return n * ip.const_len(t[2])
    return n


def copy(ip, c, src, dst, n, overlap_ok):
    st = c.st
    if zst_ptr(ip, c) or (ip.zst and src[0] == "P"):
        return UNIT
    n = as_int_len(ip, c, n)
    if src[0] == "P" or dst[0] == "P":
        if st.eq(n, 0):
            return UNIT
        if src[0] == "P" and dst[0] == "P":
            from . import alloc
            if alloc.copy_bytes(st, src, dst, n * ip.ty_size(st, pointee(c))):
                return UNIT
        raise Alarm("memory", "copies through a dangling pointer")
    if pointee(c)[0] != "arr":
        src, dst = slots(ip, st, src), slots(ip, st, dst)
    if src[0] == "R" or dst[0] == "R":
        if st.eq(n, 0):
            return UNIT
        if not st.eq(n, 1):
            raise Unknown("copy of several values from a cell")
        v = load_ref(ip, st, src)
        store_ref(ip, st, dst, v)
        return UNIT
    if src[0] != "E" or dst[0] != "E":
        raise Unknown("copy %s %s" % (show(src), show(dst)))
    if not overlap_ok and src[1] == dst[1]:
        if not (st.le(n, 0) or st.ge(src[2], dst[2] + n) or st.ge(dst[2], src[2] + n)):
            raise Alarm("memory", "copy_nonoverlapping of overlapping slots")
    runs = st.runs_at(src, n, "copy from")
    st.mark_stale(src, n)
    st.put_runs(dst, n, runs, "copy to")
    return UNIT


@prim("ptr::copy_from")
def _(ip, c, dst, src, n):
    return copy(ip, c, src, dst, n, True)


@prim("ptr::copy_from_nonoverlapping")
def _(ip, c, dst, src, n):
    return copy(ip, c, src, dst, n, False)


@prim("ptr::copy", "ptr::copy_to", "intrinsics::copy")
def _(ip, c, src, dst, n):
    return copy(ip, c, src, dst, n, True)


@prim("ptr::copy_nonoverlapping", "ptr::copy_to_nonoverlapping", "intrinsics::copy_nonoverlapping")
def _(ip, c, src, dst, n):
    return copy(ip, c, src, dst, n, False)


@prim("ptr::swap", "mem::swap")
def _(ip, c, a, b):
    st = c.st
    if a[0] in ("P", "E") and b[0] in ("P", "E"):
        va = ip.read_at(st, a, T_ABS)
        vb = ip.read_at(st, b, T_ABS)
    else:
        va = load_ref(ip, st, a)
        vb = load_ref(ip, st, b)
    if a[0] == "E" and b[0] == "E" and a[1] == b[1]:
        st.eq(a[2], b[2])
        # decide the geometry before the first write
        snap = st.copy()
        try:
            store_ref(ip, st, a, vb)
            store_ref(ip, st, b, va)
        except (core.Fork, core.Choice):
            st.regs = snap.regs
            raise
        return UNIT
    store_ref(ip, st, a, vb)
    store_ref(ip, st, b, va)
    return UNIT


@prim("ptr::drop_in_place", "NonNull::drop_in_place")
def _(ip, c, p):
    st = c.st
    if p[0] == "E" or (p[0] == "P" and ip.zst and pointee(c)[0] != "arr"):
        t = pointee(c)
        n = L(1)
        if t[0] == "arr":
            n = ip.const_len(t[2])
        task = ("elems", p, n)
    elif p[0] == "P":
        t = pointee(c)
        if t[0] == "arr" and ip.zst:
            task = ("elems", p, ip.const_len(t[2]))
        else:
            raise Alarm("memory", "drops through a dangling pointer")
    elif p[0] == "F":
        if p[1][0] == "P" and not ip.zst:
            if not st.eq(p[2], 0):
                raise Alarm("memory", "drops through a dangling pointer")
        if p[1][0] == "R":
            q = array_place(ip, st, p[1])
            x = load_ref(ip, st, q)
            if not (isinstance(x, tuple) and x[0] in ("V", "B")):
                raise Unknown("drop of an array in a cell")
            f = ip.cast_value(st, None, q, ("ref", True, ("sl", T_ABS)))
            if not ip.zst and not st.le(p[2], f[2]):
                raise Alarm("memory", "drops elements outside the array")
            p = ("F", f[1], p[2])
        task = ("elems", p[1], p[2])
    elif p[0] == "R":
        task = ("place", ("c", p[1], p[2]))
    else:
        raise Unknown("drop_in_place %s" % (show(p),))
    ip.push_nat(st, nat_drops, (task,), c.dest, c.ret, c.unwind)
    return control(c, None)


@prim("mem::drop")
def _(ip, c, v):
    st = c.st
    d = st.fr.depth + 1 if st.fr is not None else 0
    key = ("d", d)
    st.cells[key] = v
    ip.push_nat(st, nat_drops, (("place", ("c", key, ())),), c.dest, c.ret, c.unwind)
    return control(c, None)


@prim("mem::forget")
def _(ip, c, v):
    forget(ip, c.st, v)
    return UNIT


def forget(ip, st, v):
    """records what a forgotten value owned."""
    if isinstance(v, (Lin, bool)):
        return
    if v[0] == "T":
        if not ip.zst:
            st.log("forgotten", ((v[1], v[2], 1, L(1)),))
        else:
            st.count("forgot")
    elif v[0] == "V":
        if ip.zst:
            for r in v[1]:
                st.count("forgot", r[3])
        else:
            st.log("forgotten", v[1])
    elif v[0] == "S":
        st.log("leaked", ((v[1], L(0), 1, L(1)),))


@prim("mem::size_of", "intrinsics::size_of")
def _(ip, c):
    return ip.ty_size(c.st, c.targs[0])


@prim("mem::align_of", "mem::min_align_of", "intrinsics::min_align_of")
def _(ip, c):
    return ip.ty_align(c.st, c.targs[0])


@prim("mem::needs_drop", "intrinsics::needs_drop")
def _(ip, c):
    return not ip.w.mode_copy


@prim("mem::take")
def _(ip, c, r):
    v = load_ref(ip, c.st, r)
    if isinstance(v, Lin):
        store_ref(ip, c.st, r, L(0))
        return v
    if isinstance(v, bool):
        store_ref(ip, c.st, r, False)
        return v
    raise Unknown("mem::take")


@prim("ManuallyDrop::new")
def _(ip, c, v):
    return ("A", ("p", "std::ManuallyDrop", c.targs[:1]), None, (v,))


@prim("ManuallyDrop::into_inner")
def _(ip, c, v):
    return v[3][0]


@prim("ManuallyDrop::drop")
def _(ip, c, r):
    if r[0] != "R":
        raise Unknown("ManuallyDrop::drop")
    ip.push_nat(c.st, nat_drops, (("place", ("c", r[1], r[2] + (0,))),), c.dest, c.ret, c.unwind)
    return control(c, None)


@prim("ManuallyDrop::take")
def _(ip, c, r):
    return load_ref(ip, c.st, r)[3][0]


@prim("MaybeUninit::uninit")
def _(ip, c):
    t = c.targs[0]
    if t[0] == "arr":
        n = ip.const_len(t[2])
        if wraps_t(t[1]) and ip.zst:
            return ("A", ("p", "std::MaybeUninit", (t,)), None, (("V", (("z", L(0), 0, n),)),))
        return ("A", ("p", "std::MaybeUninit", (t,)), None, (("V", ((None, L(0), 0, n),)),))
    return ("A", ("p", "std::MaybeUninit", (t,)), None, (UNINIT,))


@prim("MaybeUninit::new")
def _(ip, c, v):
    return ("A", ("p", "std::MaybeUninit", c.targs[:1]), None, (v,))


@prim("MaybeUninit::assume_init", "MaybeUninit::assume_init_read")
def _(ip, c, v):
    if v[0] in ("R", "E", "P"):
        v = load_ref(ip, c.st, v)
    if v[0] == "A":
        if v[3][0] == UNINIT:
            raise Alarm("memory", "assume_init of an uninitialised value")
        x = v[3][0]
        if isinstance(x, tuple) and x[0] == "B" and v[1][1] == "std::MaybeUninit" and v[1][2] and v[1][2][0][0] == "arr":
            # the array moves out of the slots it had
            e = ("E", x[1], L(0), c.st.region(x[1]).gen)
            x = ip.read_at(c.st, e, v[1][2][0])
            c.st.mark_stale(e, c.st.region(x[1]).cap if x[0] == "B" else ip.const_len(v[1][2][0][2]))
            return x
        return v[3][0]
    return v


@prim("MaybeUninit::as_ptr", "MaybeUninit::as_mut_ptr", "MaybeUninit::assume_init_ref", "MaybeUninit::assume_init_mut")
def _(ip, c, r):
    if r[0] == "R":
        h = ip.hooks.get("mu_ptr")
        if h:
            v = h(ip, c, r)
            if v is not None:
                return v
        return ("R", r[1], r[2] + (0,))
    return r


@prim("MaybeUninit::write")
def _(ip, c, r, v):
    if r[0] == "R":
        ip.store(c.st, ("c", r[1], r[2] + (0,)), v)
        return ("R", r[1], r[2] + (0,))
    store_ref(ip, c.st, r, v)
    return r


@prim("mem::transmute_copy", "mem::transmute", "intrinsics::transmute")
def _(ip, c, r):
    h = ip.hooks.get("transmute")
    if h:
        v = h(ip, c, r)
        if v is not None:
            return v
    v = transmute(ip, c, r)
    if v is not None:
        return v
    raise Unknown("transmute")


def transmute(ip, c, r):
    """reinterprets a C struct as another one with the same fields."""
    st = c.st
    if len(c.targs) < 2:
        return None
    v = load_ref(ip, st, r) if r[0] == "R" else r
    src, dst = c.targs[0], c.targs[1]
    while src[0] == "p" and src[1] in ("std::ManuallyDrop", "std::MaybeUninit"):
        src = src[2][0]
        v = v[3][0]
    a, b = ip.w.field_types(src), ip.w.field_types(dst)
    if a is None or b is None or v[0] != "A":
        return None
    for t in (src, dst):
        if "C" not in ip.w.struct_types[t[1]][2]:
            raise Alarm("memory", "reinterprets %s, whose layout is not defined" % t[1])
    if [t for _, t in a] != [t for _, t in b]:
        raise Alarm("memory", "reinterprets %s as %s, which has other fields" % (src[1], dst[1]))
    return ("A", dst, None, v[3])


def in_array(ip, st, p):
    """(place, value) of the array, if p points to a local variable that holds one."""
    if p[0] != "R":
        return None
    try:
        q = array_place(ip, st, p)
        v = ip.load(st, ("c", q[1], q[2]))
    except Unknown:
        return None
    return (q, v) if isinstance(v, tuple) and v[0] in ("V", "B") else None


def slots(ip, st, p):
    """a pointer to the first slot, if p points to a local variable that holds an array."""
    x = in_array(ip, st, p) if not ip.zst else None
    if x is None:
        return p
    q, v = x
    rid = ip.to_region(st, ("c", q[1], q[2]), v)
    return ("E", rid, L(0), st.region(rid).gen)


def array_place(ip, st, p):
    """the place of the array that starts where the storage behind the reference starts."""
    for _ in range(6):
        v = ip.load(st, ("c", p[1], p[2]))
        if not (isinstance(v, tuple) and v[0] == "A"):
            return p
        ty = v[1]
        if ty[0] != "p" or v[2] is not None:
            return p
        k = 0
        if ty[1] not in ("std::MaybeUninit", "std::ManuallyDrop") and len(v[3]) > 1:
            fl = ip.w.field_types(ty)
            if fl is None or "C" not in ip.w.struct_types[ty[1]][2]:
                return p
            while k < len(fl) and empty(fl[k][1]):
                k += 1
        if k >= len(v[3]):
            return p
        p = ("R", p[1], p[2] + (k,))
    return p


def empty(t):
    """a type without bytes."""
    if t[0] == "arr":
        return t[2] == ("const", 0) or empty(t[1])
    return t[0] == "p" and (t[1] == "std::PhantomData" or t[1] in ("std::MaybeUninit", "std::ManuallyDrop") and empty(t[2][0]))


# ------------------------------------------------------------------ deref
@prim("Deref::deref", "DerefMut::deref_mut")
def _(ip, c, r):
    st = c.st
    s = c.selfty
    if s[0] == "p" and s[1] == "std::ManuallyDrop":
        if r[0] == "R":
            return ("R", r[1], r[2] + (0,))
        return r
    if s[0] in ("ref",):
        return load_ref(ip, st, r)
    if s[0] == "p" and s[1] == "std::Vec":
        v = load_ref(ip, st, r)
        return ("F", vec_ptr(ip, st, v), v[2])
    if s[0] == "p" and s[1] == "std::Box":
        v = load_ref(ip, st, r)
        return ("R", v[1], ())
    raise Unknown("deref of %s" % (s,))


@prim("AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut")
def _(ip, c, r):
    if c.selfty[0] == "sl":
        return r
    if c.selfty[0] == "arr":
        return ip.cast_value(c.st, None, r, ("ref", False, ("sl", T_ABS)))
    if c.selfty[0] == "abs":
        return user_as_ref(ip, c, r)
    raise Unknown("as_ref of %s" % (c.selfty,))


def user_as_ref(ip, c, r):
    h = ip.hooks.get("as_ref")
    if h:
        return h(ip, c, r)
    raise Unknown("AsRef of a user type")


# ------------------------------------------------------------------ slices
def sub(ip, st, f, a, n):
    p = f[1]
    if p[0] == "E":
        return ("F", ("E", p[1], p[2] + a, p[3]), n)
    if p[0] == "P":
        return ("F", p, n)
    if p[0] == "R" and st.eq(a, 0):
        return ("F", p, n)
    raise Unknown("subslice")


def fat(ip, c, f):
    if f[0] == "F":
        return f
    if f[0] == "R":
        v = ip.cast_value(c.st, None, f, ("ref", True, ("sl", T_ABS)))
        if v[0] == "F":
            return v
        if v[0] == "R":
            x = load_ref(ip, c.st, v)
            if isinstance(x, tuple) and x[0] == "F":
                return x
    if f[0] == "O":
        raise Unknown("inert slice")
    raise Unknown("slice expected, got %s" % (show(f),))


@prim("slice::len", "ptr::len")
def _(ip, c, f):
    return fat(ip, c, f)[2]


@prim("slice::is_empty")
def _(ip, c, f):
    return c.st.eq(fat(ip, c, f)[2], 0)


@prim("slice::as_ptr", "slice::as_mut_ptr")
def _(ip, c, f):
    return fat(ip, c, f)[1]


@prim("slice::as_mut_ptr_range", "slice::as_ptr_range")
def _(ip, c, f):
    f = fat(ip, c, f)
    end = f[1] if f[1][0] == "P" else ptr_add(ip, c.st, f[1], f[2])
    return agg("std::Range", f[1], end)


@prim("slice::from_raw_parts", "slice::from_raw_parts_mut")
def _(ip, c, p, n):
    st = c.st
    if p[0] == "E":
        r = st.check_ep(p)
        if not (st.ge(p[2], 0) and st.le(p[2] + n, r.cap)):
            raise Alarm("memory", "makes a slice that reaches outside the capacity")
        t = c.targs[0] if c.targs else T_ABS
        if t == T_ABS and r.kind != "any":
            runs = st.runs_at(p, n, dead="keep")
            if any(x[0] is None for x in runs):
                raise Alarm("memory", "makes a slice over slots that hold no element")
    elif p[0] == "P":
        if not ip.zst and not st.eq(n, 0):
            raise Alarm("memory", "makes a slice from a dangling pointer")
    elif p[0] == "R":
        q = array_place(ip, st, p)
        x = load_ref(ip, st, q)
        if isinstance(x, tuple) and x[0] in ("V", "B"):
            p = q
            f = ip.cast_value(st, None, p, ("ref", True, ("sl", T_ABS)))
            return sub(ip, st, f, L(0), n)
        if st.eq(n, 0):
            return ("F", ("P", L(8)), n)
        if st.eq(n, 1):
            return ("F", p, n)
        raise Unknown("slice from a cell")
    return ("F", p, n)


@prim("ptr::slice_from_raw_parts", "ptr::slice_from_raw_parts_mut")
def _(ip, c, p, n):
    return ("F", p, n)


@prim("slice::from_ref", "slice::from_mut")
def _(ip, c, p):
    return ("F", p, L(1))


def range_of(ip, st, v, n):
    """(start, end) of a std range value over a slice of length n."""
    name = v[1][1]
    if name == "std::Range":
        return v[3][0], v[3][1]
    if name == "std::RangeFrom":
        return v[3][0], n
    if name == "std::RangeTo":
        return L(0), v[3][0]
    if name == "std::RangeFull":
        return L(0), n
    if name == "std::RangeToInclusive":
        return L(0), v[3][0] + 1
    if name == "std::RangeInclusive":
        return v[3][0], v[3][1] + 1
    raise Unknown("index by %s" % name)


def elem_ref(ip, st, f, i):
    p = f[1]
    if p[0] == "E":
        return ("E", p[1], p[2] + i, p[3])
    if p[0] == "R":
        x = ip.load(st, ("c", p[1], p[2]))
        if isinstance(x, tuple) and x[0] == "A" and x[1][0] == "arr":
            return ("R", p[1], p[2] + (L(i).c,))
    return p


@prim("slice::get_unchecked", "slice::get_unchecked_mut")
def _(ip, c, f, i):
    st = c.st
    f = fat(ip, c, f)
    if isinstance(i, Lin):
        if not (st.ge(i, 0) and st.lt(i, f[2])):
            raise Alarm("memory", "get_unchecked outside the slice")
        return elem_ref(ip, st, f, i)
    a, b = range_of(ip, st, i, f[2])
    if not (st.le(a, b) and st.le(b, f[2])):
        raise Alarm("memory", "get_unchecked range outside the slice")
    return sub(ip, st, f, a, b - a)


@prim("slice::get", "slice::get_mut")
def _(ip, c, f, i):
    st = c.st
    f = fat(ip, c, f)
    if isinstance(i, Lin):
        if st.lt(i, f[2]):
            return some(elem_ref(ip, st, f, i))
        return NONE
    a, b = range_of(ip, st, i, f[2])
    if st.le(a, b) and st.le(b, f[2]):
        return some(sub(ip, st, f, a, b - a))
    return NONE


@prim("Index::index", "IndexMut::index_mut", "SliceIndex::index", "SliceIndex::index_mut")
def _(ip, c, f, i):
    st = c.st
    if isinstance(i, tuple) and i[0] == "I":
        return slice_op(ip, c, "index", f, i)
    if isinstance(f, tuple) and f[0] == "I":
        return slice_op(ip, c, "index", i, f)
    if f[0] in ("R",) and isinstance(i, Lin):
        v = ip.load(st, ("c", f[1], f[2]))
        if isinstance(v, tuple) and v[0] == "A":
            if not st.lt(i, len(v[3])):
                return do_panic(ip, c, "std:index")
            return ("R", f[1], f[2] + (i.c,))
    if isinstance(f, Lin) or f[0] == "A":
        f, i = i, f
    f = fat(ip, c, f)
    if isinstance(i, Lin):
        if not st.lt(i, f[2]):
            return do_panic(ip, c, "std:index")
        return elem_ref(ip, st, f, i)
    a, b = range_of(ip, st, i, f[2])
    if not (st.le(a, b) and st.le(b, f[2])):
        return do_panic(ip, c, "std:slice index")
    return sub(ip, st, f, a, b - a)


@prim("slice::first", "slice::first_mut")
def _(ip, c, f):
    f = fat(ip, c, f)
    return NONE if c.st.eq(f[2], 0) else some(elem_ref(ip, c.st, f, L(0)))


@prim("slice::last", "slice::last_mut")
def _(ip, c, f):
    f = fat(ip, c, f)
    return NONE if c.st.eq(f[2], 0) else some(elem_ref(ip, c.st, f, f[2] - 1))


@prim("slice::split_at", "slice::split_at_mut")
def _(ip, c, f, m):
    st = c.st
    f = fat(ip, c, f)
    if not st.le(m, f[2]):
        return do_panic(ip, c, "std:split_at")
    return tup(sub(ip, st, f, L(0), m), sub(ip, st, f, m, f[2] - m))


@prim("slice::split_at_unchecked", "slice::split_at_mut_unchecked")
def _(ip, c, f, m):
    st = c.st
    f = fat(ip, c, f)
    if not st.le(m, f[2]):
        raise Alarm("memory", "split_at_unchecked outside the slice")
    return tup(sub(ip, st, f, L(0), m), sub(ip, st, f, m, f[2] - m))


@prim("slice::swap")
def _(ip, c, f, i, j):
    st = c.st
    f = fat(ip, c, f)
    if not st.lt(i, f[2]) or not st.lt(j, f[2]):
        return do_panic(ip, c, "std:swap")
    if ip.zst:
        return UNIT
    return TABLE["mem::swap"](ip, c, elem_ref(ip, st, f, i), elem_ref(ip, st, f, j))


@prim("slice::copy_from_slice")
def _(ip, c, d, s):
    st = c.st
    d, s = fat(ip, c, d), fat(ip, c, s)
    if not st.eq(d[2], s[2]):
        return do_panic(ip, c, "std:copy_from_slice")
    return copy(ip, c, s[1], d[1], s[2], True)


@prim("slice::copy_within")
def _(ip, c, f, r, d):
    st = c.st
    f = fat(ip, c, f)
    a, b = range_of(ip, st, r, f[2])
    if not (st.le(a, b) and st.le(b, f[2]) and st.le(d, f[2] - (b - a))):
        return do_panic(ip, c, "std:copy_within")
    if ip.zst:
        return UNIT
    return copy(ip, c, elem_ref(ip, st, f, a), elem_ref(ip, st, f, d), b - a, True)


@prim("slice::iter", "slice::iter_mut")
def _(ip, c, f):
    f = fat(ip, c, f)
    return ("A", ("p", "std::slice::Iter", (T_ABS,)), None, (f[1], f[2]))


@prim("slice::as_slice", "Iter::as_slice", "slice::as_mut_slice")
def _(ip, c, f):
    if f[0] == "R":
        v = load_ref(ip, c.st, f)
        if isinstance(v, tuple) and v[0] == "A" and v[1][1] == "std::slice::Iter":
            return ("F", v[3][0], v[3][1])
    return fat(ip, c, f)


# ------------------------------------------------------------------ Option, Result
@prim("Option::is_some")
def _(ip, c, r):
    return load_ref(ip, c.st, r)[2] == "Some"


@prim("Option::is_none")
def _(ip, c, r):
    return load_ref(ip, c.st, r)[2] == "None"


@prim("Result::is_ok")
def _(ip, c, r):
    return load_ref(ip, c.st, r)[2] == "Ok"


@prim("Result::is_err")
def _(ip, c, r):
    return load_ref(ip, c.st, r)[2] == "Err"


@prim("Option::take")
def _(ip, c, r):
    v = load_ref(ip, c.st, r)
    store_ref(ip, c.st, r, ("A", v[1], "None", ()))
    return v


@prim("Option::as_ref", "Option::as_mut")
def _(ip, c, r):
    v = load_ref(ip, c.st, r)
    if v[2] == "None":
        return NONE
    return some(("R", r[1], r[2] + ("@Some", 0)))


@prim("Option::copied", "Option::cloned")
def _(ip, c, v):
    if v[2] == "None":
        return v
    x = load_ref(ip, c.st, v[3][0])
    if isinstance(x, (Lin, bool)):
        return some(x)
    t = c.targs[0] if c.targs else None
    f = ip.w.models.get("option_cloned")
    if f is None or t is None or t[0] != "ref":
        raise Unknown("Option::cloned")
    return control(c, ip.push(c.st, f, ip.w.env({"T": t[2]}), [v], c.dest, c.ret, c.unwind))


def equal(ip, st, a, b):
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.eq(a, b)
    if isinstance(a, bool):
        return a == b
    if a[0] == "A" and b[0] == "A":
        if a[2] != b[2]:
            return False
        if len(a[3]) != len(b[3]):
            raise Unknown("compare")
        for x, y in zip(a[3], b[3]):
            if not equal(ip, st, x, y):
                return False
        return True
    raise Unknown("compare %s %s" % (show(a), show(b)))


@prim("PartialEq::eq")
def _(ip, c, ra, rb):
    st = c.st
    s = c.selfty
    if s[0] == "abs":
        return user_eq(ip, c, s, ra, rb)
    if s[0] == "ref" and s[2][0] in ("sl",):
        return slice_op(ip, c, "eq", load_ref(ip, st, ra), load_ref(ip, st, rb))
    if s[0] in ("sl", "arr"):
        return slice_op(ip, c, "eq", ra, rb)
    a, b = load_ref(ip, st, ra), load_ref(ip, st, rb)
    return equal(ip, st, a, b)


def slice_op(ip, c, op, *args):
    h = ip.hooks.get("slice_op")
    if h is not None:
        return h(ip, c, op, *args)
    raise Unknown("slice operation " + op)


@prim("PartialOrd::partial_cmp")
def _(ip, c, ra, rb):
    if c.selfty is not None and c.selfty[0] == "abs":
        return user_order(ip, c, "partial_cmp", c.selfty, ra, rb)
    a, b = load_ref(ip, c.st, ra), load_ref(ip, c.st, rb)
    if isinstance(a, Lin) and isinstance(b, Lin):
        k = "Less" if c.st.lt(a, b) else "Equal" if c.st.eq(a, b) else "Greater"
        return some(("A", ("p", "std::Ordering", ()), k, ()))
    return slice_op(ip, c, "partial_cmp", ra, rb)


@prim("Hash::hash")
def _(ip, c, ra, h):
    if c.selfty == USIZE:
        return slice_op(ip, c, "hash_usize", load_ref(ip, c.st, ra), h)
    if c.selfty[0] == "sl":
        return slice_op(ip, c, "hash", ra, h)
    if c.selfty[0] == "abs":
        return slice_op(ip, c, "hash_elem", ra, h)
    raise Unknown("hash of %s" % (c.selfty,))


@prim("Hash::hash_slice")
def _(ip, c, ra, h):
    return slice_op(ip, c, "hash_slice", ra, h)


@prim("Hasher::write_usize", "Hasher::write_length_prefix")
def _(ip, c, h, n):
    return slice_op(ip, c, "hash_usize", n, h)


@prim("Debug::fmt")
def _(ip, c, ra, h):
    return slice_op(ip, c, "debug", ra, h)


def debug_builder(kind):
    @prim("Formatter::debug_" + kind)
    def _(ip, c, h, *name):
        return slice_op(ip, c, "debug_builder", kind, h)


for _k in ("list", "set"):
    debug_builder(_k)


@prim("DebugList::entry", "DebugSet::entry")
def _(ip, c, b, r):
    v = slice_op(ip, c, "debug_entry", b, r)
    return b if v == UNIT else v


@prim("DebugList::finish", "DebugSet::finish")
def _(ip, c, b):
    return slice_op(ip, c, "debug_finish", b, None)


# ------------------------------------------------------------------ ranges and iterators
@prim("IntoIterator::into_iter")
def _(ip, c, v):
    s = c.selfty
    if s[0] == "abs":
        return v
    if s[0] == "ref" and s[2][0] in ("sl", "arr"):
        return TABLE["slice::iter"](ip, c, v)
    if s[0] == "p" and s[1].startswith("std::") and s[1] not in ("std::Vec",):
        return v
    if s[0] == "ref":
        return v
    if s[0] == "p":
        return v
    if s[0] == "clos":
        return v
    raise Unknown("into_iter of %s" % (s,))


def iter_next(ip, c, r, ty):
    """next() of a std or abstract iterator behind reference r."""
    st = c.st
    v = load_ref(ip, st, r)
    if isinstance(v, tuple) and v[0] == "I":
        return user_next(ip, c, v)
    if isinstance(v, tuple) and v[0] == "A" and v[1][0] == "p":
        n = v[1][1]
        if n == "std::Range":
            a, b = v[3]
            if st.lt(a, b):
                store_ref(ip, st, r, ("A", v[1], v[2], (a + 1, b)))
                return some(a)
            return NONE
        if n == "std::RangeInclusive":
            a, b, ex = v[3]
            if ex or st.gt(a, b):
                return NONE
            if st.lt(a, b):
                store_ref(ip, st, r, ("A", v[1], v[2], (a + 1, b, False)))
            else:
                store_ref(ip, st, r, ("A", v[1], v[2], (a, b, True)))
            return some(a)
        if n == "std::slice::Iter":
            p, k = v[3]
            if st.le(k, 0):
                return NONE
            np = ("E", p[1], p[2] + 1, p[3]) if p[0] == "E" else p
            store_ref(ip, st, r, ("A", v[1], v[2], (np, k - 1)))
            return some(p)
        if n == "std::Cloned":
            ir = ("R", r[1], r[2] + (0,))
            x = iter_next(ip, c, ir, None)
            if x is CONTROL:
                return x
            if x[2] == "None":
                return x
            y = user_clone(ip, c, x[3][0])
            if y is CONTROL:
                return y
            return some(y)
    if isinstance(v, tuple) and v[0] == "R":
        return iter_next(ip, c, v, None)
    raise Unknown("next of %s" % (show(v),))


@prim("Iterator::next")
def _(ip, c, r):
    s = c.selfty
    st = c.st
    if s[0] == "ref":
        # &mut I: the iterator behind it
        inner = s[2]
        r2 = load_ref(ip, st, r)
        if inner[0] not in ("abs",):
            x = ip.w.trait_method("Iterator", (), inner, "next", ())
            if x is not None:
                return control(c, ip.push(st, x[0], x[1], [r2], c.dest, c.ret, c.unwind))
        c.selfty = inner
        return TABLE["Iterator::next"](ip, c, r2)
    return iter_next(ip, c, r, s)


@prim("DoubleEndedIterator::next_back")
def _(ip, c, r):
    s = c.selfty
    st = c.st
    if s[0] == "ref":
        inner = s[2]
        r2 = load_ref(ip, st, r)
        x = ip.w.trait_method("DoubleEndedIterator", (), inner, "next_back", ())
        if x is not None:
            return control(c, ip.push(st, x[0], x[1], [r2], c.dest, c.ret, c.unwind))
        c.selfty = inner
        return TABLE["DoubleEndedIterator::next_back"](ip, c, r2)
    v = load_ref(ip, st, r)
    if isinstance(v, tuple) and v[0] == "A" and v[1][0] == "p":
        n = v[1][1]
        if n == "std::Range":
            a, b = v[3]
            if st.lt(a, b):
                store_ref(ip, st, r, ("A", v[1], v[2], (a, b - 1)))
                return some(b - 1)
            return NONE
        if n == "std::slice::Iter":
            p, k = v[3]
            if st.le(k, 0):
                return NONE
            store_ref(ip, st, r, ("A", v[1], v[2], (p, k - 1)))
            return some(("E", p[1], p[2] + k - 1, p[3]) if p[0] == "E" else p)
        if n == "std::Cloned":
            raise Unknown("next_back of Cloned")
    raise Unknown("next_back of %s" % (show(v),))


@prim("Iterator::size_hint")
def _(ip, c, r):
    s = c.selfty
    st = c.st
    if s[0] == "ref":
        r2 = load_ref(ip, st, r)
        x = ip.w.trait_method("Iterator", (), s[2], "size_hint", ())
        if x is not None:
            return control(c, ip.push(st, x[0], x[1], [r2], c.dest, c.ret, c.unwind))
        c.selfty = s[2]
        return TABLE["Iterator::size_hint"](ip, c, r2)
    v = load_ref(ip, st, r)
    if v[0] == "I":
        if ip.user_panic(st, "size_hint"):
            return do_panic(ip, c, "user:size_hint")
        # any hint, also a wrong one: no upper bound, an arbitrary one, or one equal to the lower bound
        lo = st.fresh("hint_lo")
        k = st.choose(3)
        return tup(lo, NONE if k == 0 else some(st.fresh("hint_hi")) if k == 1 else some(lo))
    if v[0] == "A" and v[1][1] == "std::Range":
        n = v[3][1] - v[3][0] if st.le(v[3][0], v[3][1]) else L(0)
        return tup(n, some(n))
    if v[0] == "A" and v[1][1] == "std::slice::Iter":
        return tup(v[3][1], some(v[3][1]))
    if v[0] == "A" and v[1][1] == "std::Cloned":
        return TABLE["Iterator::size_hint"](ip, c, ("R", r[1], r[2] + (0,)))
    raise Unknown("size_hint of %s" % (show(v),))


@prim("ExactSizeIterator::len")
def _(ip, c, r):
    s = c.selfty
    st = c.st
    if s[0] == "ref":
        c.selfty = s[2]
        return TABLE["ExactSizeIterator::len"](ip, c, load_ref(ip, st, r))
    if s[0] == "p" and not s[1].startswith("std::"):
        f = ip.w.models.get("ExactSizeIterator__len")
        if f is None:
            raise Unknown("model of ExactSizeIterator::len")
        return control(c, ip.push(st, f, ip.w.env({"Self_": s}), [r], c.dest, c.ret, c.unwind))
    v = load_ref(ip, st, r)
    if v[0] == "A" and v[1][1] == "std::slice::Iter":
        return v[3][1]
    if v[0] == "A" and v[1][1] == "std::Range":
        return v[3][1] - v[3][0] if st.le(v[3][0], v[3][1]) else L(0)
    raise Unknown("len of %s" % (show(v),))


@prim("Iterator::cloned", "Iterator::copied")
def _(ip, c, v):
    return ("A", ("p", "std::Cloned", (c.selfty,)), None, (v,))


@prim("Iterator::by_ref")
def _(ip, c, r):
    return r


def item_type(ip, t):
    """the element type of an iterator type."""
    if t[0] == "ref":
        return item_type(ip, t[2])
    if t[0] == "p" and t[1] == "std::slice::Iter":
        return ("ref", False, T_ABS)
    return T_ABS


@prim("Iterator::collect")
def _(ip, c, it):
    b = c.targs[0]
    x = ip.w.trait_method("FromIterator", (item_type(ip, c.selfty),), b, "from_iter", (c.selfty,))
    if x is not None:
        return control(c, ip.push(c.st, x[0], x[1], [it], c.dest, c.ret, c.unwind))
    if b[0] == "p" and b[1] == "std::Vec":
        f = ip.w.models.get("collect_vec")
        return control(c, ip.push(c.st, f, ip.w.env({"I": c.selfty}), [it], c.dest, c.ret, c.unwind))
    raise Unknown("collect into %s" % (b,))


@prim("Range::contains", "RangeInclusive::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains", "RangeBounds::contains")
def _(ip, c, r, i):
    st = c.st
    v = load_ref(ip, st, r)
    x = load_ref(ip, st, i)
    if v[0] == "A" and isinstance(x, Lin) and all(isinstance(y, (Lin, bool)) for y in v[3]):
        n = v[1][1]
        if n == "std::RangeInclusive" and (len(v[3]) < 3 or v[3][2] is False):
            return st.le(v[3][0], x) and st.le(x, v[3][1])
        if n == "std::RangeFrom":
            return st.le(v[3][0], x)
        if n == "std::RangeTo":
            return st.lt(x, v[3][0])
        if n == "std::RangeToInclusive":
            return st.le(x, v[3][0])
    if v[0] == "A" and v[1][1] == "std::Range" and isinstance(x, Lin) and all(isinstance(y, Lin) for y in v[3]):
        return st.le(v[3][0], x) and st.lt(x, v[3][1])
    raise Unknown("Range::contains")


@prim("RangeInclusive::new")
def _(ip, c, a, b):
    return agg("std::RangeInclusive", a, b, False)


@prim("Range::is_empty", "ExactSizeIterator::is_empty")
def _(ip, c, r):
    v = load_ref(ip, c.st, r)
    if v[0] == "A" and v[1][1] == "std::Range":
        return not c.st.lt(v[3][0], v[3][1])
    f = ip.w.models.get("ExactSizeIterator__is_empty")
    s = c.selfty
    if f is not None and s is not None and s[0] == "p" and not s[1].startswith("std::"):
        return control(c, ip.push(c.st, f, ip.w.env({"Self_": s}), [r], c.dest, c.ret, c.unwind))
    raise Unknown("is_empty")


BOUND = ("p", "std::Bound", ())


@prim("RangeBounds::start_bound", "RangeBounds::end_bound")
def _(ip, c, r):
    raise Unknown("replaced below")


def bound(kind, v=None):
    return ("A", BOUND, kind, () if v is None else (v,))


def _start(ip, c, r):
    v = load_ref(ip, c.st, r)
    return rb(ip, c, r, v, True)


def _end(ip, c, r):
    v = load_ref(ip, c.st, r)
    return rb(ip, c, r, v, False)


TABLE["RangeBounds::start_bound"] = _start
TABLE["RangeBounds::end_bound"] = _end


def rb(ip, c, r, v, start):
    st = c.st
    if v[0] == "I":
        return user_bound(ip, c, v, start)
    if v[0] == "R":
        return rb(ip, c, v, load_ref(ip, st, v), start)
    n = v[1][1] if v[1][0] == "p" else "tup"
    at = lambda k: ("R", r[1], r[2] + (k,))
    if n == "tup":
        b = v[3][0 if start else 1]
        if b[2] == "Unbounded":
            return b
        return bound(b[2], ("R", r[1], r[2] + (0 if start else 1, "@" + b[2], 0)))
    if n == "std::Range":
        return bound("Included", at(0)) if start else bound("Excluded", at(1))
    if n == "std::RangeFull":
        return bound("Unbounded")
    if n == "std::RangeFrom":
        return bound("Included", at(0)) if start else bound("Unbounded")
    if n == "std::RangeTo":
        return bound("Unbounded") if start else bound("Excluded", at(0))
    if n == "std::RangeToInclusive":
        return bound("Unbounded") if start else bound("Included", at(0))
    if n == "std::RangeInclusive":
        return bound("Included", at(0)) if start else bound("Included", at(1))
    raise Unknown("bounds of %s" % n)


def user_bound(ip, c, v, start):
    """a caller's range: any bound kind with any number."""
    st = c.st
    key = "bound_" + ("start" if start else "end")
    b = st.g.get(key)
    if b is None:
        k = st.choose(3)
        cell = ("u", key)
        if k == 2:
            b = ("Unbounded",)
        else:
            s = sym("range_" + ("start" if start else "end"))
            st.assume(L(UMAX) - s)
            st.cells[cell] = s
            b = (("Included", "Excluded")[k], s)
        st.g[key] = b
    if b[0] == "Unbounded":
        return bound("Unbounded")
    return bound(b[0], ("R", ("u", key), ()))


# ------------------------------------------------------------------ inert and diverging
def inert(ip, c, *a):
    return ("O", "")


for _n in ("Arguments::from_str", "Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Argument::new_display", "Argument::new_debug",
           "ArgumentV1::new", "Arguments::as_str", "Location::caller", "ArgumentV1::new_display", "fmt::format"):
    TABLE[_n] = inert


def explicit(ip, c, *a):
    fr = c.st.fr
    name = "?"
    f = fr
    while f is not None and f.fn is None:
        f = f.parent
    if f is not None:
        name = f.fn.name
    return do_panic(ip, c, "explicit:" + name)


for _n in ("panicking::panic", "panicking::panic_fmt", "rt::begin_panic", "rt::begin_panic_fmt", "panicking::assert_failed", "panicking::panic_str",
           "rt::panic_fmt", "panicking::panic_display", "panicking::panic_explicit", "panicking::unreachable_display", "panicking::panic_str_2015",
           "panicking::panic_str_literal", "option::expect_failed", "panicking::panic_nounwind", "panicking::assert_matches_failed"):
    TABLE[_n] = explicit


def die(ip, c, *a):
    raise Dead()


for _n in ("alloc::handle_alloc_error", "process::abort", "intrinsics::abort"):
    TABLE[_n] = die


@prim("hint::unreachable_unchecked", "intrinsics::unreachable")
def _(ip, c):
    raise Alarm("memory", "reaches unreachable_unchecked")


@prim("hint::assert_unchecked", "intrinsics::assume")
def _(ip, c, b):
    if not b:
        raise Alarm("memory", "assert_unchecked of a false condition")
    return UNIT


@prim("intrinsics::likely", "intrinsics::unlikely", "hint::black_box", "convert::identity", "intrinsics::cold_path")
def _(ip, c, *a):
    return a[0] if a else UNIT


# ------------------------------------------------------------------ closures and user code
@prim("FnMut::call_mut", "FnOnce::call_once", "Fn::call")
def _(ip, c, f, args):
    vals = list(args[3]) if args[0] == "A" else [args]
    g = f
    depth = 0
    while isinstance(g, tuple) and g[0] == "R" and depth < 4:
        x = load_ref(ip, c.st, g)
        if isinstance(x, tuple) and x[0] in ("C",):
            break
        g = x
        depth += 1
    return control(c, ip.call_value(c.st, g, vals, c.dest, c.ret, c.unwind))


def tok_of(ip, st, p):
    """the element behind a reference that is handed to user code."""
    if p[0] == "P":
        return ("T", "z", L(0))
    if p[0] == "E":
        st.check_ep(p)
        t = st.slot(p)
        if t is None:
            raise Alarm("memory", "hands out a slot that holds no element")
        return t
    v = load_ref(ip, st, p)
    if isinstance(v, tuple) and v[0] == "R":
        return tok_of(ip, st, v)
    if isinstance(v, tuple) and v[0] == "T":
        return v
    raise Unknown("element behind %s" % (show(p),))


def user_call(ip, c, f, vals):
    h = ip.hooks.get("user", {}).get(f[1])
    if h is None:
        raise Unknown("call of user value %s" % (f,))
    return h(ip, c, f, vals)


def user_next(ip, c, v):
    h = ip.hooks.get("next", {}).get(v[1])
    if h is None:
        raise Unknown("next of user iterator %s" % (v,))
    return h(ip, c, v)


@prim("Clone::clone")
def _(ip, c, r):
    s = c.selfty
    if s == T_ABS:
        return user_clone(ip, c, r)
    if s[0] in ("ref",) and not s[1]:
        return load_ref(ip, c.st, r)
    if s[0] == "p" and (s[1] in SIZES or s[1] in ("std::NonNull", "std::Range", "std::PhantomData")):
        return load_ref(ip, c.st, r)
    if s[0] == "abs":
        h = ip.hooks.get("clone", {}).get(s[1])
        if h:
            return h(ip, c, r)
    raise Unknown("clone of %s" % (s,))


def user_clone(ip, c, r):
    st = c.st
    t = tok_of(ip, st, r)
    if ip.w.mode_copy:
        # a Copy type: a clone is a copy
        return t
    if ip.user_panic(st, "clone"):
        return do_panic(ip, c, "user:clone")
    if ip.zst:
        st.count("cloned")
        return ("T", "z", L(0))
    if t[1] in ("a", "b"):
        # any number of clones of one value
        n = st.get("nclone_" + t[1])
        st.g["nclone_" + t[1]] = n + 1
        return ("T", "c:" + t[1], n)
    st.log("cloned", ((t[1], t[2], 1, L(1)),))
    return ("T", "c:" + t[1], t[2])


def user_eq(ip, c, s, ra, rb):
    h = ip.hooks.get("eq", {}).get(s[1])
    if h is None:
        raise Unknown("comparison of %s" % (s,))
    return h(ip, c, ra, rb)


@prim("Default::default")
def _(ip, c):
    if c.selfty == ("p", "std::Global", ()):
        return ("A", c.selfty, None, ())
    s = c.selfty
    if s[0] == "abs":
        h = ip.hooks.get("default", {}).get(s[1])
        if h:
            return h(ip, c)
        return new_storage(ip, c, s[1], None)
    if s[0] == "p" and s[1] in SIZES:
        return False if s[1] == "bool" else L(0)
    if s[0] == "arr" and s[1][0] == "abs":
        n = ip.const_len(s[2])
        if n is not None:
            return ("V", (("d", L(0), 1, L(n)),))
    raise Unknown("default of %s" % (s,))


# ------------------------------------------------------------------ abstract storage
def storage_of(ip, st, r):
    v = r
    for _ in range(6):
        if isinstance(v, tuple) and v[0] == "S":
            return v[1]
        if isinstance(v, tuple) and v[0] in ("R", "X"):
            v = load_ref(ip, st, v)
        else:
            break
    raise Unknown("storage behind %s" % (show(r),))


def base_ptr(ip, st, rid):
    r = st.region(rid)
    if not r.live:
        raise Alarm("memory", "uses a storage that was released")
    if ip.zst:
        return ("P", sym("addr_" + rid))
    return ("E", rid, L(0), r.gen)


def _cap(ip, c, r):
    st = c.st
    if c.selfty[0] != "abs":
        raise Unknown("Storage::capacity of %s" % (c.selfty,))
    rid = storage_of(ip, st, r)
    reg = st.region(rid)
    if not reg.live:
        raise Alarm("memory", "uses a storage that was released")
    return reg.cap


TABLE["Storage::capacity"] = _cap


@prim("Storage::as_ptr", "Storage::as_mut_ptr")
def _(ip, c, r):
    if c.selfty[0] != "abs":
        raise Unknown("Storage::as_ptr of %s" % (c.selfty,))
    return base_ptr(ip, c.st, storage_of(ip, c.st, r))


def grow_region(ip, st, rid, n):
    r = st.region(rid)
    nc = st.fresh("cap_" + rid + "_", IMAX if not ip.zst else UMAX)
    st.assume(nc - n)
    st.assume(nc - r.cap)
    st.regs[rid] = r.but(cap=nc, gen=r.gen + 1 if not ip.hooks.get("keepgen") else r.gen)


def fixed(ip, st, rid):
    cc = st.g.get("const_cap:" + rid)
    return cc is not None and cc != "None"


def trace(ip, st, name, rid, *args):
    h = ip.hooks.get("trace")
    if h:
        h(ip, st, name, rid, args)


@prim("Storage::reserve")
def _(ip, c, r, n):
    st = c.st
    if c.selfty[0] != "abs":
        raise Unknown("Storage::reserve of %s" % (c.selfty,))
    rid = storage_of(ip, st, r)
    trace(ip, st, "reserve", rid, n)
    reg = st.region(rid)
    if not reg.live:
        raise Alarm("memory", "uses a storage that was released")
    if st.le(n, reg.cap):
        return UNIT
    if ip.hooks.get("noalloc"):
        raise Alarm("spec", "calls the storage's reserve (may allocate or panic)")
    if fixed(ip, st, rid) or st.choose(2) == 1 or (st.gt(n, IMAX) and not ip.zst):
        st.g["reserve_failed"] = True
        st.g["asked"] = n
        return do_panic(ip, c, "storage:reserve")
    grow_region(ip, st, rid, n)
    return UNIT


@prim("Storage::try_reserve")
def _(ip, c, r, n):
    st = c.st
    if c.selfty[0] != "abs":
        raise Unknown("Storage::try_reserve of %s" % (c.selfty,))
    rid = storage_of(ip, st, r)
    trace(ip, st, "try_reserve", rid, n)
    reg = st.region(rid)
    if not reg.live:
        raise Alarm("memory", "uses a storage that was released")
    if st.le(n, reg.cap):
        return True
    if fixed(ip, st, rid) or st.choose(2) == 1 or (st.gt(n, IMAX) and not ip.zst):
        st.g["reserve_failed"] = True
        return False
    grow_region(ip, st, rid, n)
    return True


def new_storage(ip, c, name, cap):
    st = c.st
    n = st.g.get("#new" + name, 0)
    st.g["#new" + name] = n + 1
    rid = "%s_new%d" % (name, n)
    cc = st.g.get("const:" + name)
    if cap is not None:
        st.g["asked_cap"] = L(cap)
    if cap is not None and isinstance(cc, Lin):
        if not st.le(cap, cc):
            return do_panic(ip, c, "storage:with_capacity")
    cs = st.fresh("cap_" + rid, IMAX if not ip.zst else UMAX)
    if isinstance(cc, Lin):
        st.facts = st.facts.add_eq(cs - cc)
    if cap is not None:
        if not isinstance(cc, Lin) and st.choose(2) == 1:
            return do_panic(ip, c, "storage:with_capacity")
        st.assume(cs - cap)
    st.regs[rid] = Region(cs, 0, (), "vec")
    if isinstance(cc, Lin):
        st.g["const_cap:" + rid] = True
    st.log("created", ((rid, L(0), 1, L(1)),))
    return ("S", rid)


@prim("StorageWithCapacity::with_capacity")
def _(ip, c, n):
    if c.selfty[0] != "abs":
        raise Unknown("with_capacity of %s" % (c.selfty,))
    trace(ip, c.st, "with_capacity", None, n)
    return new_storage(ip, c, c.selfty[1], n)


@prim("StorageWithCapacity::__with_capacity__const_capacity_checked")
def _(ip, c, n, old):
    st = c.st
    if c.selfty[0] != "abs":
        f = ip.w.trait_default.get(("StorageWithCapacity", "__with_capacity__const_capacity_checked"))
        raise Unknown("__with_capacity of %s" % (c.selfty,))
    if old[2] == "Some":
        if not st.le(n, old[3][0]):
            raise Alarm("spec", "asks for more capacity than the constant capacity it passes")
    trace(ip, st, "checked", None, n, old)
    return new_storage(ip, c, c.selfty[1], n)


def abs_const(ip, st, s, trait, targs, name):
    """associated constants of an abstract storage."""
    core.NDEC[0] += 1
    if trait == "Storage" and name == "CONST_CAPACITY":
        key = "const:" + s[1]
        v = st.g.get(key)
        if v is None:
            if st.choose(2) == 0:
                v = "None"
            elif ip.zst:
                v = L(UMAX)
            else:
                v = sym("const_cap_" + s[1])
                st.assume(L(UMAX) - v)
                for rid in list(st.regs):
                    if rid == s[1] or rid.startswith(s[1] + "_new"):
                        f = st.facts.add_eq(v - st.regs[rid].cap)
                        if f is None:
                            raise Dead()
                        st.facts = f
                        st.g["const_cap:" + rid] = True
            st.g[key] = v
        return NONE if v == "None" else some(v)
    if trait == "Storage" and name == "IS_ALIGNED":
        key = "aligned:" + s[1]
        v = st.g.get(key)
        if v is None:
            v = st.choose(2) == 0
            st.g[key] = v
        return v
    raise Unknown("constant %s::%s" % (trait, name))


def std_const(ip, st, fr, path):
    n = path[-1][0]
    k = (path[-2][0] if len(path) > 1 else "") + "::" + n
    seg = path[-2] if len(path) > 1 else None
    ty = None
    if seg is not None and seg[0] == "<>":
        ty = ip.nty(seg[1][0], fr.env)
    if n == "MAX":
        if ty is None:
            ty = ("p", seg[0], ())
        if ty[1] == "usize":
            return L(UMAX)
        if ty[1] == "isize":
            return L(IMAX)
        if ty[1] == "u128":
            return L((1 << 128) - 1)
    if n == "MIN":
        return L(0)
    if n == "UNINIT":
        c = Call(st, None, None, None, (ty,), None)
        return TABLE["MaybeUninit::uninit"](ip, c)
    if n == "SIZE":
        return ip.ty_size(st, ty)
    if n == "ALIGN":
        return ip.ty_align(st, ty)
    raise Unknown("constant %s" % (k,))


# ------------------------------------------------------------------ Vec and Box
def vec_ptr(ip, st, v):
    if ip.zst:
        return ("P", sym("addr_vec"))
    return ("E", v[1], L(0), st.region(v[1]).gen)


@prim("Vec::new")
def _(ip, c):
    return new_vec(ip, c, L(0))


def new_vec(ip, c, cap):
    st = c.st
    n = st.g.get("#vec", 0)
    st.g["#vec"] = n + 1
    rid = "stdvec%d" % n
    st.regs[rid] = Region(cap, 0, (), "vec")
    return ("Ve", rid, L(0))


@prim("Vec::with_capacity")
def _(ip, c, n):
    cap = c.st.fresh("cap_stdvec", IMAX)
    c.st.assume(cap - n)
    return new_vec(ip, c, cap)


def vec_alloc(ip, st, rid):
    return st.g.get("vec_alloc", {}).get(rid, ("A", ("p", "std::Global", ()), None, ()))


@prim("Vec::into_raw_parts")
def _(ip, c, v):
    return tup(vec_ptr(ip, c.st, v), v[2], c.st.region(v[1]).cap)


@prim("Vec::into_raw_parts_with_alloc")
def _(ip, c, v):
    return tup(vec_ptr(ip, c.st, v), v[2], c.st.region(v[1]).cap, vec_alloc(ip, c.st, v[1]))


@prim("Vec::allocator")
def _(ip, c, r):
    st = c.st
    st.cells[("arg", "allocator")] = vec_alloc(ip, st, load_ref(ip, st, r)[1])
    return ("R", ("arg", "allocator"), ())


@prim("Vec::from_raw_parts", "Vec::from_raw_parts_in")
def _(ip, c, p, n, cap, al=None):
    st = c.st
    if ip.zst:
        v = ("Ve", "V", n) if p == ("P", sym("addr_vec")) and "V" in st.regs else new_vec(ip, c, L(UMAX))
    elif p[0] == "P":
        if not st.eq(cap, 0):
            raise Alarm("memory", "makes a Vec over dangling memory")
        v = new_vec(ip, c, L(0))
    elif p[0] == "E":
        r = st.region(p[1])
        if not st.eq(p[2], 0) or not st.eq(r.cap, cap) or not r.live:
            raise Alarm("memory", "makes a Vec over memory that was not allocated with its layout")
        if not st.le(n, cap):
            raise Alarm("memory", "makes a Vec longer than its memory")
        v = ("Ve", p[1], n)
    else:
        raise Unknown("Vec over %s" % show(p))
    if al is not None and al[0] == "S":
        st.g["vec_alloc"] = dict(st.g.get("vec_alloc", {}), **{v[1]: al})
    return ("Ve", v[1], n)


@prim("Vec::push")
def _(ip, c, r, v):
    st = c.st
    x = load_ref(ip, st, r)
    n = x[2]
    if not ip.zst:
        reg = st.region(x[1])
        st.regs[x[1]] = reg.but(cap=n + 1)
        st.put_runs(("E", x[1], n, reg.gen), 1, ((v[1], v[2], 1, L(1)),))
    store_ref(ip, st, r, ("Ve", x[1], n + 1))
    return UNIT


@prim("Vec::len")
def _(ip, c, r):
    return load_ref(ip, c.st, r)[2]


@prim("Vec::capacity")
def _(ip, c, r):
    return c.st.region(load_ref(ip, c.st, r)[1]).cap


@prim("Vec::is_empty")
def _(ip, c, r):
    return c.st.eq(load_ref(ip, c.st, r)[2], 0)


@prim("Vec::as_ptr", "Vec::as_mut_ptr")
def _(ip, c, r):
    return vec_ptr(ip, c.st, load_ref(ip, c.st, r))


@prim("Vec::as_slice", "Vec::as_mut_slice")
def _(ip, c, r):
    v = load_ref(ip, c.st, r)
    return ("F", vec_ptr(ip, c.st, v), v[2])


@prim("Vec::set_len")
def _(ip, c, r, n):
    v = load_ref(ip, c.st, r)
    store_ref(ip, c.st, r, ("Ve", v[1], n))
    return UNIT


@prim("Box::new")
def _(ip, c, v):
    st = c.st
    n = st.g.get("#box", 0)
    st.g["#box"] = n + 1
    key = ("b", n)
    st.cells[key] = v
    return ("X", key)


# ------------------------------------------------------------------ ? operator
@prim("Try::branch")
def _(ip, c, v):
    cf = ("p", "std::ControlFlow", ())
    if v[2] in ("Some", "Ok"):
        return ("A", cf, "Continue", v[3])
    return ("A", cf, "Break", (v,))


@prim("FromResidual::from_residual")
def _(ip, c, v):
    if v[2] == "Err":
        return err(v[3][0])
    return NONE


@prim("Try::into_result")
def _(ip, c, v):
    if v[2] in ("Some", "Ok"):
        return ok(v[3][0])
    return err(v[3][0] if v[3] else UNIT)


@prim("Try::from_error")
def _(ip, c, v):
    if c.selfty[1] == "std::Option":
        return NONE
    return err(v)


@prim("ghost::choose")
def _(ip, c):
    return c.st.choose(2) == 1


# ------------------------------------------------------------------ ghost functions of the scenarios
def ghost(name):
    def f(ip, c, *a):
        h = ip.hooks.get("ghost", {}).get(name)
        if h is None:
            raise Unknown("ghost function " + name)
        r = h(ip, c, *a)
        return core.UNIT if r is None else r
    TABLE["ghost::" + name] = f


for _n in GHOSTS:
    if _n != "choose":
        ghost(_n)
