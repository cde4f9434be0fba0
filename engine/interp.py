"""Interprocedural abstract interpreter over rustc's MIR (textual form of both
compilers).  Partition-sensitive: an undecided comparison splits the abstract
state; natural loops are solved by a local fixpoint (loops.py).  Nothing is
executed and no solver is called."""
import heapq

from . import core
from .core import (UNINIT, UNIT, Alarm, Budget, Choice, Dead, Fork, Frame, Region, St, Unknown)
from .lin import IMAX, UMAX, L, Lin, sym
from .mirparse import path_type
from .world import DISCR, ENUMS, Unresolved

T_ABS = ("abs", "T")
USIZE = ("p", "usize", ())
MODULUS = UMAX + 1
# traits whose impls for references forward; does the second argument lose a reference, too?
FORWARDED = {"PartialEq": True, "PartialOrd": True, "Ord": True, "Hash": False, "Debug": False}


class Exit:
    __slots__ = ("kind", "st", "val", "msg")

    def __init__(self, kind, st, val=None, msg=None):
        self.kind = kind      # ret / panic / alarm / unknown
        self.st = st
        self.val = val
        self.msg = msg


class Interp:
    def __init__(self, world, zst=False, debug=False, panics=False, hooks=None):
        self.w = world
        self.zst = zst
        self.debug = debug
        self.panics = panics
        self.hooks = hooks or {}
        self.const_cache = {}
        self.nsteps = 0
        self.max_steps = 2000000
        self.visited = set()      # (crate, fn path, bb) analysed
        self.calls = 0
        self.exits = []
        self.loopctl = None
        self.forks = 0
        from . import prims
        self.prims = prims

    # ------------------------------------------------------------ driving
    def run(self, st, out=None):
        """runs to all exits."""
        out = self.exits if out is None else out
        # states inside a loop come before those that left it: exits of a loop
        # that isn't stable yet are mostly dropped
        heap = [(st.wto, 0, st)]
        n = 0
        lc = self.loopctl
        s = st
        try:
            while heap:
                s = heapq.heappop(heap)[2]
                if lc is not None and s.trace and lc.stale(s):
                    continue
                work = []
                self.advance(s, work, out)
                for x in work:
                    n += 1
                    heapq.heappush(heap, (x.wto, -n, x))
        except Budget as b:
            # what was found on exact paths counts; the rest is open
            out[:] = [e for e in out if e.st.exact]
            out.append(Exit("unknown", s, None, "out of %s" % b))
            return out
        if lc is not None:
            out[:] = [e for e in out if e.st.exact or not lc.stale(e.st)]
        return out

    def advance(self, st, work, out):
        """runs one state until it exits, splits or leaves a loop."""
        at = st.wto
        while True:
            if st.wto > at and len(st.wto) <= len(at):
                work.append(st)
                return
            self.nsteps += 1
            if self.nsteps > self.max_steps:
                raise Budget("steps")
            try:
                r = self.step(st)
            except Split as s:
                work.extend(s.states)
                return
            except Dead:
                return
            except Alarm as a:
                out.append(Exit("alarm", st, a.kind, a.msg))
                return
            except ConstPanic:
                # the program doesn't compile
                st.unw = "const"
                out.append(Exit("panic", st, "const"))
                return
            except Unknown as u:
                out.append(Exit("unknown", st, None, str(u)))
                return
            if r is not None:
                if isinstance(r, list):
                    work.extend(r)
                else:
                    out.append(r)
                return

    def split(self, snap, f):
        """states after an undecided comparison or a choice; snap is the state before the statement."""
        res = []
        self.forks += 1
        if isinstance(f, Fork):
            alts = [(f.e, False), (-f.e - 1, False)] if not f.eq else [(f.e, True), (f.e - 1, False), (-f.e - 1, False)]
            for e, eq in alts:
                fa = snap.facts.add_eq(e) if eq else snap.facts.add(e)
                if fa is not None:
                    s = snap.copy()
                    s.facts = fa
                    s.pos = 0
                    res.append(s)
        else:
            for k in range(f.n):
                s = snap.copy()
                s.pre = snap.pre + (k,)
                s.pos = 0
                res.append(s)
        return res

    def step(self, st):
        """one statement or terminator.  Returns None, an Exit or a list of states."""
        fr = st.fr
        if fr.nat is not None:
            snap = st.copy()
            try:
                r = self.native(st, fr)
            except (Fork, Choice) as f:
                raise Split(self.split(snap, f))
            st.pre = ()
            st.pos = 0
            return r
        stmts, term = fr.body.blocks[st.bb]
        if st.si == 0 and not st.entered:
            # once per entry: a state that was split here comes again
            st.entered = True
            self.visited.add((fr.fn, st.bb))
            if self.loopctl is not None:
                r = self.loopctl.at_block(self, st)
                if r is not None:
                    return r
        n = len(stmts)
        while st.si < n:
            s = stmts[st.si]
            try:
                self.stmt(st, fr, s)
            except (Fork, Choice) as f:
                raise Split(self.split(st, f))
            if st.pre:
                st.pre = ()
                st.pos = 0
            st.si += 1
        snap = st.copy()
        try:
            r = self.term(st, fr, term)
        except (Fork, Choice) as f:
            raise Split(self.split(snap, f))
        except Alarm as a:
            a.where = self.where(snap)
            raise
        st.pre = ()
        st.pos = 0
        return r

    def where(self, st):
        o = []
        fr = st.fr
        first = True
        while fr is not None:
            if fr.fn is not None:
                sp = ""
                if first:
                    sp = self.span(fr, st)
                o.append(fn_name(fr.fn) + ((" at " + sp) if sp else ""))
                first = False
            fr = fr.parent
        return " <- ".join(o)

    def span(self, fr, st):
        d = fr.body.spans.get(st.bb)
        if not d:
            return ""
        sp = d[min(st.si, len(d) - 1)] or ""
        return sp.split(": ")[0]

    # ------------------------------------------------------------ types
    def nty(self, t, env):
        return self.w.norm(t, env)

    def ty_size(self, st, t):
        k = t[0]
        h = self.hooks.get("size_of")
        if h is not None:
            r = h(self, st, t)
            if r is not None:
                return r
        if k == "abs":
            if t[1] in ("T",):
                return L(0) if self.zst else sym("size_T")
            return sym("size_" + t[1])
        if k == "p":
            n = t[1]
            if n in SIZES:
                return L(SIZES[n])
            if n in ("std::MaybeUninit", "std::ManuallyDrop"):
                return self.ty_size(st, t[2][0])
            if n == "std::PhantomData":
                return L(0)
        if k in ("ref", "ptr"):
            return L(16 if t[2][0] in ("sl",) else 8)
        if k == "arr":
            return self.ty_size(st, t[1]) * self.const_len(t[2])
        if k == "tup" and not t[1]:
            return L(0)
        raise Unknown("size of %s" % (t,))

    def ty_align(self, st, t):
        k = t[0]
        h = self.hooks.get("align_of")
        if h is not None:
            r = h(self, st, t)
            if r is not None:
                return r
        if k == "abs":
            return sym("align_" + t[1])
        if k == "p":
            n = t[1]
            if n in ("std::MaybeUninit", "std::ManuallyDrop"):
                return self.ty_align(st, t[2][0])
            if n in SIZES:
                return L(SIZES[n])
        if k == "arr":
            return self.ty_align(st, t[1])
        if k in ("ref", "ptr"):
            return L(8)
        raise Unknown("align of %s" % (t,))

    def const_len(self, t):
        if t[0] == "const":
            return L(t[1])
        if t[0] == "abs":
            return sym(t[1])
        raise Unknown("array length %s" % (t,))

    def is_elem(self, t):
        """a type whose values are single elements."""
        return t == T_ABS or (t[0] == "abs" and t[1] == "T")

    # ------------------------------------------------------------ places
    def place(self, st, fr, local, proj):
        cur = ("c", (fr.fid, local), ())
        if not proj:
            return cur
        for i, p in enumerate(proj):
            k = p[0]
            if k == "*":
                v = self.load(st, cur)
                cur = self.deref(st, v)
            elif k == "f":
                if cur[0] == "c":
                    cur = ("c", cur[1], cur[2] + (p[1],))
                # wrappers of elements and slices are transparent
            elif k == "v":
                if cur[0] == "c":
                    cur = ("c", cur[1], cur[2] + ("@" + p[1],))
            elif k == "i":
                ix = st.cells[(fr.fid, p[1])]
                cur = self.index(st, cur, ix)
            elif k == "ci":
                if len(p) > 2 and isinstance(p[1], int) and p[1] >= 0:
                    cur = self.index(st, cur, L(p[1]))
                else:
                    raise Unknown("constant index")
            else:
                raise Unknown("projection %s" % (p,))
        return cur

    def deref(self, st, v):
        if isinstance(v, tuple):
            t = v[0]
            if t == "R":
                return ("c", v[1], v[2])
            if t == "E":
                return ("e", v)
            if t == "F":
                return ("s", v[1], v[2])
            if t == "X":
                return ("c", v[1], ())
            if t == "P":
                return ("z", v)
            if t == "O":
                return ("o",)
            if t == "A" and v[1][0] == "p" and v[1][1] == "std::Box":
                return self.deref(st, v[3][0])
        raise Unknown("dereference of %s" % (show(v),))

    def index(self, st, cur, ix):
        if cur[0] == "s":
            if not (st.ge(ix, 0) and st.lt(ix, cur[2])):
                raise Alarm("memory", "index outside the slice")
            return self.elem(cur[1], ix)
        if cur[0] == "c":
            v = self.load(st, cur)
            if isinstance(v, tuple) and v[0] == "A" and v[1][0] == "arr":
                if not L(ix).is_const():
                    for k in range(len(v[3])):
                        if st.eq(ix, k):
                            ix = L(k)
                            break
                return ("c", cur[1], cur[2] + (L(ix).c,))
            rid = self.to_region(st, cur, v)
            return ("e", ("E", rid, L(ix), 0))
        raise Unknown("index")

    def elem(self, ptr, ix):
        if ptr[0] == "E":
            return ("e", ("E", ptr[1], ptr[2] + ix, ptr[3]))
        if ptr[0] == "P":
            return ("z", ptr)
        if ptr[0] == "R":
            return ("c", ptr[1], ptr[2] + (L(ix).c,))
        raise Unknown("element of %s" % (ptr,))

    def to_region(self, st, cur, v):
        """gives an array in a cell slots of its own."""
        if isinstance(v, tuple) and v[0] == "B":
            return v[1]
        if isinstance(v, tuple) and v[0] == "V":
            rid = "arr%d" % st.g.get("#arr", 0)
            st.g["#arr"] = st.g.get("#arr", 0) + 1
            segs = []
            pos = L(0)
            for seq, base, stride, n in v[1]:
                if seq is not None:
                    segs.append((pos, pos + n, seq, base, stride))
                pos = pos + n
            st.regs[rid] = Region(pos, 0, tuple(segs), "arr")
            self.store(st, cur, ("B", rid, T_ABS))
            return rid
        raise Unknown("array in place: %s" % (show(v),))

    def load(self, st, pl, ty=None):
        k = pl[0]
        if k == "c":
            v = st.cells.get(pl[1])
            if v is None:
                raise Unknown("read of an unset local %s" % (pl[1],))
            for f in pl[2]:
                v = self.field(st, v, f)
            return v
        if k == "e":
            if ty is None:
                t = st.slot(pl[1])
                if t is None:
                    raise Alarm("memory", "reads a slot that holds no element")
                return t
            return self.read_at(st, pl[1], ty)
        if k == "z":
            if ty is not None and not self.is_elem(ty):
                return self.read_at(st, pl[1], ty)
            return ("T", "z", L(0))
        if k == "s":
            return ("F", pl[1], pl[2])
        if k == "o":
            return ("O", "")
        raise Unknown("load %s" % (pl,))

    def field(self, st, v, f):
        if isinstance(f, str):
            if isinstance(v, tuple) and v[0] == "A":
                if v[2] is not None and v[2] != f[1:]:
                    raise Unknown("field of variant %s of a %s" % (f, v[2]))
                return v
            raise Unknown("downcast of %s" % (show(v),))
        if isinstance(v, tuple):
            t = v[0]
            if t in ("A", "C"):
                if f < len(v[3]):
                    return v[3][f]
                return UNINIT
            if t in ("X",):
                return v
            if t in ("R", "E", "F", "P", "S", "T", "B", "V", "O"):
                return v
        raise Unknown("field %s of %s" % (f, show(v)))

    def store(self, st, pl, val, ty=None):
        k = pl[0]
        if k == "c":
            if not pl[2]:
                st.cells[pl[1]] = val
                return
            st.cells[pl[1]] = self.put(st.cells.get(pl[1]), pl[2], 0, val, ty)
            return
        if k == "e":
            self.write_at(st, pl[1], val)
            return
        if k == "z":
            return
        raise Unknown("store to %s" % (pl,))

    def put(self, v, path, i, val, ty):
        if i == len(path):
            return val
        f = path[i]
        if isinstance(f, str):
            if v is None or v == UNINIT:
                v = ("A", ty if i == 0 and ty else ("?",), f[1:], ())
            elif v[0] == "A" and v[2] != f[1:]:
                v = ("A", v[1], f[1:], ())
            return self.put(v, path, i + 1, val, ty)
        if v is None or v == UNINIT:
            v = ("A", ty if i == 0 and ty else ("?",), None, ())
        if v[0] not in ("A", "C"):
            # transparent wrapper
            return self.put(v, path, i + 1, val, ty)
        fl = list(v[3])
        while len(fl) <= f:
            fl.append(UNINIT)
        fl[f] = self.put(fl[f], path, i + 1, val, None)
        return v[:3] + (tuple(fl),) + v[4:]

    # ---- reads and writes of typed memory
    def read_at(self, st, ptr, ty):
        """value of type ty at a pointer into a region."""
        if ty[0] == "p" and ty[1] in ("std::MaybeUninit", "std::ManuallyDrop"):
            inner = ty[2][0]
            if self.is_elem(inner):
                if ptr[0] == "P":
                    return ("A", ty, None, (("T", "z", L(0)),))
                t = st.slot(ptr)
                return ("A", ty, None, (t if t is not None else UNINIT,))
            return ("A", ty, None, (self.read_at(st, ptr, inner),))
        if self.is_elem(ty):
            if ptr[0] == "P":
                return ("T", "z", L(0))
            t = st.slot(ptr)
            if t is None:
                raise Alarm("memory", "reads a slot that holds no element")
            return t
        if ty[0] == "arr":
            n = self.const_len(ty[2])
            if ptr[0] == "P":
                return ("V", (("z", L(0), 0, n),))
            runs = st.runs_at(ptr, n)
            if ty[1][0] != "p" and any(r[0] is None for r in runs):
                raise Alarm("memory", "reads slots that hold no element")
            return ("V", runs)
        raise Unknown("typed read of %s" % (ty,))

    def write_at(self, st, ptr, val):
        if ptr[0] == "P":
            return
        if isinstance(val, tuple):
            if val[0] == "T":
                st.put_runs(ptr, 1, ((val[1], val[2], 1, L(1)),))
                return
            if val[0] == "V":
                n = L(0)
                for r in val[1]:
                    n = n + r[3]
                st.put_runs(ptr, n, val[1])
                return
            if val[0] == "U":
                st.put_runs(ptr, 1, ((None, L(0), 0, L(1)),))
                return
            if val[0] == "A" and val[1][0] == "p" and val[1][1] in ("std::MaybeUninit", "std::ManuallyDrop"):
                self.write_at(st, ptr, val[3][0])
                return
            if val[0] == "A" and val[1][0] == "arr":
                for i, x in enumerate(val[3]):
                    self.write_at(st, ("E", ptr[1], ptr[2] + i, ptr[3]), x)
                return
            if val[0] == "B":
                # an array moves out of the slots it had
                e = ("E", val[1], L(0), st.region(val[1]).gen)
                n = st.region(val[1]).cap
                runs = st.runs_at(e, n)
                st.mark_stale(e, n)
                st.put_runs(ptr, n, runs)
                return
        raise Unknown("typed write of %s" % (show(val),))

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        k = o[0]
        if k == "copy" or k == "move":
            proj = o[2]
            if not proj:
                key = (fr.fid, o[1])
                v = st.cells.get(key)
                if v is None:
                    v = self.zst_local(fr, o[1])
                    if v is None:
                        raise Unknown("use of an unset local _%s in %s" % (o[1], fn_name(fr.fn)))
                return v
            pl = self.place(st, fr, o[1], proj)
            if pl[0] in ("e", "z"):
                return self.load(st, pl, self.place_type(fr, o[1], proj))
            return self.load(st, pl)
        if k == "int":
            return L(o[1])
        if k == "bool":
            return o[1]
        if k == "unit":
            return UNIT
        if k in ("str", "char", "opaque"):
            return ("O", "")
        if k == "path":
            return self.const_path(st, fr, o[1])
        if k == "constagg":
            return self.const_agg(st, fr, o)
        if k == "fn":
            return ("N", o[1], fr.env)
        raise Unknown("operand %s" % (o,))

    def zst_local(self, fr, local):
        """value of a local whose type has no data: its initialisation may be elided."""
        from .mirparse import local_ty
        t = self.nty(local_ty(fr.body, local), fr.env)
        if t[0] == "clos":
            return ("C", t[1], fr.env, (), fr.fn.crate)
        if t == ("tup", ()) or t[0] == "p" and t[1] in ("std::PhantomData", "std::RangeFull", "std::Global", "std::AllocError", "std::LayoutError"):
            return ("A", t, None, ())
        return None

    def wide(self, fr, o):
        """is the operand a 128 bit number?"""
        if o is None or fr is None or o[0] not in ("copy", "move"):
            return False
        t = self.place_type(fr, o[1], o[2])
        return t[0] == "p" and t[1] == "u128"

    def place_type(self, fr, local, proj):
        """normalised type of a place that ends behind a pointer to an element."""
        from .mirparse import local_ty
        t = local_ty(fr.body, local)
        for p in proj:
            if p[0] == "*":
                t = self.nty(t, fr.env)
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "p" and t[1] == "std::Box":
                    t = t[2][0]
                else:
                    return T_ABS
            elif p[0] == "f":
                t = p[2]
            elif p[0] in ("i", "ci"):
                t = self.nty(t, fr.env)
                t = t[1] if t[0] in ("sl", "arr") else T_ABS
            elif p[0] == "v":
                pass
        return self.nty(t, fr.env)

    def const_path(self, st, fr, path):
        """a named constant."""
        key = (path, fr.env.id)
        if key in self.const_cache:
            return self.const_cache[key]
        env = fr.env
        last = path[-1][0]
        if len(path) == 1:
            # const generic parameter
            if last in env.map:
                return self.const_len(env.map[last])
        # enum variant or unit struct
        v = self.unit_ctor(st, fr, path)
        if v is not None:
            return v
        r = self.resolve_const(st, fr, path)
        if r is None:
            v = self.prims.std_const(self, st, fr, path)
            return v
        if r[0] == "v":
            return r[1]
        f, e = r[1], r[2]
        return self.eval_body(st, f, e)

    def unit_ctor(self, st, fr, path):
        last = path[-1][0]
        if len(path) >= 2 and path[-2][0] not in ("<>", "<impl>"):
            en = path[-2][0]
            for q in ("std::" + en, en):
                if q in self.w.enums and last in self.w.enums[q]:
                    ty = ("p", q, tuple(self.nty(a, fr.env) for a in (path[-2][1] or ())))
                    return ("A", ty, last, ())
        for q in ("std::" + last, last):
            for e in ("std::Option", "std::Ordering"):
                if last in self.w.enums[e] and len(path) == 1:
                    return ("A", ("p", e, ()), last, ())
        if last == "PhantomData":
            return ("A", ("p", "std::PhantomData", ()), None, ())
        if last in ("RangeFull", "Global", "AllocError", "LayoutError"):
            return ("A", ("p", "std::" + last, ()), None, ())
        if last in self.w.structs and last in self.w.local_types and not last.isupper():
            return ("A", self.nty(path_type(path), fr.env), None, ())
        return None

    def resolve_const(self, st, fr, path):
        env = fr.env
        names = [n for n, _ in path]
        if names[-1].startswith("promoted["):
            for cr in (fr.fn.crate,):
                f = self.w.promoted.get((cr, self.w.pkey(path)))
                if f is None:
                    # 1.52 prints the path of the fn with its generics; match by the function that owns it
                    f = self.find_promoted(fr, names[-1])
                if f is not None:
                    return ("fn", f, env)
            raise Unknown("promoted %s" % (path,))
        seg = path[-2] if len(path) >= 2 else None
        if seg is not None and seg[0] == "<>":
            selfty, tr = seg[1]
            s = self.nty(selfty, env)
            if tr is not None:
                tn, ta = tr[-1]
                targs = tuple(self.nty(a, env) for a in (ta or ()) if a[0] != "bind")
                if s[0] == "abs":
                    v = self.prims.abs_const(self, st, s, tn, targs, names[-1])
                    return ("v", v)
                r = self.w.find_impl(tn, targs, s, names[-1], True)
                if r is None:
                    return None
                if r[0] == "default":
                    f = self.w.trait_default.get((tn, names[-1]))
                    if f is None:
                        return None
                    m = {"Self": s}
                    m = self.w.bind_fn([g[1] for g in self.w.trait_gens.get(tn, [])], targs, m)
                    return ("fn", f, self.w.env(m))
                i, b = r
                m = dict(b)
                m["Self"] = s
                return ("fn", i.consts[names[-1]], self.w.env(m))
            r = self.w.inherent_method(s, names[-1], (), const=True)
            if r:
                return ("fn", r[0], r[1])
            return None
        if seg is not None and seg[0] in self.w.local_types:
            s = self.nty(path_type(path[:-1]), env)
            r = self.w.inherent_method(s, names[-1], (), const=True)
            if r:
                return ("fn", r[0], r[1])
        for f in self.w.free.get(names[-1], ()):
            if f.kind == "const":
                fn = [n for n, _ in f.path]
                if len(path) == 1 or fn[-2:] == names[-2:] or fn[:-1] == [] or True:
                    return ("fn", f, env)
        return None

    def find_promoted(self, fr, name):
        base = self.w.pkey(fr.fn.path)
        return self.w.promoted.get((fr.fn.crate, base + (name,)))

    def eval_body(self, st, f, env):
        """value of a constant body, interpreted in place (its locals stay as static cells)."""
        key = (f, env.id)
        hit = self.const_cache.get(key)
        if hit is not None:
            v, cells = hit
            for k, x in cells.items():
                st.cells.setdefault(k, x)
            return v
        fid = ("k", fn_name(f), env.id)
        sub = st.copy()
        before = set(sub.cells)
        sub.loops = ()
        save = self.loopctl
        self.loopctl = None
        base = Frame(("kb",), None, None, None, None, None, None, nat=nat_stop)
        sub.fr = Frame(fid, f, env, base, None, None, None)
        sub.bb = 0
        sub.si = 0
        sub.entered = False
        nf = core.NDEC[0]
        try:
            n = 0
            while sub.fr is not base:
                n += 1
                if n > 3000:
                    raise Unknown("constant evaluation")
                fr = sub.fr
                if fr.nat is not None:
                    raise Unknown("native frame in constant")
                stmts, term = fr.body.blocks[sub.bb]
                self.visited.add((fr.fn, sub.bb))
                for s in stmts:
                    self.stmt(sub, fr, s)
                keep = dict(sub.cells) if (term[0] == "return" and fr.fid == fid) else None
                r = self.term(sub, fr, term)
                if r is not None:
                    raise Unknown("constant evaluation ends")
                if keep is not None:
                    sub.cells = keep
        finally:
            self.loopctl = save
        if sub.unw is not None and st.unw is None:
            raise ConstPanic()
        v = sub.g.get("$ret")
        cells = {k: x for k, x in sub.cells.items() if k not in before and k != (fid, 0)}
        st.regs.update(sub.regs)
        for k, x in cells.items():
            st.cells[k] = x
        st.facts = sub.facts
        st.pos = sub.pos
        for k, x in sub.g.items():
            if k not in ("$ret", "$ev"):
                st.g[k] = x
        if core.NDEC[0] == nf:
            self.const_cache[key] = (v, cells)
        return v

    def const_agg(self, st, fr, o):
        ty = self.nty(path_type(o[1]), fr.env)
        txt = o[2] if len(o) > 2 else ""
        if ty[0] == "p" and ty[1] == "std::PhantomData":
            return ("A", ty, None, ())
        v = self.unit_ctor(st, fr, o[1])
        if v is not None:
            return v
        raise Unknown("constant %s" % (o,))

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "assign":
            proj = s[2]
            v = self.rvalue(st, fr, s[3], s[1], proj)
            if not proj:
                st.cells[(fr.fid, s[1])] = v
            else:
                pl = self.place(st, fr, s[1], proj)
                ty = None
                if pl[0] == "c" and pl[1] not in st.cells:
                    from .mirparse import local_ty
                    ty = self.nty(local_ty(fr.body, s[1]), fr.env)
                    if ty[0] == "clos":
                        st.cells[pl[1]] = ("C", ty[1], fr.env, (), fr.fn.crate)
                self.store(st, pl, v, ty)
            return
        if k == "dead":
            st.cells.pop((fr.fid, s[1]), None)
            return
        if k == "setdiscr":
            pl = self.place(st, fr, s[1], s[2])
            from .mirparse import local_ty
            ty = self.place_type(fr, s[1], s[2]) if s[2] else self.nty(local_ty(fr.body, s[1]), fr.env)
            cur = None
            try:
                cur = self.load(st, pl)
            except Unknown:
                cur = None
            name = self.variant_name(ty, s[3])
            fl = cur[3] if (isinstance(cur, tuple) and cur[0] == "A" and cur[2] in (name,)) else ()
            self.store(st, pl, ("A", ty, name, fl), ty)
            return
        if k == "assume":
            v = self.operand(st, fr, s[1])
            if v is False:
                raise Dead()
            return
        raise Unknown("statement %s" % (s,))

    def variant_name(self, ty, n):
        if ty[0] == "p":
            vs = self.w.enums.get(ty[1])
            if vs is not None:
                d = DISCR.get(ty[1])
                if d:
                    for a, b in d.items():
                        if b == n or b == n - 256:
                            return a
                return vs[n]
        raise Unknown("variants of %s" % (ty,))

    def discr_of(self, st, v):
        if isinstance(v, tuple) and v[0] == "A":
            ty = v[1]
            if ty[0] == "p":
                d = DISCR.get(ty[1])
                if d:
                    return L(d[v[2]])
                vs = self.w.enums.get(ty[1])
                if vs is not None and v[2] in vs:
                    return L(vs.index(v[2]))
            if v[2] is not None:
                for q in self.w.enums.values():
                    if v[2] in q:
                        return L(q.index(v[2]))
        raise Unknown("discriminant of %s" % (show(v),))

    def ref_to(self, st, pl):
        if pl[0] == "c":
            v = None
            if pl[2] == ():
                return ("R", pl[1], ())
            # normalise references to transparent wrappers
            return ("R", pl[1], tuple(p for p in pl[2] if not isinstance(p, str) or True))
        if pl[0] == "e":
            return pl[1]
        if pl[0] == "s":
            return ("F", pl[1], pl[2])
        if pl[0] == "z":
            return pl[1]
        if pl[0] == "o":
            return ("O", "")
        raise Unknown("reference to %s" % (pl,))

    def rvalue(self, st, fr, rv, dl=None, dproj=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            pl = self.place(st, fr, rv[2], rv[3])
            if pl[0] == "e":
                ep = pl[1]
                if k == "ref":
                    r = st.check_ep(ep)
                    n = L(1)
                    if rv[3] and rv[3][-1][0] == "*":
                        t = self.place_type(fr, rv[2], rv[3])
                        if t[0] == "arr":
                            n = self.const_len(t[2])
                    if not (st.ge(ep[2], 0) and st.le(ep[2] + n, r.cap)):
                        raise Alarm("memory", "reference to a slot outside the capacity")
            return self.ref_to(st, pl)
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, rv[2], fr, rv[3])
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isinstance(v, bool):
                    return not v
                if isinstance(v, Lin):
                    return L(UMAX) - v
                raise Unknown("not")
            if rv[1] == "Neg":
                return -v
            if rv[1] == "PtrMetadata":
                return self.meta(st, v)
            raise Unknown("unary %s" % rv[1])
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "len":
            pl = self.place(st, fr, rv[1], rv[2])
            if pl[0] == "s":
                return pl[2]
            v = self.load(st, pl)
            return self.arr_len(st, v)
        if k == "discriminant":
            v = self.load(st, self.place(st, fr, rv[1], rv[2]))
            return self.discr_of(st, v)
        if k == "copyforderef":
            pl = self.place(st, fr, rv[1], rv[2])
            return self.load(st, pl)
        if k == "sizeof":
            return self.ty_size(st, self.nty(rv[1], fr.env))
        if k == "alignof":
            return self.ty_align(st, self.nty(rv[1], fr.env))
        if k == "clos":
            ops = rv[2] if len(rv) > 2 else ()
            return ("C", rv[1], fr.env, tuple(self.operand(st, fr, o) for o in ops), fr.fn.crate)
        if k == "array":
            vs = [self.operand(st, fr, o) for o in rv[1]]
            if vs and all(isinstance(v, tuple) and v[0] == "T" for v in vs):
                return ("V", tuple((v[1], v[2], 1, L(1)) for v in vs))
            return ("A", ("arr", ("?",), ("const", len(vs))), None, tuple(vs))
        if k == "repeat":
            raise Unknown("array repeat")
        if k == "tuple":
            vs = tuple(self.operand(st, fr, o) for o in rv[1])
            return ("A", ("tup", ("?",) * len(vs)), None, vs)
        if k == "agg":
            return self.aggregate(st, fr, rv)
        raise Unknown("rvalue %s" % (rv,))

    def arr_len(self, st, v):
        if isinstance(v, tuple):
            if v[0] == "V":
                n = L(0)
                for r in v[1]:
                    n = n + r[3]
                return n
            if v[0] == "B":
                return st.region(v[1]).cap
            if v[0] == "F":
                return v[2]
            if v[0] == "A":
                return L(len(v[3]))
        raise Unknown("length of %s" % (show(v),))

    def meta(self, st, v):
        if isinstance(v, tuple):
            if v[0] == "F":
                return v[2]
            if v[0] == "R":
                return self.arr_len(st, self.load(st, ("c", v[1], v[2])))
        raise Unknown("metadata of %s" % (show(v),))

    def aggregate(self, st, fr, rv):
        path, ops = rv[1], rv[2]
        vs = tuple(self.operand(st, fr, o) for o in ops)
        return self.make(st, fr, path, vs)

    def make(self, st, fr, path, vs):
        last = path[-1][0]
        if len(path) >= 2:
            en = path[-2][0]
            for q in (en, "std::" + en):
                if q in self.w.enums and last in self.w.enums[q]:
                    ty = ("p", q, tuple(self.nty(a, fr.env) for a in (path[-2][1] or ())))
                    return ("A", ty, last, vs)
        ty = self.nty(path_type(path), fr.env)
        return ("A", ty, None, vs)

    # ---- arithmetic
    def wrap(self, st, v):
        """v modulo 2^64."""
        if st.ge(v, 0):
            if st.le(v, UMAX):
                return v
            if st.lt(v, 2 * MODULUS):
                return v - MODULUS
            q = st.fresh("wraps")
            r = v - q.scale(MODULUS)
            st.assume(r)
            st.assume(L(UMAX) - r)
            return r
        if st.ge(v, -MODULUS):
            return v + MODULUS
        raise Unknown("arithmetic that wraps")

    def wide_fit(self, st, op, v, a, b):
        """is the result a 128 bit number?  (True / False, or the partition is split); the operands are"""
        if op == "Sub":
            return st.ge(v, 0)
        if op == "Mul" and all(st.must_ge(UMAX, x) for x in (a, b)):
            return True
        hi = v.c
        for k, x in v.t.items():
            hi += max(x, 0) * UMAX ** (len(k) if isinstance(k, tuple) else 1)
        if hi < MODULUS ** 2:
            return True
        if any(isinstance(k, tuple) for k in v.t):
            raise Unknown("128 bit arithmetic")
        return st.lt(v, MODULUS ** 2)

    def binop(self, st, op, a, b, oa=None, fr=None, ob=None):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, bool) and isinstance(b, bool):
                return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
            if isinstance(a, Lin) and isinstance(b, Lin):
                return self.bits(st, op, a, b)
            raise Unknown("bit operation")
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            raise Unknown("arithmetic on %s %s" % (show(a), show(b)))
        wide = self.wide(fr, oa) or self.wide(fr, ob)
        if wide and op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked",
                           "AddWithOverflow", "CheckedAdd", "SubWithOverflow", "CheckedSub", "MulWithOverflow", "CheckedMul"):
            o = "Add" if "Add" in op else "Sub" if "Sub" in op else "Mul"
            v = a + b if o == "Add" else a - b if o == "Sub" else self.mul(st, a, b)
            ok = self.wide_fit(st, o, v, a, b)
            if not ok and not (op.startswith("Checked") or op.endswith("Overflow")):
                raise Unknown("128 bit arithmetic")
            if op.startswith("Checked") or op.endswith("Overflow"):
                return ("A", ("tup", (("p", "u128", ()), ("p", "bool", ()))), None, (v, not ok))
            return v
        if op in ("AddWithOverflow", "CheckedAdd", "SubWithOverflow", "CheckedSub", "MulWithOverflow", "CheckedMul"):
            o = op.replace("WithOverflow", "").replace("Checked", "")
            v = a + b if o == "Add" else a - b if o == "Sub" else self.mul(st, a, b)
            if o == "Sub":
                ov = st.lt(v, 0)
            else:
                ov = st.gt(v, UMAX)
            w = self.wrap(st, v) if ov else v
            return ("A", ("tup", (USIZE, ("p", "bool", ()))), None, (w, ov))
        if op in ("Add", "AddUnchecked"):
            return self.wrap(st, a + b)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(st, a - b)
        if op in ("Mul", "MulUnchecked"):
            v = self.mul(st, a, b)
            return v if any(isinstance(k, tuple) for k in v.t) else self.wrap(st, v)
        if op == "Div":
            return self.div(st, a, b)
        if op == "Rem":
            q = self.div(st, a, b)
            if a.is_const() and b.is_const():
                return L(a.c % b.c)
            return a - q * b
        if op == "Offset":
            return self.prims.ptr_add(self, st, a, b)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked") and b.is_const():
            if op.startswith("Shl"):
                return self.wrap(st, a.scale(1 << b.c))
            return self.div(st, a, L(1 << b.c))
        raise Unknown("operator %s" % op)

    def bits(self, st, op, a, b):
        if a.is_const() and b.is_const():
            return L({"BitAnd": a.c & b.c, "BitOr": a.c | b.c, "BitXor": a.c ^ b.c}[op])
        if op == "BitAnd":
            if a.is_const():
                a, b = b, a
            if b.is_const():
                m = b.c
                if m & (m + 1) == 0:
                    # the low bits
                    return a - self.div(st, a, L(m + 1)).scale(m + 1) if m else L(0)
                k = UMAX ^ m
                if k & (k + 1) == 0:
                    return self.div(st, a, L(k + 1)).scale(k + 1)
        raise Unknown("bit operation")

    def mul(self, st, a, b):
        return a * b

    def div(self, st, a, b):
        if a.is_const() and b.is_const():
            if b.c == 0:
                raise Unknown("division by zero")
            return L(a.c // b.c)
        h = exact_div(a, b)
        if h is not None:
            return h
        if b.is_const() and b.c == 1:
            return a
        # the quotient of the same numbers, if the facts of this state say that it is that
        memo = self.__dict__.setdefault("quotients", {}).setdefault((repr(a), repr(b)), [])
        for q in memo:
            if st.facts.entails(a - q * b) and st.facts.entails(q * b + b - 1 - a):
                return q
        q = st.fresh("quot", None)
        st.assume(a - q * b)
        st.assume(q * b + b - 1 - a)
        st.assume(a - q)
        if q not in memo:
            memo.append(q)
        return q

    def compare(self, st, op, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            d = self.prims.ptr_diff(self, st, a, b)
            if d is None:
                raise Unknown("compare %s %s" % (show(a), show(b)))
            if d is True:
                return op in ("Eq", "Le", "Ge")
            if d is False:
                if op == "Eq":
                    return False
                if op == "Ne":
                    return True
                raise Unknown("order of unrelated pointers")
            a, b = d, L(0)
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == "Eq":
                return st.eq(a, b)
            if op == "Ne":
                return not st.eq(a, b)
            if op == "Lt":
                return st.lt(a, b)
            if op == "Le":
                return st.le(a, b)
            if op == "Gt":
                return st.gt(a, b)
            return st.ge(a, b)
        raise Unknown("compare %s %s" % (show(a), show(b)))

    def cast(self, st, fr, rv):
        kind = rv[3]
        if kind and ("ReifyFnPointer" in kind or "ClosureFnPointer" in kind or "UnsafeFnPointer" in kind):
            return self.operand(st, fr, rv[1]) if rv[1][0] == "fn" else ("O", "")
        v = self.operand(st, fr, rv[1])
        ty = self.nty(rv[2], fr.env)
        return self.cast_value(st, fr, v, ty, kind)

    def cast_value(self, st, fr, v, ty, kind=None):
        if isinstance(v, Lin):
            if ty[0] == "ptr":
                return ("P", v)
            if ty[0] == "p" and ty[1] in ("usize", "u64"):
                return self.wrap(st, v)
            if ty[0] == "p" and ty[1] in ("u128", "i128"):
                return v
            if ty[0] == "p" and ty[1] in ("isize", "i64"):
                if st.gt(v, IMAX):
                    return v - MODULUS
                return v
            if ty[0] == "p" and ty[1] in ("u8", "u32", "u16", "i32"):
                if v.is_const():
                    return v
            raise Unknown("integer cast to %s" % (ty,))
        if isinstance(v, bool):
            return L(1 if v else 0)
        if ty[0] == "p" and ty[1] in ("usize", "u64", "isize"):
            if v[0] == "P":
                return v[1]
            if v[0] == "A":
                return self.discr_of(st, v)
            return self.prims.ptr_to_int(self, st, v)
        if ty[0] in ("ref", "ptr"):
            inner = ty[2]
            if v[0] == "R" and inner[0] == "sl":
                # unsizing of an array
                arr = self.load(st, ("c", v[1], v[2]))
                if isinstance(arr, tuple) and arr[0] in ("V", "B"):
                    n = self.arr_len(st, arr)
                    if arr[0] == "V" and self.zst:
                        return ("F", ("P", L(8)), n)
                    rid = self.to_region(st, ("c", v[1], v[2]), arr)
                    return ("F", ("E", rid, L(0), st.region(rid).gen), n)
                if isinstance(arr, tuple) and arr[0] == "A":
                    return ("F", ("R", v[1], v[2]), L(len(arr[3])))
                return ("O", "")
            if v[0] == "E" and inner[0] == "sl":
                src = None
                return ("O", "") if src is None else src
            if v[0] == "F" and inner[0] not in ("sl",) and not self.unsized(inner):
                return v[1]
            return v
        if v[0] == "O":
            return v
        if v[0] in ("N", "C", "R", "E", "P", "F", "X"):
            return v
        raise Unknown("cast %s to %s" % (show(v), ty))

    def unsized(self, t):
        if t[0] in ("sl",):
            return True
        if t[0] == "p" and t[1] == "str":
            return True
        if t[0] == "p" and t[1] == "UninitSlice":
            return True
        if t[0] == "p" and t[1] in ("std::ManuallyDrop", "GenericVec") and t[2]:
            return self.unsized(t[2][-1])
        return False

    # ------------------------------------------------------------ terminators
    def goto(self, st, bb):
        st.bb = bb
        st.si = 0
        st.entered = False

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            self.goto(st, t[1])
            return None
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if isinstance(v, bool):
                v = L(1 if v else 0)
            if not isinstance(v, Lin):
                raise Unknown("switch on %s" % (show(v),))
            neg = not v.t and v.c < 0
            for val, bb in t[2]:
                if st.eq(v, val) or neg and val in (v.c + (1 << 8), v.c + (1 << 64)):
                    self.goto(st, bb)
                    return None
            if t[3] is None:
                raise Dead()
            self.goto(st, t[3])
            return None
        if k == "return":
            v = st.cells.get((fr.fid, 0), UNIT)
            return self.ret(st, fr, v)
        if k == "call":
            return self.call_term(st, fr, t)
        if k == "drop":
            pl = self.place(st, fr, t[1], t[2])
            return self.drop_place(st, pl, t[3], t[4])
        if k == "assert":
            v = self.operand(st, fr, t[1])
            if not isinstance(v, bool):
                raise Unknown("assert on %s" % (show(v),))
            if v == t[2]:
                self.goto(st, t[4])
                return None
            return self.panic(st, "assert:" + t[3], t[5])
        if k == "resume":
            return self.unwind_out(st, fr)
        if k == "unreachable":
            raise Alarm("memory", "reaches code that is declared unreachable")
        if k == "abort":
            raise Dead()
        raise Unknown("terminator %s" % (t,))

    def pop_cells(self, st, fr):
        if fr.body is not None:
            fid = fr.fid
            for n in range(len(fr.body.locals) + 1):
                st.cells.pop((fid, n), None)
            for n in fr.body.locals:
                st.cells.pop((fid, n), None)

    def ret(self, st, fr, v):
        """returns v from the frame fr (the top)."""
        self.pop_cells(st, fr)
        if st.loops and fr.body is not None:
            st.loops = tuple([e for e in st.loops if e[0] < fr.depth])
        p = fr.parent
        st.fr = p
        if p is None:
            st.g["$ret"] = v
            return Exit("ret", st, v)
        if p.nat is not None:
            st.g["$ret"] = v
            st.g["$ev"] = "ret"
            return None
        if fr.ret is None:
            raise Dead()
        if fr.dest is not None:
            self.store_dest(st, p, fr.dest, v)
        self.goto(st, fr.ret)
        return None

    def store_dest(self, st, fr, dest, v):
        local, proj = dest
        if not proj:
            st.cells[(fr.fid, local)] = v
            return
        pl = self.place(st, fr, local, proj)
        ty = None
        if pl[0] == "c" and pl[1] not in st.cells:
            from .mirparse import local_ty
            ty = self.nty(local_ty(fr.body, local), fr.env)
        self.store(st, pl, v, ty)

    def unwind_out(self, st, fr):
        """the frame fr (top) unwinds."""
        self.pop_cells(st, fr)
        if st.loops and fr.body is not None:
            st.loops = tuple([e for e in st.loops if e[0] < fr.depth])
        p = fr.parent
        st.fr = p
        if p is None:
            return Exit("panic", st, st.unw)
        if p.nat is not None:
            st.g["$ev"] = "unwind"
            return None
        if fr.unwind is None:
            return self.unwind_out(st, p)
        if fr.unwind in ("abort", "terminate") or not isinstance(fr.unwind, int):
            raise Dead()
        self.goto(st, fr.unwind)
        return None

    def panic(self, st, reason, unwind):
        """a panic raised by the current terminator of the top frame."""
        if st.unw is not None:
            raise Dead()       # panic during unwinding aborts
        st.unw = reason
        st.pan = False
        if unwind is None:
            return self.unwind_out(st, st.fr)
        if not isinstance(unwind, int):
            raise Dead()
        self.goto(st, unwind)
        return None

    def user_panic(self, st, what):
        """may user code panic here?  decided by the environment."""
        if not self.panics or not st.pan or st.unw is not None:
            return False
        return st.choose(2) == 1

    # ------------------------------------------------------------ calls
    def call_term(self, st, fr, t):
        _, target, args, dest, ret, unwind = t
        vals = [self.operand(st, fr, a) for a in args]
        if target[0] == "op":
            f = self.operand(st, fr, target[1])
            return self.call_value(st, f, vals, dest, ret, unwind)
        return self.call_path(st, fr.env, fr.fn.crate, target[1], vals, dest, ret, unwind)

    def push(self, st, f, env, vals, dest, ret, unwind):
        """enters a body."""
        self.calls += 1
        if st.fr is not None and st.fr.depth > 60:
            raise Unknown("call depth")
        d = (st.fr.depth + 1) if st.fr is not None else 0
        nf = Frame(d, f, env, st.fr, dest, ret, unwind)
        if f.name.startswith("{closure#") and len(vals) != len(f.params):
            raise Unknown("closure arity")
        for n, v in enumerate(vals):
            st.cells[(d, n + 1)] = v
        st.fr = nf
        st.bb = 0
        st.si = 0
        st.entered = False
        return None

    def call_path(self, st, env, crate, path, vals, dest, ret, unwind):
        r = self.resolve(st, env, crate, path)
        if r[0] == "fn":
            return self.push(st, r[1], r[2], vals, dest, ret, unwind)
        # native
        key, targs, selfty = r[1], r[2], r[3]
        return self.call_native(st, key, targs, selfty, vals, dest, ret, unwind)

    def call_native(self, st, key, targs, selfty, vals, dest, ret, unwind):
        if selfty is not None and selfty[0] == "ref" and key.split("::")[0] in FORWARDED:
            # the impls for references call the same method of what they refer to
            tn, name = key.split("::")
            refs = 2 if FORWARDED[tn] else 1
            ta = targs
            if tn in ("PartialEq", "PartialOrd"):
                if not (targs and targs[0][0] == "ref"):
                    raise Unknown("comparison of %s" % (targs,))
                ta = (targs[0][2],)
            vals = [self.prims.load_ref(self, st, v) for v in vals[:refs]] + list(vals[refs:])
            r = self.w.trait_method(tn, ta, selfty[2], name, ()) if selfty[2][0] != "abs" else None
            if r is not None:
                return self.push(st, r[0], r[1], vals, dest, ret, unwind)
            return self.call_native(st, key, ta, selfty[2], vals, dest, ret, unwind)
        p = self.prims.TABLE.get(key)
        if p is None:
            f = self.w.models.get(key.replace("::", "__"))
            if f is not None:
                gens = self.w.model_gens[f.name]
                m = {}
                al = list(targs)
                if selfty is not None and gens and gens[0] == "Self_":
                    al = [selfty] + [a for a in al]
                for g, a in zip(gens, al):
                    m[g] = a
                return self.push(st, f, self.w.env(m), vals, dest, ret, unwind)
            raise Unknown("call of " + key)
        c = Call(st, dest, ret, unwind, targs, selfty)
        v = p(self, c, *vals)
        if v is CONTROL:
            return c.result
        return self.finish(st, c, v)

    def finish(self, st, c, v):
        if c.ret is None and st.fr.nat is None:
            raise Dead()
        if st.fr is None:
            return Exit("ret", st, v)
        if st.fr.nat is not None:
            st.g["$ret"] = v
            st.g["$ev"] = "ret"
            return None
        if c.dest is not None:
            self.store_dest(st, st.fr, c.dest, v)
        self.goto(st, c.ret)
        return None

    def resolve(self, st, env, crate, path):
        """("fn",Fn,Env) or ("std",key,targs,selfty)."""
        key = (path, env.id, crate)
        r = self.w.rcache.get(key)
        if r is None:
            r = self.resolve1(env, crate, path)
            if r[0] == "fn" and r[1].crate == "scen" and r[1].name in GHOSTS:
                r = ("std", "ghost::" + r[1].name, (), None)
            self.w.rcache[key] = r
        return r

    def resolve1(self, env, crate, path):
        w = self.w
        name, margs = path[-1]
        norm = lambda t: self.nty(t, env)
        seg = path[-2] if len(path) >= 2 else None
        if seg is not None and seg[0] == "<>":
            selfty, tr = seg[1]
            s = norm(selfty)
            ma = tuple(norm(a) for a in (margs or ()) if a[0] != "bind")
            if tr is not None:
                tn, ta = tr[-1]
                targs = tuple(norm(a) for a in (ta or ()) if a[0] != "bind")
                if tn in ("PartialEq", "PartialOrd") and not targs:
                    targs = (s,)
                if s[0] != "abs":
                    r = w.trait_method(tn, targs, s, name, ma)
                    if r is not None:
                        return ("fn",) + r
                return ("std", tn + "::" + name, targs + ma, s)
            r = w.inherent_method(s, name, ma)
            if r is not None:
                return ("fn",) + r
            return ("std", head_name(s) + "::" + name, tuple(type_args(s)) + ma, s)
        if seg is not None and seg[0] in w.local_types:
            s = norm(path_type(path[:-1]))
            r = w.inherent_method(s, name, tuple(norm(a) for a in (margs or ()) if a[0] != "bind"))
            if r is not None:
                return ("fn",) + r
        # local free function (or function nested in a method)
        std = path[0][0] in ("std", "core", "alloc")
        if not std:
            r = w.free_fn(path, env, crate)
            if r is not None:
                return ("fn",) + r
        if len(path) >= 2:
            pn, pa = path[-2]
            ta = tuple(norm(a) for a in (pa or ()) if a[0] != "bind") + tuple(norm(a) for a in (margs or ()) if a[0] != "bind")
            return ("std", pn + "::" + name, ta, None)
        r = w.free_fn(path, env, crate)
        if r is not None:
            return ("fn",) + r
        return ("std", name, tuple(norm(a) for a in (margs or ()) if a[0] != "bind"), None)

    def call_value(self, st, f, vals, dest, ret, unwind):
        """calls a function item, closure (by value or reference) or user closure with unpacked arguments."""
        if isinstance(f, tuple):
            if f[0] == "N":
                return self.call_path(st, f[2], None, f[1], vals, dest, ret, unwind)
            if f[0] == "R":
                inner = self.load(st, ("c", f[1], f[2]))
                if isinstance(inner, tuple) and inner[0] == "C":
                    return self.call_closure(st, inner, f, vals, dest, ret, unwind)
                return self.call_value(st, inner, vals, dest, ret, unwind)
            if f[0] == "C":
                # by value: the body takes self by value or by reference to a temporary
                fn = self.closure_fn(f)
                if fn.params[0][0] == "ref":
                    key = ("t", st.fr.depth if st.fr else 0, f[1])
                    st.cells[key] = f
                    return self.push(st, fn, f[2], [("R", key, ())] + list(vals), dest, ret, unwind)
                return self.push(st, fn, f[2], [f] + list(vals), dest, ret, unwind)
            if f[0] == "I":
                c = Call(st, dest, ret, unwind, (), None)
                v = self.prims.user_call(self, c, f, vals)
                if v is CONTROL:
                    return c.result
                return self.finish(st, c, v)
        raise Unknown("call of %s" % (show(f),))

    def closure_fn(self, c):
        span = c[1]
        for k, f in self.w.closures.items():
            if k[0] == c[4] and (k[1] == span):
                return f
        for k, f in self.w.closures.items():
            if k[0] == c[4] and (k[1].split(": ")[0] == span.split(": ")[0]):
                return f
        raise Unknown("closure " + span)

    def call_closure(self, st, c, ref, vals, dest, ret, unwind):
        fn = self.closure_fn(c)
        if fn.params[0][0] == "ref":
            return self.push(st, fn, c[2], [ref] + list(vals), dest, ret, unwind)
        return self.push(st, fn, c[2], [c] + list(vals), dest, ret, unwind)

    # ------------------------------------------------------------ drop glue
    def drop_place(self, st, pl, ret, unwind):
        """drops the value at a place, then continues at block ret of the top frame."""
        tasks = (("place", pl),)
        self.push_nat(st, nat_drops, tasks, None, ret, unwind)
        return None

    def push_nat(self, st, handler, data, dest, ret, unwind):
        d = (st.fr.depth + 1) if st.fr is not None else 0
        st.fr = Frame(d, None, None, st.fr, dest, ret, unwind, nat=handler, data=data)
        st.g["$ev"] = "start"

    def native(self, st, fr):
        return fr.nat(self, st, fr)

    def leave_nat(self, st, fr, v=UNIT):
        """a native frame is done."""
        if st.unw is not None and st.g.get("$natunw") == fr.depth:
            st.g.pop("$natunw", None)
            return self.unwind_out(st, fr)
        return self.ret(st, fr, v)

    def log_drop(self, st, runs):
        for seq, base, stride, n in runs:
            if seq is None:
                raise Alarm("ownership", "drops a slot that holds no element")
            if self.zst:
                st.count("dropped", n)
            else:
                st.log("drops", ((seq, base, stride, n),))


class ConstPanic(Exception):
    """the evaluation of a constant panics."""


class Split(Exception):
    def __init__(self, states):
        self.states = states


class Control:
    pass


CONTROL = Control()


class Call:
    """context of a native call."""
    __slots__ = ("st", "dest", "ret", "unwind", "targs", "selfty", "result")

    def __init__(self, st, dest, ret, unwind, targs, selfty):
        self.st = st
        self.dest = dest
        self.ret = ret
        self.unwind = unwind
        self.targs = targs
        self.selfty = selfty
        self.result = None


def nat_stop(ip, st, fr):
    raise Unknown("stop frame")


def nat_drops(ip, st, fr):
    """runs the drop glue tasks of fr.data one after another; a destructor that
    panics does not keep the remaining tasks from running."""
    ev = st.g.get("$ev")
    if ev == "unwind":
        st.g["$natunw"] = fr.depth
        st.g["$ev"] = "start"
    tasks = fr.data
    if not tasks:
        if st.unw is not None and st.g.get("$natunw") == fr.depth:
            st.g.pop("$natunw", None)
            st.g.pop("$ev", None)
            return ip.unwind_out(st, fr)
        return ip.ret(st, fr, UNIT)
    t, rest = tasks[0], tasks[1:]

    def cont(new):
        st.fr = Frame(fr.fid, None, None, fr.parent, fr.dest, fr.ret, fr.unwind, nat=nat_drops, data=tuple(new) + rest)
        st.fr.depth = fr.depth
        st.g["$ev"] = "start"

    def elem_drop(runs):
        some = any(st.gt(r[3], 0) for r in runs)
        ip.log_drop(st, runs)
        cont(())
        if some and ip.user_panic(st, "destructor"):
            st.unw = "user:destructor"
            st.pan = False
            st.g["$natunw"] = fr.depth
    if t[0] == "elems":
        # a slice of elements in memory
        ptr, n = t[1], t[2]
        if ptr[0] == "P":
            if st.le(n, 0):
                cont(())
                return None
            ip.log_drop(st, (("z", L(0), 0, n),))
            cont(())
            if ip.user_panic(st, "destructor"):
                st.unw = "user:destructor"
                st.pan = False
                st.g["$natunw"] = fr.depth
            return None
        if st.le(n, 0):
            cont(())
            return None
        runs = st.runs_at(ptr, n, "drop")
        if any(r[0] is None for r in runs):
            raise Alarm("memory", "drops a slot that holds no element")
        panic = ip.user_panic(st, "destructor")
        st.put_runs(ptr, n, (("-", L(0), 0, n),), "drop")
        ip.log_drop(st, runs)
        cont(())
        if panic:
            st.unw = "user:destructor"
            st.pan = False
            st.g["$natunw"] = fr.depth
        return None
    if t[0] == "release":
        st.log("released", ((t[1], L(0), 1, L(1)),))
        cont(())
        return None
    pl = t[1]
    if pl[0] == "e":
        cont((("elems", pl[1], L(1)),))
        return None
    if pl[0] == "z":
        cont((("elems", pl[1], L(1)),))
        return None
    if pl[0] == "s":
        cont((("elems", pl[1], pl[2]),))
        return None
    if t[0] == "place":
        v = ip.load(st, pl)
    if isinstance(v, (Lin, bool)):
        cont(())
        return None
    k = v[0]
    if k == "A":
        ty = v[1]
        if ty[0] == "p":
            if ty[1] in ("std::ManuallyDrop", "std::MaybeUninit", "std::PhantomData"):
                cont(())
                return None
            h = ip.hooks.get("drop_struct", {}).get(ty[1])
            if h is not None:
                cont(tuple(h(ip, st, v)))
                return None
            if t[0] == "place" and (len(t) < 3) and ty[1] in ip.w.local_types:
                r = ip.w.find_impl("Drop", (), ty, "drop")
                if r is not None and r[0] != "default":
                    i, b = r
                    m = dict(b)
                    m["Self"] = ty
                    cont((("place", pl, "fields"),))
                    return ip.push(st, i.methods["drop"], ip.w.env(m), [ip.ref_to(st, pl)], None, None, None)
        if pl[0] == "c":
            nt = []
            base = pl[2] + (("@" + v[2],) if v[2] is not None else ())
            for n, x in enumerate(v[3]):
                if needs_drop(x):
                    nt.append(("place", ("c", pl[1], base + (n,))))
            cont(nt)
            return None
        raise Unknown("drop of %s" % (pl,))
    if k == "T":
        elem_drop(((v[1], v[2], 1, L(1)),))
        return None
    if k == "V":
        elem_drop(v[1])
        return None
    if k == "B":
        if v[2] == T_ABS:
            r = st.region(v[1])
            cont((("elems", ("E", v[1], L(0), r.gen), r.cap),))
        else:
            cont(())
        return None
    if k == "C":
        nt = []
        for n, x in enumerate(v[3]):
            if needs_drop(x):
                nt.append(("place", ("c", pl[1], pl[2] + (n,))))
        cont(nt)
        return None
    if k == "S":
        cont((("release", v[1]),))
        r = st.regs.get(v[1])
        if r is not None:
            st.regs[v[1]] = r.but(live=False)
        return None
    if k == "Ve":
        cont((("elems", ip.prims.vec_ptr(ip, st, v), v[2]), ("release", v[1])))
        return None
    if k == "X":
        cont((("place", ("c", v[1], ())), ("release", v[1])))
        return None
    if k == "I":
        st.log("users", ((v[1], L(0), 1, L(1)),))
        cont(())
        return None
    if k in ("R", "E", "F", "P", "O", "N", "U"):
        cont(())
        return None
    raise Unknown("drop of %s" % (show(v),))


def needs_drop(v):
    if isinstance(v, (Lin, bool)):
        return False
    if v[0] in ("R", "E", "F", "P", "O", "N", "U"):
        return False
    if v[0] == "A":
        ty = v[1]
        if ty[0] == "p" and ty[1] in ("std::ManuallyDrop", "std::MaybeUninit", "std::PhantomData"):
            return False
        if ty[0] == "p" and not ty[1].startswith("std::"):
            return True
        return any(needs_drop(x) for x in v[3])
    return True


# functions of scen/scenarios.rs without a body of their own
GHOSTS = ("choose", "out_front", "out_back", "at_end", "check_len", "back", "any", "assume",
          "g_take_front", "g_take_back", "g_skip_front", "g_skip_back", "g_write_front", "g_write_back",
          "g_slice_front", "g_slice_back", "g_reserve", "g_reserved", "g_took", "g_done", "g_rejected",
          "g_at_front", "g_at_back", "g_none", "g_lens", "g_flags", "g_write_len",
          "g_nth", "g_nth_back", "g_nth_none", "g_last", "g_last_none", "g_hint", "g_finish", "g_empty", "g_left", "g_rest", "g_item")

SIZES = {"usize": 8, "isize": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "i32": 4, "i64": 8, "bool": 1, "char": 4}


def exact_div(a, b):
    """a / b if b is a single monomial that divides every term."""
    if b.is_const():
        if b.c > 0 and a.c % b.c == 0 and all(v % b.c == 0 for v in a.t.values()):
            return Lin(a.c // b.c, {k: v // b.c for k, v in a.t.items()})
        return None
    if b.c != 0 or len(b.t) != 1:
        return None
    (k, c), = b.t.items()
    ks = list(k) if isinstance(k, tuple) else [k]
    if a.c != 0:
        return None
    r = L(0)
    for m, v in a.t.items():
        ms = list(m) if isinstance(m, tuple) else [m]
        for x in ks:
            if x not in ms:
                return None
            ms.remove(x)
        if v % c:
            return None
        if not ms:
            r = r + v // c
        else:
            r = r + Lin(0, {(tuple(ms) if len(ms) > 1 else ms[0]): v // c})
    return r


def head_name(t):
    k = t[0]
    if k == "p":
        n = t[1]
        return n[5:] if n.startswith("std::") else n
    return {"sl": "slice", "arr": "array", "ref": "ref", "ptr": "ptr", "tup": "tuple", "abs": "abs"}.get(k, k)


def type_args(t):
    k = t[0]
    if k == "p":
        return [a for a in t[2] if a[0] != "bind"]
    if k in ("sl",):
        return [t[1]]
    if k == "arr":
        return [t[1], t[2]]
    if k in ("ref", "ptr"):
        return [t[2]]
    return []


def fn_name(f):
    o = []
    for n, a in f.path:
        if n == "<impl>":
            o.append("<impl %s:%s>" % (a[0].replace("src/", ""), a[1]))
        elif n == "<>":
            o.append("<..>")
        else:
            o.append(n)
    return "::".join(o)


def show(v):
    if isinstance(v, Lin):
        return repr(v)
    if isinstance(v, bool):
        return str(v)
    if v is None:
        return "-"
    if v[0] == "T":
        return "%s[%s]" % (v[1], v[2])
    if v[0] == "A":
        n = v[1][1] if v[1][0] == "p" else v[1][0]
        return "%s%s(%s)" % (n, "::" + v[2] if v[2] else "", ", ".join(show(x) for x in v[3]))
    return str(v)[:120]
