"""Scenarios (scen/scenarios.rs) and their specifications: the abstract list
semantics that every exit of the analysed code has to satisfy."""
from . import core
from .core import UNINIT, UNIT, Alarm, Dead, Fork, Choice, Region, St, Unknown, norm_runs, same_runs, show_runs
from .interp import T_ABS, Interp, show
from .lin import IMAX, UMAX, L, Lin, sym


class Bad(Exception):
    """an exit that contradicts the specification."""

    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


SCENS = {}


class Scen:
    def __init__(self, name, args, post, props, **kw):
        self.name = name
        self.fn = kw.pop("fn", name)
        self.args = args.split()
        self.post = post
        self.props = props.split()
        self.nightly = kw.pop("nightly", False)
        self.pre = kw.pop("pre", None)
        self.copy = kw.pop("copy", (False,))      # element modes: owned / Copy
        self.zst = kw.pop("zst", (False, True))
        self.panics = kw.pop("panics", False)     # does it call user code that may panic?
        self.hooks = kw.pop("hooks", None)
        self.env = kw.pop("env", None)
        self.leak = kw.pop("leak", False)
        self.lanes = kw.pop("lanes", None)
        self.feat = kw.pop("feat", None)
        self.setup = kw.pop("setup", None)
        self.opts = kw


def scen(name, args, props, **kw):
    def d(f):
        SCENS[name] = Scen(name, args, f, props, **kw)
        return f
    return d


def vec_value(ip, st, rid, seq, n, extra=0):
    """a GenericVec<T, S> aggregate over abstract storage rid that holds seq[0..n)."""
    st.assume(L(IMAX) - n)
    # (a vector is never made over a storage that isn't aligned: C18)
    st.g["aligned:" + rid] = True
    if not ip.zst:
        cap = sym("cap_" + rid)
        st.assume(L(IMAX) - cap)
        st.assume(cap - n)
        st.regs[rid] = Region(cap, 0, ((L(0), L(n), seq, L(0), 1),))
    else:
        cap = sym("cap_" + rid)
        st.assume(L(UMAX) - cap)
        st.regs[rid] = Region(cap, 0, ())
    return mk_vec(ip, ("abs", rid), n, ("S", rid))


def mk_vec(ip, sty, n, storage):
    names = ip.w.structs["GenericVec"]
    vals = {"len": L(n), "storage": storage}
    fl = []
    for f in names:
        f = f if isinstance(f, str) else f[0]
        fl.append(vals.get(f, ("A", ("p", "std::PhantomData", ()), None, ())))
    return ("A", ("p", "GenericVec", (T_ABS, sty)), None, tuple(fl))


def vec_fields(ip, v):
    names = [f if isinstance(f, str) else f[0] for f in ip.w.structs["GenericVec"]]
    return v[3][names.index("len")], v[3][names.index("storage")]


class Ctx:
    """one run of a scenario."""

    def __init__(self, ip, sc):
        self.ip = ip
        self.sc = sc
        self.st = None
        self.exit = None
        self.live = []        # cells of vectors that the caller still owns
        self.init = {}        # sequences that exist at the start: name -> length
        self.stores = []      # storages owned at the start, by value
        self.names = {}

    # ---- initial state
    def start(self, fn, env):
        st = St()
        self.st = st
        ip = self.ip
        vals = []
        if not ip.zst:
            st.assume(sym("size_T") - 1)
            st.assume(L(IMAX) - sym("size_T"))
        for a in self.sc.args:
            vals.append(self.arg(st, a))
        if self.sc.setup:
            self.sc.setup(self, st)
        if self.sc.pre:
            self.sc.pre(self, st)
        ip.push(st, fn, env, vals, None, None, None)
        return st

    def arg(self, st, a):
        ip = self.ip
        if a in ("v", "vs"):
            st.cells[("arg", "v")] = vec_value(ip, st, "S", "x", sym("len"))
            self.init["x"] = sym("len")
            self.live.append(("arg", "v"))
            return ("R", ("arg", "v"), ())
        if a == "vo":
            v = vec_value(ip, st, "S", "x", sym("len"))
            self.init["x"] = sym("len")
            self.stores.append("S")
            return v
        if a in ("o", "os"):
            st.cells[("arg", "o")] = vec_value(ip, st, "B", "y", sym("olen"))
            self.init["y"] = sym("olen")
            self.live.append(("arg", "o"))
            return ("R", ("arg", "o"), ())
        if a in ("a", "b"):
            self.init[a] = L(1)
            return self.tok(a, 0)
        if a in ("A",):
            n = sym("N")
            st.assume(L(IMAX) - n)
            self.init["a"] = n
            return ("V", (self.run("a", 0, n),))
        if a in ("i", "n", "k", "j", "m"):
            st.assume(L(UMAX) - sym(a))
            return sym(a)
        if a == "rg":
            for q in ("rs", "re"):
                st.assume(L(UMAX) - sym(q))
            return ("A", ("p", "std::Range", (("p", "usize", ()),)), None, (sym("rs"), sym("re")))
        if a == "R":
            return ("I", "range")
        if a in ("W", "V"):
            # a storage, or a vector over it, that the scenario's setup makes
            return ("R", ("arg", "W" if a == "W" else "v"), ())
        if a == "al":
            return ("I", "al")
        if a == "p":
            self.sc.pre(self, st)
            return self.old
        if a == "c":
            return sym("c")
        if a == "FW":
            self.sc.pre(self, st)
            return self.w
        if a in ("hp", "hc", "alc"):
            if a == "hp":
                self.sc.pre(self, st)
            from .specs_conv import A, ptr
            return ptr(self) if a == "hp" else self.cap if a == "hc" else A
        if a == "US":
            from .specs_raw import slice_mem
            return slice_mem(st, self.sc.opts["cfg"]["X"][0])
        if a == "optOld":
            # the constant capacity of another storage that holds n elements
            st.assume(L(UMAX) - sym("old"))
            st.assume(sym("old") - sym("n"))
            return ("A", ("p", "std::Option", ()), "Some", (sym("old"),))
        if a == "optNone":
            return ("A", ("p", "std::Option", ()), "None", ())
        if a == "optSome":
            return ("A", ("p", "std::Option", ()), "Some", (sym("m"),))
        if a in ("O", "H"):
            st.cells[("arg", a)] = ("I", a)
            return ("R", ("arg", a), ())
        if a in ("f", "it", "key", "eqf", "I"):
            return ("I", a)
        if a == "s":
            n = sym("slen")
            st.assume(L(IMAX) - n)
            if ip.zst:
                return ("F", ("P", sym("addr_src")), n)
            st.regs["src"] = Region(n, 0, ((L(0), n, "s", L(0), 1),), "ro")
            return ("F", ("E", "src", L(0), 0), n)
        if a == "so":
            return ("S", "S")
        raise Unknown("argument kind " + a)

    def tok(self, seq, i):
        return ("T", "z" if self.ip.zst else seq, L(0) if self.ip.zst else L(i))

    def run(self, seq, i, n, stride=1):
        if self.ip.zst:
            return ("z", L(0), 0, L(n))
        return (seq, L(i), stride, L(n))

    # ---- at an exit
    @property
    def zst(self):
        return self.ip.zst

    @property
    def ret(self):
        return self.exit.val

    @property
    def panicked(self):
        return self.exit.kind == "panic"

    @property
    def reason(self):
        return self.st.unw if self.exit.kind == "panic" else None

    @property
    def len(self):
        return sym("len")

    def bad(self, kind, msg):
        raise Bad(kind, msg)

    def need(self, c, msg, kind="spec"):
        if not c:
            raise Bad(kind, msg)

    def vec(self, name="v"):
        """(len, region id) of the vector in an argument cell."""
        return vec_fields(self.ip, self.st.cells[("arg", name)])

    def vcap(self, rid):
        return L(IMAX) if self.zst else self.st.region(rid).cap

    def vcap0(self, rid):
        """the capacity at the start."""
        return L(IMAX) if self.zst else sym("cap_" + rid)

    def contents_are(self, want, name="v", what="the vector"):
        n, s = self.vec(name)
        self.vec_is(n, s, want, what)

    def total(self, runs):
        t = L(0)
        for r in runs:
            t = t + r[3]
        return t

    def vec_is(self, n, s, want, what):
        st = self.st
        if self.zst:
            if not st.eq(n, self.total(want)):
                self.bad("spec", "%s has length %s, expected %s" % (what, n, self.total(want)))
            return
        rid = s[1]
        if not st.le(n, st.region(rid).cap):
            self.bad("validity", "%s: the length %s exceeds the capacity" % (what, n))
        got = st.runs_at(("E", rid, L(0), st.region(rid).gen), n)
        if not same_runs(st, got, [self.fixrun(r) for r in want]):
            self.bad("spec", "%s holds %s, expected %s" % (what, show_runs(got), show_runs(want)))

    def fixrun(self, r):
        return (r[0], L(r[1]), r[2], L(r[3]))

    def unchanged(self, name="v"):
        seq, n = ("x", sym("len")) if name == "v" else ("y", sym("olen"))
        self.contents_are([self.run(seq, 0, n)], name, "the vector after a rejected call")

    def same_storage(self, name="v"):
        """capacity and memory of the vector are those from before."""
        n, s = self.vec(name)
        if self.zst:
            return
        r = self.st.region(s[1])
        self.need(r.gen == 0, "the storage was reallocated by a call that must not grow")

    def is_tok(self, v, seq, i, what="the returned value"):
        st = self.st
        if not (isinstance(v, tuple) and v[0] == "T"):
            self.bad("spec", "%s is %s, expected %s[%s]" % (what, show(v), seq, i))
        if self.zst:
            return
        if v[1] != seq or not st.eq(v[2], L(i)):
            self.bad("spec", "%s is %s, expected %s[%s]" % (what, show(v), seq, i))

    def is_arr(self, v, want, what="the returned array"):
        st = self.st
        if not (isinstance(v, tuple) and v[0] == "V"):
            self.bad("spec", "%s is %s" % (what, show(v)))
        if self.zst:
            if not st.eq(self.total(v[1]), self.total(want)):
                self.bad("spec", "%s has a wrong length" % what)
            return
        if not same_runs(st, v[1], want):
            self.bad("spec", "%s is %s, expected %s" % (what, show_runs(v[1]), show_runs(want)))

    def is_slot(self, v, i, name="v", what="the returned reference"):
        st = self.st
        if self.zst:
            self.need(isinstance(v, tuple) and v[0] in ("P", "R"), "%s is %s" % (what, show(v)))
            return
        n, s = self.vec(name)
        if isinstance(v, tuple) and v[0] == "F":
            v = v[1]
        if not (isinstance(v, tuple) and v[0] == "E" and v[1] == s[1]):
            self.bad("spec", "%s is %s" % (what, show(v)))
        st.check_ep(v)
        if not st.eq(v[2], L(i)):
            self.bad("spec", "%s points to slot %s, expected %s" % (what, v[2], i))

    def is_int(self, v, want, what):
        if not isinstance(v, Lin) or not self.st.eq(v, want):
            self.bad("spec", "%s is %s, expected %s" % (what, show(v), want))

    def is_bool(self, v, want, what):
        if not isinstance(v, bool) or v != want:
            self.bad("spec", "%s is %s, expected %s" % (what, v, want))

    def some(self, v, what="the result"):
        if not (v[0] == "A" and v[2] == "Some"):
            self.bad("spec", "%s is %s, expected Some" % (what, show(v)))
        return v[3][0]

    def none(self, v, what="the result"):
        if not (v[0] == "A" and v[2] == "None"):
            self.bad("spec", "%s is %s, expected None" % (what, show(v)))

    def ok(self, v, what="the result"):
        if not (v[0] == "A" and v[2] == "Ok"):
            self.bad("spec", "%s is %s, expected Ok" % (what, show(v)))
        return v[3][0]

    def err(self, v, what="the result"):
        if not (v[0] == "A" and v[2] == "Err"):
            self.bad("spec", "%s is %s, expected Err" % (what, show(v)))
        return v[3][0]

    def returns(self, what="the call"):
        if self.panicked:
            self.bad("panic", "%s panics (%s) although its arguments are valid" % (what, self.reason))

    def must_panic(self, what="the call"):
        if not self.panicked:
            self.bad("panic", "%s is accepted although its arguments are invalid" % what)

    def growth_failed(self):
        """the storage refused to grow (a documented panic)."""
        return self.panicked and self.reason in ("storage:reserve", "storage:with_capacity")

    # ---- validity and ownership
    def collect(self, v, out, seen):
        """runs of elements owned by a value."""
        st = self.st
        if isinstance(v, (Lin, bool)) or v is None:
            return
        k = v[0]
        if k == "T":
            out.append(("value", (v[1], v[2], 1, L(1))))
        elif k == "V":
            for r in v[1]:
                out.append(("value", r))
        elif k == "B":
            r = st.region(v[1])
            for x in st.runs_at(("E", v[1], L(0), r.gen), r.cap):
                out.append(("value", x))
        elif k == "Ve":
            seen.append(v[1])
            al = st.g.get("vec_alloc", {}).get(v[1])
            if al is not None:
                seen.append(al[1])
            if self.zst:
                out.append(("vec", ("z", L(0), 0, v[2])))
            else:
                for x in st.runs_at(("E", v[1], L(0), st.region(v[1]).gen), v[2]):
                    out.append(("vec", x))
        elif k == "A":
            ty = v[1]
            if ty[0] == "p" and ty[1] == "GenericVec":
                self.collect_vec(v, out, seen)
                return
            if ty[0] == "p" and ty[1] in ("std::MaybeUninit",):
                return
            if ty[0] == "p" and ty[1] == "std::ManuallyDrop":
                return
            for x in v[3]:
                self.collect(x, out, seen)
        elif k == "S":
            seen.append(v[1])
        elif k == "X":
            self.collect(st.cells.get(v[1]), out, seen)

    def aligned(self, v, s):
        """no vector exists over a storage that isn't known to be aligned for its elements."""
        if s[0] == "S" and self.st.g.get("aligned:" + s[1].split("_new")[0]) is not True:
            self.bad("align", "a vector over a storage whose alignment for the elements wasn't checked")

    def collect_vec(self, v, out, seen):
        st = self.st
        n, s = vec_fields(self.ip, v)
        if self.zst:
            self.aligned(v, s)
            out.append(("vector", ("z", L(0), 0, n)))
            if s[0] == "A" and s[1][1] == "Heap":
                self.heap_parts(s, seen)
                self.collect(s, [], seen)
                return
            if not st.le(n, IMAX):
                self.bad("validity", "the length %s exceeds the capacity of the address space" % n)
            self.collect(s, [], seen)
            return
        if s[0] in ("A", "V", "B") and (s[0] != "A" or s[1][1] == "UninitBuffer"):
            # the storage is a buffer or an array
            from .prims import array_place
            st.cells[("arg", "buf")] = s
            p = array_place(self.ip, st, ("R", ("arg", "buf"), ()))
            x = self.ip.load(st, ("c", p[1], p[2]))
            if x[0] == "V":
                self.ip.to_region(st, ("c", p[1], p[2]), x)
                x = self.ip.load(st, ("c", p[1], p[2]))
            if x[0] == "B":
                s = x
            elif st.eq(n, 0):
                return
        if s[0] == "A" and s[1][1] == "Heap":
            p = self.heap_parts(s, seen)
            if p[0] == "P":
                if not st.eq(n, 0):
                    self.bad("validity", "a vector of length %s over dangling memory" % n)
                self.collect(s, [], seen)
                return
        rid = self.backing(s)
        self.aligned(v, s)
        r = st.region(rid)
        if not st.ge(n, 0) or not st.le(n, r.cap):
            self.bad("validity", "the length %s exceeds the capacity %s" % (n, r.cap))
        if not r.live:
            self.bad("validity", "a live vector over a released storage")
        for x in st.runs_at(("E", rid, L(0), r.gen), n):
            if x[0] is None and not st.le(x[3], 0):
                self.bad("validity", "the vector's length covers slots that hold no element")
            out.append(("vector", x))
        self.collect(s, [], seen)

    def heap_parts(self, s, seen):
        f = dict(zip(self.ip.w.structs["Heap"], s[3]))
        if f["ptr"][0] == "E":
            seen.append(f["ptr"][1])
        elif self.zst:
            seen.append("V")
        return f["ptr"]

    def backing(self, s):
        for _ in range(6):
            if s[0] == "A" and s[1][1] == "Heap":
                s = dict(zip(self.ip.w.structs["Heap"], s[3]))["ptr"]
            if s[0] in ("S", "B"):
                return s[1]
            if s[0] == "E":
                return s[1]
            if s[0] == "F":
                return s[1][1]
            if s[0] in ("R", "X"):
                from .prims import load_ref
                s = load_ref(self.ip, self.st, s)
            else:
                break
        raise Unknown("storage of a vector: %s" % show(s))

    def ownership(self, extra=None, leak=False, consumed=()):
        """every element is in exactly one place."""
        st = self.st
        out, seen = [], []
        for c in self.live:
            self.collect(st.cells[c], out, seen)
        if not self.panicked:
            self.collect(self.ret, out, seen)
        g = st.g
        init = dict(self.init)
        if self.zst:
            have = L(0)
            for w, r in out:
                have = have + r[3]
            if self.ip.w.mode_copy:
                self.storages(seen, leak)
                return
            have = have + st.get("dropped") + st.get("handed")
            want = L(0)
            for n in init.values():
                want = want + n
            want = want + st.get("cloned") + st.get("made")
            if not leak:
                if not st.eq(have, want):
                    self.bad("owner", "%s elements entered, but %s are held, handed out or dropped" % (want, have))
            elif not st.le(have, want):
                self.bad("owner", "only %s elements entered, but %s are held, handed out or dropped" % (want, have))
            self.storages(seen, leak)
            return
        for name in ("drops", "handed"):
            for r in g.get(name, ()):
                out.append((name, r))
        for r in g.get("consumed", ()):
            out.append(("renamed", r))
        for r in g.get("cloned", ()):
            if "c:" + r[0] not in init:
                init["c:" + r[0]] = ("log", [])
            init["c:" + r[0]][1].append(r)
        for q in ("a", "b"):
            if "nclone_" + q in g:
                init["c:" + q] = g["nclone_" + q]
        anon = {}
        for s, n in g.items():
            if s.startswith("made:"):
                init[s[5:]] = L(n)
            elif s.startswith("anon:"):
                anon[s[5:]] = L(n)
        if self.sc.opts.get("copy_mode") or self.ip.w.mode_copy:
            self.storages(seen, leak)
            return
        by = {}
        for w, r in out:
            if r[0] is None:
                if st.le(r[3], 0):
                    continue
                self.bad("owner", "%s holds a slot without an element" % w)
            if st.must_ge(0, r[3]) or (r[0] not in init and r[0] != "s" or not st.must_ge(r[3], 0)) and st.le(r[3], 0):
                continue
            by.setdefault(r[0], []).append((w, r))
        for s, n in anon.items():
            # interchangeable elements are counted
            k = L(0)
            for w, r in by.pop(s, ()):
                k = k + r[3]
            if not st.must_eq(k, n) and not st.eq(k, n) and not (leak and st.le(k, n)):
                self.bad("owner", "%s of the %s elements %s are held, handed out or dropped" % (k, n, s))
        for s in by:
            if s not in init and s != "s":
                self.bad("owner", "element of unknown origin %s" % s)
        for s, n in init.items():
            self.tile(s, n, by.get(s, []), leak)
        if "s" not in init:
            for w, r in by.get("s", ()):
                if st.gt(r[3], 0):
                    self.bad("owner", "elements of the borrowed slice are owned by %s" % w)
        self.storages(seen, leak)

    def tile(self, seq, n, pieces, leak):
        """do the pieces cover seq[0..n) exactly once (at most once if leaks are allowed)?"""
        st = self.st
        log = isinstance(n, tuple) and n[0] == "log"
        if not log:
            lo, hi = (n[1], n[2]) if isinstance(n, tuple) else (L(0), L(n))
            if self.tiled(lo, hi, pieces, leak):
                return
        iv = []
        for w, r in pieces:
            _, base, stride, k = r
            if st.le(k, 0):
                continue
            if st.eq(k, 1) or stride == 1:
                iv.append([base, base + k, w])
            elif stride == -1:
                iv.append([base - k + 1, base + 1, w])
            else:
                self.bad("owner", "%s: the element %s[%s] occurs more than once" % (w, seq, base))
        if log:
            # clones: one for every entry of the log
            want = []
            for r in n[1]:
                if st.le(r[3], 0):
                    continue
                want.append([r[1], r[1] + r[3]])
            want = self.sort_iv(want, seq, True)
            rng = want
        else:
            rng = [[lo, hi]] if st.gt(hi, lo) else []
        # merge target ranges
        tgt = []
        for a, b in rng:
            if tgt and st.eq(tgt[-1][1], a):
                tgt[-1][1] = b
            else:
                tgt.append([a, b])
        iv = self.sort_iv(iv, seq, False)
        k = 0
        cur = None
        for a, b in tgt:
            cur = a
            while k < len(iv) and st.lt(iv[k][0], b):
                lo, hi, w = iv[k]
                if not st.le(lo, cur):
                    if not leak:
                        self.bad("owner", "the element %s[%s] is lost: neither in a vector, handed out nor dropped" % (seq, cur))
                    cur = lo
                if st.lt(lo, cur):
                    self.bad("owner", "the element %s[%s] is in two places (%s and %s)" % (seq, lo, w, iv[k - 1][2] if k else "?"))
                cur = hi
                k += 1
            if not st.ge(cur, b) and not leak:
                self.bad("owner", "the element %s[%s] is lost: neither in a vector, handed out nor dropped" % (seq, cur))
            if not st.le(cur, b):
                self.bad("owner", "element %s[%s] is out of range" % (seq, b))
        if k < len(iv):
            self.bad("owner", "%s: element %s[%s] does not exist" % (iv[k][2], seq, iv[k][0]))

    def tiled(self, lo, n, pieces, leak):
        """do the pieces cover [lo..n) exactly once on every state of the partition?  (nothing is split)"""
        st = self.st
        iv = []
        for w, r in pieces:
            _, base, stride, k = r
            if st.must_eq(k, 0):
                continue
            if not st.must_ge(k, 0):
                return False
            if stride == 1 or st.must_eq(k, 1):
                iv.append((base, base + k))
            elif stride == -1:
                iv.append((base - k + 1, base + 1))
            else:
                return False
        cur = lo
        while iv:
            for x in iv:
                if st.must_eq(x[0], cur):
                    break
            else:
                if not leak:
                    return False
                for x in iv:
                    if st.must_ge(x[0], cur) and all(y is x or st.must_ge(y[0], x[1]) for y in iv):
                        break
                else:
                    return False
            iv.remove(x)
            cur = x[1]
        return st.must_ge(n, cur) if leak else st.must_eq(n, cur)

    def sort_iv(self, iv, seq, dup):
        st = self.st
        out = []
        for x in iv:
            p = len(out)
            while p > 0 and st.lt(x[0], out[p - 1][0]):
                p -= 1
            out.insert(p, x)
        for a, b in zip(out, out[1:]):
            if not st.le(a[1], b[0]):
                if dup:
                    self.bad("spec", "the element %s[%s] was cloned twice" % (seq, b[0]))
                self.bad("owner", "the element %s[%s] is in two places (%s and %s)" % (seq, b[0], a[2], b[2]))
        return out

    def storages(self, seen, leak):
        st = self.st
        own = list(self.stores)
        for r in st.g.get("created", ()):
            own.append(r[0])
        rel = [r[0] for r in st.g.get("released", ())]
        nrel = {}
        for r in st.g.get("released", ()):
            nrel[r[0]] = nrel.get(r[0], L(0)) + r[3]
        for s in own:
            c = seen.count(s)
            k = nrel.get(s, L(0))
            tot = k + c
            if not st.eq(tot, 1):
                if leak and st.eq(tot, 0):
                    continue
                self.bad("owner", "the storage %s is released %s times and held %s times" % (s, k, c))

    def generic(self):
        """checks for every exit."""
        self.ownership(leak=self.sc.leak or self.leaks)


# ---------------------------------------------------------------- running
class Failure:
    __slots__ = ("kind", "msg", "exit", "where", "sure", "model", "path")


def run_scen(ip, sc, fn, env, budget=None):
    """analyses one scenario.  Returns (failures, stats)."""
    c = Ctx(ip, sc)
    if sc.hooks:
        ip.hooks = sc.hooks(c)
    st = c.start(fn, env)
    exits = ip.run(st, [])
    fails = []
    stats = dict(exits=len(exits), checked=0, partitions=0, unknown=[])
    for e in exits:
        if e.kind == "unknown":
            stats["unknown"].append("%s in %s" % (e.msg, ip.where(e.st)))
            continue
        if e.kind == "alarm":
            if e.st.g.get("$outside"):
                continue
            f = Failure()
            f.kind, f.msg = e.val, e.msg
            f.exit = e
            f.where = ip.where(e.st)
            m = e.st.facts.model() if e.st.exact else None
            f.sure = m is not None
            f.model = m
            fails.append(f)
            continue
        work = [e.st]
        while work:
            s = work.pop()
            stats["partitions"] += 1
            if stats["partitions"] > 20000:
                stats["unknown"].append("partition budget")
                break
            c.st = s.copy()
            c.exit = e
            c.leaks = False
            try:
                sc.post(c)
                c.generic()
                stats["checked"] += 1
            except (Fork, Choice) as f:
                work += ip.split(s, f)
            except Dead:
                pass
            except Bad as b:
                f = Failure()
                f.kind, f.msg = b.kind, b.msg
                f.exit = e
                f.where = sc.name + " (exit: %s%s)" % (e.kind, " " + str(c.st.unw) if e.kind == "panic" else "")
                m = s.facts.model() if s.exact else None
                f.sure = m is not None
                f.model = m
                fails.append(f)
            except Alarm as a:
                f = Failure()
                f.kind, f.msg = a.kind, a.msg
                f.exit = e
                f.where = sc.name + " (final state)"
                m = s.facts.model() if s.exact else None
                f.sure = m is not None
                f.model = m
                fails.append(f)
            except Unknown as u:
                stats["unknown"].append("final state: %s" % u)
    return fails, stats
