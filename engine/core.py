"""Abstract values, memory segments and abstract states of the interpreter.

Values (tuples, first component is the tag):
  Lin                     integer          bool                 boolean
  ("A",ty,variant,flds)   struct / enum / tuple
  ("T",seq,idx)           one element value: the idx-th of ghost sequence seq
  ("R",cell,path)         reference or raw pointer to a cell
  ("E",rid,off,gen)       pointer to slot off of region rid
  ("F",ptr,len)           fat pointer (slice)
  ("P",lin)               pointer made from an integer / pointer to zero-sized elements
  ("V",runs)              array value of elements; runs = ((seq,base,stride,n),..)
  ("B",rid,elemty)        array whose slots live in a region
  ("C",span,env,flds)     closure          ("N",path,env)       function item
  ("S",rid)               abstract storage ("X",cell)           box
  ("Ve",rid,len)          std Vec          ("I",name)           abstract user value (closure, iterator, key)
  ("U",)                  uninitialised    ("O",text)           inert (strings, formatting)
"""
from .lin import IMAX, UMAX, Facts, L, Lin, sym


class Fork(Exception):
    """the comparison e >= 0 (or e == 0) is undecided: split the partition."""

    def __init__(self, e, eq=False):
        self.e = e
        self.eq = eq


class Choice(Exception):
    """nondeterminism of the environment: n alternatives."""

    def __init__(self, n):
        self.n = n


class Alarm(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg


class Unknown(Exception):
    """the analysis does not cover this construct."""


class Budget(BaseException):
    """the time for an analysis is used up."""


class Dead(Exception):
    """the path ends here without an observable (diverges, aborts, infeasible)."""


SETS = ("drops", "handed", "consumed", "released", "users", "created", "leaked", "forgotten")    # logs without an order

NDEC = [0]      # counts path-dependent decisions (constants that needed none are cached)

UNINIT = ("U",)
UNIT = ("A", ("tup", ()), None, ())


class Region:
    __slots__ = ("cap", "gen", "segs", "kind", "live")

    def __init__(self, cap, gen=0, segs=(), kind="vec", live=True):
        self.cap = cap
        self.gen = gen
        self.segs = segs      # ((lo,hi,seq,base,stride),..) ascending, disjoint
        self.kind = kind
        self.live = live

    def but(self, **kw):
        r = Region(self.cap, self.gen, self.segs, self.kind, self.live)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Frame:
    __slots__ = ("fid", "fn", "body", "env", "parent", "dest", "ret", "unwind", "nat", "data", "depth")

    def __init__(self, fid, fn, env, parent, dest, ret, unwind, nat=None, data=None):
        self.fid = fid
        self.fn = fn
        self.body = fn.body if fn is not None else None
        self.env = env
        self.parent = parent
        self.dest = dest
        self.ret = ret
        self.unwind = unwind
        self.nat = nat
        self.data = data
        self.depth = parent.depth + 1 if parent is not None else 0


class St:
    __slots__ = ("facts", "fr", "bb", "si", "cells", "regs", "g", "pre", "pos", "exact", "unw", "loops", "trace", "steps", "pan", "left", "entered", "wto")

    def __init__(self):
        self.facts = Facts()
        self.fr = None
        self.bb = 0
        self.si = 0
        self.cells = {}
        self.regs = {}
        self.g = {}            # ghost: logs and counters
        self.pre = ()
        self.pos = 0
        self.exact = True
        self.unw = None        # reason of the panic that is unwinding
        self.loops = ()
        self.trace = None
        self.steps = 0
        self.pan = True        # may user code still panic?
        self.left = None       # loop that this state has left
        self.wto = (0,)        # position: loops left so far, per level of nesting
        self.entered = False   # has the entry of the current block been seen by the loop control?

    def copy(self):
        s = St.__new__(St)
        s.facts = self.facts
        s.fr = self.fr
        s.bb = self.bb
        s.si = self.si
        s.cells = dict(self.cells)
        s.regs = dict(self.regs)
        s.g = dict(self.g)
        s.pre = self.pre
        s.pos = self.pos
        s.exact = self.exact
        s.unw = self.unw
        s.loops = self.loops
        s.trace = self.trace
        s.steps = self.steps
        s.pan = self.pan
        s.left = self.left
        s.wto = self.wto
        s.entered = self.entered
        return s

    # ---- decisions
    def ge(self, a, b):
        """a >= b, decided (or the partition is split)."""
        e = L(a) - L(b)
        if not e.t:
            return e.c >= 0
        NDEC[0] += 1
        r = self.facts.decide(e)
        if r is None:
            raise Fork(e)
        return r

    def le(self, a, b):
        return self.ge(b, a)

    def lt(self, a, b):
        return not self.ge(a, b)

    def gt(self, a, b):
        return not self.ge(b, a)

    def eq(self, a, b):
        e = L(a) - L(b)
        if not e.t:
            return e.c == 0
        NDEC[0] += 1
        r = self.facts.decide_eq(e)
        if r is None:
            raise Fork(e, True)
        return r

    def must_ge(self, a, b):
        """entailed? (never splits)"""
        e = L(a) - L(b)
        if not e.t:
            return e.c >= 0
        return self.facts.entails(e)

    def must_eq(self, a, b):
        e = L(a) - L(b)
        if not e.t:
            return e.c == 0
        return self.facts.entails_eq(e)

    def choose(self, n):
        NDEC[0] += 1
        if self.pos < len(self.pre):
            r = self.pre[self.pos]
            self.pos += 1
            return r
        raise Choice(n)

    def assume(self, e):
        f = self.facts.add(L(e))
        if f is None:
            raise Dead()
        self.facts = f

    def fresh(self, base, hi=UMAX):
        n = self.g.get("#" + base, 0)
        self.g["#" + base] = n + 1
        s = sym("%s%d" % (base, n) if n else base)
        if hi is not None:
            self.assume(Lin(hi) - s)
        return s

    # ---- regions
    def region(self, rid):
        r = self.regs.get(rid)
        if r is None:
            raise Unknown("region %s" % (rid,))
        return r

    def check_ep(self, ep):
        r = self.region(ep[1])
        if ep[3] != r.gen:
            raise Alarm("memory", "uses a pointer from before a reallocation")
        if not r.live:
            raise Alarm("memory", "uses memory that was released")
        return r

    def slot(self, ep, why="read"):
        """token at a slot, or None if it is uninitialised."""
        r = self.check_ep(ep)
        off = ep[2]
        if not (self.ge(off, 0) and self.lt(off, r.cap)):
            raise Alarm("memory", "%s outside the capacity" % why)
        for lo, hi, seq, base, stride in r.segs:
            if self.lt(off, lo):
                return None
            if self.lt(off, hi):
                if seq == "-":
                    return None
                if seq == "?":
                    raise Unknown("content of a slot that was moved from")
                return ("T", seq.lstrip("~"), base + (off - lo).scale(stride))
        return None

    def mark_stale(self, ep, n):
        """the slots were moved from: their bits stay, but nothing should use them."""
        r = self.region(ep[1])
        if r.kind == "ro":
            return
        runs = self.runs_at(ep, n)
        self.put_runs(ep, n, tuple(("~" + x[0],) + x[1:] if x[0] is not None and x[0] not in "?-" else x for x in runs))

    def runs_at(self, ep, n, why="read", dead="drop"):
        """contents of n slots: list of (seq, base, stride, n) with None for uninitialised parts
        and parts whose elements were dropped ("-" for the latter if dead is "keep")."""
        n = L(n)
        r = self.check_ep(ep)
        off = ep[2]
        if not (self.ge(off, 0) and self.le(off + n, r.cap)):
            raise Alarm("memory", "%s outside the capacity" % why)
        if self.must_ge(0, n) or not self.must_ge(n, 0) and self.le(n, 0):
            return ()
        out = []
        cur = off
        end = off + n
        for lo, hi, seq, base, stride in r.segs:
            if self.must_ge(cur, hi):
                continue
            if self.must_ge(lo, end):
                break
            if not self.must_ge(hi, cur) and self.ge(cur, hi):
                continue
            if not self.must_ge(end, lo) and self.le(end, lo):
                break
            if not self.must_ge(cur, lo) and self.lt(cur, lo):
                out.append((None, L(0), 0, lo - cur))
                cur = lo
            e = hi if self.le(hi, end) else end
            out.append((None if seq == "-" and dead == "drop" else seq.lstrip("~"), base + (cur - lo).scale(stride), stride, e - cur))
            cur = e
            if self.must_ge(cur, end):
                break
        if self.lt(cur, end):
            out.append((None, L(0), 0, end - cur))
        return tuple(out)

    def put_runs(self, ep, n, runs, why="write"):
        """replaces the contents of n slots."""
        n = L(n)
        r = self.check_ep(ep)
        off = ep[2]
        if not (self.ge(off, 0) and self.le(off + n, r.cap)):
            raise Alarm("memory", "%s outside the capacity" % why)
        if r.kind == "ro":
            raise Alarm("memory", "writes through a shared reference")
        if self.le(n, 0):
            return
        end = off + n
        left, right = [], []
        for s in r.segs:
            lo, hi, seq, base, stride = s
            if self.le(hi, off):
                left.append(s)
            elif self.ge(lo, end):
                right.append(s)
            else:
                if self.must_ge(off, lo) or self.lt(lo, off):
                    left.append((lo, off, seq, base, stride))
                if self.must_ge(hi, end) or self.gt(hi, end):
                    right.append((end, hi, seq, base + (end - lo).scale(stride), stride))
        mid = []
        cur = off
        for seq, base, stride, k in runs:
            if seq is not None:
                mid.append((cur, cur + k, seq, base, stride))
            cur = cur + k
        self.regs[ep[1]] = r.but(segs=self.merge(left + mid + right))

    def merge(self, segs):
        out = []
        for s in segs:
            if self.must_eq(s[0], s[1]):
                continue
            if out:
                p = out[-1]
                if p[2] == s[2] and self.must_eq(p[1], s[0]):
                    j = self.join(p[2], p[3], p[4], p[1] - p[0], s[3], s[4], s[1] - s[0])
                    if j is not None:
                        out[-1] = (p[0], s[1], p[2], p[3], j)
                        continue
            out.append(s)
        return tuple(out)

    def join(self, seq, b1, s1, n1, b2, s2, n2):
        """stride of the concatenation of two runs of one sequence, or None.
        A run of length one may have any stride."""
        one1 = self.must_eq(n1, 1)
        one2 = self.must_eq(n2, 1)
        cands = []
        if one1 and one2:
            cands = [1, -1, 0]
        elif one1:
            cands = [s2]
        elif one2:
            cands = [s1]
        elif s1 == s2:
            cands = [s1]
        for c in cands:
            if self.must_eq(b1 + n1.scale(c), b2):
                return c
        return None

    # ---- run logs
    def log(self, name, runs):
        l = list(self.g.get(name, ()))
        for r in runs:
            if self.must_eq(r[3], 0):
                continue
            for i in (range(len(l)) if name in SETS else range(len(l) - 1, len(l))):
                p = l[i] if l else None
                if p is None or p[0] != r[0]:
                    continue
                j = self.join(p[0], p[1], p[2], p[3], r[1], r[2], r[3])
                if j is not None:
                    l[i] = (p[0], p[1], j, p[3] + r[3])
                    break
            else:
                l.append(r)
        self.g[name] = tuple(l)

    def count(self, name, n=1):
        self.g[name] = L(self.g.get(name, L(0))) + n

    def get(self, name):
        return L(self.g.get(name, L(0)))


def norm_runs(st, runs):
    """merged runs without empty ones (emptiness is decided)."""
    out = []
    for r in runs:
        if st.le(r[3], 0):
            continue
        if out and out[-1][0] == r[0]:
            p = out[-1]
            j = st.join(p[0], p[1], p[2], p[3], r[1], r[2], r[3])
            if j is not None:
                out[-1] = (p[0], p[1], j, p[3] + r[3])
                continue
        out.append(r)
    return out


def show_runs(runs):
    if not runs:
        return "[]"
    o = []
    for seq, base, stride, n in runs:
        if seq is None:
            o.append("uninit x %s" % (n,))
        elif n == L(1):
            o.append("%s[%s]" % (seq, base))
        elif stride == 1:
            o.append("%s[%s..+%s]" % (seq, base, n))
        elif stride == -1:
            o.append("rev %s[%s down, %s]" % (seq, base, n))
        else:
            o.append("%s[%s] x %s" % (seq, base, n))
    return "[" + ", ".join(o) + "]"


def match_runs(st, got, want):
    """True if the run lists are the same on every state of the partition (nothing is split)."""
    a = [r for r in got if not st.must_eq(r[3], 0)]
    b = [r for r in want if not st.must_eq(r[3], 0)]
    for r in a + b:
        if not st.must_ge(r[3], 0):
            return False
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] != y[0] or not st.must_eq(x[1], y[1]):
            return False
        if st.must_ge(y[3], x[3]):
            n = x[3]
        elif st.must_ge(x[3], y[3]):
            n = y[3]
        else:
            return False
        if x[2] != y[2] and not st.must_ge(1, n):
            return False
        rx, ry = x[3] - n, y[3] - n
        if st.must_eq(rx, 0):
            i += 1
        else:
            a[i] = (x[0], x[1] + n.scale(x[2]), x[2], rx)
        if st.must_eq(ry, 0):
            j += 1
        else:
            b[j] = (y[0], y[1] + n.scale(y[2]), y[2], ry)
    return i == len(a) and j == len(b)


def same_runs(st, got, want):
    """do two run lists denote the same sequence of elements?  Splits the partition as needed."""
    if match_runs(st, got, want):
        return True
    a = [r for r in norm_runs(st, got)]
    b = [r for r in norm_runs(st, want)]
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] != y[0]:
            return False
        if not st.eq(x[1], y[1]):
            return False
        if st.eq(x[3], y[3]):
            n = x[3]
            sx = sy = None
        elif st.lt(x[3], y[3]):
            n = x[3]
        else:
            n = y[3]
        if x[2] != y[2] and st.gt(n, 1):
            return False
        rx, ry = x[3] - n, y[3] - n
        if st.gt(rx, 0):
            a[i] = (x[0], x[1] + n.scale(x[2]), x[2], rx)
        else:
            i += 1
        if st.gt(ry, 0):
            b[j] = (y[0], y[1] + n.scale(y[2]), y[2], ry)
        else:
            j += 1
    return i == len(a) and j == len(b)
