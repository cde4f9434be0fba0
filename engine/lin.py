"""Linear expressions over symbolic usize quantities and the numeric domain.

The numeric abstract domain is a conjunction of linear inequalities over
non-negative symbols (a polyhedron), closed under integer tightening of single
rows.  Emptiness and entailment are decided by an exact dual simplex (Bland's
rule) over the rationals.  No external solver is involved.
"""
from fractions import Fraction
from math import gcd

UMAX = (1 << 64) - 1
IMAX = (1 << 63) - 1


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = t if t is not None else {}
        self._h = None

    def key(self):
        return (self.c, frozenset(self.t.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        o = L(o)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) + v
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Lin(self.c + o.c, t)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, {k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-L(o))

    def __rsub__(self, o):
        return L(o) + (-self)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, {a: b * k for a, b in self.t.items()})

    def __mul__(self, o):
        o = L(o)
        if not o.t:
            return self.scale(o.c)
        if not self.t:
            return o.scale(self.c)
        r = Lin(0)
        for k1, v1 in list(self.t.items()) + ([(None, self.c)] if self.c else []):
            for k2, v2 in list(o.t.items()) + ([(None, o.c)] if o.c else []):
                k = mono(k1, k2)
                r = r + (Lin(v1 * v2) if k is None else Lin(0, {k: v1 * v2}))
        return r

    __rmul__ = __mul__

    def is_const(self):
        return not self.t

    def syms(self):
        s = set()
        for k in self.t:
            if isinstance(k, tuple):
                s.update(k)
            else:
                s.add(k)
        return s

    def subst(self, m):
        """Substitute symbols (including inside monomials)."""
        if not self.t:
            return self
        r = None
        for k, v in self.t.items():
            ks = k if isinstance(k, tuple) else (k,)
            if any(x in m for x in ks):
                if r is None:
                    r = Lin(self.c)
                    for k2, v2 in self.t.items():
                        k2s = k2 if isinstance(k2, tuple) else (k2,)
                        if any(x in m for x in k2s):
                            p = Lin(v2)
                            for x in k2s:
                                p = p * (m[x] if x in m else sym(x))
                            r = r + p
                        else:
                            r = r + Lin(0, {k2: v2})
                    return r
        return self

    def ev(self, model):
        v = self.c
        for k, c in self.t.items():
            p = c
            for x in (k if isinstance(k, tuple) else (k,)):
                p = p * model.get(x, 0)
            v += p
        return v

    def __repr__(self):
        if not self.t:
            return cst(self.c)
        o = ""
        for k in sorted(self.t, key=str):
            v = self.t[k]
            n = "*".join(k) if isinstance(k, tuple) else k
            if v == 1:
                s = " + " + n
            elif v == -1:
                s = " - " + n
            elif v < 0:
                s = " - %d*%s" % (-v, n)
            else:
                s = " + %d*%s" % (v, n)
            o += s
        if self.c:
            o += (" + " if self.c > 0 else " - ") + cst(abs(self.c))
        o = o.strip()
        if o.startswith("+ "):
            o = o[2:]
        elif o.startswith("- "):
            o = "-" + o[2:]
        return o


def cst(c):
    if c == UMAX:
        return "usize::MAX"
    if c == IMAX:
        return "isize::MAX"
    if c == UMAX + 1:
        return "2^64"
    return str(c)


def mono(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = tuple(sorted((a if isinstance(a, tuple) else (a,)) + (b if isinstance(b, tuple) else (b,))))
    return r


def L(x):
    if isinstance(x, Lin):
        return x
    return Lin(int(x))


def sym(n):
    return Lin(0, {n: 1})


def tighten(e):
    """e >= 0 over the integers: divide by the gcd of the coefficients."""
    if not e.t:
        return e
    g = 0
    for v in e.t.values():
        g = gcd(g, abs(v))
        if g == 1:
            return e
    if g > 1:
        c = e.c // g  # floor
        return Lin(c, {k: v // g for k, v in e.t.items()})
    return e


_simplex_cache = {}
STATS = {"simplex": 0, "queries": 0}


_lp = None
_M64 = (1 << 64) - 1


def native_lp():
    """the simplex kernel compiled from native/lp.c (False: there is no C compiler; the Python version is used)."""
    global _lp
    if _lp is not None:
        return _lp
    _lp = False
    import ctypes
    import hashlib
    import os
    import subprocess
    from . import build
    src = os.path.join(build.VERIF, "native", "lp.c")
    try:
        d = os.path.join(build.VERIF, "work")
        with open(src, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:16]
        so = os.path.join(d, "lp-%s.so" % h)
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            tmp = "%s.%d" % (so, os.getpid())
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True, capture_output=True, timeout=60)
            os.rename(tmp, so)
        _lp = ctypes.CDLL(so).lp_feasible
        _lp.restype = ctypes.c_int
    except Exception:
        _lp = False
    return _lp


def feasible(rows):
    """rows: list of Lin (each >= 0), symbols >= 0.  A rational model or None."""
    STATS["simplex"] += 1
    f = native_lp()
    if f:
        r = feasible_native(f, rows)
        if r is not False:
            return r
    return feasible_py(rows)


def feasible_native(f, rows):
    from ctypes import c_long, c_ulong
    seen = {}
    vs = []
    for r in rows:
        for k in r.t:
            if k not in seen:
                seen[k] = len(vs)
                vs.append(k)
    n = len(vs)
    m = len(rows)
    if not n:
        return {} if all(r.c >= 0 for r in rows) else None
    co = [0] * (m * n)
    hi = [0] * m
    lo = [0] * m
    o = 0
    for i, r in enumerate(rows):
        for k, v in r.t.items():
            if v > 1 << 62 or v < -(1 << 62):
                return False
            co[o + seen[k]] = v
        o += n
        c = r.c
        if c > 1 << 100 or c < -(1 << 100):
            return False
        hi[i] = c >> 64
        lo[i] = c & _M64
    a, b, c, d = (c_long * n)(), (c_ulong * n)(), (c_long * n)(), (c_ulong * n)()
    s = f(m, n, (c_long * (m * n))(*co), (c_long * m)(*hi), (c_ulong * m)(*lo), a, b, c, d)
    if s == 0:
        return None
    if s != 1:
        return False
    return {vs[i]: Fraction((a[i] << 64) | b[i], (c[i] << 64) | d[i]) for i in range(n)}


def feasible_py(rows):
    vs = []
    seen = {}
    for r in rows:
        for k in r.t:
            if k not in seen:
                seen[k] = len(vs)
                vs.append(k)
    n = len(vs)
    m = len(rows)
    # basic var i (index n+i) = b_i + sum A[i][j] * nonbasic_j
    A = []
    b = []
    for r in rows:
        row = {}
        for k, v in r.t.items():
            row[seen[k]] = Fraction(v)
        A.append(row)
        b.append(Fraction(r.c))
    basis = [n + i for i in range(m)]
    it = 0
    while True:
        it += 1
        r = -1
        for i in range(m):
            if b[i] < 0 and (r < 0 or basis[i] < basis[r]):
                r = i
        if r < 0:
            break
        j = None
        for k, v in A[r].items():
            if v > 0 and (j is None or k < j):
                j = k
        if j is None:
            return None
        # pivot: basis[r] leaves, j enters
        row = A[r]
        p = row[j]
        out = basis[r]
        # x_out = b_r + sum row_k x_k  =>  x_j = (x_out - b_r - sum_{k!=j})/p
        nrow = {k: -v / p for k, v in row.items() if k != j}
        nrow[out] = 1 / p
        nb = -b[r] / p
        A[r] = nrow
        b[r] = nb
        basis[r] = j
        for i in range(m):
            if i == r:
                continue
            ri = A[i]
            f = ri.pop(j, None)
            if f is None or f == 0:
                continue
            b[i] += f * nb
            for k, v in nrow.items():
                x = ri.get(k, 0) + f * v
                if x:
                    ri[k] = x
                else:
                    ri.pop(k, None)
        if it > 5000:
            raise RuntimeError("simplex")
    model = {v: Fraction(0) for v in vs}
    for i in range(m):
        if basis[i] < n:
            model[vs[basis[i]]] = b[i]
    return model


def component(rows, syms):
    """Rows connected to the given symbols."""
    todo = set(syms)
    done = set()
    out = []
    left = list(rows)
    ch = True
    while ch:
        ch = False
        rest = []
        for r in left:
            if any(k in todo for k in r.t):
                out.append(r)
                for k in r.t:
                    todo.add(k)
                ch = True
            else:
                rest.append(r)
        left = rest
    return out


class Facts:
    """Immutable conjunction of linear facts.  sub: solved equalities."""
    __slots__ = ("ge", "sub", "_k", "pts", "memo")

    def __init__(self, ge=(), sub=None, pts=()):
        self.ge = tuple(ge)
        self.sub = sub or {}
        self._k = None
        self.memo = {}
        self.pts = pts          # points (common denominator, numerators) that satisfy the rows connected to their symbols

    def learn(self, m):
        """remembers a model of the rows connected to its symbols."""
        if m and len(self.pts) < 24:
            d = 1
            for v in m.values():
                x = v.denominator
                if x != 1:
                    d = d * x // gcd(d, x)
            self.pts = self.pts + ((d, {k: int(v * d) for k, v in m.items()}),)

    def refuted(self, neg):
        """does a known point satisfy neg >= 0?"""
        for d, p in self.pts:
            v = neg.c * d
            for k, c in neg.t.items():
                x = p.get(k)
                if x is None:
                    break
                v += c * x
            else:
                if v >= 0:
                    return True
        return False

    def norm(self, e):
        return e.subst(self.sub) if self.sub else e

    def key(self):
        if self._k is None:
            self._k = frozenset(self.ge)
        return self._k

    def add(self, e):
        """facts with e >= 0; None if this is (rationally) empty."""
        e = tighten(self.norm(e))
        if e.is_const():
            return self if e.c >= 0 else None
        if e in self.key():
            return self
        if trivially(e):
            return self
        f = Facts([x for x in self.ge if not dominates(e, x)] + [e], self.sub, carry(self.pts, e))
        if not f.refuted(e) and not f.sat_around(e):
            return None
        # detect an implied equality: -e >= 0 already known
        ne = -e
        if f.entails_raw(ne):
            return f.add_eq(e)
        return f

    def add_eq(self, e):
        e = self.norm(e)
        if e.is_const():
            return self if e.c == 0 else None
        pick = None
        for k, v in e.t.items():
            if abs(v) == 1 and not isinstance(k, tuple):
                # k must not occur in other monomials of e
                if any(isinstance(k2, tuple) and k in k2 for k2 in e.t):
                    continue
                if pick is None or prefer(k, pick):
                    pick = k
        if pick is None:
            a = tighten(e)
            b = tighten(-e)
            f = Facts(self.ge + (a, b), self.sub)
            return f if f.sat_around(e) else None
        v = e.t[pick]
        rest = Lin(e.c, {k: x for k, x in e.t.items() if k != pick})
        val = rest.scale(-1) if v == 1 else rest
        m = {pick: val}
        sub = {k: x.subst(m) for k, x in self.sub.items()}
        sub[pick] = val
        ge = []
        seen = set()
        for x in self.ge + (sym(pick),):
            x = tighten(x.subst(m))
            if x.is_const():
                if x.c < 0:
                    return None
                continue
            if x in seen or trivially(x):
                continue
            seen.add(x)
            ge.append(x)
        f = Facts(ge, sub)
        if not f.sat():
            return None
        return f

    def orient(self, flex):
        """the same facts, with symbols of flex eliminated rather than others."""
        sub, ge = dict(self.sub), list(self.ge)
        for k in list(sub):
            if k in flex or k not in sub:
                continue
            e = sub[k]
            ps = [p for p, v in e.t.items() if p in flex and abs(v) == 1 and not isinstance(p, tuple)
                  and not any(isinstance(k2, tuple) and p in k2 for k2 in e.t)]
            if not ps:
                continue
            p = max(ps, key=lambda x: (len(x), x))
            del sub[k]
            v = e.t[p]
            val = (Lin(0, {k: 1}) - Lin(e.c, {q: x for q, x in e.t.items() if q != p})).scale(v)
            m = {p: val}
            sub = {q: x.subst(m) for q, x in sub.items()}
            sub[p] = val
            ge = [tighten(x.subst(m)) for x in ge + [val]]
        rows, seen = [], set()
        for x in ge:
            if x.is_const() or x in seen or trivially(x):
                continue
            seen.add(x)
            rows.append(x)
        return Facts(rows, sub)

    def sat(self):
        return _feas(self.ge) is not None

    def sat_around(self, e):
        rows = component(self.ge, e.t.keys())
        m = _feas(rows)
        self.learn(m)
        return m is not None

    def model(self):
        """An integer model if the simplex vertex is integral, else None."""
        m = _feas(self.ge)
        if m is None:
            return None
        if all(v.denominator == 1 for v in m.values()):
            return self._complete({k: int(v) for k, v in m.items()})
        # round by fixing variables one at a time
        rows = list(self.ge)
        for k in list(m):
            m2 = _feas(rows)
            if m2 is None:
                return None
            v = m2.get(k, Fraction(0))
            ok = False
            for c in (v.numerator // v.denominator, -((-v.numerator) // v.denominator)):
                e = Lin(-int(c), {k: 1})
                r2 = rows + [e, -e]
                if _feas(r2) is not None:
                    rows = r2
                    ok = True
                    break
            if not ok:
                return None
        m = _feas(rows)
        if m is None or any(v.denominator != 1 for v in m.values()):
            return None
        return self._complete({k: int(v) for k, v in m.items()})

    def _complete(self, m):
        # monomials must agree with their factors to be a real model
        for k, v in list(m.items()):
            if isinstance(k, tuple):
                p = 1
                for x in k:
                    p *= m.get(x, 0)
                if p != v:
                    return None
        r = {k: v for k, v in m.items() if not isinstance(k, tuple)}
        for k, e in self.sub.items():
            r[k] = e.ev(r)
        return r

    def entails_raw(self, e):
        """e >= 0 is implied."""
        if not e.t:
            return e.c >= 0
        if trivially(e):
            return True
        r = self.memo.get(e)
        if r is None:
            STATS["queries"] += 1
            r = self.memo[e] = self.implied(e)
        else:
            STATS["hit"] = STATS.get("hit", 0) + 1
        return r

    def implied(self, e):
        for x in self.ge:
            if dominates(x, e):
                return True
        neg = tighten(-e - 1)
        if neg.is_const():
            return neg.c < 0
        if self.refuted(neg):
            return False
        rows = component(self.ge, neg.t.keys())
        m = _feas(rows + [neg])
        if m is None:
            return True
        self.learn(m)
        return False

    def entails(self, e):
        return self.entails_raw(self.norm(e))

    def entails_eq(self, e):
        e = self.norm(e)
        if e.is_const():
            return e.c == 0
        return self.entails_raw(e) and self.entails_raw(-e)

    def decide(self, e):
        """True / False / None for e >= 0."""
        e = self.norm(e)
        if e.is_const():
            return e.c >= 0
        if self.entails_raw(e):
            return True
        if self.entails_raw(-e - 1):
            return False
        return None

    def decide_eq(self, e):
        e = self.norm(e)
        if e.is_const():
            return e.c == 0
        a = self.decide(e)
        if a is False:
            return False
        b = self.decide(-e)
        if b is False:
            return False
        if a and b:
            return True
        return None


def carry(pts, e):
    """the points that also satisfy e >= 0 (or do not reach its symbols and so say nothing about them)."""
    out = []
    for d, p in pts:
        v = e.c * d
        for k, c in e.t.items():
            x = p.get(k)
            if x is None:
                break
            v += c * x
        else:
            if v >= 0:
                out.append((d, p))
    return tuple(out)


def prefer(k, pick):
    return str(k) > str(pick)


def trivially(e):
    return e.c >= 0 and all(v >= 0 for v in e.t.values())


def dominates(x, e):
    """x >= 0 implies e >= 0 because e - x has only non-negative coefficients."""
    if e.c < x.c:
        return False
    for k, v in x.t.items():
        if e.t.get(k, 0) < v:
            return False
    for k, v in e.t.items():
        if v < 0 and k not in x.t:
            return False
    return True


def _feas(rows):
    k = frozenset(rows)
    r = _simplex_cache.get(k, 0)
    if r == 0:
        if len(_simplex_cache) > 400000:
            _simplex_cache.clear()
        r = feasible(list(k))
        _simplex_cache[k] = r
    return r
