"""Natural loops: the first iterations are kept apart (trace partitioning), the
rest is solved by a fixpoint of generalised states with widening.

A generalised state ("node") of a loop head is a state whose numeric leaves are
linear expressions over the symbols of the loop's entry (rigid) and
existential parameters >= 0.  A state is covered by a node if the parameters can
be solved so that all leaves agree and the node's facts follow.  Otherwise node
and state are joined: leaves that differ by constants become l + d*q for a fresh
parameter q (widening along the direction d), other leaves become a fresh
parameter, and of a set of candidate facts those that hold in both are kept.
"""
import os
from fractions import Fraction

from .core import Frame, Region, St, Unknown
from .lin import IMAX, UMAX, Facts, L, Lin, sym, trivially
from .interp import Exit


DEBUG = bool(os.environ.get("LOOPDEBUG"))


# ------------------------------------------------------------ control flow
def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k in ("drop",):
        return [t[3], t[4]]
    if k == "call":
        return [t[4], t[5]]
    if k == "assert":
        return [t[4], t[5]]
    return []


def loop_heads(body):
    """head -> set of blocks of the loop (all loops, cleanup blocks included)."""
    r = getattr(body, "loops", None)
    if r is not None:
        return r
    color = {}
    order = []
    back = []
    stack = [(0, iter([s for s in succs(body.blocks[0][1]) if isinstance(s, int)]))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in body.blocks:
                continue
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1
                stack.append((s, iter([x for x in succs(body.blocks[s][1]) if isinstance(x, int)])))
                break
            if c == 1:
                back.append((b, s))
        else:
            color[b] = 2
            order.append(b)
            stack.pop()
    pred = {}
    for b in order:
        for s in succs(body.blocks[b][1]):
            if isinstance(s, int):
                pred.setdefault(s, []).append(b)
    heads = {}
    for b, h in back:
        m = heads.setdefault(h, {h})
        todo = [b]
        while todo:
            x = todo.pop()
            if x in m:
                continue
            m.add(x)
            todo.extend(pred.get(x, ()))
    body.loops = heads
    return heads


_live = {}


def uses_of(o, out):
    """locals mentioned in an operand / rvalue / place tuple."""
    if not isinstance(o, tuple) or not o:
        return
    if o[0] in ("copy", "move") and len(o) == 3:
        out.add(o[1])
        for p in o[2]:
            if p[0] == "i":
                out.add(p[1])
        return
    for x in o:
        if isinstance(x, tuple):
            uses_of(x, out)


def place_uses(l, proj, out):
    if any(p[0] == "*" for p in proj):
        out.add(l)
    for p in proj:
        if p[0] == "i":
            out.add(p[1])


def liveness(body):
    """block -> live locals at its start, plus the locals whose address is taken."""
    r = _live.get(id(body))
    if r is not None and r[0] is body:
        return r[1], r[2]
    gen, kill = {}, {}
    addr = set()
    for b, (stmts, term) in body.blocks.items():
        g, k = set(), set()
        for s in stmts:
            u = set()
            d = None
            if s[0] == "assign":
                rv = s[3]
                if rv[0] in ("ref", "addr"):
                    u.add(rv[2])
                    if not any(p[0] == "*" for p in rv[3]):
                        addr.add(rv[2])
                    for p in rv[3]:
                        if p[0] == "i":
                            u.add(p[1])
                elif rv[0] in ("len", "discriminant", "copyforderef"):
                    u.add(rv[1])
                    for p in rv[2]:
                        if p[0] == "i":
                            u.add(p[1])
                else:
                    uses_of(rv, u)
                if s[2]:
                    u.add(s[1])
                    place_uses(s[1], s[2], u)
                else:
                    d = s[1]
            elif s[0] == "dead":
                d = s[1]
            elif s[0] == "setdiscr":
                u.add(s[1])
            else:
                uses_of(s, u)
            for x in u:
                if x not in k:
                    g.add(x)
            if d is not None:
                k.add(d)
        u = set()
        t = term
        if t[0] == "call":
            if t[1][0] == "op":
                uses_of(t[1][1], u)
            for a in t[2]:
                uses_of(a, u)
            if t[3] is not None and t[3][1]:
                u.add(t[3][0])
                place_uses(t[3][0], t[3][1], u)
        elif t[0] == "drop":
            u.add(t[1])
            for p in t[2]:
                if p[0] == "i":
                    u.add(p[1])
        elif t[0] in ("switch", "assert"):
            uses_of(t[1], u)
        elif t[0] == "return":
            u.add(0)
        for x in u:
            if x not in k:
                g.add(x)
        if t[0] == "call" and t[3] is not None and not t[3][1]:
            k.add(t[3][0])
        gen[b], kill[b] = g, k
    live = {b: set(gen[b]) for b in body.blocks}
    ch = True
    while ch:
        ch = False
        for b, (stmts, term) in body.blocks.items():
            n = set()
            for s in succs(term):
                if isinstance(s, int) and s in live:
                    n |= live[s]
            n = (n - kill[b]) | gen[b]
            if not n <= live[b]:
                live[b] |= n
                ch = True
    _live[id(body)] = (body, live, addr)
    return live, addr


# ------------------------------------------------------------ states as trees
def collect(v, out):
    """shape of a value; numeric leaves are appended to out."""
    if isinstance(v, Lin):
        out.append(v)
        return "L"
    if isinstance(v, tuple):
        return tuple([collect(x, out) for x in v])
    return v


def rebuild(v, it):
    if isinstance(v, Lin):
        return next(it)
    if isinstance(v, tuple):
        return tuple([rebuild(x, it) for x in v])
    return v


def keysort(d):
    return sorted(d, key=lambda k: repr(k))


def frames(fr):
    o = []
    while fr is not None:
        o.append(fr)
        fr = fr.parent
    return o


def shape(st):
    """(hashable shape, leaves) of a canonical state."""
    lv = []
    s = []
    for fr in frames(st.fr):
        s.append((fr.fid, id(fr.fn), id(fr.env), fr.dest, fr.ret, fr.unwind, fr.nat, fr.depth, collect(fr.data, lv)))
    s.append((st.bb, st.unw, st.pan))
    for k in keysort(st.cells):
        s.append((k, collect(st.cells[k], lv)))
    for k in keysort(st.regs):
        r = st.regs[k]
        s.append((k, r.kind, r.live, r.gen, collect(r.cap, lv), collect(r.segs, lv)))
    for k in keysort(st.g):
        if k.startswith("#"):
            continue
        s.append((k, collect(st.g[k], lv)))
    return tuple(s), lv


def with_leaves(st, lv):
    """the state with other leaves (same order as shape)."""
    it = iter(lv)
    n = st.copy()
    fl = []
    for fr in frames(st.fr):
        fl.append((fr, rebuild(fr.data, it)))
    par = None
    for fr, data in reversed(fl):
        f = Frame(fr.fid, fr.fn, fr.env, par, fr.dest, fr.ret, fr.unwind, fr.nat, data)
        f.depth = fr.depth
        par = f
    n.fr = par
    for k in keysort(st.cells):
        n.cells[k] = rebuild(st.cells[k], it)
    for k in keysort(st.regs):
        r = st.regs[k]
        cap = rebuild(r.cap, it)
        n.regs[k] = r.but(cap=cap, segs=rebuild(r.segs, it))
    for k in keysort(st.g):
        if k.startswith("#"):
            continue
        n.g[k] = rebuild(st.g[k], it)
    return n


def walk_refs(v, cells, regs):
    if isinstance(v, tuple) and v:
        k = v[0]
        if k == "R" and len(v) == 3:
            cells.add(v[1])
            return
        if k == "X" and len(v) == 2:
            cells.add(v[1])
            return
        if k == "E" and len(v) == 4:
            regs.add(v[1])
            return
        if k == "c" and len(v) == 3 and isinstance(v[2], tuple):
            cells.add(v[1])
            return
        if k in ("S", "B", "Ve"):
            regs.add(v[1])
        for x in v:
            if isinstance(x, tuple):
                walk_refs(x, cells, regs)


def regen(v, regs):
    if isinstance(v, tuple) and v:
        if v[0] == "E" and len(v) == 4 and v[1] in regs:
            g = regs[v[1]].gen
            return ("E", v[1], v[2], (1 if g else 0) if v[3] == g else -1)
        return tuple([regen(x, regs) for x in v])
    return v


DROPG = ("$ret", "$ev")


def canon(st):
    """a state without dead parts, to be compared with others."""
    n = st.copy()
    for k in DROPG:
        n.g.pop(k, None)
    # live locals of all frames
    keep = {}
    top = True
    for fr in frames(n.fr):
        if fr.body is None:
            top = False
            continue
        live, addr = liveness(fr.body)
        if top:
            l = set(live[n.bb])
        else:
            l = set()
        keep[fr.fid] = [l, addr, fr]
        top = False
    # a caller continues at the return and unwind blocks of its callee's frame
    for fr in frames(n.fr):
        q = fr
        p = fr.parent
        while p is not None and p.fn is None:
            q = p
            p = p.parent
        if fr.fn is None or p is None:
            continue
        k = keep.get(p.fid)
        live, addr = liveness(p.body)
        for b in (q.ret, q.unwind):
            if isinstance(b, int) and b in live:
                k[0] |= live[b]
        if q.dest is not None and q.dest[1]:
            k[0].add(q.dest[0])
    # dead locals that are no longer referenced and everything else that is unreachable
    roots = set()
    regs = set()
    todo = []
    for key in n.cells:
        if key[0] in keep and isinstance(key[1], int):
            if key[1] in keep[key[0]][0]:
                todo.append(key)
        elif key[0] in ("arg", "u"):
            todo.append(key)
    cs = set()
    for fr in frames(n.fr):
        walk_refs(fr.data, cs, regs)
    for k, v in n.g.items():
        if not k.startswith("#"):
            walk_refs(v, cs, regs)
    todo.extend(cs)
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k not in n.cells:
            continue
        seen.add(k)
        c2 = set()
        walk_refs(n.cells[k], c2, regs)
        todo.extend(c2)
    for k in list(n.cells):
        if k not in seen:
            del n.cells[k]
    for k in list(n.regs):
        if k not in regs and not k[:1].isupper() and k != "src":
            del n.regs[k]
    # generations
    if any(r.gen for r in n.regs.values()) or True:
        rg = n.regs
        for k in n.cells:
            n.cells[k] = regen(n.cells[k], rg)
        for k in n.g:
            if not k.startswith("#"):
                n.g[k] = regen(n.g[k], rg)
        ch = frames(n.fr)
        par = None
        for fr in reversed(ch):
            f = Frame(fr.fid, fr.fn, fr.env, par, fr.dest, fr.ret, fr.unwind, fr.nat, regen(fr.data, rg))
            f.depth = fr.depth
            par = f
        n.fr = par
        for k, r in list(rg.items()):
            n.regs[k] = r.but(gen=1 if r.gen else 0, segs=blur(n, r))
    sh, lv = shape(n)
    lv = [n.facts.norm(x) for x in lv]
    return with_leaves(n, lv)


def blur(st, r):
    """merges stale (moved from) slots and the gaps next to them."""
    if not any(s[2].startswith("~") or s[2] == "?" for s in r.segs):
        return r.segs
    out = []
    cur = L(0)
    i = 0
    segs = r.segs
    pend = None       # start of the current junk
    for s in segs:
        junk = s[2].startswith("~") or s[2] == "?"
        if junk:
            if pend is None:
                pend = cur
            cur = s[1]
            continue
        if pend is not None:
            out.append((pend, s[0], "?", L(0), 0))
            pend = None
        out.append(s)
        cur = s[1]
    if pend is not None:
        out.append((pend, r.cap, "?", L(0), 0))
    return tuple(out)


# ------------------------------------------------------------ states of different shape
def is_log(v):
    return isinstance(v, tuple) and all(isinstance(r, tuple) and len(r) == 4 and isinstance(r[1], Lin) and isinstance(r[3], Lin) for r in v)


def coarse(st):
    """shape of a state without the segmentation of regions and the run structure of logs."""
    lv = []
    s = []
    for fr in frames(st.fr):
        s.append((fr.fid, id(fr.fn), id(fr.env), fr.dest, fr.ret, fr.unwind, fr.nat, fr.depth, collect(fr.data, lv)))
    s.append((st.bb, st.unw, st.pan))
    for k in keysort(st.cells):
        s.append((k, collect(st.cells[k], lv)))
    for k in keysort(st.regs):
        r = st.regs[k]
        s.append((k, r.kind, r.live, r.gen, collect(r.cap, lv)))
    for k in keysort(st.g):
        if k.startswith("#") or is_log(st.g[k]) or isinstance(st.g[k], Lin):
            continue
        s.append((k, collect(st.g[k], lv)))
    return tuple(s), lv


def expand(a, b, rigid):
    """the state a, segmented like b (with empty segments and runs where needed), or None."""
    ca, la = coarse(a)
    cb, lb = coarse(b)
    if ca != cb:
        return None
    n = a.copy()
    for k, x in b.g.items():
        if isinstance(x, Lin) and k not in n.g:
            n.g[k] = L(0)
    hints = list(zip(lb, la))
    for k, x in n.g.items():
        if isinstance(x, Lin):
            if k not in b.g:
                return None          # b lacks a counter: expand the other way round
            hints.append((b.g[k], x))
    af, bf = a.facts, b.facts
    memo = {}

    def cands(t):
        r = memo.get(t)
        if r is None:
            r = [t] if t.syms() <= rigid else []
            for x, y in hints:
                if y not in r and bf.entails_eq(x - t):
                    r.append(y)
            memo[t] = r
        return r
    for k in b.regs:
        sa, sb = a.regs[k].segs, b.regs[k].segs
        if [x[2] for x in sa] == [x[2] for x in sb] and [x[4] for x in sa] == [x[4] for x in sb]:
            continue
        r = resegment(af, sa, sb, cands)
        if r is None:
            return None
        n.regs[k] = a.regs[k].but(segs=r)
    for k in set(a.g) | set(b.g):
        if k.startswith("#"):
            continue
        x, y = a.g.get(k, ()), b.g.get(k, ())
        if not is_log(x) or not is_log(y):
            continue
        r = relog(af, x, y, cands)
        if r is None:
            return None
        n.g[k] = r
    return n


def resegment(f, sa, sb, cands):
    def free(lo, hi):
        """do no segments of a lie in [lo, hi)?"""
        if f.entails(lo - hi):
            return True
        for s in sa:
            if not (f.entails(lo - s[1]) or (hi is not None and f.entails(s[0] - hi))):
                return False
        return True

    def content(lo, hi, seq, base, stride):
        if f.entails_eq(hi - lo):
            c = cands(base)
            return [(lo, hi, seq, x, stride) for x in (c[:2] or [L(0)])]
        for s in sa:
            if f.entails(lo - s[0]) and f.entails(s[1] - hi):
                if s[2] != seq:
                    break
                if s[4] == stride or f.entails_eq(hi - lo - 1):
                    return [(lo, hi, seq, s[3] + (lo - s[0]).scale(s[4]), stride)]
        if seq == "?":
            return [(lo, hi, seq, base, stride)]
        return []
    budget = [400]

    def go(i, cur, acc):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if i == len(sb):
            for s in sa:
                if not f.entails(cur - s[1]):
                    return None
            return acc
        lo, hi, seq, base, stride = sb[i]
        for l in cands(lo):
            if not f.entails(l - cur) or not free(cur, l):
                continue
            for h in cands(hi):
                if not f.entails(h - l):
                    continue
                for x in content(l, h, seq, base, stride):
                    r = go(i + 1, h, acc + [x])
                    if r is not None:
                        return r
        return None
    r = go(0, L(0), [])
    return None if r is None else tuple(r)


def relog(f, x, y, cands):
    out = []
    i = 0
    for seq, base, stride, k in y:
        if i < len(x) and x[i][0] == seq and (x[i][2] == stride or f.entails(L(1) - x[i][3])):
            out.append((seq, x[i][1], stride, x[i][3]))
            i += 1
            continue
        c = cands(base)
        out.append((seq, c[0] if c else L(0), stride, L(0)))
    if i < len(x):
        return None
    return tuple(out)


# ------------------------------------------------------------ the solver
class Node:
    def __init__(self, st, shp, lv):
        self.st = st
        self.shape = shp
        self.lv = lv
        self.ver = 0
        self.widened = False
        self.coarse = None


class Episode:
    def __init__(self, rigid, trace):
        self.rigid = rigid
        self.trace = trace
        self.nodes = {}
        self.count = 0


def symbols(st, lv):
    s = set()
    for x in lv:
        s |= x.syms()
    for x in st.facts.ge:
        s |= x.syms()
    for k, x in st.facts.sub.items():
        s.add(k)
        s |= x.syms()
    return s


class LoopCtl:
    def __init__(self, peel=2, widen=True, max_nodes=40, max_ver=14, merge=6, rebase_at=1, peel_in=0):
        self.peel_in = peel_in
        self.rebase_at = rebase_at
        self.merge = merge
        self.peel = peel
        self.widen = widen
        self.max_nodes = max_nodes
        self.max_ver = max_ver
        self.nq = 0
        self.stats = dict(episodes=0, nodes=0, widenings=0, covered=0, cut=0, maxver=0, merged=0)
        self.heads = set()

    # ---- hook of the interpreter
    def at_block(self, ip, st):
        fr = st.fr
        heads = loop_heads(fr.body)
        if not heads and not st.loops:
            return None
        if st.loops:
            l = [e for e in st.loops if e[0] < fr.fid or (e[0] == fr.fid and st.bb in loop_heads(fr.body).get(e[1], ()))] \
                if not isinstance(fr.fid, tuple) else list(st.loops)
            if len(l) != len(st.loops):
                st.loops = tuple(l)
                st.wto = st.wto[:len(l)] + (st.wto[len(l)] + 1,)
        if st.bb not in heads:
            return None
        if st.left == (fr.fid, st.bb):
            st.left = None
            return None
        self.heads.add((fr.fn, st.bb))
        if st.loops and st.loops[-1][0] == fr.fid and st.loops[-1][1] == st.bb:
            e = st.loops[-1]
        else:
            c = canon(st)
            _, lv = shape(c)
            ep = Episode(symbols(c, lv), st.trace or ())
            self.stats["episodes"] += 1
            st.loops = st.loops + ((fr.fid, st.bb, ep, 0),)
            st.wto = st.wto + (0,)
            return None
        n = e[3] + 1
        ep = e[2]
        st.loops = st.loops[:-1] + ((e[0], e[1], ep, n),)
        st.wto = st.wto[:len(st.loops)] + (0,)
        if n <= (self.peel_in if ep.trace else self.peel):
            return None
        if not self.widen:
            self.stats["cut"] += 1
            return []
        return self.arrive(ip, st, ep)

    def arrive(self, ip, st, ep):
        c = canon(st)
        shp, lv = shape(c)
        flex = symbols(c, lv) - ep.rigid
        if any(k not in flex and x.syms() & flex for k, x in c.facts.sub.items()):
            c.facts = c.facts.orient(flex)
            lv = [c.facts.norm(x) for x in lv]
            c = with_leaves(c, lv)
            shp, lv = shape(c)
        node = ep.nodes.get(shp)
        if node is None:
            r = self.other(ip, st, ep, c, shp, lv)
            if r is True:
                self.stats["covered"] += 1
                return []
            if r is not None:
                node, c, lv = r
                shp = node.shape
        if node is None:
            if len(ep.nodes) >= self.max_nodes:
                raise Unknown("loop: too many states in %s" % ip.where(st)[:80])
            node = Node(c, shp, lv)
            ep.nodes[shp] = node
            if os.environ.get("LOOPNODES"):
                print("NODE ep%x" % (id(ep) % 65536), ip.where(st)[:50], "S:", [(str(a), str(b), q, str(c_)) for a, b, q, c_, d in c.regs["S"].segs] if "S" in c.regs else "",
                      {k: v for k, v in c.g.items() if not k.startswith("#")}, [str(f) for f in c.facts.ge])
            self.stats["nodes"] += 1
            st.trace = ep.trace + ((node, 0),)
            return None
        r = self.covered(node, ep, c, lv)
        if r is True:
            self.stats["covered"] += 1
            return []
        node.ver += 1
        self.stats["maxver"] = max(self.stats["maxver"], node.ver)
        if node.ver > self.max_ver:
            raise Unknown("loop: no stable state in %s" % ip.where(st)[:80])
        self.stats["widenings"] += 1
        if r is not False:
            # leaves agree: keep the facts that hold in both
            w = node.st.copy()
            w.facts = r
            if node.shape != shp:
                raise Unknown("loop: shapes")
        else:
            w = self.join(node, ep, c, lv)
        if DEBUG:
            _, l2 = shape(w)
            print("JOIN ep%x node%x v%d %s unw=%s" % (id(ep) % 65536, id(node) % 65536, node.ver, ip.where(st)[:60], st.unw), ip.where(st))
            for a, b, d in zip(node.lv, lv, l2):
                if not (a == b == d):
                    print("    ", a, "|", b, "->", d)
            print("     N", [str(x) for x in node.st.facts.ge], {k: str(v) for k, v in node.st.facts.sub.items()})
            print("     B", [str(x) for x in c.facts.ge], {k: str(v) for k, v in c.facts.sub.items()})
            print("     W", [str(x) for x in w.facts.ge], {k: str(v) for k, v in w.facts.sub.items()})
        w.exact = False
        w.g = dict(w.g)
        for k, x in c.g.items():
            if k.startswith("#"):
                w.g[k] = max(w.g.get(k, 0), x)
        _, nlv = shape(w)
        flex = symbols(w, nlv) - ep.rigid
        if any(k not in flex and x.syms() & flex for k, x in w.facts.sub.items()):
            # parameters that the entry values determine are eliminated
            w.facts = w.facts.orient(flex)
        nlv = [w.facts.norm(x) for x in nlv]
        w = with_leaves(w, nlv)
        node.st = w
        node.lv = nlv
        node.widened = True
        s = w.copy()
        s.loops = st.loops
        s.wto = st.wto
        s.trace = ep.trace + ((node, node.ver),)
        s.left = (st.fr.fid, st.bb)
        s.si = 0
        s.entered = False
        s.pre = ()
        s.pos = 0
        s.steps = st.steps
        return [s]

    def other(self, ip, st, ep, c, shp, lv):
        """a node of another shape: True if it covers c, (node, c', leaves) to be joined, or None."""
        key = None
        same = []
        for n in ep.nodes.values():
            if key is None:
                key = coarse(c)[0]
            if n.coarse is None:
                n.coarse = coarse(n.st)[0]
            if n.coarse == key:
                same.append(n)
        if not same:
            return None
        exp = []
        for n in same:
            a = expand(c, n.st, ep.rigid)
            if a is None:
                continue
            s2, l2 = shape(a)
            if s2 != n.shape:
                continue
            l2 = [a.facts.norm(x) for x in l2]
            if self.covered(n, ep, a, l2) is True:
                return True
            exp.append((n, a, l2))
        if len(same) < self.merge:
            return None
        if exp:
            n, a, l2 = max(exp, key=lambda e: len(e[2]))
            self.stats["merged"] += 1
            return n, with_leaves(a, l2), l2
        for n in same:
            a = expand(n.st, c, ep.rigid)
            if a is None:
                continue
            s2, l2 = shape(a)
            if s2 != shp:
                continue
            del ep.nodes[n.shape]
            l2 = [a.facts.norm(x) for x in l2]
            n.st, n.shape, n.lv = with_leaves(a, l2), s2, l2
            n.coarse = None
            ep.nodes[s2] = n
            self.stats["merged"] += 1
            return n, c, lv
        return None

    def stale(self, st):
        """does the state descend from a superseded node?"""
        if not st.trace:
            return False
        return any(n.ver != v for n, v in st.trace)

    # ---- inclusion
    def solve(self, nlv, blv, params, bf, strict=True, alt=False):
        """substitution of the node's parameters so that leaves agree.
        strict: None if impossible; else (substitution, residuals)."""
        ren = {p: sym("'" + p) for p in params}
        pr = {"'" + p for p in params}
        eqs = []
        for i, (a, b) in enumerate(zip(nlv, blv)):
            if a == b and not (a.syms() & params):
                continue
            e = a.subst(ren) - b
            eqs.append([i, e])
        sol = {}
        changed = True
        while changed:
            changed = False
            for q in eqs:
                e = q[1]
                pick = None
                for k, v in e.t.items():
                    if k in pr and abs(v) == 1:
                        if any(isinstance(k2, tuple) and k in k2 for k2 in e.t):
                            continue
                        pick = k
                        break
                if pick is None:
                    continue
                v = e.t[pick]
                rest = Lin(e.c, {k: x for k, x in e.t.items() if k != pick})
                val = rest.scale(-1) if v == 1 else rest
                if not strict:
                    # only non-negative solutions
                    if not (val.syms() & pr) and not bf.entails(val):
                        continue
                m = {pick: val}
                for k in sol:
                    sol[k] = sol[k].subst(m)
                sol[pick] = val
                for q2 in eqs:
                    q2[1] = q2[1].subst(m)
                changed = True
        # divisible leftovers with a single parameter
        for q in eqs:
            e = q[1]
            ps = [k for k in e.t if k in pr]
            if len(ps) == 1 and not any(isinstance(k, tuple) and set(k) & pr for k in e.t):
                p = ps[0]
                v = e.t[p]
                rest = bf.norm(Lin(e.c, {k: x for k, x in e.t.items() if k != p}))
                if rest.c % v == 0 and all(x % v == 0 for x in rest.t.values()):
                    val = Lin(-(rest.c // v), {k: -(x // v) for k, x in rest.t.items()})
                    m = {p: val}
                    for k in sol:
                        sol[k] = sol[k].subst(m)
                    sol[p] = val
                    for q2 in eqs:
                        q2[1] = q2[1].subst(m)
        res = []
        for i, e in eqs:
            if e.syms() & pr:
                if strict:
                    return None
                res.append((i, e))
                continue
            if not bf.entails_eq(e):
                if strict:
                    return None
                res.append((i, e))
        base = {k for v in sol.values() for k in v.syms() if k in pr}
        if base:
            # parameters that are not determined alone: one choice for the others
            m = {k: (sym(k[1:]) if alt and k[1:] in params else L(0)) for k in base}
            sol = {k: v.subst(m) for k, v in sol.items()}
            for k in base:
                sol[k] = m[k]
        free = set()
        for p in params:
            v = sol.get("'" + p)
            if v is None or (v.syms() & pr):
                free.add(p)
        return {p: sol["'" + p] for p in params if p not in free}, res, free, bool(base)

    def covered(self, node, ep, c, blv):
        """True / list of surviving facts (leaves agree) / False."""
        params = symbols(node.st, node.lv) - ep.rigid
        bf = c.facts
        best = None
        for alt in (False, True):
            r = self.solve(node.lv, blv, params, bf, alt=alt)
            if r is None:
                return False
            s, _, free, more = r
            if all(bf.entails(v) for v in s.values()):
                n = 0
                for e in rows(node.st.facts):
                    if not bf.entails(e.subst(s)):
                        n += 1
                if n == 0:
                    return True
                if best is None or n < best[0]:
                    best = (n, s)
            if not more:
                break
        if best is None:
            return False
        s = best[1]
        sn, sb = {}, {}
        for p in params:
            sn[p] = sym(p)
            sb[p] = s.get(p, sym(p))
        keep = []
        for e in rows(node.st.facts):
            e2 = self.weaker(e, params, node.st.facts, sn, bf, sb)
            if e2 is not None:
                keep.append(e2)
        # consequences of facts that are lost
        lv = []
        for x in node.lv:
            if not x.is_const() and x not in lv:
                lv.append(x)
        seen = set(keep)
        for x in lv:
            for y in [L(0)] + lv:
                if y is x or not ((x.syms() | y.syms()) & params):
                    continue
                e = x - y
                if e.is_const() or e in seen:
                    continue
                seen.add(e)
                if node.st.facts.entails(e) and bf.entails(e.subst(sb)):
                    if node.st.facts.entails(e - 1) and bf.entails((e - 1).subst(sb)):
                        e = e - 1
                    keep.append(e)
        for n in {x.c for x in node.lv if x.is_const() and x.c > 1}:
            for x in lv:
                if not x.syms() & params:
                    continue
                for e in (L(n - 1) - x, L(n) - x):
                    if e not in seen and node.st.facts.entails(e) and bf.entails(e.subst(sb)):
                        keep.append(e)
                        break
                e = x - n
                if e not in seen and node.st.facts.entails(e) and bf.entails(e.subst(sb)):
                    keep.append(e)
        return build_facts(keep, ep.rigid)

    def weaker(self, e, params, nf, sn, bf, sb):
        """e, or a slightly smaller bound (of the values at the loop's entry), if it holds in both states."""
        if not nf.entails(e.subst(sn)):
            return None
        if bf.entails(e.subst(sb)):
            return e
        if e.c >= 64 or e.syms() & params:
            return None
        for k in (1, 2, 3, 4):
            if bf.entails((e + k).subst(sb)):
                return e + k
        return None

    # ---- widening
    def fresh(self):
        self.nq += 1
        return "q%d" % self.nq

    def join(self, node, ep, c, blv):
        params = symbols(node.st, node.lv) - ep.rigid
        bs = symbols(c, blv)
        bf = c.facts
        nf = node.st.facts
        nlv = node.lv
        # 1. identity
        tau = {p: sym(p) for p in params}
        diff = [bf.norm(b) - bf.norm(a) for a, b in zip(nlv, blv)]
        const = all(d.is_const() for d in diff)
        if node.ver >= self.rebase_at or (params and const and self.dependent(params, nlv, diff)):
            st = self.rebase(node, ep, c, blv, params)
            if st is not None:
                self.stats["rebased"] = self.stats.get("rebased", 0) + 1
                return st
        if not const or not (params <= bs):
            r = self.solve(nlv, blv, params, bf, strict=False)
            s, res, free, _ = r
            t2 = {}
            for p in params:
                if p in s:
                    t2[p] = s[p]
                else:
                    t2[p] = sym(p) if p in bs else L(0)
            d2 = [bf.norm(b) - bf.norm(a.subst(t2)) for a, b in zip(nlv, blv)]
            bad = sum(1 for d in diff if not d.is_const())
            bad2 = sum(1 for d in d2 if not d.is_const())
            if not (params <= bs) or bad2 < bad:
                tau, diff = t2, d2
        # 2. other forms of the node's leaves (equal by its facts) that differ less
        eqs = [sym(k) - x for k, x in nf.sub.items()]
        if eqs and any(not d.is_const() for d in diff):
            nlv = list(nlv)
            forms = [(z, bf.norm(z.subst(tau))) for z in eqs]
            forms = [(z.scale(m), y.scale(m)) for z, y in forms for m in (1, -1)]
            for i, d in enumerate(diff):
                if d.is_const():
                    continue
                for z, y in forms + [(a[0] + b[0], a[1] + b[1]) for a in forms for b in forms]:
                    if (d - y).is_const() and nf.entails_eq(z):
                        nlv[i] = nlv[i] + z
                        diff[i] = d - y
                        break
        w = list(nlv)
        sn, sb = {}, dict(tau)
        for p in params:
            sn[p] = sym(p)
        gen = [(i, d.c) for i, d in enumerate(diff) if d.is_const() and d.c != 0]
        other = [i for i, d in enumerate(diff) if not d.is_const()]
        new = []
        if gen:
            q = self.fresh()
            g = 0
            from math import gcd
            for _, d in gen:
                g = gcd(g, abs(d))
            for i, d in gen:
                w[i] = nlv[i] + sym(q).scale(d // g)
            sn[q] = L(0)
            sb[q] = L(g)
            new.append(q)
        groups = {}
        for i in other:
            d = diff[i]
            hit = False
            for d0, (rep, p) in groups.items():
                if d == d0:
                    w[i] = sym(p) + (nlv[i] - nlv[rep])
                    hit = True
                    break
                if d == -d0:
                    w[i] = -sym(p) + (nlv[i] + nlv[rep])
                    hit = True
                    break
            if hit:
                continue
            if not (nf.entails(nlv[i]) and bf.entails(blv[i])):
                # use an offset if there is a better representative
                ok = False
                for j in other:
                    if j > i and diff[j] in (d, -d) and nf.entails(nlv[j]) and bf.entails(blv[j]):
                        p = self.fresh()
                        groups[diff[j]] = (j, p)
                        w[j] = sym(p)
                        sn[p], sb[p] = nlv[j], blv[j]
                        new.append(p)
                        w[i] = (sym(p) + (nlv[i] - nlv[j])) if d == diff[j] else (-sym(p) + (nlv[i] + nlv[j]))
                        ok = True
                        break
                if ok:
                    continue
                raise Unknown("loop: a quantity changes in a way that is not covered")
            p = self.fresh()
            groups[d] = (i, p)
            w[i] = sym(p)
            sn[p], sb[p] = nlv[i], blv[i]
            new.append(p)
        facts = self.candidates(node, ep, c, blv, w, sn, sb, gen, new, tau)
        st = with_leaves(node.st, w)
        st.facts = facts
        return st

    def dependent(self, params, nlv, diff):
        """is the (constant) difference a combination of the node's directions?"""
        ps = sorted(params)
        m = []
        for a, d in zip(nlv, diff):
            if any(isinstance(k, tuple) and set(k) & params for k in a.t):
                return False
            m.append([a.t.get(p, 0) for p in ps] + [d.c])
        return any(x[-1] for x in m) and rank(m) == rank([x[:-1] for x in m])

    def rebase(self, node, ep, c, blv, params):
        """the affine hull of node and state: a few leaves become parameters, the others
        are combinations of these."""
        nf, bf = node.st.facts, c.facts
        nlv = node.lv
        cs, mat = [], []
        syms = set()
        eqs = [(k, x) for k, x in nf.sub.items() if not isinstance(k, tuple) and (x.syms() | {k}) <= ep.rigid]
        for a, b in zip(nlv, blv):
            if any(isinstance(k, tuple) and set(k) & params for k in a.t):
                return None
            a0 = Lin(a.c, {k: v for k, v in a.t.items() if k not in params})
            # the equalities of both states decide what really differs
            d = bf.norm(b - a0)
            for k, x in eqs:
                if k in d.t:
                    m = (x - sym(k)).scale(d.t[k])
                    d = d + m
                    a0 = a0 - m
            d = bf.norm(d)
            cs.append(a0)
            mat.append((a, d))
            syms |= set(d.t)
        cols = sorted(params) + [("s", k) for k in sorted(syms, key=repr)] + [None]
        m = []
        for a, d in mat:
            r = [a.t.get(p, 0) for p in sorted(params)]
            r += [d.t.get(k, 0) for k in sorted(syms, key=repr)]
            r.append(d.c)
            m.append(r)
        rk = rank(m)
        if rk == 0 or rk > 4:
            return None
        # one representative per direction, non-negative ones first
        reps = {}
        for i, r in enumerate(m):
            if any(r) and tuple(r) not in reps:
                reps[tuple(r)] = i
        idx = list(reps.values())
        if len(idx) > 14:
            return None
        best = None
        from itertools import combinations
        low = {}
        for i in idx:
            x, y = nlv[i], blv[i]
            if nf.entails(x - cs[i]) and bf.entails(y - cs[i]):
                low[i] = (cs[i], 1)
            elif nf.entails(cs[i] - x) and bf.entails(cs[i] - y):
                low[i] = (cs[i], -1)
            elif nf.entails(x) and bf.entails(y):
                low[i] = (L(0), 1)
        for I in combinations([i for i in idx if i in low], rk):
            lam = [solve_rows([m[i] for i in I], m[k]) for k in idx]
            if any(x is None for x in lam):
                continue
            cost = sum(abs(v) for x in lam for v in x)
            if best is None or cost < best[0]:
                best = (cost, I)
        if best is None:
            return None
        I = best[1]
        sn, sb, new = {}, {}, []
        ex = []          # change of the basis leaves in terms of the new parameters
        for i in I:
            p = self.fresh()
            new.append(p)
            b0, sg = low[i]
            sn[p] = (nlv[i] - b0).scale(sg)
            sb[p] = (blv[i] - b0).scale(sg)
            ex.append(sym(p).scale(sg) + b0 - cs[i])
        w = []
        for k, r in enumerate(m):
            lam = solve_rows([m[i] for i in I], r)
            if lam is None:
                return None
            e = cs[k]
            for v, z in zip(lam, ex):
                if v:
                    e = e + z.scale(v)
            w.append(e)
        facts = self.candidates(node, ep, c, blv, w, sn, sb, [], new, {})
        st = with_leaves(node.st, w)
        st.facts = facts
        return st

    def candidates(self, node, ep, c, blv, w, sn, sb, gen, new, tau):
        nf, bf = node.st.facts, c.facts
        known = set(sn) | ep.rigid
        cands = []
        seen = set()

        def cand(e):
            if e.is_const() or e in seen:
                return
            seen.add(e)
            if e.syms() <= known:
                cands.append(e)
        q = new[0] if gen else None
        step = sb[q].c if gen else 0
        nrows = rows(nf)
        for e in nrows:
            cand(e)
        # leaves
        ch = []
        stable = []
        limits = set()
        for i, x in enumerate(w):
            if x.is_const():
                if x.c > 1:
                    limits.add(x.c)
                continue
            if x.syms() & set(new):
                if x not in ch:
                    ch.append(x)
            elif x not in stable:
                stable.append(x)
        for x in ch:
            cand(x)
            cand(x - 1)
            cand(Lin(IMAX) - x)
            cand(Lin(UMAX) - x)
            for n in limits:
                cand(L(n) - x)
                cand(L(n - 1) - x)
                cand(x - n)
            for y in ch + stable:
                if y is not x:
                    cand(y - x)
                    cand(x - y)
                    cand(y - x - 1)
                    cand(x - y - 1)
        for x in stable:
            if not x.syms() <= ep.rigid:
                for n in limits:
                    cand(L(n) - x)
                    cand(L(n - 1) - x)
            for y in stable:
                if y is not x:
                    cand(y - x)
        if q:
            shapes = {tuple(sorted(x.t.items(), key=repr)) for x in seen}

            def shifted(e, e0):
                # bounds of the loop's entry values do not move
                if e0.syms() <= ep.rigid and tuple(sorted(e.t.items(), key=repr)) not in shapes:
                    return
                cand(e)
        for e in nrows:
            cand(e)
            if q:
                for a in (1, -1, 2):
                    shifted(e + sym(q).scale(a), e)
        # equalities between entry values that hold with a moving offset
        for k, x in nf.sub.items():
            e = sym(k) - x
            if not e.syms() <= ep.rigid:
                continue
            d = bf.norm(e)
            if not d.is_const() or not d.c:
                continue
            for p in new:
                dp = bf.norm(sb[p]) - bf.norm(sn[p])
                if dp.is_const() and dp.c and d.c % dp.c == 0:
                    m = d.c // dp.c
                    z = e - (sym(p) - sn[p]).scale(m)
                    cand(z)
                    cand(-z)
        inv = {}
        for p, v in tau.items():
            if len(v.t) == 1 and v.c == 0:
                (k, x), = v.t.items()
                if x == 1 and not isinstance(k, tuple):
                    inv.setdefault(k, p)
        for e in rows(bf):
            e2 = e.subst({k: sym(p) for k, p in inv.items() if k != p}) if inv else e
            if q:
                cand(e2)
                for a in (1, -1, 2):
                    shifted(e2 + L(a * step) - sym(q).scale(a), e2)
            else:
                cand(e2)
        # facts about values that are now parameters
        rep = {}
        for p in new:
            if p == q:
                continue
            v = sn[p]
            if len(v.t) == 1 and v.c == 0:
                (k, x), = v.t.items()
                if x == 1 and not isinstance(k, tuple):
                    rep[k] = sym(p)
        if rep:
            for e in nrows:
                cand(e.subst(rep))
                if q:
                    e2 = e.subst(rep)
                    for a in (1, -1):
                        cand(e2 + sym(q).scale(a))
        for p in params_only(w, new):
            for p2 in params_only(w, list(sn)):
                if p != p2:
                    cand(sym(p) - sym(p2))
                    cand(sym(p2) - sym(p))
        keep = []
        first = set(nrows)
        for e in cands:
            if e in first:
                e = self.weaker(e, set(sn), nf, sn, bf, sb)
                if e is not None:
                    keep.append(e)
            elif nf.entails(e.subst(sn)) and bf.entails(e.subst(sb)):
                keep.append(e)
        return build_facts(keep, ep.rigid)


def rank(m):
    m = [[Fraction(x) for x in r] for r in m if any(r)]
    rk = 0
    n = len(m[0]) if m else 0
    for j in range(n):
        p = next((i for i in range(rk, len(m)) if m[i][j]), None)
        if p is None:
            continue
        m[rk], m[p] = m[p], m[rk]
        for i in range(rk + 1, len(m)):
            if m[i][j]:
                f = m[i][j] / m[rk][j]
                m[i] = [a - f * b for a, b in zip(m[i], m[rk])]
        rk += 1
    return rk


def solve_rows(basis, r):
    """integers l with sum l[k] * basis[k] = r, or None."""
    k = len(basis)
    rows_ = [[Fraction(b[j]) for b in basis] + [Fraction(r[j])] for j in range(len(r))]
    piv = []
    at = 0
    for col in range(k):
        p = next((i for i in range(at, len(rows_)) if rows_[i][col]), None)
        if p is None:
            return None
        rows_[at], rows_[p] = rows_[p], rows_[at]
        f = rows_[at][col]
        rows_[at] = [x / f for x in rows_[at]]
        for i in range(len(rows_)):
            if i != at and rows_[i][col]:
                f = rows_[i][col]
                rows_[i] = [a - f * b for a, b in zip(rows_[i], rows_[at])]
        piv.append(at)
        at += 1
    if any(x[k] for x in rows_[at:]):
        return None
    out = []
    for i in range(k):
        v = rows_[i][k]
        if v.denominator != 1:
            return None
        out.append(int(v))
    return out


def params_only(w, ps):
    return [p for p in ps]


def rows(f):
    r = list(f.ge)
    for k, x in f.sub.items():
        e = sym(k) - x
        r.append(e)
        r.append(-e)
    return r


def build_facts(rs, rigid):
    f = Facts()
    s = set(rs)
    done = set()
    # facts about entry values come first: they stay when the others, which may imply them, are lost
    for e in sorted(rs, key=lambda e: not e.syms() <= rigid):
        if e in done:
            continue
        if -e in s:
            done.add(-e)
            n = f.add_eq(e)
        elif f.entails(e):
            continue
        else:
            n = f.add(e)
        if n is None:
            raise Unknown("loop: inconsistent facts")
        f = n
    # ... even if a fact about a parameter makes them redundant now
    have = set(f.ge)
    more = []
    for e in rs:
        if e.syms() <= rigid and e not in done and -e not in s:
            e = f.norm(e)
            if not e.is_const() and e not in have and not trivially(e):
                have.add(e)
                more.append(e)
    if more:
        f = Facts(list(f.ge) + more, f.sub)
    return f
