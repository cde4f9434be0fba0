"""A light item scanner over Rust source: impl headers, fn generics, type
aliases, struct parameter defaults, associated types.  Only what name
resolution over textual MIR needs."""
import os
import re

from .mirparse import P, ParseError, parse_ty

TOK = re.compile(r"""
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<str>b?"(?:\\.|[^"\\])*")
|(?P<raw>b?r(?P<h>\#*)")
|(?P<chr>b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^\\'])')
|(?P<lt>'[A-Za-z_][A-Za-z0-9_]*)
|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
|(?P<num>[0-9][A-Za-z0-9_]*(?:\.[0-9][0-9_]*)?)
|(?P<p>::|->|=>|.)
""", re.X | re.S)

OPEN = {"(": ")", "[": "]", "{": "}"}


class Tok:
    __slots__ = ("s", "k", "a", "b")

    def __init__(self, s, k, a, b):
        self.s, self.k, self.a, self.b = s, k, a, b


def tokenize(src):
    i = 0
    out = []
    while i < len(src):
        m = TOK.match(src, i)
        k = m.lastgroup
        if m.group("bc"):
            d, j = 1, i + 2
            while d and j < len(src):
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        if m.group("raw"):
            j = src.index('"' + m.group("h"), m.end()) + 1 + len(m.group("h"))
            out.append(Tok(src[i:j], "str", i, j))
            i = j
            continue
        if k not in ("ws", "lc"):
            out.append(Tok(m.group(), k, i, m.end()))
        i = m.end()
    return out


class Impl:
    def __init__(self):
        self.file = None
        self.line = self.col = 0
        self.gens = []       # [(kind, name)]
        self.bounds = []     # [(ty text, bound text)]
        self.trait = None    # (name, args)
        self.self_ty = None
        self.fn_gens = {}    # fn name -> [(kind, name)]
        self.types = {}      # assoc types
        self.text = ""
        self.unsafe = False
        self.names = set()
        self.is_default = set()


class Crate:
    def __init__(self):
        self.impls = {}       # (file, line, col) -> Impl
        self.fn_gens = {}     # (fn name) -> list of (chain, gens)
        self.alias = {}       # name -> (gens names, type text)
        self.struct_defaults = {}   # name -> [(name, default type|None)]
        self.trait_gens = {}  # trait -> [(kind, name)]
        self.trait_fn_gens = {}
        self.structs = {}     # name -> [field names]
        self.struct_types = {}   # name -> ([generics], [(field, type text)])
        self.enums = {}       # name -> [variants]
        self.copy_types = set()


def cfg_true(text, feats):
    toks = re.findall(r'[A-Za-z_]+|"[^"]*"|[(),=]', text)
    pos = [0]

    def parse():
        t = toks[pos[0]]
        pos[0] += 1
        if pos[0] < len(toks) and toks[pos[0]] == "(":
            pos[0] += 1
            a = []
            while toks[pos[0]] != ")":
                a.append(parse())
                if toks[pos[0]] == ",":
                    pos[0] += 1
            pos[0] += 1
            if t == "all":
                return all(a)
            if t == "any":
                return any(a)
            if t == "not":
                return not a[0]
            return False
        if pos[0] < len(toks) and toks[pos[0]] == "=":
            v = toks[pos[0] + 1].strip('"')
            pos[0] += 2
            if t == "feature":
                return v in feats
            if t == "target_pointer_width":
                return v == "64"
            return False
        return t in ("debug_assertions",) and False
    try:
        return parse()
    except IndexError:
        return True


def split_top(text, sep):
    """split at top-level separators."""
    out, d, st = [], 0, 0
    i = 0
    while i < len(text):
        c = text[i]
        if c in "<([{":
            d += 1
        elif c in ")]}":
            d -= 1
        elif c == ">" and text[i - 1] not in "-=":
            d -= 1
        elif d == 0 and text.startswith(sep, i):
            out.append(text[st:i])
            st = i + len(sep)
            i = st
            continue
        i += 1
    out.append(text[st:])
    return out


def parse_generics(text):
    """'T: X, const N: usize, 'a' -> [(kind, name)], bounds, defaults"""
    gens, bounds, dflt = [], [], []
    for g in split_top(text, ","):
        g = g.strip()
        if not g or g.startswith("'"):
            continue
        if g.startswith("const "):
            n = g[6:].split(":")[0].strip()
            gens.append(("const", n))
            dflt.append(None)
            continue
        d = None
        parts = split_top(g, "=")
        if len(parts) > 1:
            d = parts[1].strip()
            g = parts[0].strip()
        if ":" in g:
            n, b = g.split(":", 1)
            bounds.append((n.strip(), b.strip()))
            n = n.strip()
        else:
            n = g
        gens.append(("type", n))
        dflt.append(d)
    return gens, bounds, dflt


class Scanner:
    def __init__(self, crate, fname, src, feats):
        self.c = crate
        self.fname = fname
        self.src = src
        self.feats = feats
        self.t = tokenize(src)
        self.mods = []
        self.match = {}
        st = []
        for i, t in enumerate(self.t):
            if t.k == "p":
                if t.s in OPEN:
                    st.append(i)
                elif t.s in ")]}" and st:
                    self.match[st.pop()] = i
        self.starts = [0]
        for m in re.finditer("\n", src):
            self.starts.append(m.end())

    def linecol(self, off):
        import bisect
        l = bisect.bisect_right(self.starts, off)
        return l, off - self.starts[l - 1] + 1

    def text(self, i, j):
        """source text of tokens i..j (exclusive), comments removed"""
        if i >= j:
            return ""
        out = []
        last = None
        for t in self.t[i:j]:
            if last is not None and t.a > last:
                out.append(" ")
            out.append(t.s)
            last = t.b
        return "".join(out)

    def angle(self, i):
        """index after the matching '>' of '<' at token i."""
        d = 0
        while i < len(self.t):
            s = self.t[i].s
            if s in OPEN:
                i = self.match.get(i, i)
            elif s == "<":
                d += 1
            elif s == ">":
                d -= 1
                if d == 0:
                    return i + 1
            i += 1
        return i

    def scan(self, i, j, chain, impl=None, trait=None):
        """items of tokens i..j"""
        T = self.t
        cfg = True
        start = None
        while i < j:
            t = T[i]
            if t.s == "#":
                k = i + 1
                if T[k].s == "!":
                    k += 1
                if T[k].s == "[":
                    e = self.match.get(k, k)
                    if start is None:
                        start = i
                    if T[k + 1].s == "cfg":
                        cfg = cfg and cfg_true(self.text(k + 3, e - 1), self.feats)
                    i = e + 1
                    continue
                i += 1
                continue
            if t.s == "pub":
                i += 1
                if i < j and T[i].s == "(":
                    i = self.match[i] + 1
                continue
            if t.s in ("unsafe", "async", "extern", "default") and i + 1 < j and T[i + 1].s not in ("{", "!"):
                i += 1
                if T[i].k == "str":
                    i += 1
                continue
            if t.s == "const" and i + 1 < j and T[i + 1].s in ("fn", "unsafe", "extern"):
                i += 1
                continue
            if t.s == "fn" and i + 1 < j and T[i + 1].k == "id":
                i = self.fn(i, j, chain, impl, trait, cfg)
            elif t.s == "impl":
                i = self.impl(i, j, chain, cfg, start)
            elif t.s == "trait":
                i = self.trait(i, j, chain, cfg)
            elif t.s == "mod" and i + 2 < j and T[i + 2].s == "{":
                e = self.match[i + 2]
                if cfg:
                    self.scan(i + 3, e, chain + [T[i + 1].s])
                i = e + 1
            elif t.s == "mod" and i + 2 < j and T[i + 2].s == ";":
                if cfg:
                    self.mods.append(T[i + 1].s)
                i += 3
            elif t.s in ("struct", "enum", "union") and i + 1 < j and T[i + 1].k == "id":
                i = self.struct(i, j, cfg)
            elif t.s == "type" and i + 1 < j and T[i + 1].k == "id":
                i = self.alias(i, j, cfg, impl)
            elif t.s == "use" or t.s == "crate" or (t.s == "static" and i + 1 < j):
                # `use ..;`, `extern crate ..;`
                while i < j and T[i].s != ";":
                    i = self.match.get(i, i) + 1
                i += 1
            elif t.s == ";":
                i += 1
            elif t.s == "macro_rules" and i + 3 < j:
                k = i + 3
                if T[k].s in OPEN:
                    e = self.match[k]
                    # arms: (..) => {..};
                    q = k + 1
                    while q < e:
                        if T[q].s == "=>":
                            if T[q + 1].s in OPEN:
                                e2 = self.match.get(q + 1, q + 1)
                                self.macro_items(q + 2, e2, chain)
                                q = e2 + 1
                                continue
                        elif T[q].s in OPEN:
                            q = self.match.get(q, q)
                        q += 1
                    i = e + 1
                else:
                    i += 1
            elif t.k == "id" and i + 2 < j and T[i + 1].s == "!" and T[i + 2].s in OPEN:
                e = self.match[i + 2]
                self.scan(i + 3, e, chain)
                i = e + 1
            elif t.s in OPEN:
                e = self.match.get(i, i)
                # expression blocks may contain items
                if t.s == "{":
                    self.scan(i + 1, e, chain)
                i = e + 1
            else:
                if t.s == "const" and impl is not None and i + 1 < j and T[i + 1].k == "id":
                    impl.names.add(T[i + 1].s)
                i += 1
                continue
            cfg = True
            start = None

    def macro_items(self, i, e, chain):
        # find `impl` tokens inside a macro body
        T = self.t
        q = i
        while q < e:
            if T[q].s == "impl":
                try:
                    q = self.impl(q, e, chain, True, None)
                    continue
                except (ParseError, IndexError, KeyError):
                    pass
            q += 1

    def fn(self, i, j, chain, impl, trait, cfg):
        T = self.t
        name = T[i + 1].s
        k = i + 2
        gens, bounds = [], []
        if T[k].s == "<":
            e = self.angle(k)
            gens, bounds, _ = parse_generics(self.text(k + 1, e - 1))
            k = e
        # argument-position impl Trait adds generics
        if T[k].s == "(":
            k = self.match[k] + 1
        while k < j and T[k].s not in ("{", ";"):
            if T[k].s in ("(", "["):
                k = self.match[k]
            k += 1
        if cfg:
            if impl is not None:
                impl.fn_gens[name] = gens
                impl.names.add(name)
            elif trait is not None:
                self.c.trait_fn_gens[(trait, name)] = gens
            else:
                self.c.fn_gens.setdefault(name, []).append((tuple(chain), gens, self.fname))
        if k < j and T[k].s == "{":
            e = self.match[k]
            if cfg:
                self.scan(k + 1, e, chain + [name])
            return e + 1
        return k + 1

    def impl(self, i, j, chain, cfg, start):
        T = self.t
        im = Impl()
        im.file = self.fname
        # the span starts at `unsafe` / `default` / `impl`
        a = i
        while a > 0 and T[a - 1].s in ("unsafe", "default"):
            a -= 1
        im.line, im.col = self.linecol(T[a].a)
        k = i + 1
        if T[k].s == "<":
            e = self.angle(k)
            im.gens, im.bounds, _ = parse_generics(self.text(k + 1, e - 1))
            k = e
        st = k
        fo = None
        wh = None
        while k < j and T[k].s != "{":
            if T[k].s == ";":
                return k + 1
            if T[k].s in ("(", "["):
                k = self.match[k] + 1
                continue
            if T[k].s == "<":
                k = self.angle(k)
                continue
            if T[k].s == "for" and T[k + 1].s != "<" and wh is None:
                fo = k
            if T[k].s == "where":
                wh = k
            k += 1
        if k >= j:
            return j
        end = wh if wh is not None else k
        neg = T[st].s == "!"
        try:
            if fo is not None:
                tr = P(self.text(st, fo)).path()
                from .mirparse import trait_term
                im.trait = trait_term(tr)
                im.self_ty = parse_ty(self.text(fo + 1, end).replace("$", ""))
            else:
                im.self_ty = parse_ty(self.text(st, end).replace("$", ""))
        except (ParseError, ValueError, AttributeError, IndexError):
            return self.match[k] + 1
        if wh is not None:
            for w in split_top(self.text(wh + 1, k), ","):
                if ":" in w:
                    n, b = w.split(":", 1)
                    im.bounds.append((n.strip(), b.strip()))
        e = self.match[k]
        if cfg and not neg:
            self.c.impls.setdefault((im.file, im.line, im.col), im)
            im = self.c.impls[(im.file, im.line, im.col)]
            self.scan(k + 1, e, chain, impl=im)
        return e + 1

    def trait(self, i, j, chain, cfg):
        T = self.t
        name = T[i + 1].s
        k = i + 2
        gens = []
        if T[k].s == "<":
            e = self.angle(k)
            gens, _, _ = parse_generics(self.text(k + 1, e - 1))
            k = e
        while k < j and T[k].s not in ("{", ";"):
            if T[k].s in ("(", "["):
                k = self.match[k]
            k += 1
        if T[k].s == ";":
            return k + 1
        e = self.match[k]
        if cfg:
            self.c.trait_gens[name] = gens
            self.scan(k + 1, e, chain, trait=name)
        return e + 1

    def struct(self, i, j, cfg):
        T = self.t
        name = T[i + 1].s
        k = i + 2
        gens, dflt = [], []
        if T[k].s == "<":
            e = self.angle(k)
            gens, _, dflt = parse_generics(self.text(k + 1, e - 1))
            k = e
        if cfg:
            self.c.struct_defaults[name] = [(g[1], d) for g, d in zip(gens, dflt)]
        kind = T[i].s
        if T[k].s != "(":
            # a where clause
            while k < j and T[k].s not in ("{", ";"):
                k = self.match[k] + 1 if T[k].s in ("(", "[") else k + 1
        if k < j and T[k].s in OPEN:
            e = self.match[k]
            names = []
            q = k + 1
            nt = 0
            while q < e:
                if T[q].s == "#":
                    q = self.match[q + 1] + 1
                    continue
                if T[q].s in OPEN:
                    q = self.match[q] + 1
                    continue
                if T[q].s == "<":
                    q = self.angle(q)
                    continue
                if kind == "enum":
                    if T[q].k == "id" and (q == k + 1 or T[q - 1].s in (",", "]")):
                        names.append(T[q].s)
                elif T[k].s == "{" and T[q].k == "id" and T[q + 1].s == ":" and T[q + 1].s != "::":
                    names.append(T[q].s)
                q += 1
            if cfg:
                (self.c.enums if kind == "enum" else self.c.structs)[name] = names
                if kind == "struct":
                    self.c.struct_types[name] = ([g[1] for g in gens], split_fields(self.text(k + 1, e), T[k].s == "{"), self.reprs(i))
            k = e
            if T[k].s == ")":
                while k < j and T[k].s != ";":
                    k += 1
        return k + 1

    def reprs(self, i):
        """text of the repr attributes before the item at token i."""
        T = self.t
        k = i - 1
        o = []
        if k >= 0 and T[k].s == ")":
            while k >= 0 and T[k].s != "(":
                k -= 1
            k -= 1
        if k >= 0 and T[k].s == "pub":
            k -= 1
        while k >= 0 and T[k].s == "]":
            d, q = 0, k
            while q >= 0:
                d += T[q].s == "]"
                d -= T[q].s == "["
                if d == 0:
                    break
                q -= 1
            if q < 1 or T[q - 1].s != "#":
                break
            if T[q + 1].s == "repr":
                o.append(self.text(q + 1, k))
            k = q - 2
        return " ".join(o)

    def alias(self, i, j, cfg, impl):
        T = self.t
        name = T[i + 1].s
        k = i + 2
        gens, dflt = [], []
        if T[k].s == "<":
            e = self.angle(k)
            gens, _, dflt = parse_generics(self.text(k + 1, e - 1))
            k = e
        st = k
        while k < j and T[k].s != ";":
            if T[k].s in OPEN:
                k = self.match[k]
            k += 1
        if cfg and T[st].s == "=":
            txt = self.text(st + 1, k)
            if impl is not None:
                try:
                    impl.types[name] = parse_ty(txt, [g[1] for g in impl.gens] + ["Self"])
                except (ParseError, ValueError, AttributeError):
                    pass
            else:
                self.c.alias[name] = ([(g[1], d) for g, d in zip(gens, dflt)], txt)
        return k + 1


def scan_file(crate, root, rel, feats, chain, seen):
    if rel in seen:
        return
    seen.add(rel)
    src = open(os.path.join(root, rel)).read()
    sc = Scanner(crate, rel, src, feats)
    sc.scan(0, len(sc.t), chain)
    base = os.path.basename(rel)
    d = os.path.dirname(rel) if base in ("lib.rs", "mod.rs") or not chain else rel[:-3]
    for m in sc.mods:
        for cand in (os.path.join(d, m + ".rs"), os.path.join(d, m, "mod.rs")):
            if os.path.exists(os.path.join(root, cand)):
                scan_file(crate, root, cand, feats, chain + [m], seen)
                break


def scan_crate(root, rel, feats):
    c = Crate()
    c.files = set()
    scan_file(c, root, rel, feats, [], c.files)
    return c


def split_fields(txt, named):
    """[(name, type text)] of the fields of a struct."""
    out, cur, depth = [], "", 0
    prev = ""
    for ch in txt + ",":
        if ch in "<([{":
            depth += 1
        elif ch in ")]}" or ch == ">" and prev != "-":
            depth -= 1
        prev = ch
        if ch == "," and depth == 0:
            f = cur.strip()
            cur = ""
            while f.startswith("#"):
                d, i = 0, f.index("[")
                for i in range(i, len(f)):
                    d += f[i] == "["
                    d -= f[i] == "]"
                    if d == 0:
                        break
                f = f[i + 1:].strip()
            if f.startswith("pub"):
                f = f[3:].strip()
                if f.startswith("("):
                    f = f[f.index(")") + 1:].strip()
            if not f:
                continue
            if named:
                n, t = f.split(":", 1)
                out.append((n.strip(), t.strip()))
            else:
                out.append((str(len(out)), f))
            continue
        cur += ch
    return out
