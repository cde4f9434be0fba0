"""Parser for rustc's textual MIR (rustc 1.52 and 1.99 forms): types, paths,
places, statements, terminators.  Bodies are parsed on demand."""
import re

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"-?[0-9]+")


class ParseError(Exception):
    pass


STD_CRATES = ("std", "core", "alloc")
PRIMS = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool", "char", "str", "f32", "f64"}


def std_name(names):
    """normalised name of a std item (type) from its path segments."""
    last = names[-1]
    if last in ("IntoIter", "Drain", "Splice", "Iter", "IterMut", "Error", "Result") and len(names) > 2:
        m = names[-2]
        if last == "Result" and m == "result":
            return "std::Result"
        return "std::%s::%s" % (m, last)
    return "std::" + last


class P:
    """Recursive descent parser over one string."""

    def __init__(self, s, i=0, params=()):
        self.s = s
        self.i = i
        self.params = params

    def ws(self):
        s = self.s
        while self.i < len(s) and s[self.i] in " \t\n":
            self.i += 1

    def at(self, t):
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def kw(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            j = self.i + len(t)
            if j >= len(self.s) or not (self.s[j].isalnum() or self.s[j] == "_"):
                self.i = j
                return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise ParseError("expected %r at %r in %r" % (t, self.s[self.i:self.i + 60], self.s[:200]))

    def ident(self):
        self.ws()
        m = IDENT.match(self.s, self.i)
        if not m:
            raise ParseError("ident at %r in %r" % (self.s[self.i:self.i + 60], self.s[:200]))
        self.i = m.end()
        return m.group()

    def end(self):
        self.ws()
        return self.i >= len(self.s)

    # ---- types
    def lifetime(self):
        self.ws()
        if self.at("'"):
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(self.s, self.i)
            if m:
                self.i = m.end()
                return True
        return False

    def brace_text(self, open_, close):
        """text between matching delimiters; self.i at open."""
        d = 0
        s = self.s
        st = self.i
        while self.i < len(s):
            c = s[self.i]
            if c == open_:
                d += 1
            elif c == close:
                d -= 1
                if d == 0:
                    self.i += 1
                    return s[st + 1:self.i - 1]
            self.i += 1
        raise ParseError("unbalanced " + s[st:st + 80])

    def ty(self):
        self.ws()
        if self.eat("&"):
            self.lifetime()
            if self.kw("mut"):
                return ("ref", True, self.ty())
            return ("ref", False, self.ty())
        if self.at("*const") or self.at("*mut"):
            m = self.at("*mut")
            self.i += 4 if m else 6
            return ("ptr", m, self.ty())
        if self.at("{closure@") or self.at("{closure#"):
            return ("clos", self.brace_text("{", "}")[8:])
        if self.at("[closure@"):
            return ("clos", self.brace_text("[", "]")[8:])
        if self.at("{"):
            return ("opaque", self.brace_text("{", "}"))
        if self.eat("["):
            t = self.ty()
            if self.eat(";"):
                n = self.const_arg()
                self.need("]")
                return ("arr", t, n)
            self.need("]")
            return ("sl", t)
        if self.eat("("):
            r = []
            while not self.eat(")"):
                r.append(self.ty())
                self.eat(",")
            return ("tup", tuple(r))
        if self.eat("!"):
            return ("never",)
        if self.kw("impl"):
            st = self.i
            self.bounds()
            return ("opaque", "impl " + self.s[st:self.i].strip())
        if self.kw("dyn"):
            st = self.i
            self.bounds()
            return ("opaque", "dyn " + self.s[st:self.i].strip())
        if self.kw("for"):
            self.ws()
            if self.at("<"):
                self.brace_text("<", ">")
            return self.ty()
        save = self.i
        if self.kw("unsafe") or self.kw("extern"):
            self.ws()
            if self.at('"'):
                self.i = self.s.index('"', self.i + 1) + 1
            return self.ty()
        if self.kw("fn"):
            self.ws()
            if self.at("("):
                self.need("(")
                a = []
                while not self.eat(")"):
                    a.append(self.ty())
                    self.eat(",")
                ret = ("tup", ())
                if self.eat("->"):
                    ret = self.ty()
                self.ws()
                if self.at("{"):
                    inner = self.brace_text("{", "}")
                    return ("fndef", P(inner).path())
                return ("fnptr", tuple(a), ret)
            self.i = save
        m = NUM.match(self.s, self.i)
        if m and not self.at("_"):
            self.i = m.end()
            mm = IDENT.match(self.s, self.i)
            if mm:
                self.i = mm.end()
            return ("const", int(m.group()))
        p = self.path()
        return path_type(p, self.params)

    def bounds(self):
        d = 0
        s = self.s
        while self.i < len(s):
            c = s[self.i]
            if c in "<([{":
                d += 1
            elif c in ">)]}":
                if c == ">" and s[self.i - 1] in "-=":
                    self.i += 1
                    continue
                if d == 0:
                    return
                d -= 1
            elif c in ",;=" and d == 0:
                if c == "=" and s[self.i + 1:self.i + 2] == ">":
                    pass
                return
            self.i += 1

    def const_arg(self):
        self.ws()
        if self.at("{"):
            return ("opaque", self.brace_text("{", "}"))
        m = NUM.match(self.s, self.i)
        if m:
            self.i = m.end()
            mm = IDENT.match(self.s, self.i)
            if mm:
                self.i = mm.end()
            return ("const", int(m.group()))
        if self.at("$"):
            self.i += 1
        return path_type(self.path())

    def generics(self):
        """after '<'"""
        r = []
        while not self.eat(">"):
            self.ws()
            if self.lifetime():
                pass
            elif re.compile(r"[A-Za-z_][A-Za-z0-9_]*\s*=[^=]").match(self.s, self.i) and not self.at("_="):
                n = self.ident()
                self.need("=")
                r.append(("bind", n, self.ty()))
            else:
                if self.at("{") and not self.at("{closure"):
                    r.append(self.const_arg())
                else:
                    r.append(self.ty())
            self.eat(",")
        return tuple(r)

    def impl_path(self):
        """is the text after < an impl whose item follows (not a type argument)?"""
        d = 1
        j = self.i
        while d:
            if self.s[j] == "<":
                d += 1
            elif self.s[j] == ">" and self.s[j - 1] not in "-=":
                d -= 1
            j += 1
        return self.s.startswith("::", j)

    def path(self):
        """list of (name, args|None); the first may be ('<>', (selfty, trait|None)) or an impl span."""
        segs = []
        self.ws()
        if self.at("<impl at "):
            segs.append(("<impl>", self.impl_at()))
        elif self.at("<"):
            self.i += 1
            t = self.ty()
            tr = None
            if self.kw("as"):
                tr = self.path()
            self.need(">")
            segs.append(("<>", (t, tr)))
        elif self.at("{"):
            segs.append((self.s[self.i:self.i + 1] + self.brace_text("{", "}") + "}", None))
        else:
            if self.at("::"):
                self.i += 2
            if self.at("$crate::"):
                self.i += 8
            segs.append((self.ident(), None))
            self.seg_args(segs)
        while self.at("::"):
            self.i += 2
            if self.at("<impl at "):
                segs.append(("<impl>", self.impl_at()))
                continue
            if self.at("<impl "):
                # core::ptr::const_ptr::<impl *const T>::add, or f::<impl Trait>
                st = self.i
                self.i += 1
                if self.at("impl for<") or not self.impl_path():
                    self.i = st + 1
                    segs[-1] = (segs[-1][0], self.generics())
                    continue
                self.i = st + 6
                t = self.ty()
                tr = None
                if self.kw("for"):
                    tr = t
                    t = self.ty()
                self.need(">")
                segs.append(("<>", (t, tr)))
                continue
            if self.at("{"):
                segs.append(("{" + self.brace_text("{", "}") + "}", None))
                continue
            if self.at("<"):
                self.i += 1
                segs[-1] = (segs[-1][0], self.generics())
                continue
            if self.at("promoted["):
                j = self.s.index("]", self.i)
                segs.append((self.s[self.i:j + 1], None))
                self.i = j + 1
                continue
            segs.append((self.ident(), None))
            self.seg_args(segs)
        return tuple(segs)

    def seg_args(self, segs):
        if self.at("<") and not self.at("<impl ") and not self.at("<="):
            self.i += 1
            segs[-1] = (segs[-1][0], self.generics())
        elif self.at("(") and segs[-1][0] in ("Fn", "FnMut", "FnOnce"):
            # Fn(A) -> B sugar
            self.need("(")
            a = []
            while not self.eat(")"):
                a.append(self.ty())
                self.eat(",")
            r = ("tup", ())
            if self.eat("->"):
                r = self.ty()
            segs[-1] = (segs[-1][0], (("tup", tuple(a)), ("bind", "Output", r)))

    def impl_at(self):
        j = self.s.index(">", self.i)
        t = self.s[self.i + 9:j]
        self.i = j + 1
        m = re.match(r"(.*?):(\d+):(\d+)", t)
        return (m.group(1), int(m.group(2)), int(m.group(3)))

    # ---- places
    def place(self):
        self.ws()
        if self.at("_"):
            m = re.compile(r"_(\d+)").match(self.s, self.i)
            if not m:
                raise ParseError("place " + self.s[self.i:self.i + 50])
            self.i = m.end()
            loc, proj = int(m.group(1)), []
        elif self.at("(*"):
            self.i += 2
            loc, proj = self.place()
            self.need(")")
            proj = proj + [("*",)]
        elif self.at("("):
            self.i += 1
            loc, proj = self.place()
            self.ws()
            if self.eat("."):
                m = re.compile(r"\d+").match(self.s, self.i)
                self.i = m.end()
                self.need(":")
                t = self.ty()
                self.need(")")
                proj = proj + [("f", int(m.group()), t)]
            elif self.kw("as"):
                self.ws()
                if self.at("subtype") or self.at("variant#"):
                    raise ParseError("subtype")
                v = self.ident()
                self.need(")")
                proj = proj + [("v", v)]
            else:
                self.need(")")
        else:
            raise ParseError("place at %r" % self.s[self.i:self.i + 60])
        while self.at("["):
            self.i += 1
            if self.at("_"):
                m = re.compile(r"_(\d+)").match(self.s, self.i)
                self.i = m.end()
                proj = proj + [("i", int(m.group(1)))]
            else:
                m = re.compile(r"(-?\d+) of (\d+)").match(self.s, self.i)
                if m:
                    self.i = m.end()
                    proj = proj + [("ci", int(m.group(1)), int(m.group(2)))]
                else:
                    m = re.compile(r"(\d+):(-?\d*)").match(self.s, self.i)
                    if not m:
                        raise ParseError("index " + self.s[self.i:self.i + 40])
                    self.i = m.end()
                    proj = proj + [("sub", m.group(1), m.group(2))]
            self.need("]")
        return loc, proj

    # ---- operands
    def operand(self):
        self.ws()
        for pre in ("no_retag copy ", "no_retag move ", "copy ", "move "):
            if self.at(pre):
                self.i += len(pre)
                l, p = self.place()
                return ("move" if pre == "move " else "copy", l, tuple(p))
        if self.at("const "):
            self.i += 6
            return self.const()
        if self.at("_") and re.compile(r"_\d").match(self.s, self.i):
            l, p = self.place()
            return ("copy", l, tuple(p))
        if self.at("((") or self.at("(*") or self.at("(_"):
            l, p = self.place()
            return ("copy", l, tuple(p))
        return ("fn", self.path())

    def const(self):
        self.ws()
        s = self.s
        if self.at('"'):
            return ("str", self.string())
        if self.at('b"'):
            self.i += 1
            return ("str", self.string())
        if self.at("'"):
            m = re.compile(r"'(?:\\.[^']*|[^'])'").match(s, self.i)
            self.i = m.end()
            return ("char", m.group())
        m = re.compile(r"(-?\d+)_([iu](?:size|8|16|32|64|128))").match(s, self.i)
        if m:
            self.i = m.end()
            return ("int", int(m.group(1)), m.group(2))
        if self.kw("true"):
            return ("bool", True)
        if self.kw("false"):
            return ("bool", False)
        if self.at("()"):
            self.i += 2
            return ("unit",)
        m = re.compile(r"(?:[A-Za-z_0-9]+::)*<?impl_?").match(s, self.i)
        if self.at("{"):
            t = self.brace_text("{", "}")
            return ("opaque", t)
        if self.at("&") or self.at("["):
            st = self.i
            self.bounds()
            return ("opaque", s[st:self.i])
        if self.at("<"):
            p = self.path()
        else:
            mm = re.compile(r"([iu](?:size|8|16|32|64|128))::(MAX|MIN)").match(s, self.i)
            if mm:
                self.i = mm.end()
                return ("path", ((mm.group(1), None), (mm.group(2), None)))
            p = self.path()
        self.ws()
        if self.at("{") or self.at("("):
            # constant aggregates: Foo(..) / Foo {{ .. }}
            st = self.i
            self.brace_text(self.s[self.i], {"{": "}", "(": ")"}[self.s[self.i]])
            return ("constagg", p, s[st:self.i])
        return ("path", p)

    def string(self):
        j = self.i + 1
        s = self.s
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        r = s[self.i + 1:j]
        self.i = j + 1
        return r

    def rvalue(self):
        self.ws()
        s = self.s
        if self.at("&raw "):
            self.i += 5
            m = self.kw("mut")
            if not m:
                self.kw("const")
            self.kw("(fake)")
            l, p = self.place()
            return ("addr", m, l, tuple(p))
        if self.at("&"):
            self.i += 1
            self.lifetime()
            self.kw("fake shallow")
            m = self.kw("mut")
            l, p = self.place()
            return ("ref", m, l, tuple(p))
        m = re.compile(r"(Add|Sub|Mul|Div|Rem|BitXor|BitAnd|BitOr|Shl|Shr|Eq|Lt|Le|Ne|Ge|Gt|Cmp|Offset|AddWithOverflow|SubWithOverflow|MulWithOverflow|CheckedAdd|CheckedSub|CheckedMul|AddUnchecked|SubUnchecked|MulUnchecked|ShlUnchecked|ShrUnchecked)\(").match(s, self.i)
        if m:
            self.i = m.end()
            a = self.operand()
            self.need(",")
            b = self.operand()
            self.need(")")
            return ("bin", m.group(1), a, b)
        m = re.compile(r"(Not|Neg|PtrMetadata)\(").match(s, self.i)
        if m:
            self.i = m.end()
            a = self.operand()
            self.need(")")
            return ("un", m.group(1), a)
        m = re.compile(r"(Len|discriminant|CopyForDeref)\(").match(s, self.i)
        if m:
            self.i = m.end()
            l, p = self.place()
            self.need(")")
            return (m.group(1).lower(), l, tuple(p))
        if self.at("deref_copy "):
            self.i += 11
            l, p = self.place()
            return ("copyforderef", l, tuple(p))
        m = re.compile(r"(SizeOf|AlignOf)\(").match(s, self.i)
        if m:
            self.i = m.end()
            t = self.ty()
            self.need(")")
            return ("sizeof" if m.group(1) == "SizeOf" else "alignof", t)
        if self.at("[closure@") or self.at("{closure@"):
            t = self.ty()
            return ("clos", t[1], self.fields_or_args())
        if self.at("["):
            self.i += 1
            ops = []
            if self.eat("]"):
                return ("array", ())
            a = self.operand()
            if self.eat(";"):
                n = self.const_arg() if not self.s.startswith("const ", self.i + 1) else None
                if n is None:
                    self.ws()
                    o = self.operand()
                    n = ("op", o)
                self.need("]")
                return ("repeat", a, n)
            ops.append(a)
            while self.eat(","):
                self.ws()
                if self.at("]"):
                    break
                ops.append(self.operand())
            self.need("]")
            return ("array", tuple(ops))
        if self.at("("):
            # a tuple aggregate or a place
            save = self.i
            try:
                l, p = self.place()
                self.ws()
                if self.end() or self.at(" as ") or self.kw("as"):
                    self.i = save
                else:
                    raise ParseError("x")
            except (ParseError, AttributeError, ValueError):
                self.i = save
                self.need("(")
                ops = []
                while not self.eat(")"):
                    ops.append(self.operand())
                    self.eat(",")
                return ("tuple", tuple(ops))
        for pre in ("copy ", "move ", "const ", "no_retag ", "_", "("):
            if self.at(pre):
                if pre == "_" and not re.compile(r"_\d").match(s, self.i):
                    continue
                op = self.operand()
                self.ws()
                if self.kw("as"):
                    t = self.ty()
                    self.ws()
                    if self.at("("):
                        k = self.brace_text("(", ")")
                    else:
                        k = "?"
                    return ("cast", op, t, k)
                return ("use", op)
        if self.at("ShallowInitBox("):
            raise ParseError("ShallowInitBox")
        # path aggregate
        p = self.path()
        self.ws()
        if self.end():
            return ("agg", p, ())
        if self.at(" as ") or self.kw("as"):
            t = self.ty()
            self.ws()
            k = self.brace_text("(", ")") if self.at("(") else "?"
            return ("cast", ("fn", p), t, k)
        return ("agg", p, self.fields_or_args())

    def fields_or_args(self):
        ops = []
        self.ws()
        if self.eat("{"):
            while not self.eat("}"):
                if re.compile(r"\s*\d+\s*:").match(self.s, self.i):
                    self.i = self.s.index(":", self.i)
                else:
                    self.ident()
                self.need(":")
                ops.append(self.operand())
                self.eat(",")
            return tuple(ops)
        if self.eat("("):
            while not self.eat(")"):
                ops.append(self.operand())
                self.eat(",")
            return tuple(ops)
        return ()


def path_type(p, params=()):
    """type term of a path."""
    if len(p) == 2 and p[0][0] in params and p[0][1] is None:
        return ("proj", ("p", p[0][0], ()), None, p[1][0])
    if p[0][0] == "<>":
        t, tr = p[0][1]
        if len(p) == 2 and tr is not None:
            return ("proj", t, trait_term(tr), p[1][0])
        if len(p) == 2 and tr is None:
            return ("proj", t, None, p[1][0])
        if len(p) == 1:
            return t
        return ("p", p[-1][0], p[-1][1] or ())
    names = [n for n, _ in p]
    args = p[-1][1] or ()
    if len(p) == 1:
        return ("p", names[0], args)
    if names[0] in STD_CRATES:
        return ("p", std_name(names), args)
    if names[0] == "Self" and len(p) == 2:
        return ("proj", ("p", "Self", ()), None, names[1])
    return ("p", names[-1], args)


def trait_term(p):
    names = [n for n, _ in p]
    return (names[-1], tuple(a for a in (p[-1][1] or ()) if a[0] != "bind"))


def parse_ty(s, params=()):
    p = P(s, 0, params)
    t = p.ty()
    if not p.end():
        raise ParseError("type %r: rest %r" % (s, s[p.i:]))
    return t


COMMENT = re.compile(r"\s*//(?: .*|)$")


class Fn:
    """One MIR body (function, const, promoted or closure)."""
    __slots__ = ("crate", "kind", "header", "path", "params", "ret", "text", "_body", "line", "impl", "name", "span", "order", "generics", "src", "loops", "uid", "is_ctor")

    def __init__(self):
        self._body = None
        self.impl = None
        self.generics = None
        self.loops = None
        self.src = None
        self.is_ctor = False

    @property
    def body(self):
        if self._body is None:
            self._body = parse_body(self)
        return self._body

    def __repr__(self):
        return "<Fn %s>" % self.header


class Body:
    __slots__ = ("locals", "blocks", "spans", "cleanup", "loops")


def split_file(text, crate):
    """All bodies of a MIR dump."""
    fns = []
    cur = None
    for ln_no, ln in enumerate(text.split("\n")):
        if cur is not None:
            if ln == "}":
                fns.append(cur)
                cur = None
            else:
                cur.text.append(ln)
            continue
        if ln.startswith("fn ") or ln.startswith("const ") or ln.startswith("static ") or ln.startswith("promoted["):
            h = ln
            if h.rstrip().endswith(" {"):
                f = Fn()
                f.crate = crate
                f.header = h.rstrip()[:-2]
                f.text = []
                f.line = ln_no + 1
                f.order = len(fns)
                cur = f
            elif ";" in h:
                f = Fn()
                f.crate = crate
                f.header = h.rstrip()
                f.text = None
                f.line = ln_no + 1
                f.order = len(fns)
                fns.append(f)
    for k, f in enumerate(fns):
        f.uid = (crate, k)
        parse_header(f)
    return fns


def parse_header(f):
    h = f.header
    f.params = ()
    f.ret = None
    if h.startswith("fn "):
        f.kind = "fn"
        p = P(h, 3)
        f.path = p.path()
        p.need("(")
        ps = []
        while not p.eat(")"):
            p.ws()
            m = re.compile(r"_(\d+): ").match(p.s, p.i)
            p.i = m.end()
            ps.append(p.ty())
            p.eat(",")
        f.params = tuple(ps)
        p.need("->")
        f.ret = p.ty()
    elif h.startswith("promoted["):
        # 1.52: promoted[0] in PATH: TYPE =
        m = re.match(r"promoted\[(\d+)\] in (.*)$", h)
        f.kind = "const"
        p = P(m.group(2))
        path = p.path()
        p.need(":")
        f.ret = p.ty()
        f.path = path + (("promoted[%s]" % m.group(1), None),)
    else:
        f.kind = "const"
        p = P(h, h.index(" ") + 1)
        if p.at("mut "):
            p.i += 4
        f.path = p.path()
        p.need(":")
        f.ret = p.ty()
        if f.text is None:
            p.need("=")
            rest = h[p.i:].strip().rstrip(";")
            f.text = ["    let mut _0: x;", "    bb0: {", "        _0 = %s;" % rest, "        return;", "    }"]
    f.name = f.path[-1][0]


SPAN = re.compile(r"// (?:scope \d+ )?at ([^ ]*:\d+:\d+: \d+:\d+)")


def parse_body(f):
    b = Body()
    b.locals = {0: f.ret}
    for i, t in enumerate(f.params):
        b.locals[i + 1] = t
    b.blocks = {}
    b.spans = {}
    b.cleanup = set()
    b.loops = None
    cur = None
    acc = ""
    for ln in f.text:
        raw = ln
        k = ln.find(" // ")
        sp = None
        if k >= 0 and '"' not in ln[:k]:
            m = SPAN.search(ln, k)
            if m:
                sp = m.group(1)
            ln = ln[:k]
        elif k >= 0:
            # a string literal may contain //
            mm = None
            for mm in re.finditer(r"; +// ", ln):
                pass
            k = mm.start() if mm else -1
            if k >= 0:
                m = SPAN.search(ln, k)
                if m:
                    sp = m.group(1)
                ln = ln[:k + 1]
        ln = ln.strip()
        if not ln or ln.startswith("//"):
            continue
        if cur is None:
            if ln.startswith("let "):
                m = re.match(r"let (?:mut )?_(\d+): (.*);$", ln)
                if m:
                    b.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r"bb(\d+)(?: \(cleanup\))?: \{$", ln)
            if m:
                cur = int(m.group(1))
                b.blocks[cur] = ([], None)
                if "(cleanup)" in ln:
                    b.cleanup.add(cur)
                b.spans[cur] = []
            continue
        if ln == "}" and not acc:
            cur = None
            continue
        acc = (acc + " " + ln) if acc else ln
        if not acc.endswith(";"):
            continue
        st = acc
        acc = ""
        x = parse_stmt(st)
        if x is None:
            continue
        b.spans[cur].append(sp)
        if x[0] == "T":
            b.blocks[cur] = (b.blocks[cur][0], x[1])
        else:
            b.blocks[cur][0].append(x)
    for k, t in b.locals.items():
        if isinstance(t, str):
            b.locals[k] = ("lazy", t)
    # a diverging call prints only its cleanup block
    for k, (ss, t) in b.blocks.items():
        if k not in b.cleanup and t and t[0] == "call" and t[4] in b.cleanup and t[5] is None:
            b.blocks[k] = (ss, t[:4] + (None, t[4]))
    return b


def local_ty(b, n):
    t = b.locals.get(n)
    if t is None:
        return ("opaque", "?")
    if t[0] == "lazy":
        try:
            t = parse_ty(t[1])
        except (ParseError, ValueError, AttributeError):
            t = ("opaque", t[1])
        b.locals[n] = t
    return t


def parse_targets(t):
    """'[return: bb1, unwind: bb2]' / 'bb1' / 'unwind continue' -> (ret, unwind)"""
    t = t.strip()
    if t.startswith("["):
        ret = un = None
        for x in t.strip("[]").split(", "):
            x = x.strip()
            m = re.match(r"(return|success|unwind|otherwise): bb(\d+)", x)
            if m:
                if m.group(1) == "unwind":
                    un = int(m.group(2))
                else:
                    ret = int(m.group(2))
            elif x.startswith("unwind terminate"):
                un = "abort"
            elif x.startswith("unwind unreachable"):
                un = "abort"
            elif x.startswith("unwind continue"):
                un = None
        return ret, un
    m = re.match(r"bb(\d+)$", t)
    if m:
        return int(m.group(1)), None
    if t.startswith("unwind: bb"):
        return None, int(t[10:])
    if t.startswith("unwind continue"):
        return None, None
    if t.startswith("unwind terminate") or t.startswith("unwind unreachable"):
        return None, "abort"
    raise ParseError("targets " + t)


SKIP = ("StorageLive(", "nop", "FakeRead", "Retag", "PlaceMention", "AscribeUserType", "Coverage", "ConstEvalCounter", "BackwardIncompatible")


def parse_stmt(s):
    s = s[:-1].strip()
    if s.startswith(SKIP):
        return None
    try:
        return _parse_stmt(s)
    except (ParseError, AttributeError, ValueError, IndexError) as e:
        return ("T", ("bad", s)) if is_term(s) else ("bad", s, str(e))


def is_term(s):
    return " -> " in s or s in ("return", "resume", "unreachable", "abort")


def _parse_stmt(s):
    if s.startswith("StorageDead("):
        return ("dead", int(s[13:-1]))
    if s == "return":
        return ("T", ("return",))
    if s in ("resume", "unwind resume"):
        return ("T", ("resume",))
    if s.startswith("terminate(") or s == "abort":
        return ("T", ("abort",))
    if s == "unreachable":
        return ("T", ("unreachable",))
    if s.startswith("goto -> bb"):
        return ("T", ("goto", int(s[10:])))
    if s.startswith("switchInt("):
        k = s.rindex(") -> [")
        p = P(s[10:k])
        op = p.operand()
        arms = []
        oth = None
        for x in s[k + 6:-1].split(", "):
            a, bb = x.rsplit(": bb", 1)
            if a == "otherwise":
                oth = int(bb)
            else:
                a = a.strip()
                if a in ("true", "false"):
                    a = 1 if a == "true" else 0
                else:
                    a = int(re.match(r"-?\d+", a).group())
                arms.append((a, int(bb)))
        return ("T", ("switch", op, tuple(arms), oth))
    if s.startswith("drop("):
        p = P(s, 5)
        l, pr = p.place()
        p.need(")")
        p.need("->")
        ret, un = parse_targets(s[p.i:])
        return ("T", ("drop", l, tuple(pr), ret, un))
    if s.startswith("assert("):
        k = s.rindex(") -> ")
        p = P(s[7:k])
        neg = p.eat("!")
        op = p.operand()
        msg = p.s[p.i:].strip(" ,")
        ret, un = parse_targets(s[k + 5:])
        return ("T", ("assert", op, not neg, msg, ret, un))
    if s.startswith("discriminant("):
        p = P(s, 13)
        l, pr = p.place()
        p.need(")")
        p.need("=")
        return ("setdiscr", l, tuple(pr), int(s[p.i:].strip()))
    if s.startswith("assume("):
        return ("assume", P(s[7:-1]).operand())
    if s.startswith("copy_nonoverlapping("):
        raise ParseError("intrinsic")
    # an assignment or a call
    m = re.search(r"\) -> (\[return: .*\]|\[.*\]|bb\d+|unwind .*)$", s)
    dest = None
    p = P(s)
    if s[0] in "_(":
        try:
            l, pr = p.place()
            if p.eat("="):
                dest = (l, tuple(pr))
            else:
                p = P(s)
        except ParseError:
            p = P(s)
    if m and last_arrow_is_targets(s, m):
        p.ws()
        body = s[p.i:m.start() + 1]
        q = P(body)
        f = call_target(q)
        q.need("(")
        args = []
        while not q.eat(")"):
            args.append(q.operand())
            q.eat(",")
        ret, un = parse_targets(m.group(1))
        if dest is None and ret is not None and un is None:
            ret, un = None, ret
        return ("T", ("call", f, tuple(args), dest, ret, un))
    if dest is None:
        # 1.52: a diverging call without cleanup
        q = P(s)
        f = call_target(q)
        q.need("(")
        args = []
        while not q.eat(")"):
            args.append(q.operand())
            q.eat(",")
        return ("T", ("call", f, tuple(args), None, None, None))
    p.ws()
    q = P(s[p.i:])
    rv = q.rvalue()
    if not q.end():
        # 1.52 prints a diverging call with a destination of type ! as well
        raise ParseError("rest %r of %r" % (q.s[q.i:], s))
    return ("assign", dest[0], dest[1], rv)


def last_arrow_is_targets(s, m):
    return True


def call_target(q):
    q.ws()
    if q.at("move ") or q.at("copy ") or q.at("no_retag "):
        return ("op", q.operand())
    if q.at("_") and re.compile(r"_\d").match(q.s, q.i):
        return ("op", q.operand())
    if q.at("const "):
        q.i += 6
    return ("path", q.path())
