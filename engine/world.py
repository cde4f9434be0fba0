"""Name resolution over textual MIR: which body does a path in a call denote,
under which substitution of the generic parameters."""
import os

from . import build, rustsrc
from .mirparse import P, ParseError, PRIMS, parse_ty, path_type, split_file, trait_term


class Unresolved(Exception):
    pass


ENUMS = {
    "std::Option": ["None", "Some"],
    "std::Result": ["Ok", "Err"],
    "std::Bound": ["Included", "Excluded", "Unbounded"],
    "std::ControlFlow": ["Continue", "Break"],
    "std::Ordering": ["Less", "Equal", "Greater"],
    "std::Infallible": [],
    "std::Cow": ["Borrowed", "Owned"],
}
DISCR = {"std::Ordering": {"Less": -1, "Equal": 0, "Greater": 1}}
STD_DEFAULT_ARGS = {}
# iterator adaptors with a model in scen/stdmodel.rs
ADAPTORS = {"std::" + n: n + "M" for n in ("Zip", "Map", "Filter", "Enumerate", "Rev", "Take", "Skip", "TakeWhile", "Chain", "RepeatWith",
                                         "Fuse", "Peekable", "StepBy", "SkipWhile", "Inspect", "MapWhile", "FilterMap", "Scan", "Once", "FromFn")}


class ImplInst:
    __slots__ = ("gens", "trait", "targs", "self_ty", "methods", "consts", "types", "fn_gens", "bounds", "key", "crate", "order")

    def __repr__(self):
        return "<impl %s for %s at %s>" % (self.trait, self.self_ty, self.key)


def head(t):
    k = t[0]
    if k == "p":
        return t[1]
    return k


class CrateInfo:
    pass


class World:
    def __init__(self):
        self.structs = {}      # local type name -> field names
        self.struct_types = {}
        self.enums = dict(ENUMS)
        self.alias = {}
        self.defaults = {}
        self.trait_gens = {}
        self.trait_fn_gens = {}
        self.traits = set()
        self.trait_impls = {}
        self.inherent = {}
        self.free = {}
        self.closures = {}
        self.trait_default = {}
        self.fn_gens = {}
        self.models = {}
        self.model_gens = {}
        self.ncache = {}
        self.rcache = {}
        self.item_of = {}
        self.envs = {}
        self.all_fns = []
        self.promoted = {}
        self.local_types = set()

    # ---- loading
    def load(self, name, text, root, lib, feats):
        src = rustsrc.scan_crate(root, lib, feats)
        fns = split_file(text, name)
        self.all_fns += fns
        for k, v in src.structs.items():
            self.structs[k] = v
            self.local_types.add(k)
        self.struct_types.update(src.struct_types)
        for k, v in src.enums.items():
            self.enums[k] = v
            self.local_types.add(k)
        self.alias.update(src.alias)
        for k, v in src.struct_defaults.items():
            self.defaults[k] = v
        self.trait_gens.update(src.trait_gens)
        self.trait_fn_gens.update(src.trait_fn_gens)
        self.traits |= set(src.trait_gens)
        for n, l in src.fn_gens.items():
            self.fn_gens.setdefault(n, []).extend((name,) + x for x in l)
        prefix = self.src_prefix(fns, src)
        groups = {}
        for f in fns:
            self.index(f, src, groups, prefix)
        for g in groups.values():
            self.add_impl(g)
        return src

    def src_prefix(self, fns, src):
        """MIR spans may carry a directory prefix; find it."""
        for f in fns:
            for n, a in f.path:
                if n == "<impl>":
                    fn = a[0]
                    if fn in src.files:
                        return ""
                    for s in src.files:
                        if fn.endswith("/" + s):
                            return fn[:-len(s)]
        return ""

    def index(self, f, src, groups, prefix):
        path = f.path
        names = [n for n, _ in path]
        if any(n.startswith("promoted[") for n in names):
            self.promoted[(f.crate, self.pkey(path))] = f
            f.src = src
            return
        if names[-1].startswith("{closure#") and f.kind == "fn":
            t = f.params[0]
            while t[0] == "ref":
                t = t[2]
            if t[0] == "clos":
                self.closures[(f.crate, t[1])] = f
            f.src = src
            return
        # method of an impl: <impl> is the last but one segment
        if len(path) >= 2 and path[-2][0] == "<impl>":
            key = path[-2][1]
            if prefix:
                key = (key[0][len(prefix):],) + key[1:]
            im = src.impls.get(key)
            if im is None:
                f.src = None
                return
            g = self.group_of(f, im, key, groups)
            if g is None:
                return
            if f.kind == "fn":
                # const fns appear twice; the first is the run-time body
                if f.name not in g["methods"]:
                    g["methods"][f.name] = f
                else:
                    prev = g["methods"][f.name]
                    if is_ctfe(prev) and not is_ctfe(f):
                        g["methods"][f.name] = f
            else:
                if f.name.startswith("{constant"):
                    return
                g["consts"][f.name] = f
            return
        # trait default method or const
        if len(path) >= 2 and path[-2][0] in self.traits:
            self.trait_default[(path[-2][0], f.name)] = f
            return
        lst = self.free.setdefault(f.name, [])
        for o in lst:
            if o.path == f.path and o.kind == f.kind:
                return
        lst.append(f)

    def group_of(self, f, im, key, groups):
        """one group per impl; macro expansions share a span and are told apart by the array length."""
        n = None
        if im.self_ty and im.self_ty[0] == "arr" and im.self_ty[2][0] == "p" and im.self_ty[2][1] not in [g[1] for g in im.gens]:
            n = find_arr(f)
            if n is None:
                # consts precede or follow their fns; use the running value
                n = ("next", key)
                pend = groups.setdefault(n, dict(im=im, key=key, methods={}, consts={}, n=None))
                return pend
            k = (key, n)
            g = groups.get(k)
            if g is None:
                g = groups[k] = dict(im=im, key=key, methods={}, consts={}, n=n)
            p = groups.pop(("next", key), None)
            if p:
                g["consts"].update(p["consts"])
                g["methods"].update(p["methods"])
            return g
        g = groups.get(key)
        if g is None:
            g = groups[key] = dict(im=im, key=key, methods={}, consts={}, n=None)
        return g

    def add_impl(self, g):
        im = g["im"]
        i = ImplInst()
        i.key = im.file, im.line
        i.gens = [x[1] for x in im.gens]
        st = im.self_ty
        if g["n"] is not None:
            st = ("arr", st[1], ("const", g["n"]))
        params = set(i.gens)
        i.self_ty = self.expand(st, params)
        i.trait = im.trait[0] if im.trait else None
        i.targs = tuple(self.expand(a, params) for a in im.trait[1]) if im.trait else ()
        # trait parameter defaults: PartialEq<Rhs = Self>
        if i.trait in ("PartialEq", "PartialOrd") and not i.targs:
            i.targs = (i.self_ty,)
        i.methods = g["methods"]
        i.consts = g["consts"]
        i.types = {k: self.expand(v, params) for k, v in im.types.items()}
        i.fn_gens = im.fn_gens
        i.bounds = im.bounds
        for f in list(i.methods.values()) + list(i.consts.values()):
            f.impl = i
        if i.trait:
            self.trait_impls.setdefault(i.trait, []).append(i)
        else:
            self.inherent.setdefault(head(i.self_ty), []).append(i)

    def add_empty_impls(self, src):
        """impls without any body (for associated types and marker traits)."""
        have = set()
        for l in list(self.trait_impls.values()) + list(self.inherent.values()):
            for i in l:
                have.add(i.key)
        for key, im in src.impls.items():
            if (im.file, im.line) not in have and im.trait:
                self.add_impl(dict(im=im, key=key, methods={}, consts={}, n=None))

    def load_models(self, fns_text, root, lib):
        src = rustsrc.scan_crate(root, lib, [])
        fns = split_file(fns_text, "stdmodel")
        self.all_fns += fns
        gens = {n: l[0][1] for n, l in src.fn_gens.items()}
        groups = {}
        for k, v in src.structs.items():
            self.structs[k] = v
            self.local_types.add(k)
        for f in fns:
            names = [n for n, _ in f.path]
            if names[-1].startswith("{closure#") or any(n == "<impl>" or n.startswith("promoted[") for n in names):
                self.index(f, src, groups, self.src_prefix(fns, src))
                continue
            self.models[f.name] = f
            self.model_gens[f.name] = [g[1] for g in gens.get(f.name, [])]
        for g in groups.values():
            self.add_impl(g)

    def pkey(self, path):
        return tuple(n if n != "<impl>" else a for n, a in path)

    # ---- types
    def expand(self, t, params=()):
        """aliases, defaults and std prefixes; parameters stay ("p", name, ())."""
        k = t[0]
        if k == "p":
            n, a = t[1], t[2]
            if not a and n in params:
                return t
            if n in ("Self",):
                return t
            a = tuple(self.expand(x, params) if x[0] != "bind" else ("bind", x[1], self.expand(x[2], params)) for x in a)
            if n in PRIMS:
                return ("p", n, ())
            if n.startswith("std::"):
                if n in ADAPTORS and ADAPTORS[n] in self.local_types:
                    return ("p", ADAPTORS[n], a)
                # a std name that is re-exported
                if n in ("std::vec::IntoIter",):
                    return ("p", n, a)
                return ("p", n, a)
            if n in self.alias:
                gs, txt = self.alias[n]
                body = parse_ty(txt, ())
                env = {}
                for q, (g, d) in enumerate(gs):
                    if q < len(a):
                        env[g] = a[q]
                    elif d is not None:
                        env[g] = ("dflt", d)
                for g in list(env):
                    if env[g][0] == "dflt":
                        env[g] = subst(self.expand(parse_ty(env[g][1]), [x[0] for x in gs]), env)
                return subst(self.expand(body, [x[0] for x in gs]), env)
            if n in self.local_types:
                d = self.defaults.get(n)
                if d and len(a) < len(d):
                    a = list(a)
                    for q in range(len(a), len(d)):
                        if d[q][1] is None:
                            break
                        a.append(self.expand(parse_ty(d[q][1])))
                    a = tuple(a)
                return ("p", n, a)
            n = "std::" + n
            return ("p", ADAPTORS[n] if n in ADAPTORS and ADAPTORS[n] in self.local_types else n, a)
        if k in ("ref", "ptr"):
            return (k, t[1], self.expand(t[2], params))
        if k == "sl":
            return (k, self.expand(t[1], params))
        if k == "arr":
            return (k, self.expand(t[1], params), self.expand(t[2], params) if t[2][0] == "p" else t[2])
        if k == "tup":
            return (k, tuple(self.expand(x, params) for x in t[1]))
        if k == "proj":
            tr = t[2]
            if tr is not None:
                tr = (tr[0], tuple(self.expand(x, params) for x in tr[1]))
            return (k, self.expand(t[1], params), tr, t[3])
        return t

    def norm(self, t, env):
        """type t of a body, under env (Env)."""
        c = env.cache
        r = c.get(t)
        if r is None:
            r = c[t] = self.resolve_projs(subst(self.expand(t, env.names), env.map), env)
        return r

    def field_types(self, t):
        """[(name, type)] of the fields of a local struct type, or None."""
        r = self.struct_types.get(t[1])
        if r is None:
            return None
        gens, fl, _ = r
        m = dict(zip([g for g in gens if not g.startswith("'")], t[2]))
        env = self.env(m)
        return [(n, self.norm(parse_ty(x.replace("core::", "std::")), env)) for n, x in fl]

    def resolve_projs(self, t, env):
        k = t[0]
        if k == "p":
            if not t[2]:
                return t
            return (k, t[1], tuple(self.resolve_projs(x, env) if x[0] != "bind" else x for x in t[2]))
        if k in ("ref", "ptr"):
            return (k, t[1], self.resolve_projs(t[2], env))
        if k == "sl":
            return (k, self.resolve_projs(t[1], env))
        if k == "arr":
            return (k, self.resolve_projs(t[1], env), t[2])
        if k == "tup":
            return (k, tuple(self.resolve_projs(x, env) for x in t[1]))
        if k == "proj":
            s = self.resolve_projs(t[1], env)
            tr = t[2]
            if tr is not None:
                tr = (tr[0], tuple(self.resolve_projs(x, env) for x in tr[1]))
            r = self.assoc_type(s, tr, t[3])
            return r if r is not None else ("proj", s, tr, t[3])
        return t

    def assoc_type(self, s, tr, name):
        if s[0] == "abs" and name in ASSOC:
            return ASSOC[name](self, s)
        if name == "IntoIter" and (s[0] == "p" and s[1].startswith("std::")):
            if s[1] in ("std::Vec",):
                return ("p", "std::vec::IntoIter", s[2])
            return s
        if name == "Item" and s[0] == "p":
            if s[1] in ("std::slice::Iter",):
                return ("ref", False, s[2][-1])
            if s[1] in ("std::slice::IterMut",):
                return ("ref", True, s[2][-1])
            if s[1] in ("std::vec::IntoIter", "std::Range", "std::RangeInclusive", "std::RangeFrom"):
                return s[2][0]
            if s[1] == "std::Cloned":
                t = self.assoc_type(s[2][0], tr, name)
                return t[2] if t and t[0] == "ref" else None
        if name == "Item" and s[0] == "ref":
            return self.assoc_type(s[2], tr, name)
        if name == "IntoIter" and s[0] in ("ref",) and s[2][0] in ("sl", "arr"):
            return ("p", "std::slice::Iter" if not s[1] else "std::slice::IterMut", (s[2][1],))
        if name == "Output" and tr and tr[0] in ("SliceIndex",):
            if s[0] == "p" and s[1] == "usize":
                return tr[1][0][1] if tr[1] and tr[1][0][0] == "sl" else None
            return tr[1][0] if tr[1] else None
        if name == "Target" and s[0] in ("ref",):
            return s[2]
        if name == "Target" and s[0] == "p" and s[1] in ("std::ManuallyDrop", "std::Box"):
            return s[2][0]
        if name == "Target" and s[0] == "p" and s[1] == "std::Vec":
            return ("sl", s[2][0])
        if name == "Metadata":
            return None
        for trait, impls in self.trait_impls.items():
            if tr is not None and trait != tr[0]:
                continue
            for i in impls:
                if name in i.types:
                    b = {}
                    if unify(i.self_ty, s, b, i.gens):
                        return self.resolve_projs(subst(i.types[name], b), None)
        if name == "IntoIter":
            return s
        return None

    # ---- bounds
    def has_copy(self, t):
        k = t[0]
        if k == "abs":
            return self.copy_abs(t)
        if k in ("ref",):
            return not t[1]
        if k in ("ptr", "fndef", "fnptr", "never"):
            return True
        if k == "p":
            return t[1] in PRIMS
        if k == "arr":
            return self.has_copy(t[1])
        if k == "tup":
            return all(self.has_copy(x) for x in t[1])
        return False

    def copy_abs(self, t):
        return bool(self.mode_copy) and t[1] in ("T", "U", "Y")

    mode_copy = False

    def bounds_ok(self, i, b):
        """does the substitution satisfy the Copy bounds of the impl?"""
        for n, bs in i.bounds:
            if "Copy" in bs.replace("+", " ").split():
                t = b.get(n)
                if t is not None and not self.has_copy(t):
                    return False
        return True

    # ---- functions
    def find_impl(self, trait, targs, self_ty, name, want_const=False):
        """the impl that provides an item of a trait: (impl, binds) or None."""
        cands = []
        for i in self.trait_impls.get(trait, ()):
            b = {}
            if not unify(i.self_ty, self_ty, b, i.gens):
                continue
            if targs and i.targs:
                ok = True
                for x, y in zip(i.targs, targs):
                    if not unify(x, y, b, i.gens):
                        ok = False
                        break
                if not ok:
                    continue
            if not self.bounds_ok(i, b):
                continue
            cands.append((i, b))
        if not cands:
            return None
        # specialised impls first: more Copy bounds
        cands.sort(key=lambda c: -sum("Copy" in bs for _, bs in c[0].bounds))
        for i, b in cands:
            if name in (i.consts if want_const else i.methods):
                return i, b
        return ("default", cands[0][0], cands[0][1])

    def env(self, m):
        key = tuple(sorted(m.items(), key=lambda kv: kv[0]))
        e = self.envs.get(key)
        if e is None:
            e = Env(m, len(self.envs))
            self.envs[key] = e
        return e

    def bind_fn(self, names, margs, m):
        """binds method generics in order."""
        m = dict(m)
        margs = [a for a in (margs or ()) if a[0] != "bind"]
        for g, a in zip(names, margs):
            m[g] = a
        return m

    def trait_method(self, trait, targs, self_ty, name, margs):
        """(Fn, env) or None if there is no body for it."""
        r = self.find_impl(trait, targs, self_ty, name)
        if r is None:
            f = None
            if (trait, name) in self.trait_default and self_ty[0] != "abs":
                f = self.trait_default[(trait, name)]
                m = {"Self": self_ty}
                m = self.bind_fn([g[1] for g in self.trait_gens.get(trait, [])], targs, m)
                m = self.bind_fn([g[1] for g in self.trait_fn_gens.get((trait, name), [])], margs, m)
                return f, self.env(m)
            return None
        if r[0] == "default":
            _, i, b = r
            f = self.trait_default.get((trait, name))
            if f is None:
                return None
            m = {"Self": self_ty}
            m = self.bind_fn([g[1] for g in self.trait_gens.get(trait, [])], targs, m)
            m = self.bind_fn([g[1] for g in self.trait_fn_gens.get((trait, name), [])], margs, m)
            return f, self.env(m)
        i, b = r
        f = i.methods[name]
        m = self.bind_fn([g[1] for g in i.fn_gens.get(name, [])], margs, b)
        m["Self"] = self_ty
        return f, self.env(m)

    def inherent_method(self, self_ty, name, margs, const=False):
        for i in self.inherent.get(head(self_ty), ()):
            t = i.consts if const else i.methods
            if name not in t:
                continue
            b = {}
            if not unify(i.self_ty, self_ty, b, i.gens):
                continue
            if not self.bounds_ok(i, b):
                continue
            if const:
                m = dict(b)
            else:
                m = self.bind_fn([g[1] for g in i.fn_gens.get(name, [])], margs, b)
            m["Self"] = self_ty
            return t[name], self.env(m)
        return None

    def free_fn(self, path, env, crate):
        name, margs = path[-1]
        l = self.free.get(name)
        if not l:
            return None
        names = [n for n, _ in path]
        best, bs = None, -1
        for f in l:
            fn = [n for n, _ in f.path]
            sc = 0
            for x, y in zip(reversed(fn[:-1]), reversed(names[:-1])):
                if x == y:
                    sc += 1
                elif x == "<impl>":
                    continue
                else:
                    break
            if f.crate == crate:
                sc += 0.5
            if sc > bs:
                best, bs = f, sc
        f = best
        gens = []
        for cr, chain, gs, fname in self.fn_gens.get(name, []):
            if cr == f.crate:
                fnames = [n for n, _ in f.path if n != "<impl>"]
                if chain and fnames[:-1] and chain[-1] != fnames[-2] and len(self.fn_gens[name]) > 1:
                    continue
                gens = [g[1] for g in gs]
                break
        margs = tuple(self.norm(a, env) for a in (margs or ()) if a[0] != "bind")
        m = {}
        # a nested fn may mention the generics of nothing but itself
        m = self.bind_fn(gens, margs, m)
        return f, self.env(m)


ASSOC = {
    "IntoIter": lambda w, s: s,
    "Item": lambda w, s: w.item_of.get(s[1], ("abs", "T")),
    "Output": lambda w, s: ("abs", "Out_" + s[1]),
}


class Env:
    __slots__ = ("map", "names", "cache", "id")

    def __init__(self, m, n):
        self.map = m
        self.names = frozenset(m)
        self.cache = {}
        self.id = n

    def __repr__(self):
        return "Env%s" % self.map


def is_ctfe(f):
    return False


def find_arr(f):
    for t in tuple(f.params) + (f.ret,):
        while t and t[0] in ("ref", "ptr"):
            t = t[2]
        if t and t[0] == "arr" and t[2][0] == "const":
            return t[2][1]
    return None


def subst(t, env):
    k = t[0]
    if k == "p":
        if not t[2]:
            r = env.get(t[1])
            return r if r is not None else t
        return (k, t[1], tuple(subst(x, env) if x[0] != "bind" else ("bind", x[1], subst(x[2], env)) for x in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], subst(t[2], env))
    if k == "sl":
        return (k, subst(t[1], env))
    if k == "arr":
        return (k, subst(t[1], env), subst(t[2], env) if t[2][0] == "p" else t[2])
    if k == "tup":
        return (k, tuple(subst(x, env) for x in t[1]))
    if k == "proj":
        tr = t[2]
        if tr is not None:
            tr = (tr[0], tuple(subst(x, env) for x in tr[1]))
        return (k, subst(t[1], env), tr, t[3])
    return t


def unify(pat, t, b, gens):
    k = pat[0]
    if k == "p" and not pat[2] and pat[1] in gens:
        if pat[1] in b:
            return b[pat[1]] == t
        b[pat[1]] = t
        return True
    if k != t[0]:
        return False
    if k == "p":
        if pat[1] == t[1] == "std::Vec" and len(pat[2]) == len(t[2]) + 1:
            t = (t[0], t[1], t[2] + (("p", "std::Global", ()),))
        if pat[1] != t[1] or len(pat[2]) != len(t[2]):
            return False
        return all(unify(x, y, b, gens) for x, y in zip(pat[2], t[2]))
    if k in ("ref", "ptr"):
        return pat[1] == t[1] and unify(pat[2], t[2], b, gens)
    if k == "sl":
        return unify(pat[1], t[1], b, gens)
    if k == "arr":
        if not unify(pat[1], t[1], b, gens):
            return False
        if pat[2][0] == "p":
            return unify(pat[2], t[2], b, gens)
        return pat[2] == t[2]
    if k == "tup":
        return len(pat[1]) == len(t[1]) and all(unify(x, y, b, gens) for x, y in zip(pat[1], t[1]))
    return pat == t
