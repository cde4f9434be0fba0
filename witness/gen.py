#!/usr/bin/env python3
"""Generates the systematic part of the Send/Sync and unsafe-contract witnesses
(committed output: send_sync.rs, unsafe_fns.rs)."""
import os
d = os.path.dirname(os.path.abspath(__file__))
o = []
PRE = """use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
"""
# (name, lanes, type, generics -> for each param: (decl, bounds needed)) ; every param is needed for both Send and Sync
def block(name, lanes, what, generics, ty, needs, extra_where=""):
    """generics: list of (name, base bound); needs: names that must be Send (Sync) for ty to be Send (Sync)"""
    for tr, fn in (("Send", "send"), ("Sync", "sync")):
        def decl(skip):
            r = []
            for g, b in generics:
                if g.startswith("'"):
                    r.append(g); continue
                bs = [x for x in (b,) if x]
                if g in needs and g != skip:
                    bs.append(tr)
                r.append(g + (": " + " + ".join(bs) if bs else ""))
            return ", ".join(r)
        o.append("//# name: %s.%s   prop: C16   lanes: %s" % (name, tr, lanes))
        o.append("//? %s is %s when everything it holds is" % (what, tr))
        o.append(PRE + "pub fn f<%s>() %s { %s::<%s>() }" % (decl(None), extra_where, fn, ty))
        for n in needs:
            o.append("//# name: %s.%s-not-%s   prop: C16   lanes: %s   expect: E0277" % (name, n, tr, lanes))
            o.append("//? %s must not be %s when %s is not" % (what, tr, n))
            o.append(PRE)
            o.append("//+ ok")
            o.append("pub fn f<%s>() %s { %s::<%s>() }" % (decl(None), extra_where, fn, ty))
            o.append("//- bad")
            o.append("pub fn f<%s>() %s { %s::<%s>() }" % (decl(n), extra_where, fn, ty))
            o.append("//= end")
TS = [("T", None), ("S", "Storage<T>")]
L = ("'a", None)
block("vec", "all", "GenericVec", TS, "GenericVec<T, S>", ["T", "S"])
block("vec-unsized", "all", "GenericVec over an unsized storage", [("T", None), ("S", "?Sized + Storage<T>")], "GenericVec<T, S>", ["T", "S"])
block("slicevec", "all", "SliceVec", [L, ("T", "'a")], "SliceVec<'a, T>", ["T"])
block("initslicevec", "all", "InitSliceVec", [L, ("T", "'a + Copy")], "InitSliceVec<'a, T>", ["T"])
block("typevec", "all", "TypeVec", [("T", None), ("B", None), ("A", None)], "TypeVec<T, B, A>", ["T"])
block("zsvec", "all", "ZSVec", [("T", None)], "ZSVec<T>", ["T"])
block("heapvec", "stable", "HeapVec", [("T", None)], "HeapVec<T>", ["T"])
block("heapvec-alloc", "nightly", "HeapVec with an allocator", [("T", None), ("A", "std::alloc::Allocator")], "HeapVec<T, A>", ["T", "A"])
block("heap-alloc", "nightly", "Heap with an allocator", [("T", None), ("A", "std::alloc::Allocator")], "Heap<T, A>", ["A"])
block("arrayvec", "nightly", "ArrayVec", [("T", None)], "ArrayVec<T, 4>", ["T"])
block("initarrayvec", "nightly", "InitArrayVec", [("T", "Copy")], "InitArrayVec<T, 4>", ["T"])
for n in ("RawCursor", "Cursor", "Drain"):
    block(n.lower(), "all", n, [L, ("T", "'a"), ("S", "'a + Storage<T>")], n + "<'a, T, S>", ["T", "S"])
block("drainfilter", "all", "DrainFilter", [L, ("T", "'a"), ("S", "'a + Storage<T>"), ("F", "FnMut(&mut T) -> bool")], "DrainFilter<'a, T, S, F>", ["T", "S", "F"])
block("splice", "all", "Splice", [L, ("T", "'a"), ("S", "'a + Storage<T>"), ("I", "Iterator<Item = T>")], "Splice<'a, T, S, I>", ["T", "S", "I"])
block("intoiter", "all", "IntoIter", TS, "IntoIter<T, S>", ["T", "S"])
block("uninitslice", "all", "UninitSlice", [("T", None)], "UninitSlice<T>", [])
block("uninitbuffer", "all", "UninitBuffer", [("T", None), ("A", None)], "UninitBuffer<T, A>", [])
block("heap", "stable", "Heap", [("T", None)], "Heap<T>", [])
# concrete instances with a type that is Send but not Sync and the converse
CONC = [("cell", "core::cell::Cell<u8>", True, False)]
for nm, ty, s, y in CONC:
    for vt, lanes in (("SliceVec<'static, %s>", "all"), ("ZSVec<%s>", "all"), ("TypeVec<%s, [u8; 4]>", "all"), ("HeapVec<%s>", "stable"),
                      ("RawCursor<'static, %s, UninitBuffer<[u8; 4]>>", "all"), ("IntoIter<%s, UninitBuffer<[u8; 4]>>", "all")):
        v = vt % ty
        o.append("//# name: conc.%s.%s   prop: C16   lanes: %s   expect: E0277" % (nm, vt.split("<")[0], lanes))
        o.append("//? %s is Send but not Sync" % v)
        o.append(PRE)
        o.append("//+ ok\npub fn f() { send::<%s>() }\n//- bad\npub fn f() { sync::<%s>() }\n//= end" % (v, v))
open(os.path.join(d, "send_sync.rs"), "w").write("\n".join(o) + "\n")

# unsafe functions
o = []
def uf(name, lanes, sig, call):
    o.append("//# name: unsafe.%s   prop: C17   lanes: %s   expect: E0133" % (name, lanes))
    o.append("//? calling %s outside an unsafe block" % name)
    o.append("use generic_vec::{*, raw::*, iter::*};")
    o.append("//+ ok\npub fn f%s { unsafe { let _ = %s; } }\n//- bad\npub fn f%s { let _ = %s; }\n//= end" % (sig, call, sig, call))
V = "<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T)"
for m, c in (("set_len_unchecked", "v.set_len_unchecked(1)"), ("storage_mut", "v.storage_mut()"),
             ("push_unchecked", "v.push_unchecked(x)"), ("insert_unchecked", "v.insert_unchecked(0, x)"),
             ("pop_unchecked", "v.pop_unchecked()"), ("remove_unchecked", "v.remove_unchecked(0)"),
             ("swap_remove_unchecked", "v.swap_remove_unchecked(0)")):
    uf(m, "all", V, c)
uf("extend_from_slice_unchecked", "all", "<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: &[T])", "v.extend_from_slice_unchecked(x)")
for m, c in (("push_array_unchecked", "v.push_array_unchecked(x)"), ("insert_array_unchecked", "v.insert_array_unchecked(0, x)")):
    uf(m, "nightly", "<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: [T; 2])", c)
for m, c in (("pop_array_unchecked", "v.pop_array_unchecked::<2>()"), ("remove_array_unchecked", "v.remove_array_unchecked::<2>(0)")):
    uf(m, "nightly", "<T, S: Storage<T>>(v: &mut GenericVec<T, S>)", c)
uf("from_raw_parts", "all", "<T, S: Storage<T>>(s: S)", "GenericVec::<T, S>::from_raw_parts(1, s)")
uf("uninit_slice_to_mut", "all", "<T>(s: &mut UninitSlice<T>)", "s.to_mut()")
uf("heap_from_raw_parts", "std", "<T>(p: core::ptr::NonNull<T>)", "Heap::from_raw_parts(p, 1)")
uf("heap_from_raw_parts_in", "nightly", "<T, A: std::alloc::Allocator>(p: core::ptr::NonNull<T>, a: A)", "Heap::from_raw_parts_in(p, 1, a)")
uf("save_spare", "all", "<T, S: Storage<T>>(v: &mut GenericVec<T, S>, s: SliceVec<'_, T>)", "save_spare!(s, v)")
R = "<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T)"
for m in ("front", "front_mut", "back", "back_mut", "take_front", "take_back", "drop_front", "drop_back", "skip_front", "skip_back"):
    uf("raw_cursor." + m, "all", R, "c.%s()" % m)
for m in ("drop_n_front", "drop_n_back", "skip_n_front", "skip_n_back"):
    uf("raw_cursor." + m, "all", R, "c.%s(1)" % m)
for m in ("write_front", "write_back"):
    uf("raw_cursor." + m, "all", R, "c.%s(x)" % m)
for m in ("write_slice_front", "write_slice_back"):
    uf("raw_cursor." + m, "all", "<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: &[T])", "c.%s(x)" % m)
open(os.path.join(d, "unsafe_fns.rs"), "w").write("\n".join(o) + "\n")
