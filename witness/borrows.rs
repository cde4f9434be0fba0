//# name: cursor.outlives   prop: C17   lanes: all   expect: E0515,E0505,E0597,E0106
//? a cursor must not outlive the vector it was created from
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, T, S: Storage<T>>(v: &'a mut GenericVec<T, S>) -> Cursor<'a, T, S> { v.cursor(..) }
//- bad
pub fn f<'a, T: 'a, S: Storage<T> + 'a>(mut v: GenericVec<T, S>) -> Cursor<'a, T, S> { v.cursor(..) }
//= end
//# name: raw_cursor.outlives   prop: C17   lanes: all   expect: E0515,E0597
//? a raw cursor must not outlive the vector it was created from
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, T, S: Storage<T>>(v: &'a mut GenericVec<T, S>) -> RawCursor<'a, T, S> { v.raw_cursor(..) }
//- bad
pub fn f<'a, T: 'a, S: Storage<T> + 'a>(mut v: GenericVec<T, S>) -> RawCursor<'a, T, S> { v.raw_cursor(..) }
//= end
//# name: drain.outlives   prop: C17   lanes: all   expect: E0515,E0597
//? a drain must not outlive the vector it was created from
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, T, S: Storage<T>>(v: &'a mut GenericVec<T, S>) -> Drain<'a, T, S> { v.drain(..) }
//- bad
pub fn f<'a, T: 'a, S: Storage<T> + 'a>(mut v: GenericVec<T, S>) -> Drain<'a, T, S> { v.drain(..) }
//= end
//# name: drain_filter.outlives   prop: C17   lanes: all   expect: E0515,E0597
//? a drain_filter must not outlive the vector it was created from
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, T, S: Storage<T>>(v: &'a mut GenericVec<T, S>) -> DrainFilter<'a, T, S, fn(&mut T) -> bool> { v.drain_filter(.., |_| true) }
//- bad
pub fn f<'a, T: 'a, S: Storage<T> + 'a>(mut v: GenericVec<T, S>) -> DrainFilter<'a, T, S, fn(&mut T) -> bool> { v.drain_filter(.., |_| true) }
//= end
//# name: splice.outlives   prop: C17   lanes: all   expect: E0515,E0597
//? a splice must not outlive the vector it was created from
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, T, S: Storage<T>, I: Iterator<Item = T>>(v: &'a mut GenericVec<T, S>, i: I) -> Splice<'a, T, S, I> { v.splice(.., i) }
//- bad
pub fn f<'a, T: 'a, S: Storage<T> + 'a, I: Iterator<Item = T>>(mut v: GenericVec<T, S>, i: I) -> Splice<'a, T, S, I> { v.splice(.., i) }
//= end
//# name: cursor.exclusive   prop: C17   lanes: all   expect: E0499,E0502
//? the vector must not be usable while a cursor exists
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) {
    let mut c = v.cursor(..);
//+ ok
    c.skip_front(); drop(c); v.push(x);
//- bad
    v.push(x); c.skip_front();
//= end
}
//# name: cursor.shared   prop: C17   lanes: all   expect: E0502
//? the vector must not be readable while a cursor exists
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) -> usize {
    let mut c = v.cursor(..);
//+ ok
    drop(c); v.as_slice().len()
//- bad
    let n = v.as_slice().len(); drop(c); n
//= end
}
//# name: drain.exclusive   prop: C17   lanes: all   expect: E0499,E0502
//? the vector must not be usable while a drain exists
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) {
    let mut c = v.drain(..);
//+ ok
    c.next(); drop(c); v.push(x);
//- bad
    v.push(x); c.next();
//= end
}
//# name: drain_filter.exclusive   prop: C17   lanes: all   expect: E0499,E0502
//? the vector must not be usable while a drain_filter exists
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) {
    let mut c = v.drain_filter(.., |_| true);
//+ ok
    c.next(); drop(c); v.push(x);
//- bad
    v.push(x); c.next();
//= end
}
//# name: splice.exclusive   prop: C17   lanes: all   expect: E0499,E0502
//? the vector must not be usable while a splice exists
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>, I: Iterator<Item = T>>(v: &mut GenericVec<T, S>, i: I, x: T) {
    let mut c = v.splice(.., i);
//+ ok
    c.next(); drop(c); v.push(x);
//- bad
    v.push(x); c.next();
//= end
}
//# name: splice.iter-outlives   prop: C17   lanes: all   expect: E0597,E0505,E0499,E0502,E0506
//? what the replacement iterator borrows must stay borrowed until the splice is dropped
use generic_vec::{*, raw::*, iter::*};
pub fn f<S: Storage<u8>>(v: &mut GenericVec<u8, S>, src: &mut [u8; 4]) {
    let c = v.splice(.., src.iter().copied());
//+ ok
    drop(c); src[0] = 1;
//- bad
    src[0] = 1; drop(c);
//= end
}
//# name: cursor.front-ref   prop: C17   lanes: all   expect: E0502,E0499
//? a reference obtained from a cursor must not survive the removal of the element
use generic_vec::{*, raw::*, iter::*};
pub fn f<S: Storage<String_>>(c: &mut Cursor<'_, String_, S>) {
//+ ok
    c.front().unwrap().get(); c.drop_front();
//- bad
    let r = c.front().unwrap(); c.drop_front(); r.get();
//= end
}
pub struct String_; impl String_ { pub fn get(&self) {} } impl Drop for String_ { fn drop(&mut self) {} }
//# name: cursor.front-mut-ref   prop: C17   lanes: all   expect: E0499
//? a mutable reference obtained from a cursor is exclusive
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(c: &mut Cursor<'_, T, S>) {
//+ ok
    let a = c.front_mut(); drop(a); let b = c.back_mut(); drop(b);
//- bad
    let a = c.front_mut(); let b = c.back_mut(); drop(a); drop(b);
//= end
}
//# name: raw_cursor.front-mut-ref   prop: C17   lanes: all   expect: E0499
//? a mutable reference obtained from a raw cursor is exclusive
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>) { unsafe {
//+ ok
    let a = c.front_mut(); drop(a); let b = c.back_mut(); drop(b);
//- bad
    let a = c.front_mut(); let b = c.back_mut(); drop(a); drop(b);
//= end
} }
//# name: push-ref   prop: C17   lanes: all   expect: E0499
//? the reference returned by push must not survive another push
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T, y: T) {
//+ ok
    let a = v.push(x); drop(a); v.push(y);
//- bad
    let a = v.push(x); v.push(y); drop(a);
//= end
}
//# name: insert-ref   prop: C17   lanes: all   expect: E0499
//? the reference returned by insert must not survive another operation
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T, y: T) {
//+ ok
    let a = v.insert(0, x); drop(a); v.push(y);
//- bad
    let a = v.insert(0, x); v.push(y); drop(a);
//= end
}
//# name: try_push-ref   prop: C17   lanes: all   expect: E0499
//? the reference returned by try_push must not survive another operation
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T, y: T) {
//+ ok
    let a = v.try_push(x).ok(); drop(a); v.push(y);
//- bad
    let a = v.try_push(x).ok(); v.push(y); drop(a);
//= end
}
//# name: slice-ref   prop: C17   lanes: all   expect: E0502
//? a slice of the vector must not survive a modification
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) -> usize {
//+ ok
    let n = v.as_slice().len(); v.clear(); n
//- bad
    let s = v.as_slice(); v.clear(); s.len()
//= end
}
//# name: storage-ref   prop: C17   lanes: all   expect: E0502
//? the storage must not stay borrowed across a modification
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) -> usize {
//+ ok
    let n = v.storage().capacity(); v.clear(); n
//- bad
    let s = v.storage(); v.clear(); s.capacity()
//= end
}
//# name: spare-exclusive   prop: C17   lanes: all   expect: E0499,E0502
//? the vector must not be usable while its spare capacity is borrowed
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T, y: T) {
    let mut s = v.spare_capacity_mut();
//+ ok
    s.push(x); drop(s); v.push(y);
//- bad
    v.push(y); s.push(x);
//= end
}
//# name: spare-outlives   prop: C17   lanes: all   expect: E0515,E0597,E0309,lifetime
//? the spare capacity must not outlive the vector
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, T, S: Storage<T>>(v: &'a mut GenericVec<T, S>) -> SliceVec<'a, T> { v.spare_capacity_mut() }
//- bad
pub fn f<'a, T: 'a, S: Storage<T>>(mut v: GenericVec<T, S>) -> SliceVec<'a, T> { v.spare_capacity_mut() }
//= end
//# name: spare-static   prop: C17   lanes: all   expect: lifetime,E0759,E0621,E0312,E0495
//? the spare capacity has the lifetime of the borrow, not a longer one
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, 'b, S: Storage<u8>>(v: &'a mut GenericVec<u8, S>) -> SliceVec<'a, u8> { v.spare_capacity_mut() }
//- bad
pub fn f<'a, 'b, S: Storage<u8>>(v: &'a mut GenericVec<u8, S>) -> SliceVec<'b, u8> { v.spare_capacity_mut() }
//= end
//# name: cursor-lifetime   prop: C17   lanes: all   expect: lifetime,E0759,E0621,E0312,E0495
//? a cursor has the lifetime of the borrow, not a longer one
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, 'b, S: Storage<u8> + 'static>(v: &'a mut GenericVec<u8, S>) -> RawCursor<'a, u8, S> { v.raw_cursor(..) }
//- bad
pub fn f<'a, 'b, S: Storage<u8> + 'static>(v: &'a mut GenericVec<u8, S>) -> RawCursor<'b, u8, S> { v.raw_cursor(..) }
//= end
//# name: slicevec-outlives   prop: C17   lanes: all   expect: E0515,E0597
//? a SliceVec must not outlive its buffer
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
//+ ok
pub fn f<'a, T>(b: &'a mut [MaybeUninit<T>; 4]) -> SliceVec<'a, T> { SliceVec::new(b) }
//- bad
pub fn f<'a, T>(mut b: [MaybeUninit<T>; 4]) -> SliceVec<'a, T> { SliceVec::new(&mut b) }
//= end
//# name: slicevec-lifetime   prop: C17   lanes: all   expect: lifetime,E0759,E0621,E0312,E0495
//? a SliceVec has the lifetime of its buffer, not a longer one
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
//+ ok
pub fn f<'a, 'b>(b: &'a mut [MaybeUninit<u8>]) -> SliceVec<'a, u8> { SliceVec::new(b) }
//- bad
pub fn f<'a, 'b>(b: &'a mut [MaybeUninit<u8>]) -> SliceVec<'b, u8> { SliceVec::new(b) }
//= end
//# name: slicevec-shared-buffer   prop: C17   lanes: all   expect: E0308
//? a SliceVec needs an exclusive borrow of its buffer
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
//+ ok
pub fn f<T>(b: &mut [MaybeUninit<T>]) { SliceVec::new(b); }
//- bad
pub fn f<T>(b: &[MaybeUninit<T>]) { SliceVec::new(b); }
//= end
//# name: initslicevec-lifetime   prop: C17   lanes: all   expect: lifetime,E0759,E0621,E0312,E0495
//? an InitSliceVec has the lifetime of its buffer, not a longer one
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'a, 'b>(b: &'a mut [u8]) -> InitSliceVec<'a, u8> { InitSliceVec::new(b) }
//- bad
pub fn f<'a, 'b>(b: &'a mut [u8]) -> InitSliceVec<'b, u8> { InitSliceVec::new(b) }
//= end
//# name: slicevec-buffer-busy   prop: C17   lanes: all   expect: E0499,E0502,E0506,E0503
//? the buffer must not be usable while a SliceVec exists
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
pub fn f(b: &mut [MaybeUninit<u8>; 4]) {
    let mut v = SliceVec::new(b);
//+ ok
    v.push(1); drop(v); b[0] = MaybeUninit::new(2);
//- bad
    b[0] = MaybeUninit::new(2); v.push(1);
//= end
}
//# name: uninit-slice-lifetime   prop: C17   lanes: all   expect: lifetime,E0759,E0621,E0312,E0495
//? UninitSlice::from_mut keeps the lifetime of the buffer
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
//+ ok
pub fn f<'a, 'b>(b: &'a mut [MaybeUninit<u8>]) -> &'a mut UninitSlice<u8> { UninitSlice::from_mut(b) }
//- bad
pub fn f<'a, 'b>(b: &'a mut [MaybeUninit<u8>]) -> &'b mut UninitSlice<u8> { UninitSlice::from_mut(b) }
//= end
//# name: init-slice-copy   prop: C17   lanes: all   expect: E0277,E0599
//? an initialised slice is a storage for Copy elements only
use generic_vec::{*, raw::*, iter::*};
pub struct NC; #[derive(Clone, Copy)] pub struct C;
//+ ok
pub fn f(b: &mut [C]) { InitSliceVec::new(b); }
//- bad
pub fn f(b: &mut [NC]) { InitSliceVec::new(b); }
//= end
//# name: init-slice-storage-copy   prop: C17   lanes: all   expect: E0277
//? [T] is a storage for Copy elements only
use generic_vec::{*, raw::*, iter::*};
fn st<T, S: ?Sized + Storage<T>>() {}
//+ ok
pub fn f<T: Copy>() { st::<T, [T]>() }
//- bad
pub fn f<T>() { st::<T, [T]>() }
//= end
//# name: init-array-storage-copy   prop: C17   lanes: all   expect: E0277
//? [T; N] is a storage for Copy elements only
use generic_vec::{*, raw::*, iter::*};
fn st<T, S: ?Sized + Storage<T>>() {}
//+ ok
pub fn f<T: Copy>() { st::<T, [T; 3]>() }
//- bad
pub fn f<T>() { st::<T, [T; 3]>() }
//= end
//# name: init-array-other-elem   prop: C17   lanes: all   expect: E0277
//? [T; N] is a storage for T only, not for other element types
use generic_vec::{*, raw::*, iter::*};
fn st<T, S: ?Sized + Storage<T>>() {}
//+ ok
pub fn f() { st::<u8, [u8; 3]>() }
//- bad
pub fn f() { st::<bool, [u8; 3]>() }
//= end
//# name: zero-sized-other-elem   prop: C17   lanes: all   expect: E0277
//? ZeroSized<T> is a storage for T only
use generic_vec::{*, raw::*, iter::*};
fn st<T, S: ?Sized + Storage<T>>() {}
//+ ok
pub fn f() { st::<(), ZeroSized<()>>() }
//- bad
pub fn f() { st::<u8, ZeroSized<()>>() }
//= end
//# name: init-only.typevec   prop: C17   lanes: all   expect: E0277,E0599
//? set_len is not available on a storage that may be uninitialised (UninitBuffer)
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f(v: &mut GenericVec<u8, [u8; 4]>) { v.set_len(2) }
//- bad
pub fn f(v: &mut GenericVec<u8, UninitBuffer<[u8; 4]>>) { v.set_len(2) }
//= end
//# name: init-only.slicevec   prop: C17   lanes: all   expect: E0277,E0599
//? set_len is not available on a storage that may be uninitialised (UninitSlice)
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f(v: &mut InitSliceVec<u8>) { v.set_len(2) }
//- bad
pub fn f(v: &mut SliceVec<u8>) { v.set_len(2) }
//= end
//# name: init-only.zsvec   prop: C17   lanes: all   expect: E0277,E0599
//? set_len is not available on a counter vector (it would create values from nothing)
use generic_vec::{*, raw::*, iter::*};
pub struct Token(());
//+ ok
pub fn f(v: &mut GenericVec<(), [(); 4]>) { v.set_len(2) }
//- bad
pub fn f(v: &mut ZSVec<Token>) { v.set_len(2) }
//= end
//# name: init-only.heap   prop: C17   lanes: std   expect: E0277,E0599
//? set_len is not available on a storage that may be uninitialised (Heap)
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f(v: &mut GenericVec<u8, Box<[u8; 4]>>) { v.set_len(2) }
//- bad
pub fn f(v: &mut GenericVec<u8, Heap<u8>>) { v.set_len(2) }
//= end
//# name: init-only.ref   prop: C17   lanes: all   expect: E0277,E0599
//? a borrowed storage is initialised only if the storage itself is
use generic_vec::{*, raw::*, iter::*};
fn ini<T, S: ?Sized + StorageInit<T>>() {}
//+ ok
pub fn f<T, S: StorageInit<T>>() { ini::<T, &mut S>() }
//- bad
pub fn f<T, S: Storage<T>>() { ini::<T, &mut S>() }
//= end
//# name: init-only.box   prop: C17   lanes: std   expect: E0277,E0599
//? a boxed storage is initialised only if the storage itself is
use generic_vec::{*, raw::*, iter::*};
fn ini<T, S: ?Sized + StorageInit<T>>() {}
//+ ok
pub fn f<T, S: StorageInit<T>>() { ini::<T, Box<S>>() }
//- bad
pub fn f<T, S: Storage<T>>() { ini::<T, Box<S>>() }
//= end
//# name: unsafe-trait.storage   prop: C17   lanes: all   expect: E0200
//? implementing Storage is unsafe
use generic_vec::raw::*;
pub struct X;
//+ ok
unsafe
//- bad
//= impl
impl Storage<u8> for X { const IS_ALIGNED: bool = true; fn capacity(&self) -> usize { 0 } fn as_ptr(&self) -> *const u8 { 1 as _ } fn as_mut_ptr(&mut self) -> *mut u8 { 1 as _ } fn reserve(&mut self, _: usize) { panic!() } fn try_reserve(&mut self, _: usize) -> bool { false } }
//# name: unsafe-trait.init   prop: C17   lanes: all   expect: E0200
//? implementing StorageInit is unsafe
use generic_vec::raw::*;
pub struct X;
unsafe impl Storage<u8> for X { const IS_ALIGNED: bool = true; fn capacity(&self) -> usize { 0 } fn as_ptr(&self) -> *const u8 { 1 as _ } fn as_mut_ptr(&mut self) -> *mut u8 { 1 as _ } fn reserve(&mut self, _: usize) { panic!() } fn try_reserve(&mut self, _: usize) -> bool { false } }
//+ ok
unsafe
//- bad
//= impl
impl StorageInit<u8> for X {}
//# name: unsafe-trait.withcap   prop: C17   lanes: all   expect: E0200
//? implementing StorageWithCapacity is unsafe
use generic_vec::raw::*;
#[derive(Default)]
pub struct X;
unsafe impl Storage<u8> for X { const IS_ALIGNED: bool = true; fn capacity(&self) -> usize { 0 } fn as_ptr(&self) -> *const u8 { 1 as _ } fn as_mut_ptr(&mut self) -> *mut u8 { 1 as _ } fn reserve(&mut self, _: usize) { panic!() } fn try_reserve(&mut self, _: usize) -> bool { false } }
//+ ok
unsafe
//- bad
//= impl
impl StorageWithCapacity<u8> for X { fn with_capacity(_: usize) -> Self { panic!() } }
//# name: invariant.cursor   prop: C17   lanes: std   expect: lifetime,E0308
//? a cursor is invariant in the element type: it must not accept shorter-lived elements than its vector
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'c, 's>(c: Cursor<'c, &'s str, Heap<&'s str>>) -> Cursor<'c, &'s str, Heap<&'s str>> { c }
//- bad
pub fn f<'c, 's>(c: Cursor<'c, &'static str, Heap<&'static str>>) -> Cursor<'c, &'s str, Heap<&'s str>> { c }
//= end
//# name: invariant.slicevec   prop: C17   lanes: all   expect: lifetime,E0308
//? a SliceVec is invariant in the element type
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<'c, 's>(c: SliceVec<'c, &'s str>) -> SliceVec<'c, &'s str> { c }
//- bad
pub fn f<'c, 's>(c: SliceVec<'c, &'static str>) -> SliceVec<'c, &'s str> { c }
//= end
//# name: covariant.heapvec   prop: C17   lanes: std
//? an owned heap vector is covariant in the element type like Vec
use generic_vec::{*, raw::*, iter::*};
pub fn f<'s>(c: GenericVec<&'static str, Heap<&'static str>>) -> GenericVec<&'s str, Heap<&'s str>> { c }
//# name: dropck   prop: C17   lanes: std   expect: E0597
//? elements with destructors must outlive the vector
use generic_vec::{*, raw::*, iter::*};
pub struct D<'a>(&'a u8); impl Drop for D<'_> { fn drop(&mut self) {} }
pub fn f() {
//+ ok
    let x = 1u8; let mut v = HeapVec::<D>::new();
//- bad
    let mut v = HeapVec::<D>::new(); let x = 1u8;
//= end
    v.push(D(&x));
}
//# name: filter-escape   prop: C17   lanes: all   expect: E0521,lifetime,E0495
//? the predicate of drain_filter must not let a reference escape
use generic_vec::{*, raw::*, iter::*};
pub fn f<S: Storage<u8>>(v: &mut GenericVec<u8, S>) {
    let mut saved: Option<&mut u8> = None;
    let mut n = 0u8;
//+ ok
    v.drain_filter(.., |x| { n = *x; true });
//- bad
    v.drain_filter(.., |x| { saved = Some(x); true });
//= end
}
//# name: retain-escape   prop: C17   lanes: all   expect: E0521,lifetime,E0495
//? the predicate of retain must not let a reference escape
use generic_vec::{*, raw::*, iter::*};
pub fn f<S: Storage<u8>>(v: &mut GenericVec<u8, S>) {
    let mut saved: Option<&mut u8> = None;
    let mut n = 0u8;
//+ ok
    v.retain(|x| { n = *x; true });
//- bad
    v.retain(|x| { saved = Some(x); true });
//= end
}
//# name: dedup-escape   prop: C17   lanes: all   expect: E0521,lifetime,E0495
//? the comparison of dedup_by must not let a reference escape
use generic_vec::{*, raw::*, iter::*};
pub fn f<S: Storage<u8>>(v: &mut GenericVec<u8, S>) {
    let mut saved: Option<&mut u8> = None;
    let mut n = 0u8;
//+ ok
    v.dedup_by(|x, _| { n = *x; true });
//- bad
    v.dedup_by(|x, _| { saved = Some(x); true });
//= end
}
//# name: into_iter-slice   prop: C17   lanes: all   expect: E0499,E0502
//? the remaining slice of the owning iterator must not survive next()
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(mut i: IntoIter<T, S>) -> usize {
//+ ok
    let n = i.as_slice().len(); i.next(); n
//- bad
    let n = i.as_slice(); i.next(); n.len()
//= end
}
//# name: private.vec-fields   prop: C17   lanes: all   expect: E0451,E0616
//? the length of a vector is not a public field
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(mut v: GenericVec<T, S>) {
//+ ok
    v.len();
//- bad
    v.len = 3;
//= end
}
//# name: private.storage-field   prop: C17   lanes: all   expect: E0451,E0616
//? the storage of a vector is not a public field
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, S: Storage<T>>(mut v: GenericVec<T, S>) {
//+ ok
    v.storage();
//- bad
    v.storage;
//= end
}
//# name: private.zero-sized   prop: C17   lanes: all   expect: E0423,E0603
//? a ZeroSized storage cannot be made without its constructor's size check
use generic_vec::{*, raw::*, iter::*};
pub fn f() {
//+ ok
    let _: ZeroSized<()> = ZeroSized::NEW;
//- bad
    let _: ZeroSized<()> = ZeroSized(core::marker::PhantomData);
//= end
}
//# name: zero-sized-nonzero   prop: C17   lanes: all   expect: E0080
//? a ZeroSized storage for a type that is not zero-sized fails to compile
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub const Z: ZeroSized<()> = ZeroSized::NEW;
//- bad
pub const Z: ZeroSized<u8> = ZeroSized::NEW;
//= end
//# name: zsvec-nonzero   prop: C17   lanes: all   expect: E0080
//? a counter vector of a type that is not zero-sized fails to compile
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub const Z: ZSVec<()> = ZSVec::NEW;
//- bad
pub const Z: ZSVec<u8> = ZSVec::NEW;
//= end
//# name: gvec-unsafe   prop: C23   lanes: all   expect: E0133
//? gvec! gives the listed expressions no unsafe context
use generic_vec::{*, raw::*, iter::*};
unsafe fn u() -> u8 { 1 } fn s() -> u8 { 1 }
pub fn f() -> TypeVec<u8, [u8; 4]> {
//+ ok
    gvec![s(), s()]
//- bad
    gvec![s(), u()]
//= end
}
//# name: gvec-unsafe-repeat   prop: C23   lanes: all   expect: E0133
//? gvec![x; n] gives the expressions no unsafe context
use generic_vec::{*, raw::*, iter::*};
unsafe fn u() -> u8 { 1 } fn s() -> u8 { 1 }
pub fn f() -> TypeVec<u8, [u8; 4]> {
//+ ok
    gvec![s(); 2]
//- bad
    gvec![u(); 2]
//= end
}
//# name: gvec-unsafe-count   prop: C23   lanes: all   expect: E0133
//? gvec![x; n] gives the count no unsafe context
use generic_vec::{*, raw::*, iter::*};
unsafe fn u() -> usize { 1 } fn s() -> usize { 1 }
pub fn f() -> TypeVec<u8, [u8; 4]> {
//+ ok
    gvec![1; s()]
//- bad
    gvec![1; u()]
//= end
}
//# name: uninit_array-type   prop: C23   lanes: all   expect: E0308,E0277
//? uninit_array! makes arrays of MaybeUninit only
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
pub fn f() {
//+ ok
    let x: [MaybeUninit<u8>; 4] = uninit_array!(4);
//- bad
    let x: [u8; 4] = uninit_array!(4);
//= end
}
//# name: uninit_array-const-type   prop: C23   lanes: all   expect: E0308,E0277,E0282
//? uninit_array!(const ..) makes arrays of MaybeUninit only
use generic_vec::{*, raw::*, iter::*};
use core::mem::MaybeUninit;
pub fn f() {
//+ ok
    let x: [MaybeUninit<u8>; 4] = uninit_array!(const 4);
//- bad
    let x: [u8; 4] = uninit_array!(const 4);
//= end
}
//# name: save_spare-type   prop: C23   lanes: all   expect: E0308
//? save_spare! accepts only a spare vector, by value
use generic_vec::{*, raw::*, iter::*};
pub unsafe fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, s: SliceVec<'_, T>) {
//+ ok
    save_spare!(s, v)
//- bad
    save_spare!(&s, v)
//= end
}
//# name: align.const-under   prop: C18   lanes: all   expect: E0080,any_use_of_this_value
//? a TypeVec over an under-aligned buffer fails to compile in constants
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub const V: TypeVec<u32, [u8; 8], u32> = TypeVec::with_align();
//- bad
pub const V: TypeVec<u32, [u8; 8], u16> = TypeVec::with_align();
//= end
//# name: align.const-buffer   prop: C18   lanes: all   expect: E0080,any_use_of_this_value
//? the buffer's own alignment counts, an insufficient one does not
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub const V: TypeVec<u32, [u64; 2], u8> = TypeVec::with_align();
//- bad
pub const V: TypeVec<u32, [u16; 8], u8> = TypeVec::with_align();
//= end
//# name: align.const-new   prop: C18   lanes: all
//? TypeVec::new aligns for its element type whatever the buffer
use generic_vec::{*, raw::*, iter::*};
#[repr(align(64))] pub struct A([u8; 64]);
pub const V: TypeVec<u64, [u8; 16]> = TypeVec::new();
pub const W: TypeVec<A, [u8; 64]> = TypeVec::new();
pub const X: [(); 1] = [(); (core::mem::align_of::<TypeVec<A, [u8; 64]>>() == 64) as usize];
pub const Y: [(); 1] = [(); (core::mem::align_of::<UninitBuffer<[u8; 3], u32>>() == 4) as usize];
pub const Z: [(); 1] = [(); (core::mem::align_of::<UninitBuffer<[u64; 3], u32>>() == 8) as usize];
//# name: ArrayVec-macro-type   prop: C23   lanes: all   expect: E0308
//? ArrayVec![T; N] is the vector over an uninitialized buffer of exactly N elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T>(v: ArrayVec![T; 5]) {
//+ ok
    let _: GenericVec<T, UninitBuffer<[T; 5]>> = v;
//- bad
    let _: GenericVec<T, UninitBuffer<[T; 4]>> = v;
//= end
}
//# name: ArrayVec-macro-more   prop: C23   lanes: all   expect: E0308
//? ArrayVec![T; N] is the vector over an uninitialized buffer of exactly N elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T>(v: ArrayVec![T; 5]) {
//+ ok
    let _: GenericVec<T, UninitBuffer<[T; 5]>> = v;
//- bad
    let _: GenericVec<T, UninitBuffer<[T; 6]>> = v;
//= end
}
//# name: ArrayVec-macro-empty   prop: C23   lanes: all   expect: E0308
//? ArrayVec![T; N] is the vector over an uninitialized buffer of exactly N elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T>(v: ArrayVec![T; 1 + 2 * 3]) {
//+ ok
    let _: GenericVec<T, UninitBuffer<[T; 7]>> = v;
//- bad
    let _: GenericVec<T, UninitBuffer<[T; 9]>> = v;
//= end
}
//# name: InitArrayVec-macro-type   prop: C23   lanes: all   expect: E0308
//? InitArrayVec![T; N] is the vector over an initialized array of exactly N elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T: Copy>(v: InitArrayVec![T; 5]) {
//+ ok
    let _: GenericVec<T, [T; 5]> = v;
//- bad
    let _: GenericVec<T, [T; 4]> = v;
//= end
}
//# name: InitArrayVec-macro-more   prop: C23   lanes: all   expect: E0308
//? InitArrayVec![T; N] is the vector over an initialized array of exactly N elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T: Copy>(v: InitArrayVec![T; 5]) {
//+ ok
    let _: GenericVec<T, [T; 5]> = v;
//- bad
    let _: GenericVec<T, [T; 6]> = v;
//= end
}
//# name: InitArrayVec-needs-copy   prop: C23   lanes: all   expect: E0277
//? InitArrayVec! is made for types whose values may be overwritten without a destructor
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T: Copy>(v: &InitArrayVec![T; 5]) -> usize { v.len() }
//- bad
pub fn f<T>(v: &InitArrayVec![T; 5]) -> usize { v.len() }
//= end
//# name: gvec-element-type   prop: C23   lanes: all   expect: E0308
//? gvec! makes a vector of the expressions' type
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: StorageWithCapacity<T>>(a: T, b: T) -> GenericVec<T, S> { gvec![a, b] }
//- bad
pub fn f<T, U, S: StorageWithCapacity<T>>(a: T, b: U) -> GenericVec<T, S> { gvec![a, b] }
//= end
//# name: gvec-repeat-needs-clone   prop: C23   lanes: all   expect: E0277
//? gvec![x; n] copies the value with Clone
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T: Clone, S: StorageWithCapacity<T>>(a: T) -> GenericVec<T, S> { gvec![a; 3] }
//- bad
pub fn f<T, S: StorageWithCapacity<T>>(a: T) -> GenericVec<T, S> { gvec![a; 3] }
//= end
//# name: alias-SliceVec   prop: C23   lanes: all   expect: E0308
//? SliceVec is a vector over a borrowed uninitialized slice
use generic_vec::{*, raw::*, iter::*};
pub fn f<'a, T: Copy>(v: SliceVec<'a, T>) {
//+ ok
    let _: GenericVec<T, &'a mut UninitSlice<T>> = v;
//- bad
    let _: GenericVec<T, &'a mut [T]> = v;
//= end
}
//# name: alias-InitSliceVec   prop: C23   lanes: all   expect: E0308
//? InitSliceVec is a vector over a borrowed initialized slice
use generic_vec::{*, raw::*, iter::*};
pub fn f<'a, T: Copy>(v: InitSliceVec<'a, T>) {
//+ ok
    let _: GenericVec<T, &'a mut [T]> = v;
//- bad
    let _: GenericVec<T, &'a mut UninitSlice<T>> = v;
//= end
}
//# name: alias-ArrayVec   prop: C23   lanes: nightly   expect: E0308
//? ArrayVec is the vector over an uninitialized buffer of exactly N elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, const N: usize>(v: ArrayVec<T, N>) {
//+ ok
    let _: GenericVec<T, UninitBuffer<[T; N], T>> = v;
//- bad
    let _: GenericVec<T, UninitBuffer<[T; 4], T>> = v;
//= end
}
//# name: alias-InitArrayVec   prop: C23   lanes: nightly   expect: E0308
//? InitArrayVec is the vector that InitArrayVec! names
use generic_vec::{*, raw::*, iter::*};
pub fn f<T: Copy, const N: usize>(v: InitArrayVec<T, N>, w: InitArrayVec<T, 3>) {
    let _: InitArrayVec![T; 3] = w;
//+ ok
    let _: GenericVec<T, [T; N]> = v;
//- bad
    let _: GenericVec<T, [T; 4]> = v;
//= end
}
//# name: alias-TypeVec   prop: C23   lanes: all   expect: E0308
//? TypeVec is a vector over the uninitialized layout of its type, aligned like its third parameter
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, B, A>(v: TypeVec<T, B, A>) {
//+ ok
    let _: GenericVec<T, UninitBuffer<B, A>> = v;
//- bad
    let _: GenericVec<T, UninitBuffer<B, T>> = v;
//= end
}
//# name: alias-ZSVec   prop: C23   lanes: all   expect: E0308
//? ZSVec is a vector over the storage of zero-sized elements
use generic_vec::{*, raw::*, iter::*};
pub fn f<T>(v: ZSVec<T>) {
//+ ok
    let _: GenericVec<T, ZeroSized<T>> = v;
//- bad
    let _: GenericVec<T, UninitBuffer<(), T>> = v;
//= end
}
//# name: alias-HeapVec   prop: C23   lanes: stable-std,nightly-std,stable-alloc,nightly-alloc   expect: E0308
//? HeapVec is a vector over the heap
use generic_vec::{*, raw::*, iter::*};
pub fn f<T, U>(v: HeapVec<T>) {
//+ ok
    let _: GenericVec<T, Heap<T>> = v;
//- bad
    let _: GenericVec<T, Heap<U>> = v;
//= end
}
