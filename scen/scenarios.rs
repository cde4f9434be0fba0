//! Scenarios: client programs of the public API whose abstract semantics the
//! analysis computes (they are compiled to MIR, never run).
#![no_std]
#![cfg_attr(feature = "nightly", feature(allocator_api, exact_size_is_empty))]
#![allow(unused, dead_code, clippy::all)]
#[cfg(feature = "std")]
extern crate std;
#[cfg(all(feature = "alloc", not(feature = "std")))]
extern crate alloc as std;

use core::mem::forget;
use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::ops::{Range, RangeBounds};
use core::slice::SliceIndex;
use generic_vec::raw::{Storage, StorageInit, StorageWithCapacity};
use generic_vec::{iter, GenericVec};

type V<T, S> = GenericVec<T, S>;

// nondeterminism and ghost state; intercepted by the interpreter
pub fn choose() -> bool { loop {} }
pub fn out_front<T>(_: T) { loop {} }
pub fn out_back<T>(_: T) { loop {} }
pub fn any() -> usize { loop {} }
pub fn assume(_: bool) { loop {} }
pub fn at_end() { loop {} }
pub fn check_len(_: usize) { loop {} }
pub fn back(_: bool) { loop {} }
pub fn g_take_front(_: usize) { loop {} }
pub fn g_take_back(_: usize) { loop {} }
pub fn g_skip_front(_: usize) { loop {} }
pub fn g_skip_back(_: usize) { loop {} }
pub fn g_write_front<T>(_: &T) { loop {} }
pub fn g_write_back<T>(_: &T) { loop {} }
pub fn g_slice_front<T>(_: &[T]) { loop {} }
pub fn g_slice_back<T>(_: &[T]) { loop {} }
pub fn g_reserve(_: usize) { loop {} }
pub fn g_reserved(_: usize) { loop {} }
pub fn g_took<T>(_: T) { loop {} }
pub fn g_done() { loop {} }
pub fn g_rejected<T>(_: T) { loop {} }
pub fn g_at_front<T>(_: &T) { loop {} }
pub fn g_at_back<T>(_: &T) { loop {} }
pub fn g_none() { loop {} }
pub fn g_lens(_: usize, _: usize, _: usize) { loop {} }
pub fn g_flags(_: bool, _: bool, _: bool, _: bool) { loop {} }
pub fn g_write_len(_: usize) { loop {} }
pub fn g_finish() { loop {} }
pub fn g_nth<T>(_: T) { loop {} }
pub fn g_nth_back<T>(_: T) { loop {} }
pub fn g_nth_none() { loop {} }
pub fn g_last<T>(_: T) { loop {} }
pub fn g_last_none() { loop {} }
pub fn g_hint(_: usize, _: usize) { loop {} }
pub fn g_left(_: usize) { loop {} }
pub fn g_empty(_: bool) { loop {} }
pub fn g_item<T>(_: usize, _: &T) { loop {} }
pub fn g_rest<T>(_: &[T]) { loop {} }

// ---- single element operations
pub fn push<T, S: Storage<T>>(v: &mut V<T, S>, a: T) -> &mut T { v.push(a) }
pub fn try_push<T, S: Storage<T>>(v: &mut V<T, S>, a: T) -> Result<&mut T, T> { v.try_push(a) }
pub fn insert<T, S: Storage<T>>(v: &mut V<T, S>, i: usize, a: T) -> &mut T { v.insert(i, a) }
pub fn try_insert<T, S: Storage<T>>(v: &mut V<T, S>, i: usize, a: T) -> Result<&mut T, T> { v.try_insert(i, a) }
pub fn pop<T, S: Storage<T>>(v: &mut V<T, S>) -> T { v.pop() }
pub fn try_pop<T, S: Storage<T>>(v: &mut V<T, S>) -> Option<T> { v.try_pop() }
pub fn remove<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> T { v.remove(i) }
pub fn try_remove<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> Option<T> { v.try_remove(i) }
pub fn swap_remove<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> T { v.swap_remove(i) }
pub fn try_swap_remove<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> Option<T> { v.try_swap_remove(i) }
pub fn truncate<T, S: Storage<T>>(v: &mut V<T, S>, n: usize) { v.truncate(n) }
pub fn clear<T, S: Storage<T>>(v: &mut V<T, S>) { v.clear() }
pub fn drop_vec<T, S: Storage<T>>(v: V<T, S>) { drop(v) }
pub unsafe fn push_unchecked<T, S: Storage<T>>(v: &mut V<T, S>, a: T) -> &mut T { v.push_unchecked(a) }
pub unsafe fn insert_unchecked<T, S: Storage<T>>(v: &mut V<T, S>, i: usize, a: T) -> &mut T { v.insert_unchecked(i, a) }
pub unsafe fn pop_unchecked<T, S: Storage<T>>(v: &mut V<T, S>) -> T { v.pop_unchecked() }
pub unsafe fn remove_unchecked<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> T { v.remove_unchecked(i) }
pub unsafe fn swap_remove_unchecked<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> T { v.swap_remove_unchecked(i) }

// ---- arrays
#[cfg(feature = "nightly")]
mod arrays {
    use super::*;
    pub fn push_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, a: [T; N]) -> &mut [T; N] { v.push_array(a) }
    pub fn try_push_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, a: [T; N]) -> Result<&mut [T; N], [T; N]> { v.try_push_array(a) }
    pub fn insert_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, i: usize, a: [T; N]) -> &mut [T; N] { v.insert_array(i, a) }
    pub fn try_insert_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, i: usize, a: [T; N]) -> Result<&mut [T; N], [T; N]> { v.try_insert_array(i, a) }
    pub fn pop_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>) -> [T; N] { v.pop_array() }
    pub fn try_pop_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>) -> Option<[T; N]> { v.try_pop_array() }
    pub fn remove_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, i: usize) -> [T; N] { v.remove_array(i) }
    pub fn try_remove_array<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, i: usize) -> Option<[T; N]> { v.try_remove_array(i) }
    pub unsafe fn push_array_unchecked<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, a: [T; N]) -> &mut [T; N] { v.push_array_unchecked(a) }
    pub unsafe fn insert_array_unchecked<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, i: usize, a: [T; N]) -> &mut [T; N] { v.insert_array_unchecked(i, a) }
    pub unsafe fn pop_array_unchecked<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>) -> [T; N] { v.pop_array_unchecked() }
    pub unsafe fn remove_array_unchecked<T, S: Storage<T>, const N: usize>(v: &mut V<T, S>, i: usize) -> [T; N] { v.remove_array_unchecked(i) }
}

// ---- capacity
pub fn reserve<T, S: Storage<T>>(v: &mut V<T, S>, n: usize) { v.reserve(n) }
pub fn try_reserve<T, S: Storage<T>>(v: &mut V<T, S>, n: usize) -> bool { v.try_reserve(n) }
pub fn queries<T, S: Storage<T>>(v: &V<T, S>) -> (usize, usize, bool, bool, usize) {
    (v.len(), v.capacity(), v.is_empty(), v.is_full(), v.remaining_capacity())
}
pub fn set_len<T: Copy, S: StorageInit<T>>(v: &mut V<T, S>, n: usize) { v.set_len(n) }

// ---- bulk operations
pub fn grow<T: Clone, S: Storage<T>>(v: &mut V<T, S>, n: usize, a: T) { v.grow(n, a) }
pub fn grow_with<T, S: Storage<T>, F: FnMut() -> T>(v: &mut V<T, S>, n: usize, f: F) { v.grow_with(n, f) }
pub fn resize<T: Clone, S: Storage<T>>(v: &mut V<T, S>, n: usize, a: T) { v.resize(n, a) }
pub fn resize_with<T, S: Storage<T>, F: FnMut() -> T>(v: &mut V<T, S>, n: usize, f: F) { v.resize_with(n, f) }
pub fn extend_from_slice<T: Clone, S: Storage<T>>(v: &mut V<T, S>, s: &[T]) { v.extend_from_slice(s) }
pub unsafe fn extend_from_slice_unchecked<T, S: Storage<T>>(v: &mut V<T, S>, s: &[T]) { v.extend_from_slice_unchecked(s) }
pub fn extend<T, S: Storage<T>, I: Iterator<Item = T>>(v: &mut V<T, S>, it: I) { v.extend(it) }
pub fn extend_refs<'a, T: Clone + 'a, S: Storage<T>>(v: &mut V<T, S>, s: &'a [T]) { v.extend(s) }
pub fn from_iter<T, S: StorageWithCapacity<T>, I: Iterator<Item = T>>(it: I) -> V<T, S> { it.collect() }
pub fn clone<T: Clone, S: StorageWithCapacity<T>>(v: &V<T, S>) -> V<T, S> { Clone::clone(v) }
pub fn clone_from_slice<T: Clone, S: Storage<T>>(v: &mut V<T, S>, s: &[T]) { v.clone_from(s) }
pub fn clone_from_vec<T: Clone, S: StorageWithCapacity<T>>(v: &mut V<T, S>, o: &V<T, S>) { Clone::clone_from(v, o) }
pub fn split_off<T, S: Storage<T>, B: StorageWithCapacity<T>>(v: &mut V<T, S>, i: usize) -> V<T, B> { v.split_off(i) }
pub fn split_off_into<T, S: Storage<T>, B: Storage<T>>(v: &mut V<T, S>, i: usize, o: &mut V<T, B>) { v.split_off_into(i, o) }
pub fn append<T, S: Storage<T>, B: Storage<T>>(v: &mut V<T, S>, o: &mut V<T, B>) { v.append(o) }
pub fn convert<T, S: Storage<T>, B: StorageWithCapacity<T>>(v: V<T, S>) -> V<T, B> { v.convert() }
pub fn with_capacity<T, B: StorageWithCapacity<T>>(n: usize) -> V<T, B> { GenericVec::with_capacity(n) }
pub fn default<T, B: StorageWithCapacity<T>>() -> V<T, B> { Default::default() }

// ---- drain
pub fn drain_bounds<T, S: Storage<T>, R: RangeBounds<usize>>(v: &mut V<T, S>, r: R) { drop(v.drain(r)) }
fn use_drain<'a, T, S: Storage<T>>(v: &'a mut V<T, S>, r: Range<usize>) -> iter::Drain<'a, T, S> {
    let mut d = v.drain(r);
    while choose() {
        check_len(d.len());
        if choose() {
            match d.next() { Some(x) => out_front(x), None => at_end() }
        } else {
            match d.next_back() { Some(x) => out_back(x), None => at_end() }
        }
    }
    d
}
pub fn drain<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) { drop(use_drain(v, r)) }
pub fn drain_forget<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) { forget(use_drain(v, r)) }
pub fn drain_hint<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) {
    let d = use_drain(v, r);
    let (a, b) = d.size_hint();
    g_left(a);
    g_left(b.unwrap());
    #[cfg(feature = "nightly")]
    g_empty(d.is_empty());
}
pub fn drain_nth<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, m: usize) {
    let mut d = use_drain(v, r);
    match d.nth(m) { Some(x) => g_nth(x), None => g_nth_none() }
    g_left(d.len());
}
pub fn drain_nth_back<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, m: usize) {
    let mut d = use_drain(v, r);
    match d.nth_back(m) { Some(x) => g_nth_back(x), None => g_nth_none() }
    g_left(d.len());
}
pub fn drain_count<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> usize { use_drain(v, r).count() }
pub fn drain_last<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) { match use_drain(v, r).last() { Some(x) => g_last(x), None => g_last_none() } }
pub fn drain_fold<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> usize { use_drain(v, r).fold(0usize, |n, x| { out_front(x); n.wrapping_add(1) }) }
pub fn drain_rfold<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> usize { use_drain(v, r).rfold(0usize, |n, x| { out_back(x); n.wrapping_add(1) }) }

// ---- drain_filter
pub fn drain_filter_bounds<T, S: Storage<T>, R: RangeBounds<usize>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: R, f: F) {
    let mut d = v.drain_filter(r, f);
    let (_, n) = d.size_hint();
    check_len(n.unwrap());
    if choose() {
        match d.next() { Some(x) => out_front(x), None => at_end() }
    } else {
        match d.next_back() { Some(x) => out_back(x), None => at_end() }
    }
    forget(d)
}
fn use_drain_filter<'a, T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &'a mut V<T, S>, r: Range<usize>, f: F) -> iter::DrainFilter<'a, T, S, F> {
    let mut d = v.drain_filter(r, f);
    while choose() {
        if choose() {
            match d.next() { Some(x) => out_front(x), None => at_end() }
        } else {
            back(true);
            match d.next_back() { Some(x) => out_back(x), None => at_end() }
            back(false);
        }
    }
    d
}
pub fn drain_filter<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F) { drop(use_drain_filter(v, r, f)) }
pub fn drain_filter_forget<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F) { forget(use_drain_filter(v, r, f)) }
pub fn drain_filter_hint<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F) {
    let d = use_drain_filter(v, r, f);
    let (a, b) = d.size_hint();
    g_hint(a, b.unwrap());
    forget(d)
}
pub fn drain_filter_nth<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F, m: usize) {
    let mut d = v.drain_filter(r, f);
    match d.nth(m) { Some(x) => g_nth(x), None => g_nth_none() }
}
pub fn drain_filter_nth_back<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F, m: usize) {
    back(true);
    let mut d = v.drain_filter(r, f);
    match d.nth_back(m) { Some(x) => g_nth_back(x), None => g_nth_none() }
    back(false);
}
pub fn drain_filter_count<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F) -> usize { v.drain_filter(r, f).count() }
pub fn drain_filter_fold<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F) -> usize {
    v.drain_filter(r, f).fold(0usize, |n, x| { out_front(x); n.wrapping_add(1) })
}
pub fn drain_filter_rfold<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, r: Range<usize>, f: F) -> usize {
    back(true);
    v.drain_filter(r, f).rfold(0usize, |n, x| { out_back(x); n.wrapping_add(1) })
}
pub fn retain<T, S: Storage<T>, F: FnMut(&mut T) -> bool>(v: &mut V<T, S>, f: F) { v.retain(f) }

// ---- cursor
type C<'a, T, S> = iter::Cursor<'a, T, S>;
fn report<T, S: Storage<T>>(c: &mut C<'_, T, S>) {
    g_lens(c.len(), c.write_front_len(), c.write_back_len());
    g_flags(c.is_empty(), c.is_write_empty(), c.is_write_front_empty(), c.is_write_back_empty());
    if c.is_empty() { g_write_len(c.write_len()) }
    match c.front() { Some(x) => g_at_front(x), None => g_none() }
    match c.back() { Some(x) => g_at_back(x), None => g_none() }
    match c.front_mut() { Some(x) => g_at_front(x), None => g_none() }
    match c.back_mut() { Some(x) => g_at_back(x), None => g_none() }
}
fn prefix<'a, T, S: Storage<T>>(v: &'a mut V<T, S>, r: Range<usize>, j: usize, n: usize) -> C<'a, T, S> {
    let mut c = v.cursor(r);
    g_take_front(j);
    c.drop_n_front(j);
    g_done();
    g_take_back(n);
    c.drop_n_back(n);
    g_done();
    c
}
fn front_step<T, S: Storage<T>>(c: &mut C<'_, T, S>, n: usize, y: T) {
    if choose() { g_take_front(1); let x = c.take_front(); g_took(x); g_done(); }
    else if choose() { g_take_front(1); c.drop_front(); g_done(); }
    else if choose() { g_take_front(n); c.drop_n_front(n); g_done(); }
    else if choose() { g_write_front(&y); c.write_front(y); g_done(); return }
    else if choose() { g_write_front(&y); match c.try_write_front(y) { Ok(()) => g_done(), Err(y) => g_rejected(y) } return }
    else if choose() { g_skip_front(1); c.skip_front(); g_done(); }
    else { g_skip_front(n); c.skip_n_front(n); g_done(); }
}
fn back_step<T, S: Storage<T>>(c: &mut C<'_, T, S>, n: usize, y: T) {
    if choose() { g_take_back(1); let x = c.take_back(); g_took(x); g_done(); }
    else if choose() { g_take_back(1); c.drop_back(); g_done(); }
    else if choose() { g_take_back(n); c.drop_n_back(n); g_done(); }
    else if choose() { g_write_back(&y); c.write_back(y); g_done(); return }
    else if choose() { g_write_back(&y); match c.try_write_back(y) { Ok(()) => g_done(), Err(y) => g_rejected(y) } return }
    else if choose() { g_skip_back(1); c.skip_back(); g_done(); }
    else { g_skip_back(n); c.skip_n_back(n); g_done(); }
}
fn step<T, S: Storage<T>>(c: &mut C<'_, T, S>, n: usize, y: T) {
    if choose() { front_step(c, n, y) } else { back_step(c, n, y) }
}
fn small_step<T, S: Storage<T>>(c: &mut C<'_, T, S>, y: T) {
    if choose() { g_take_front(1); let x = c.take_front(); g_took(x); g_done(); }
    else if choose() { g_take_back(1); let x = c.take_back(); g_took(x); g_done(); }
    else if choose() { g_write_front(&y); c.write_front(y); g_done(); return }
    else if choose() { g_write_back(&y); c.write_back(y); g_done(); return }
    else if choose() { g_skip_front(1); c.skip_front(); g_done(); }
    else { g_skip_back(1); c.skip_back(); g_done(); }
}
pub fn cursor_bounds<T, S: Storage<T>, R: RangeBounds<usize>>(v: &mut V<T, S>, r: R) {
    let mut c = v.cursor(r);
    check_len(c.len());
}
pub fn cursor_step<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, m: usize, a: T) {
    let mut c = prefix(v, r, j, n);
    report(&mut c);
    step(&mut c, m, a);
    report(&mut c);
}
pub fn cursor_two<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, a: T, b: T) {
    let mut c = prefix(v, r, j, n);
    small_step(&mut c, a);
    small_step(&mut c, b);
    report(&mut c);
}
pub fn cursor_slices<T: Copy, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, s: &[T]) {
    let mut c = prefix(v, r, j, n);
    if choose() { g_slice_front(s); c.write_slice_front(s); g_done(); } else { g_slice_back(s); c.write_slice_back(s); g_done(); }
    report(&mut c);
}
pub fn cursor_reserve<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, m: usize, a: T) {
    let mut c = prefix(v, r, j, n);
    g_reserve(m);
    c.reserve(m);
    g_done();
    g_reserved(c.write_len());
    report(&mut c);
    step(&mut c, m, a);
    report(&mut c);
}
pub fn cursor_forget<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, m: usize, a: T) {
    let mut c = prefix(v, r, j, n);
    step(&mut c, m, a);
    forget(c)
}
pub fn cursor_finish<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, m: usize, a: T) {
    let mut c = prefix(v, r, j, n);
    step(&mut c, m, a);
    g_finish();
    c.as_raw_cursor_mut().finish();
    report(&mut c);
    if choose() { forget(c) } else { c.as_raw_cursor_mut().finish() }
}
pub fn cursor_finished<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, j: usize, n: usize, m: usize, a: T) {
    let mut c = prefix(v, r, j, n);
    c.as_raw_cursor_mut().finish();
    c.reserve(m);
    if choose() {
        if c.try_write_front(a).is_ok() && choose() && !c.is_empty() { drop(c.take_front()) }
    } else {
        if c.try_write_back(a).is_ok() && choose() { c.as_raw_cursor_mut().finish() }
    }
    if choose() { forget(c) }
}

// ---- splice
pub fn splice_bounds<T, S: Storage<T>, R: RangeBounds<usize>, I: Iterator<Item = T>>(v: &mut V<T, S>, r: R, it: I) {
    let d = v.splice(r, it);
    check_len(d.len());
    forget(d)
}
fn use_splice<'a, T, S: Storage<T>, I: Iterator<Item = T>>(v: &'a mut V<T, S>, r: Range<usize>, it: I) -> iter::Splice<'a, T, S, I> {
    let mut d = v.splice(r, it);
    while choose() {
        check_len(d.len());
        if choose() {
            match d.next() { Some(x) => out_front(x), None => at_end() }
        } else {
            match d.next_back() { Some(x) => out_back(x), None => at_end() }
        }
    }
    d
}
pub fn splice<T, S: Storage<T>, I: Iterator<Item = T>>(v: &mut V<T, S>, r: Range<usize>, it: I) { drop(use_splice(v, r, it)) }
pub fn splice_forget<T, S: Storage<T>, I: Iterator<Item = T>>(v: &mut V<T, S>, r: Range<usize>, it: I) { forget(use_splice(v, r, it)) }
struct Nothing<T>(core::marker::PhantomData<T>);
impl<T> Iterator for Nothing<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { None }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, None) }
}
fn use_splice_0<'a, T, S: Storage<T>>(v: &'a mut V<T, S>, r: Range<usize>) -> iter::Splice<'a, T, S, Nothing<T>> { use_splice(v, r, Nothing(core::marker::PhantomData)) }
pub fn splice_hint<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) {
    let d = use_splice_0(v, r);
    let (a, b) = d.size_hint();
    g_left(a);
    g_left(b.unwrap());
    #[cfg(feature = "nightly")]
    g_empty(d.is_empty());
}
pub fn splice_nth<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, m: usize) {
    let mut d = use_splice_0(v, r);
    match d.nth(m) { Some(x) => g_nth(x), None => g_nth_none() }
    g_left(d.len());
}
pub fn splice_nth_back<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>, m: usize) {
    let mut d = use_splice_0(v, r);
    match d.nth_back(m) { Some(x) => g_nth_back(x), None => g_nth_none() }
    g_left(d.len());
}
pub fn splice_count<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> usize { use_splice_0(v, r).count() }
pub fn splice_last<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) { match use_splice_0(v, r).last() { Some(x) => g_last(x), None => g_last_none() } }
pub fn splice_fold<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> usize { use_splice_0(v, r).fold(0usize, |n, x| { out_front(x); n.wrapping_add(1) }) }
pub fn splice_rfold<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> usize { use_splice_0(v, r).rfold(0usize, |n, x| { out_back(x); n.wrapping_add(1) }) }

// ---- owning iterator
fn use_into_iter<T, S: Storage<T>>(v: V<T, S>) -> iter::IntoIter<T, S> {
    let mut d = v.into_iter();
    while choose() {
        check_len(d.len());
        if choose() {
            match d.next() { Some(x) => out_front(x), None => at_end() }
        } else {
            match d.next_back() { Some(x) => out_back(x), None => at_end() }
        }
    }
    d
}
pub fn into_iter<T, S: Storage<T>>(v: V<T, S>) { drop(use_into_iter(v)) }
pub fn into_iter_forget<T, S: Storage<T>>(v: V<T, S>) { forget(use_into_iter(v)) }
pub fn into_iter_nth<T, S: Storage<T>>(v: V<T, S>, m: usize) {
    let mut d = use_into_iter(v);
    match d.nth(m) { Some(x) => g_nth(x), None => g_nth_none() }
    g_left(d.len());
    let (a, b) = d.size_hint();
    g_left(a);
    g_left(b.unwrap());
}
pub fn into_iter_nth_back<T, S: Storage<T>>(v: V<T, S>, m: usize) {
    let mut d = use_into_iter(v);
    match d.nth_back(m) { Some(x) => g_nth_back(x), None => g_nth_none() }
    g_left(d.len());
}
pub fn into_iter_count<T, S: Storage<T>>(v: V<T, S>) -> usize { use_into_iter(v).count() }
pub fn into_iter_last<T, S: Storage<T>>(v: V<T, S>) { match use_into_iter(v).last() { Some(x) => g_last(x), None => g_last_none() } }
pub fn into_iter_fold<T, S: Storage<T>>(v: V<T, S>) -> usize { use_into_iter(v).fold(0usize, |n, x| { out_front(x); n.wrapping_add(1) }) }
pub fn into_iter_rfold<T, S: Storage<T>>(v: V<T, S>) -> usize { use_into_iter(v).rfold(0usize, |n, x| { out_back(x); n.wrapping_add(1) }) }
pub fn into_iter_slices<T, S: Storage<T>>(v: V<T, S>) {
    let mut d = use_into_iter(v);
    let (a, b) = d.size_hint();
    check_len(a);
    check_len(b.unwrap());
    #[cfg(feature = "nightly")]
    g_empty(d.is_empty());
    g_rest(d.as_slice());
    g_rest(d.as_mut_slice());
}
pub fn iter_refs<T, S: Storage<T>>(v: &mut V<T, S>) {
    g_rest((&*v).into_iter().as_slice());
    let mut n = 0;
    for x in &*v { g_item(n, x); n += 1; }
    g_left(n);
    let mut n = 0;
    for x in &mut *v { g_item(n, x); n += 1; }
    g_left(n);
}

// ---- dedup
pub fn dedup<T: PartialEq, S: Storage<T>>(v: &mut V<T, S>) { v.dedup::<(), ()>() }
pub fn dedup_by<T, S: Storage<T>, F: FnMut(&mut T, &mut T) -> bool>(v: &mut V<T, S>, f: F) { v.dedup_by(f) }
pub fn dedup_by_key<T, S: Storage<T>, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut V<T, S>, f: F) { v.dedup_by_key(f) }

// ---- comparisons and views
pub fn eq<T: PartialEq, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> bool { v == o }
pub fn ne<T: PartialEq, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> bool { v != o }
pub fn eq_vec<T: PartialEq, S: Storage<T>, B: Storage<T>>(v: &V<T, S>, o: &V<T, B>) -> bool { v == o }
pub fn partial_cmp<T: PartialOrd, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> Option<Ordering> { v.partial_cmp(o) }
pub fn partial_cmp_vec<T: PartialOrd, S: Storage<T>, B: Storage<T>>(v: &V<T, S>, o: &V<T, B>) -> Option<Ordering> { v.partial_cmp(o) }
pub fn lt<T: PartialOrd, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> bool { v < o }
pub fn le<T: PartialOrd, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> bool { v <= o }
pub fn gt<T: PartialOrd, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> bool { v > o }
pub fn ge<T: PartialOrd, S: Storage<T>, O: ?Sized + AsRef<[T]>>(v: &V<T, S>, o: &O) -> bool { v >= o }
pub fn cmp<T: Ord, S: Storage<T>>(v: &V<T, S>, o: &V<T, S>) -> Ordering { v.cmp(o) }
pub fn hash<T: Hash, S: Storage<T>, H: Hasher>(v: &V<T, S>, h: &mut H) { v.hash(h) }
pub fn debug<T: fmt::Debug, S: Storage<T>>(v: &V<T, S>, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(v, f) }
pub fn views<T, S: Storage<T>>(v: &V<T, S>) -> (&[T], &[T], &[T], &[T], &[T], *const T) {
    (v.as_slice(), &**v, AsRef::<[T]>::as_ref(v), Borrow::<[T]>::borrow(v), &v[..], v.as_ptr())
}
pub fn views_mut<T, S: Storage<T>>(v: &mut V<T, S>) -> *mut T {
    g_rest(v.as_mut_slice());
    g_rest(&mut **v);
    g_rest(AsMut::<[T]>::as_mut(v));
    g_rest(BorrowMut::<[T]>::borrow_mut(v));
    g_rest(&mut v[..]);
    v.as_mut_ptr()
}
pub fn index_any<T, S: Storage<T>, I: SliceIndex<[T]>>(v: &V<T, S>, i: I) -> &I::Output { &v[i] }
pub fn index_any_mut<T, S: Storage<T>, I: SliceIndex<[T]>>(v: &mut V<T, S>, i: I) -> &mut I::Output { &mut v[i] }
pub fn index_one<T, S: Storage<T>>(v: &V<T, S>, i: usize) -> &T { &v[i] }
pub fn index_one_mut<T, S: Storage<T>>(v: &mut V<T, S>, i: usize) -> &mut T { &mut v[i] }
pub fn index_range<T, S: Storage<T>>(v: &V<T, S>, r: Range<usize>) -> &[T] { &v[r] }
pub fn index_range_mut<T, S: Storage<T>>(v: &mut V<T, S>, r: Range<usize>) -> &mut [T] { &mut v[r] }

// ---- borrowed and boxed storages (W stands for &mut S, Box<S>, &mut Box<S>, ...)
pub fn fwd_reserve<T, S: Storage<T>, W: Storage<T>>(w: &mut W, n: usize) { w.reserve(n) }
pub fn fwd_try_reserve<T, S: Storage<T>, W: Storage<T>>(w: &mut W, n: usize) -> bool { w.try_reserve(n) }
pub fn fwd_queries<T, S: Storage<T>, W: Storage<T>>(w: &mut W) -> (usize, *const T, *mut T, Option<usize>, bool) {
    (w.capacity(), w.as_ptr(), w.as_mut_ptr(), W::CONST_CAPACITY, W::IS_ALIGNED)
}
pub fn fwd_with_capacity<T, S: StorageWithCapacity<T>, W: StorageWithCapacity<T>>(n: usize) -> W { W::with_capacity(n) }
pub fn fwd_checked<T, S: StorageWithCapacity<T>, W: StorageWithCapacity<T>>(n: usize, o: Option<usize>) -> W { W::__with_capacity__const_capacity_checked(n, o) }
pub fn fwd_vec_reserve<T, S: Storage<T>, W: Storage<T>>(v: &mut V<T, W>, n: usize) { v.reserve(n) }
pub fn fwd_vec_try_reserve<T, S: Storage<T>, W: Storage<T>>(v: &mut V<T, W>, n: usize) -> bool { v.try_reserve(n) }
pub fn fwd_vec_queries<T, S: Storage<T>, W: Storage<T>>(v: &mut V<T, W>) -> (usize, *const T, *mut T) { (v.capacity(), v.as_ptr(), v.as_mut_ptr()) }

// ---- concrete storages, through their public interface
#[cfg(feature = "alloc")]
mod heaps {
    use super::*;
    use core::ptr::NonNull;
    use generic_vec::raw::Heap;

    type Parts<X> = (NonNull<X>, usize);
    pub fn heap_queries<X, Y>(p: NonNull<X>, c: usize) -> (usize, *const Y, *mut Y, Option<usize>, bool, Parts<X>) {
        let mut h = unsafe { Heap::<X>::from_raw_parts(p, c) };
        let cap = Storage::<Y>::capacity(&h);
        let q = Storage::<Y>::as_ptr(&h);
        let m = Storage::<Y>::as_mut_ptr(&mut h);
        (cap, q, m, <Heap<X> as Storage<Y>>::CONST_CAPACITY, <Heap<X> as Storage<Y>>::IS_ALIGNED, h.into_raw_parts())
    }
    pub fn heap_reserve<X, Y>(p: NonNull<X>, c: usize, n: usize) -> (usize, usize, Parts<X>) {
        let mut h = unsafe { Heap::<X>::from_raw_parts(p, c) };
        let before = Storage::<Y>::capacity(&h);
        Storage::<Y>::reserve(&mut h, n);
        let after = Storage::<Y>::capacity(&h);
        (before, after, h.into_raw_parts())
    }
    pub fn heap_try_reserve<X, Y>(p: NonNull<X>, c: usize, n: usize) -> (usize, usize, Parts<X>, bool) {
        let mut h = unsafe { Heap::<X>::from_raw_parts(p, c) };
        let before = Storage::<Y>::capacity(&h);
        let r = Storage::<Y>::try_reserve(&mut h, n);
        let after = Storage::<Y>::capacity(&h);
        (before, after, h.into_raw_parts(), r)
    }
    pub fn heap_drop<X>(p: NonNull<X>, c: usize) {
        let h = unsafe { Heap::<X>::from_raw_parts(p, c) };
        drop(h)
    }
    pub fn heap_with_capacity<X, Y>(n: usize) -> (usize, Parts<X>) {
        let h = <Heap<X> as StorageWithCapacity<Y>>::with_capacity(n);
        (Storage::<Y>::capacity(&h), h.into_raw_parts())
    }
    pub fn heap_with_capacity_checked<X, Y>(n: usize, o: Option<usize>) -> (usize, Parts<X>) {
        let h = <Heap<X> as StorageWithCapacity<Y>>::__with_capacity__const_capacity_checked(n, o);
        (Storage::<Y>::capacity(&h), h.into_raw_parts())
    }
    pub fn heap_new<X, Y>() -> (usize, Parts<X>) {
        let h = Heap::<X>::new();
        (Storage::<Y>::capacity(&h), h.into_raw_parts())
    }
    pub fn heap_default<X, Y>() -> (usize, Parts<X>) {
        let h = Heap::<X>::default();
        (Storage::<Y>::capacity(&h), h.into_raw_parts())
    }

    #[cfg(feature = "nightly")]
    mod alloc_in {
        use super::*;
        use std::alloc::Allocator;

        type PartsA<X, A> = (NonNull<X>, usize, A);
        pub fn heapa_queries<X, Y, A: Allocator>(p: NonNull<X>, c: usize, a: A) -> (usize, *const Y, *mut Y, Option<usize>, bool, PartsA<X, A>) {
            let mut h = unsafe { Heap::<X, A>::from_raw_parts_in(p, c, a) };
            let cap = Storage::<Y>::capacity(&h);
            let q = Storage::<Y>::as_ptr(&h);
            let m = Storage::<Y>::as_mut_ptr(&mut h);
            (cap, q, m, <Heap<X, A> as Storage<Y>>::CONST_CAPACITY, <Heap<X, A> as Storage<Y>>::IS_ALIGNED, h.into_raw_parts_with_alloc())
        }
        pub fn heapa_reserve<X, Y, A: Allocator>(p: NonNull<X>, c: usize, n: usize, a: A) -> (usize, usize, PartsA<X, A>) {
            let mut h = unsafe { Heap::<X, A>::from_raw_parts_in(p, c, a) };
            let before = Storage::<Y>::capacity(&h);
            Storage::<Y>::reserve(&mut h, n);
            let after = Storage::<Y>::capacity(&h);
            (before, after, h.into_raw_parts_with_alloc())
        }
        pub fn heapa_try_reserve<X, Y, A: Allocator>(p: NonNull<X>, c: usize, n: usize, a: A) -> (usize, usize, PartsA<X, A>, bool) {
            let mut h = unsafe { Heap::<X, A>::from_raw_parts_in(p, c, a) };
            let before = Storage::<Y>::capacity(&h);
            let r = Storage::<Y>::try_reserve(&mut h, n);
            let after = Storage::<Y>::capacity(&h);
            (before, after, h.into_raw_parts_with_alloc(), r)
        }
        pub fn heapa_drop<X, A: Allocator>(p: NonNull<X>, c: usize, a: A) {
            let h = unsafe { Heap::<X, A>::from_raw_parts_in(p, c, a) };
            drop(h)
        }
        pub fn heapa_with_capacity<X, Y, A: Allocator + Default>(n: usize) -> (usize, PartsA<X, A>) {
            let h = <Heap<X, A> as StorageWithCapacity<Y>>::with_capacity(n);
            (Storage::<Y>::capacity(&h), h.into_raw_parts_with_alloc())
        }
        pub fn heapa_with_alloc<X, Y, A: Allocator>(a: A) -> (usize, PartsA<X, A>) {
            let h = Heap::<X, A>::with_alloc(a);
            (Storage::<Y>::capacity(&h), h.into_raw_parts_with_alloc())
        }
        pub fn heapa_default<X, Y, A: Allocator + Default>() -> (usize, PartsA<X, A>) {
            let h = Heap::<X, A>::default();
            (Storage::<Y>::capacity(&h), h.into_raw_parts_with_alloc())
        }
    }
}
pub fn fixed_queries<Y, W: ?Sized + Storage<Y>>(w: &mut W) -> (usize, *const Y, *mut Y, Option<usize>, bool) {
    (w.capacity(), w.as_ptr(), w.as_mut_ptr(), W::CONST_CAPACITY, W::IS_ALIGNED)
}
pub fn fixed_reserve<Y, W: ?Sized + Storage<Y>>(w: &mut W, n: usize) { w.reserve(n) }
pub fn fixed_try_reserve<Y, W: ?Sized + Storage<Y>>(w: &mut W, n: usize) -> bool { w.try_reserve(n) }
pub fn fixed_with_capacity<Y, W: StorageWithCapacity<Y>>(n: usize) -> W { W::with_capacity(n) }
pub fn fixed_checked<Y, W: StorageWithCapacity<Y>>(n: usize, o: Option<usize>) -> W { W::__with_capacity__const_capacity_checked(n, o) }
pub fn fixed_default<Y, W: Default + Storage<Y>>() -> W { W::default() }
pub fn buffer_capacity<X, Y, Z>() -> usize { generic_vec::raw::UninitBuffer::<X, Z>::capacity::<Y>() }
pub fn zs_new<X>() -> generic_vec::raw::ZeroSized<X> { generic_vec::raw::ZeroSized::<X>::NEW }
pub fn zs_try_new<X>() -> Option<generic_vec::raw::ZeroSized<X>> { generic_vec::raw::ZeroSized::<X>::TRY_NEW }
pub fn type_vec_with_align<Y, X, Z>() -> generic_vec::TypeVec<Y, X, Z> { generic_vec::TypeVec::<Y, X, Z>::with_align() }
pub fn type_vec_new<Y, X>() -> generic_vec::TypeVec<Y, X> { generic_vec::TypeVec::<Y, X>::new() }
pub fn uninit_slice_of<X, Y>(b: &mut [core::mem::MaybeUninit<X>]) -> (usize, *const Y, *mut Y, Option<usize>, bool) {
    let w = generic_vec::raw::UninitSlice::from_mut(b);
    (Storage::<Y>::capacity(w), Storage::<Y>::as_ptr(w), Storage::<Y>::as_mut_ptr(w), <generic_vec::raw::UninitSlice<X> as Storage<Y>>::CONST_CAPACITY,
     <generic_vec::raw::UninitSlice<X> as Storage<Y>>::IS_ALIGNED)
}
pub fn uninit_slice_mut<X>(b: &mut [core::mem::MaybeUninit<X>]) -> &mut [core::mem::MaybeUninit<X>] { unsafe { generic_vec::raw::UninitSlice::from_mut(b).to_mut() } }

// ---- construction and conversion
pub fn with_storage<T, S: Storage<T>>(s: S) -> V<T, S> { GenericVec::with_storage(s) }
pub fn from_raw<T, S: Storage<T>>(n: usize, s: S) -> V<T, S> { unsafe { GenericVec::from_raw_parts(n, s) } }
pub fn storage_ref<T, S: Storage<T>>(v: &V<T, S>) -> &S { v.storage() }
pub fn storage_ref_mut<T, S: Storage<T>>(v: &mut V<T, S>) -> &mut S { unsafe { v.storage_mut() } }
pub fn into_raw<T, S: Storage<T>>(v: V<T, S>) -> (usize, S) { v.into_raw_parts() }
pub fn zs_vec_new<T>() -> generic_vec::ZSVec<T> { generic_vec::ZSVec::new() }
pub fn zs_vec_const<T>() -> generic_vec::ZSVec<T> { generic_vec::ZSVec::NEW }
pub fn slice_vec_new<'a, T>(s: &'a mut [core::mem::MaybeUninit<T>]) -> generic_vec::SliceVec<'a, T> { generic_vec::SliceVec::new(s) }
pub fn init_slice_vec_new<'a, T: Copy>(s: &'a mut [T]) -> generic_vec::InitSliceVec<'a, T> { generic_vec::InitSliceVec::new(s) }
#[cfg(feature = "alloc")]
mod conversions {
    use super::*;
    use generic_vec::HeapVec;
    use std::vec::Vec;

    pub fn heap_vec_new<T>() -> HeapVec<T> { HeapVec::new() }
    pub fn heap_from_vec<T>(v: Vec<T>) -> HeapVec<T> { HeapVec::from(v) }
    pub fn vec_from_heap<T>(v: HeapVec<T>) -> Vec<T> { Vec::from(v) }
    pub fn heap_into_raw<T>(v: HeapVec<T>) -> (usize, (core::ptr::NonNull<T>, usize)) {
        let (n, h) = v.into_raw_parts();
        (n, h.into_raw_parts())
    }
    pub fn heap_from_raw<T>(n: usize, p: core::ptr::NonNull<T>, c: usize) -> HeapVec<T> {
        unsafe { HeapVec::from_raw_parts(n, generic_vec::raw::Heap::from_raw_parts(p, c)) }
    }
    #[cfg(feature = "nightly")]
    mod with_alloc {
        use super::*;
        use std::alloc::Allocator;
        pub fn heap_from_vec_in<T, A: Allocator>(v: Vec<T, A>) -> HeapVec<T, A> { HeapVec::from(v) }
        pub fn vec_from_heap_in<T, A: Allocator>(v: HeapVec<T, A>) -> Vec<T, A> { Vec::from(v) }
        pub fn heap_into_raw_in<T, A: Allocator>(v: HeapVec<T, A>) -> (usize, (core::ptr::NonNull<T>, usize, A)) {
            let (n, h) = v.into_raw_parts();
            (n, h.into_raw_parts_with_alloc())
        }
        pub fn heap_from_raw_in<T, A: Allocator>(n: usize, p: core::ptr::NonNull<T>, c: usize, a: A) -> HeapVec<T, A> {
            unsafe { HeapVec::from_raw_parts(n, generic_vec::raw::Heap::from_raw_parts_in(p, c, a)) }
        }
        pub fn heap_vec_with_alloc<T, A: Allocator>(a: A) -> HeapVec<T, A> { HeapVec::with_alloc(a) }
    }
}
#[cfg(feature = "nightly")]
mod array_conversions {
    use super::*;
    use generic_vec::{ArrayVec, InitArrayVec};
    pub fn array_from<T, const N: usize>(a: [T; N]) -> ArrayVec<T, N> { ArrayVec::from_array(a) }
    pub fn array_from2<T, const N: usize>(a: [T; N]) -> ArrayVec<T, N> { ArrayVec::from(a) }
    pub fn array_into<T, const N: usize>(v: ArrayVec<T, N>) -> [T; N] { v.into_array() }
    pub fn init_array_new<T: Copy, const N: usize>(a: [T; N]) -> InitArrayVec<T, N> { InitArrayVec::new(a) }
    pub fn init_array_from<T: Copy, const N: usize>(a: [T; N]) -> InitArrayVec<T, N> { InitArrayVec::from(a) }
}

// ---- macros and the spare capacity
pub fn gvec_0<T, B: StorageWithCapacity<T>>() -> V<T, B> { generic_vec::gvec![] }
pub fn gvec_1<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f()] }
pub fn gvec_2<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f()] }
pub fn gvec_3<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f(), f()] }
pub fn gvec_4<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f(), f(), f()] }
pub fn gvec_5<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f(), f(), f(), f()] }
pub fn gvec_6<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f(), f(), f(), f(), f()] }
pub fn gvec_7<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f(), f(), f(), f(), f(), f()] }
pub fn gvec_8<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> { generic_vec::gvec![f(), f(), f(), f(), f(), f(), f(), f()] }
pub fn gvec_17<T, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F) -> V<T, B> {
    generic_vec::gvec![f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f(), f()]
}
pub fn gvec_n<T: Clone, B: StorageWithCapacity<T>>(a: T, n: usize) -> V<T, B> { generic_vec::gvec![a; n] }
pub fn gvec_n_expr<T: Clone, B: StorageWithCapacity<T>, F: FnMut() -> T>(mut f: F, n: usize) -> V<T, B> { generic_vec::gvec![f(); { g_left(n); n }] }

fn fill<T, F: FnMut() -> T>(s: &mut generic_vec::SliceVec<'_, T>, f: &mut F) {
    while choose() {
        if s.is_full() {
            break
        }
        s.push(f());
    }
    g_left(s.len());
}
pub fn spare_saved<T, S: Storage<T>, F: FnMut() -> T>(v: &mut V<T, S>, mut f: F) {
    let mut s = v.spare_capacity_mut();
    fill(&mut s, &mut f);
    unsafe { generic_vec::save_spare!(s, v) }
}
pub fn spare_dropped<T, S: Storage<T>, F: FnMut() -> T>(v: &mut V<T, S>, mut f: F) {
    let mut s = v.spare_capacity_mut();
    fill(&mut s, &mut f);
}
pub fn spare_forgotten<T, S: Storage<T>, F: FnMut() -> T>(v: &mut V<T, S>, mut f: F) {
    let mut s = v.spare_capacity_mut();
    fill(&mut s, &mut f);
    forget(s)
}
pub fn spare_shape<T, S: Storage<T>>(v: &mut V<T, S>) -> (usize, usize, *const T) {
    let s = v.spare_capacity_mut();
    (s.len(), s.capacity(), s.as_ptr())
}
