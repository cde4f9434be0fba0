//! Models of standard library functions that only combine other functions.
//! `Type__method` stands for `Type::method`, `Trait__method` for a trait method
//! (generic parameter Self first).
#![no_std]
#![allow(non_snake_case, unused, dead_code, clippy::all)]
extern crate alloc;
pub fn collect_vec<T, I: Iterator<Item = T>>(mut it: I) -> alloc::vec::Vec<T> { let mut v = alloc::vec::Vec::new(); loop { match it.next() { Some(x) => v.push(x), None => return v } } }
pub fn Option__unwrap<T>(o: Option<T>) -> T { match o { Some(v) => v, None => panic!() } }
pub fn Option__expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(v) => v, None => panic!() } }
pub fn Option__unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(v) => v, None => d } }
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(v) => v, None => f() } }
pub fn Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(v) => Some(f(v)), None => None } }
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(v) => f(v), None => d } }
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(v) => f(v), None => d() } }
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(v) => f(v), None => None } }
pub fn Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(v) => Ok(v), None => Err(e) } }
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(v) => Ok(v), None => Err(f()) } }
pub fn Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(v) => if f(&v) { Some(v) } else { None }, None => None } }
pub fn Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(v) => f(v), None => false } }
pub fn Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(v) => f(v), None => true } }
pub fn Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(v) => Some(v), None => p } }
pub fn Result__ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
pub fn Result__err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(v) => v, Err(_) => panic!() } }
pub fn Result__expect<T, E>(r: Result<T, E>, _m: &str) -> T { match r { Ok(v) => v, Err(_) => panic!() } }
pub fn Result__unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(v) => v, Err(_) => d } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(v) => v, Err(e) => f(e) } }
pub fn Result__map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(v) => Ok(f(v)), Err(e) => Err(e) } }
pub fn Result__map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(v) => Ok(v), Err(e) => Err(f(e)) } }
pub fn Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(v) => f(v), Err(e) => Err(e) } }
pub fn option_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(v) => Some(v.clone()), None => None } }
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(v) => Some(v), None => f() } }
pub fn Option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn Option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(v) => match p { Some(_) => None, None => Some(v) }, None => p } }
pub fn Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(v) => match p { Some(w) => Some((v, w)), None => None }, None => None } }
pub fn Option__flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(v) => v, None => None } }
pub unsafe fn Option__unwrap_unchecked<T>(o: Option<T>) -> T { match o { Some(v) => v, None => core::hint::unreachable_unchecked() } }
pub fn Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn Result__or_else<T, E, F, O: FnOnce(E) -> Result<T, F>>(r: Result<T, E>, f: O) -> Result<T, F> { match r { Ok(v) => Ok(v), Err(e) => f(e) } }
pub fn Result__map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(v) => f(v), Err(_) => d } }
pub fn Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(v) => f(v), Err(e) => d(e) } }
pub fn Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(v) => f(v), Err(_) => false } }
pub fn Result__is_err_and<T, E, F: FnOnce(E) -> bool>(r: Result<T, E>, f: F) -> bool { match r { Ok(_) => false, Err(e) => f(e) } }
pub fn Result__unwrap_err<T, E>(r: Result<T, E>) -> E { match r { Ok(_) => panic!(), Err(e) => e } }
pub fn Result__expect_err<T, E>(r: Result<T, E>, _m: &str) -> E { match r { Ok(_) => panic!(), Err(e) => e } }
pub unsafe fn Result__unwrap_unchecked<T, E>(r: Result<T, E>) -> T { match r { Ok(v) => v, Err(_) => core::hint::unreachable_unchecked() } }
pub fn bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool__then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
pub fn usize__div_ceil(a: usize, b: usize) -> usize { let q = a / b; if a % b > 0 { q + 1 } else { q } }
pub fn usize__checked_div(a: usize, b: usize) -> Option<usize> { if b == 0 { None } else { Some(a / b) } }
pub fn usize__checked_rem(a: usize, b: usize) -> Option<usize> { if b == 0 { None } else { Some(a % b) } }
pub fn usize__is_multiple_of(a: usize, b: usize) -> bool { if b == 0 { a == 0 } else { a % b == 0 } }
pub fn usize__next_multiple_of(a: usize, b: usize) -> usize { let r = a % b; if r == 0 { a } else { a + (b - r) } }
pub unsafe fn usize__unchecked_add(a: usize, b: usize) -> usize { a.wrapping_add(b) }
pub unsafe fn usize__unchecked_sub(a: usize, b: usize) -> usize { a.wrapping_sub(b) }
pub unsafe fn usize__unchecked_mul(a: usize, b: usize) -> usize { a.wrapping_mul(b) }
pub fn Ord__clamp<Self_: Ord>(x: Self_, lo: Self_, hi: Self_) -> Self_ { x.max(lo).min(hi) }
pub fn slice__split_first<T>(s: &[T]) -> Option<(&T, &[T])> { if s.len() == 0 { None } else { let (a, b) = s.split_at(1); Some((&a[0], b)) } }
pub fn slice__split_last<T>(s: &[T]) -> Option<(&T, &[T])> { if s.len() == 0 { None } else { let (a, b) = s.split_at(s.len() - 1); Some((&b[0], a)) } }
pub fn slice__split_first_mut<T>(s: &mut [T]) -> Option<(&mut T, &mut [T])> { if s.len() == 0 { None } else { let (a, b) = s.split_at_mut(1); Some((&mut a[0], b)) } }
pub fn slice__split_last_mut<T>(s: &mut [T]) -> Option<(&mut T, &mut [T])> { if s.len() == 0 { None } else { let n = s.len() - 1; let (a, b) = s.split_at_mut(n); Some((&mut b[0], a)) } }
pub fn slice__swap_with_slice<T>(a: &mut [T], b: &mut [T]) { if a.len() != b.len() { panic!() } let mut i = 0usize; while i < a.len() { core::mem::swap(&mut a[i], &mut b[i]); i = i.wrapping_add(1); } }
pub fn Iterator__rfind<Self_: DoubleEndedIterator, F: FnMut(&Self_::Item) -> bool>(it: &mut Self_, mut f: F) -> Option<Self_::Item> { loop { match it.next_back() { Some(v) => if f(&v) { return Some(v) }, None => return None } } }
pub fn DoubleEndedIterator__rfind<Self_: DoubleEndedIterator, F: FnMut(&Self_::Item) -> bool>(it: &mut Self_, mut f: F) -> Option<Self_::Item> { loop { match it.next_back() { Some(v) => if f(&v) { return Some(v) }, None => return None } } }
pub fn Iterator__reduce<Self_: Iterator, F: FnMut(Self_::Item, Self_::Item) -> Self_::Item>(mut it: Self_, f: F) -> Option<Self_::Item> { match it.next() { Some(a) => Some(it.fold(a, f)), None => None } }
pub fn Iterator__for_each<Self_: Iterator, F: FnMut(Self_::Item)>(it: Self_, mut f: F) { it.fold((), |_, v| f(v)) }
pub fn Iterator__fold<Self_: Iterator, B, F: FnMut(B, Self_::Item) -> B>(mut it: Self_, init: B, mut f: F) -> B { let mut b = init; loop { match it.next() { Some(v) => b = f(b, v), None => return b } } }
pub fn Iterator__count<Self_: Iterator>(it: Self_) -> usize { it.fold(0usize, |n, _| n.wrapping_add(1)) }
pub fn DoubleEndedIterator__rfold<Self_: DoubleEndedIterator, B, F: FnMut(B, Self_::Item) -> B>(mut it: Self_, init: B, mut f: F) -> B { let mut b = init; loop { match it.next_back() { Some(v) => b = f(b, v), None => return b } } }
pub fn Iterator__last<Self_: Iterator>(it: Self_) -> Option<Self_::Item> { it.fold(None, |_, v| Some(v)) }
pub fn Iterator__nth<Self_: Iterator>(it: &mut Self_, n: usize) -> Option<Self_::Item> { let mut k = 0; while k < n { match it.next() { Some(_) => k += 1, None => return None } } it.next() }
pub fn DoubleEndedIterator__nth_back<Self_: DoubleEndedIterator>(it: &mut Self_, n: usize) -> Option<Self_::Item> { let mut k = 0; while k < n { match it.next_back() { Some(_) => k += 1, None => return None } } it.next_back() }
pub fn ExactSizeIterator__len<Self_: Iterator>(it: &Self_) -> usize { it.size_hint().0 }
pub fn ExactSizeIterator__is_empty<Self_: Iterator>(it: &Self_) -> bool { it.size_hint().0 == 0 }
pub fn slice__clone_from_slice<T: Clone>(d: &mut [T], s: &[T]) {
    if d.len() != s.len() { panic!() }
    let mut i = 0usize;
    while i < s.len() {
        let v = s[i].clone();
        d[i] = v;
        i = i.wrapping_add(1);
    }
}
pub fn PartialEq__ne<Self_: ?Sized + PartialEq<R>, R: ?Sized>(a: &Self_, b: &R) -> bool { !a.eq(b) }
pub fn PartialOrd__lt<Self_: ?Sized + PartialOrd<R>, R: ?Sized>(a: &Self_, b: &R) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Less) => true, _ => false } }
pub fn PartialOrd__gt<Self_: ?Sized + PartialOrd<R>, R: ?Sized>(a: &Self_, b: &R) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Greater) => true, _ => false } }
pub fn PartialOrd__le<Self_: ?Sized + PartialOrd<R>, R: ?Sized>(a: &Self_, b: &R) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Less) | Some(core::cmp::Ordering::Equal) => true, _ => false } }
pub fn PartialOrd__ge<Self_: ?Sized + PartialOrd<R>, R: ?Sized>(a: &Self_, b: &R) -> bool { match a.partial_cmp(b) { Some(core::cmp::Ordering::Greater) | Some(core::cmp::Ordering::Equal) => true, _ => false } }
pub fn Ordering__reverse(o: core::cmp::Ordering) -> core::cmp::Ordering { match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less } }
pub fn Ordering__then(o: core::cmp::Ordering, p: core::cmp::Ordering) -> core::cmp::Ordering { match o { core::cmp::Ordering::Equal => p, _ => o } }
pub fn Ordering__then_with<F: FnOnce() -> core::cmp::Ordering>(o: core::cmp::Ordering, f: F) -> core::cmp::Ordering { match o { core::cmp::Ordering::Equal => f(), _ => o } }
pub fn Ordering__is_eq(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Equal => true, _ => false } }
pub fn Ordering__is_ne(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Equal => false, _ => true } }
pub fn Ordering__is_lt(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Less => true, _ => false } }
pub fn Ordering__is_gt(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Greater => true, _ => false } }
pub fn Ordering__is_le(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Greater => false, _ => true } }
pub fn Ordering__is_ge(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Less => false, _ => true } }
pub fn Iterator__all<Self_: Iterator, F: FnMut(Self_::Item) -> bool>(it: &mut Self_, mut f: F) -> bool { loop { match it.next() { Some(v) => if !f(v) { return false }, None => return true } } }
pub fn Iterator__any<Self_: Iterator, F: FnMut(Self_::Item) -> bool>(it: &mut Self_, mut f: F) -> bool { loop { match it.next() { Some(v) => if f(v) { return true }, None => return false } } }
pub fn Iterator__find<Self_: Iterator, F: FnMut(&Self_::Item) -> bool>(it: &mut Self_, mut f: F) -> Option<Self_::Item> { loop { match it.next() { Some(v) => if f(&v) { return Some(v) }, None => return None } } }
pub fn Iterator__find_map<Self_: Iterator, B, F: FnMut(Self_::Item) -> Option<B>>(it: &mut Self_, mut f: F) -> Option<B> { loop { match it.next() { Some(v) => match f(v) { Some(b) => return Some(b), None => {} }, None => return None } } }
pub fn Iterator__position<Self_: Iterator, F: FnMut(Self_::Item) -> bool>(it: &mut Self_, mut f: F) -> Option<usize> { let mut n = 0usize; loop { match it.next() { Some(v) => { if f(v) { return Some(n) } n = n.wrapping_add(1); } None => return None } } }
pub fn Iterator__eq<Self_: Iterator, I: IntoIterator>(mut a: Self_, b: I) -> bool where Self_::Item: PartialEq<I::Item> {
    let mut b = b.into_iter();
    loop { match a.next() { None => return match b.next() { None => true, Some(_) => false }, Some(x) => match b.next() { None => return false, Some(y) => if !x.eq(&y) { return false } } } }
}
pub fn Iterator__ne<Self_: Iterator, I: IntoIterator>(mut a: Self_, b: I) -> bool where Self_::Item: PartialEq<I::Item> {
    let mut b = b.into_iter();
    loop { match a.next() { None => return match b.next() { None => false, Some(_) => true }, Some(x) => match b.next() { None => return true, Some(y) => if !x.eq(&y) { return true } } } }
}
pub fn Iterator__cmp<Self_: Iterator, I: IntoIterator<Item = Self_::Item>>(mut a: Self_, b: I) -> core::cmp::Ordering where Self_::Item: Ord {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return match b.next() { None => core::cmp::Ordering::Equal, Some(_) => core::cmp::Ordering::Less },
            Some(x) => match b.next() { None => return core::cmp::Ordering::Greater, Some(y) => match x.cmp(&y) { core::cmp::Ordering::Equal => {} o => return o } },
        }
    }
}
pub fn Iterator__partial_cmp<Self_: Iterator, I: IntoIterator>(mut a: Self_, b: I) -> Option<core::cmp::Ordering> where Self_::Item: PartialOrd<I::Item> {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return match b.next() { None => Some(core::cmp::Ordering::Equal), Some(_) => Some(core::cmp::Ordering::Less) },
            Some(x) => match b.next() { None => return Some(core::cmp::Ordering::Greater), Some(y) => match x.partial_cmp(&y) { Some(core::cmp::Ordering::Equal) => {} o => return o } },
        }
    }
}
pub fn DebugList__entries<'a, 'b, 'c, D: core::fmt::Debug, I: IntoIterator<Item = D>>(b: &'c mut core::fmt::DebugList<'a, 'b>, it: I) -> &'c mut core::fmt::DebugList<'a, 'b> { let mut it = it.into_iter(); loop { match it.next() { Some(v) => { b.entry(&v); } None => return b } } }
pub fn DebugSet__entries<'a, 'b, 'c, D: core::fmt::Debug, I: IntoIterator<Item = D>>(b: &'c mut core::fmt::DebugSet<'a, 'b>, it: I) -> &'c mut core::fmt::DebugSet<'a, 'b> { let mut it = it.into_iter(); loop { match it.next() { Some(v) => { b.entry(&v); } None => return b } } }

// ---- iterator adaptors (engine/world.py maps the std names to these)
pub struct ZipM<A, B> { a: A, b: B }
pub struct MapM<I, F> { it: I, f: F }
pub struct FilterM<I, F> { it: I, f: F }
pub struct EnumerateM<I> { it: I, n: usize }
pub struct RevM<I> { it: I }
pub struct TakeM<I> { it: I, n: usize }
pub struct SkipM<I> { it: I, n: usize }
pub struct TakeWhileM<I, F> { it: I, f: F, done: bool }
pub struct ChainM<A, B> { a: A, b: B, first: bool }
pub struct RepeatWithM<F> { f: F }
pub struct FuseM<I> { it: I, done: bool }
pub struct PeekableM<I: Iterator> { it: I, peeked: Option<Option<I::Item>> }
pub struct StepByM<I> { it: I, step: usize, first: bool }
pub struct SkipWhileM<I, F> { it: I, f: F, done: bool }
pub struct InspectM<I, F> { it: I, f: F }
pub struct MapWhileM<I, F> { it: I, f: F }
pub struct FilterMapM<I, F> { it: I, f: F }
pub struct ScanM<I, B, F> { it: I, b: B, f: F }
pub struct OnceM<T> { v: Option<T> }
pub struct FromFnM<F> { f: F }
pub fn Iterator__fuse<Self_: Iterator>(it: Self_) -> FuseM<Self_> { FuseM { it, done: false } }
pub fn Iterator__peekable<Self_: Iterator>(it: Self_) -> PeekableM<Self_> { PeekableM { it, peeked: None } }
pub fn Iterator__step_by<Self_: Iterator>(it: Self_, step: usize) -> StepByM<Self_> { if step == 0 { panic!() } StepByM { it, step: step - 1, first: true } }
pub fn Iterator__skip_while<Self_: Iterator, F: FnMut(&Self_::Item) -> bool>(it: Self_, f: F) -> SkipWhileM<Self_, F> { SkipWhileM { it, f, done: false } }
pub fn Iterator__inspect<Self_: Iterator, F: FnMut(&Self_::Item)>(it: Self_, f: F) -> InspectM<Self_, F> { InspectM { it, f } }
pub fn Iterator__map_while<Self_: Iterator, B, F: FnMut(Self_::Item) -> Option<B>>(it: Self_, f: F) -> MapWhileM<Self_, F> { MapWhileM { it, f } }
pub fn Iterator__filter_map<Self_: Iterator, B, F: FnMut(Self_::Item) -> Option<B>>(it: Self_, f: F) -> FilterMapM<Self_, F> { FilterMapM { it, f } }
pub fn Iterator__scan<Self_: Iterator, S, B, F: FnMut(&mut S, Self_::Item) -> Option<B>>(it: Self_, b: S, f: F) -> ScanM<Self_, S, F> { ScanM { it, b, f } }
pub fn iter__once<T>(v: T) -> OnceM<T> { OnceM { v: Some(v) } }
pub fn iter__from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFnM<F> { FromFnM { f } }
pub fn iter__zip<A: IntoIterator, B: IntoIterator>(a: A, b: B) -> ZipM<A::IntoIter, B::IntoIter> { ZipM { a: a.into_iter(), b: b.into_iter() } }
pub fn Peekable__peek<I: Iterator>(p: &mut PeekableM<I>) -> Option<&I::Item> { if p.peeked.is_none() { let v = p.it.next(); p.peeked = Some(v); } match &p.peeked { Some(Some(v)) => Some(v), _ => None } }
impl<I: Iterator> Iterator for FuseM<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.done { return None } match self.it.next() { Some(v) => Some(v), None => { self.done = true; None } } }
    fn size_hint(&self) -> (usize, Option<usize>) { if self.done { (0, Some(0)) } else { self.it.size_hint() } }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for FuseM<I> {
    fn next_back(&mut self) -> Option<I::Item> { if self.done { return None } match self.it.next_back() { Some(v) => Some(v), None => { self.done = true; None } } }
}
impl<I: Iterator> Iterator for PeekableM<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.peeked.take() { Some(v) => v, None => self.it.next() } }
}
impl<I: Iterator> Iterator for StepByM<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.first { self.first = false; self.it.next() } else { self.it.nth(self.step) } }
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhileM<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(v) => { if self.done { return Some(v) } if !(self.f)(&v) { self.done = true; return Some(v) } } None => return None } } }
}
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for InspectM<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(v) => { (self.f)(&v); Some(v) } None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhileM<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(v) => (self.f)(v), None => None } }
}
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMapM<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { loop { match self.it.next() { Some(v) => match (self.f)(v) { Some(b) => return Some(b), None => {} }, None => return None } } }
}
impl<S, B, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for ScanM<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(v) => (self.f)(&mut self.b, v), None => None } }
}
impl<T> Iterator for OnceM<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.v.take() }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = if self.v.is_some() { 1 } else { 0 }; (n, Some(n)) }
}
impl<T, F: FnMut() -> Option<T>> Iterator for FromFnM<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> { (self.f)() }
}
pub fn Iterator__zip<Self_: Iterator, U: IntoIterator>(a: Self_, b: U) -> ZipM<Self_, U::IntoIter> { ZipM { a, b: b.into_iter() } }
pub fn Iterator__map<Self_: Iterator, B, F: FnMut(Self_::Item) -> B>(it: Self_, f: F) -> MapM<Self_, F> { MapM { it, f } }
pub fn Iterator__filter<Self_: Iterator, F: FnMut(&Self_::Item) -> bool>(it: Self_, f: F) -> FilterM<Self_, F> { FilterM { it, f } }
pub fn Iterator__enumerate<Self_: Iterator>(it: Self_) -> EnumerateM<Self_> { EnumerateM { it, n: 0 } }
pub fn Iterator__rev<Self_: DoubleEndedIterator>(it: Self_) -> RevM<Self_> { RevM { it } }
pub fn Iterator__take<Self_: Iterator>(it: Self_, n: usize) -> TakeM<Self_> { TakeM { it, n } }
pub fn Iterator__skip<Self_: Iterator>(it: Self_, n: usize) -> SkipM<Self_> { SkipM { it, n } }
pub fn Iterator__take_while<Self_: Iterator, F: FnMut(&Self_::Item) -> bool>(it: Self_, f: F) -> TakeWhileM<Self_, F> { TakeWhileM { it, f, done: false } }
pub fn Iterator__chain<Self_: Iterator, U: IntoIterator<Item = Self_::Item>>(a: Self_, b: U) -> ChainM<Self_, U::IntoIter> { ChainM { a, b: b.into_iter(), first: true } }
pub fn iter__repeat_with<A, F: FnMut() -> A>(f: F) -> RepeatWithM<F> { RepeatWithM { f } }
impl<A: Iterator, B: Iterator> Iterator for ZipM<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<Self::Item> {
        match self.a.next() { None => None, Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) } }
    }
}
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for MapM<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(v) => Some((self.f)(v)), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for MapM<I, F> {
    fn next_back(&mut self) -> Option<B> { match self.it.next_back() { Some(v) => Some((self.f)(v)), None => None } }
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for FilterM<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.it.next() { Some(v) => if (self.f)(&v) { return Some(v) }, None => return None } } }
}
impl<I: Iterator> Iterator for EnumerateM<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> { match self.it.next() { Some(v) => { let n = self.n; self.n = n + 1; Some((n, v)) } None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<I: DoubleEndedIterator> Iterator for RevM<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next_back() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for RevM<I> {
    fn next_back(&mut self) -> Option<I::Item> { self.it.next() }
}
impl<I: Iterator> Iterator for TakeM<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n == 0 { None } else { self.n -= 1; self.it.next() } }
}
impl<I: Iterator> Iterator for SkipM<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { while self.n > 0 { self.n -= 1; match self.it.next() { Some(_) => (), None => return None } } self.it.next() }
}
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhileM<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None }
        match self.it.next() { Some(v) => if (self.f)(&v) { Some(v) } else { self.done = true; None }, None => None }
    }
}
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for ChainM<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.first { match self.a.next() { Some(v) => return Some(v), None => self.first = false } }
        self.b.next()
    }
}
impl<A, F: FnMut() -> A> Iterator for RepeatWithM<F> {
    type Item = A;
    fn next(&mut self) -> Option<A> { Some((self.f)()) }
}
