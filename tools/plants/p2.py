plant("extend-trusts-hint", "C04", [("src/iter.rs", """        let _ = self.try_reserve(iter.size_hint().0);
        #[allow(clippy::drop_ref)]
        iter.for_each(|item| drop(self.push(item)));""", """        let (lower, upper) = iter.size_hint();
        if self.try_reserve(lower) && Some(lower) == upper {
            // the iterator has exactly as many items as we reserved
            iter.for_each(|item| unsafe { drop(self.push_unchecked(item)) });
            return
        }
        #[allow(clippy::drop_ref)]
        iter.for_each(|item| drop(self.push(item)));""")],
"""use generic_vec::HeapVec;
struct L(u8);
impl Iterator for L {
    type Item = u8;
    fn next(&mut self) -> Option<u8> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (2, Some(2)) }
}
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend(L(9));
    assert!(v.len() <= v.capacity());
    assert_eq!(v.len(), 9);
}
""", "an iterator whose size hint is exact-looking and wrong", "extend writes past the capacity when the iterator yields more than its size hint says")

plant("nth-past-end", "C15", [("src/iter/into_iter.rs", """        unsafe {
            ptr::drop_in_place(self.vec.get_unchecked_mut(old_index..self.index));
        }
""", """        if self.index == self.vec.len() {
            return None
        }

        unsafe {
            ptr::drop_in_place(self.vec.get_unchecked_mut(old_index..self.index));
        }
""")],
"""use generic_vec::HeapVec;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut v = HeapVec::<Rc<()>>::new();
    v.grow(5, r.clone());
    let mut i = v.into_iter();
    i.next();
    assert!(i.nth(10).is_none());
    drop(i);
    assert_eq!(Rc::strong_count(&r), 1);
}
""", "nth with an index past the last remaining element, elements with destructors", "nth past the end leaks the elements that it skips")

plant("grow-with-len-first", "C06", [("src/lib.rs", """        self.reserve(additional);
        let mut writer = self.spare_capacity_mut();

        for _ in 0..additional {
            unsafe {
                writer.push_unchecked(value());
            }
        }

        unsafe {
            save_spare!(writer, self);
        }
""", """        self.reserve(additional);

        for _ in 0..additional {
            unsafe {
                let len = self.len();
                self.set_len_unchecked(len.wrapping_add(1));
                let slot = self.as_mut_ptr().add(len);
                slot.write(value());
            }
        }
""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<Box<u8>>::new();
    let mut n = 0;
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.grow_with(5, || { n += 1; if n == 3 { panic!() } Box::new(n) })));
    let l = v.len();
    std::mem::forget(v);
    assert!(l <= 2, "{}", l);
}
""", "a closure that panics", "when the closure of grow_with panics, the vector counts an element that was never written")

plant("cursor-write-back-exhausted", "C08", [("src/iter/raw_cursor.rs", """        self.is_write_empty() || (self.write_back == self.read_back && !self.is_empty())""",
"""        self.is_write_empty() || self.write_back == self.read_back""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3]);
    let mut c = v.cursor(..);
    c.take_front(); c.take_front(); c.take_front();
    assert!(c.try_write_back(9).is_ok());
    drop(c);
    assert_eq!(&*v, &[9]);
}
""", "a cursor emptied from the front only, then written at the back", "an exhausted cursor with unfilled slots refuses to write at the back")

plant("cursor-reserve-increase", "C08", [("src/iter/raw_cursor.rs", """                let new_len = match len.checked_add(space) {""", """                let new_len = match len.checked_add(space.wrapping_sub(write_space)) {""")],
"""use generic_vec::{GenericVec, raw::UninitBuffer};
fn main() {
    let mut v = GenericVec::<u8, UninitBuffer<[u8; 4]>>::default();
    v.extend_from_slice(&[1, 2, 3, 4]);
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut c = v.cursor(1..3);
        c.take_front(); c.take_front();
        c.reserve(3);
    }));
    assert!(r.is_err());
    assert_eq!(v.len(), 2);
}
""", "a cursor with unfilled slots in a nearly full vector", "RawCursor::reserve doesn't ask the storage for the slots it already has, and moves elements past the capacity")

plant("drain-filter-back-panic", "C09", [("src/iter/drain_filter.rs", """                let value = self.raw.back_mut();

                let on_drop = SetOnDrop(&mut self.panicking);
                let do_take = (self.filter)(value);
                core::mem::forget(on_drop);
""", """                let value = self.raw.back_mut();
                let do_take = (self.filter)(value);
""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3, 4]);
    let mut seen = Vec::new();
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut d = v.drain_filter(.., |x| { seen.push(*x); if seen.len() == 2 { panic!() } true });
        d.next_back();
        d.next_back();
    }));
    assert_eq!(seen, [4, 3]);
}
""", "a predicate that panics while the iterator is used from the back", "after the predicate panicked, the drop of the iterator calls it again for the same and the other elements")

plant("splice-hint-empty", "C10", [("src/iter/splice.rs", """        #[cfg(not(feature = "alloc"))]
        {
            const CAPACITY""", """        // the range was replaced completely, and there is nothing left to insert
        if replace_with.size_hint().0 == 0 {
            return
        }

        #[cfg(not(feature = "alloc"))]
        {
            const CAPACITY""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3, 4]);
    drop(v.splice(1..2, vec![7, 8, 9, 10].into_iter().filter(|x| x % 2 == 1 || *x > 0)));
    assert_eq!(&*v, &[1, 7, 8, 9, 10, 3, 4]);
}
""", "a replacement iterator with a lower size bound of zero that is longer than the range", "splice loses the replacement items that don't fit into the range")

plant("cursor-zst-leak", "C11", [("src/iter/raw_cursor.rs", """            if Self::IS_ZS {
                vec.set_len_unchecked(start);

                Self {""", """            if Self::IS_ZS {
                Self {""")],
"""use generic_vec::ZSVec;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static D: AtomicUsize = AtomicUsize::new(0);
struct Z;
impl Drop for Z { fn drop(&mut self) { D.fetch_add(1, SeqCst); } }
fn main() {
    let mut v = ZSVec::<Z>::new();
    v.grow_with(5, || Z);
    let mut d = v.drain(1..);
    drop(d.next());
    drop(d.next());
    std::mem::forget(d);
    drop(v);
    assert!(D.load(SeqCst) <= 5);
}
""", "a leaked drain of zero-sized elements", "after a drain of zero-sized elements is leaked, the vector drops the yielded elements again")

plant("capacity-wrap", "C13", [("src/raw/capacity.rs", """    if size > usize::MAX as PointerNext {""", """    if size > isize::MAX as PointerNext && size <= usize::MAX as PointerNext {""")],
"""use generic_vec::{GenericVec, raw::Heap};
fn main() {
    let mut v = GenericVec::<[u8; 8], Heap<u8>>::default();
    assert!(!v.try_reserve((1usize << 61) + 1));
    assert!(v.capacity() < 1usize << 61);
}
""", "a request whose size in bytes exceeds the address space", "a request for more bytes than the address space has wraps around and is granted")

plant("heap-capacity-before-failure", "C14", [("src/raw/heap/stable.rs", """        let ptr = match (core::ptr::NonNull::new(ptr), on_failure) {
            (Some(ptr), _) => ptr,
            (None, OnFailure::Abort) => handle_alloc_error(layout),
            (None, OnFailure::Error) => return false,
        };

        self.ptr = ptr.cast();
        self.capacity = new_capacity;
""", """        self.capacity = new_capacity;
        let ptr = match (core::ptr::NonNull::new(ptr), on_failure) {
            (Some(ptr), _) => ptr,
            (None, OnFailure::Abort) => handle_alloc_error(layout),
            (None, OnFailure::Error) => return false,
        };

        self.ptr = ptr.cast();
""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.push(1);
    let c = v.capacity();
    let r = v.try_reserve((1usize << 62) + 5);
    let d = v.capacity();
    std::mem::forget(v);
    assert!(!r);
    assert_eq!(c, d);
}
""", "an allocation that fails", "after a failed try_reserve the heap reports a capacity it doesn't own")

plant("slice-align-by-size", "C18", [("src/raw/slice.rs", """    const IS_ALIGNED: bool = align_of::<T>() >= align_of::<U>();""",
"""    const IS_ALIGNED: bool = align_of::<T>() >= align_of::<U>() || size_of::<T>() == size_of::<U>();""")],
"""use generic_vec::{GenericVec, raw::UninitSlice};
use std::mem::MaybeUninit;
fn main() {
    let mut b = [MaybeUninit::<[u8; 8]>::uninit(); 4];
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let v = GenericVec::<u64, &mut UninitSlice<[u8; 8]>>::with_storage(UninitSlice::from_mut(&mut b));
        drop(v);
    }));
    assert!(r.is_err());
}
""", "a slice of units that are as large as the elements and less aligned", "a vector can be created over a slice that isn't aligned for its elements")

plant("hash-no-length", "C19", [("src/impls.rs", """    fn hash<H: Hasher>(&self, state: &mut H) { self.as_slice().hash(state) }""",
"""    fn hash<H: Hasher>(&self, state: &mut H) { Hash::hash_slice(self.as_slice(), state) }""")],
"""use generic_vec::HeapVec;
use std::collections::HashSet;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2]);
    let mut s = HashSet::new();
    s.insert(v);
    assert!(s.contains(&[1u8, 2][..]));
}
""", "a lookup through Borrow<[T]>, or nested vectors", "a vector hashes differently from the slice it borrows as")

plant("from-vec-empty", "C20", [("src/impls.rs", """        let mut vec = core::mem::ManuallyDrop::new(vec);

        let len = vec.len();
        let cap = vec.capacity();
""", """        if vec.is_empty() {
            return Self::new()
        }

        let mut vec = core::mem::ManuallyDrop::new(vec);

        let len = vec.len();
        let cap = vec.capacity();
""")],
"""use generic_vec::HeapVec;
fn main() {
    let v = Vec::<u8>::with_capacity(100);
    let p = v.as_ptr();
    let h: HeapVec<u8> = v.into();
    assert_eq!(h.capacity(), 100);
    assert_eq!(h.as_ptr(), p);
}
""", "an empty Vec with capacity", "the conversion of an empty Vec loses its memory block and capacity")

plant("dedup-copy-not-swap", "C21", [("src/slice.rs", """                    mem::swap(&mut *ptr_read, &mut *ptr_write);""",
"""                    core::ptr::copy_nonoverlapping(ptr_read, ptr_write, mem::size_of::<T>().min(1));""")],
"""use generic_vec::HeapVec;
use std::rc::Rc;
fn main() {
    let a: Vec<Rc<u8>> = (0..3).map(Rc::new).collect();
    let mut v = HeapVec::<Rc<u8>>::new();
    v.extend_from_slice(&[a[0].clone(), a[0].clone(), a[1].clone(), a[2].clone()]);
    v.dedup_by(|a, b| a == b);
    let n: Vec<usize> = a.iter().map(Rc::strong_count).collect();
    std::mem::forget(v);
    assert_eq!(n, [2, 2, 2]);
}
""", "elements with destructors, a duplicate before other elements", "dedup leaks the duplicates and drops kept elements that are still in the vector")

plant("spare-whole-capacity", "C23", [("src/lib.rs", """                self.storage.as_mut_ptr().add(len).cast(),
                cap.wrapping_sub(len),""", """                self.storage.as_mut_ptr().add(len).cast(),
                cap,""")],
"""use generic_vec::{GenericVec, raw::UninitBuffer};
fn main() {
    let mut v = GenericVec::<u8, UninitBuffer<[u8; 4]>>::default();
    v.push(1);
    assert_eq!(v.spare_capacity_mut().capacity(), 3);
}
""", "a non-empty vector whose spare capacity is filled completely", "the spare capacity extends past the storage")

plant("borrow-reserve-try", "C24", [("src/raw.rs", """unsafe impl<T, S: ?Sized + Storage<T>> Storage<T> for &mut S {
    #[doc(hidden)]
    const CONST_CAPACITY: Option<usize> = S::CONST_CAPACITY;
    const IS_ALIGNED: bool = S::IS_ALIGNED;
    #[inline]
    fn capacity(&self) -> usize { S::capacity(self) }
    #[inline]
    fn as_ptr(&self) -> *const T { S::as_ptr(self) }
    #[inline]
    fn as_mut_ptr(&mut self) -> *mut T { S::as_mut_ptr(self) }
    #[inline]
    fn reserve(&mut self, new_capacity: usize) { S::reserve(self, new_capacity) }
""", """unsafe impl<T, S: ?Sized + Storage<T>> Storage<T> for &mut S {
    #[doc(hidden)]
    const CONST_CAPACITY: Option<usize> = S::CONST_CAPACITY;
    const IS_ALIGNED: bool = S::IS_ALIGNED;
    #[inline]
    fn capacity(&self) -> usize { S::capacity(self) }
    #[inline]
    fn as_ptr(&self) -> *const T { S::as_ptr(self) }
    #[inline]
    fn as_mut_ptr(&mut self) -> *mut T { S::as_mut_ptr(self) }
    #[inline]
    fn reserve(&mut self, new_capacity: usize) {
        if !S::try_reserve(self, new_capacity) {
            S::reserve(self, new_capacity)
        }
    }
""")],
"""use generic_vec::{GenericVec, raw::Storage};
use std::cell::Cell;
struct L<'a>(Cell<u32>, Cell<u32>, &'a mut [u8; 4]);
unsafe impl Storage<u8> for L<'_> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { 4 }
    fn as_ptr(&self) -> *const u8 { self.2.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut u8 { self.2.as_mut_ptr() }
    fn reserve(&mut self, n: usize) { self.0.set(self.0.get() + 1); if n > 4 { panic!() } }
    fn try_reserve(&mut self, n: usize) -> bool { self.1.set(self.1.get() + 1); n <= 4 }
}
fn main() {
    let mut b = [0; 4];
    let mut s = L(Cell::new(0), Cell::new(0), &mut b);
    {
        let mut v = GenericVec::<u8, &mut L>::with_storage(&mut s);
        v.push(1);
        std::panic::set_hook(Box::new(|_| ()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.reserve(9)));
        assert!(r.is_err());
    }
    assert_eq!((s.0.get(), s.1.get()), (1, 0));
}
""", "a storage that counts its requests, or grows differently in try_reserve", "a request to a borrowed storage reaches it as try_reserve, and twice if it is refused")

plant("nth-overflow", "C22", [("src/iter/into_iter.rs", """        let n = self.len().min(n);
        let old_index = self.index;
        self.index += n;
""", """        let old_index = self.index;
        self.index = (self.index + n).min(self.vec.len()).max(old_index);
""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3]);
    let mut i = v.into_iter();
    i.next();
    assert_eq!(i.nth(usize::MAX), None);
}
""", "nth with the largest integer, overflow checks on", "the overflow check fires in nth, which is correct for every argument", opt="-C debug-assertions=on -C overflow-checks=on")

plant("cursor-drop-n-zst", "C12", [("src/iter/raw_cursor.rs", """            let ptr = if Self::IS_ZS {
                self.read_front = (self.read_front as usize).wrapping_add(n) as _;
                Self::ZS_PTR""", """            let ptr = if Self::IS_ZS {
                self.read_front = (self.read_front as usize).wrapping_add(n) as _;
                if n < 2 {
                    return Self::ZS_PTR.drop_in_place()
                }
                Self::ZS_PTR""")],
"""use generic_vec::ZSVec;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static D: AtomicUsize = AtomicUsize::new(0);
struct Z;
impl Drop for Z { fn drop(&mut self) { D.fetch_add(1, SeqCst); } }
fn main() {
    let mut v = ZSVec::<Z>::new();
    v.grow_with(5, || Z);
    v.cursor(..).drop_n_front(0);
    assert_eq!(D.load(SeqCst), 0);
}
""", "dropping zero zero-sized elements", "drop_n_front(0) runs a destructor for zero-sized elements")

plant("try-reserve-sum", "C07", [("src/lib.rs", """    pub fn try_reserve(&mut self, additional: usize) -> bool {
        if self.remaining_capacity() < additional {""", """    pub fn try_reserve(&mut self, additional: usize) -> bool {
        if self.capacity() < self.len().wrapping_add(additional) {""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3]);
    assert!(!v.try_reserve(usize::MAX));
}
""", "a number of additional elements near the largest integer", "try_reserve reports success for an impossible request")

plant("range-end-max", "C01", [("src/slice.rs", """        Bound::Included(end) => end.checked_add(1).unwrap_or_else(|| slice_end_index_overflow_fail()),""",
"""        Bound::Included(end) => end.checked_add(1).unwrap_or(len),""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3]);
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { v.drain(1..=usize::MAX); }));
    assert!(r.is_err());
    assert_eq!(&*v, &[1, 2, 3]);
}
""", "an inclusive range that ends at the largest integer", "a range that is out of bounds removes elements instead of panicking")

SEND = """
struct W<T: ?Sized>(std::marker::PhantomData<T>);
trait No { fn yes() -> bool { false } }
impl<T: ?Sized> No for W<T> {}
impl<T: ?Sized + Send> W<T> { fn yes() -> bool { true } }
"""
plant("raw-cursor-send", "C16", [("src/iter/raw_cursor.rs", """unsafe impl<T: Send, S: ?Sized + Storage<T> + Send> Send for RawCursor<'_, T, S> {}""",
"""unsafe impl<T: Send, S: ?Sized + Storage<T>> Send for RawCursor<'_, T, S> {}""")],
"""use generic_vec::{iter::Cursor, raw::Storage};
use std::rc::Rc;
struct L([u8; 4], Rc<()>);
unsafe impl Storage<u8> for L {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { let _ = &self.1; 4 }
    fn as_ptr(&self) -> *const u8 { self.0.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut u8 { self.0.as_mut_ptr() }
    fn reserve(&mut self, n: usize) { assert!(n <= 4) }
    fn try_reserve(&mut self, n: usize) -> bool { n <= 4 }
}
""" + SEND + """
fn main() {
    assert!(<W<Cursor<'static, u8, &'static mut [u8]>>>::yes());
    assert!(!<W<Cursor<'static, u8, L>>>::yes());
}
""", "a storage that must not be sent to other threads", "a cursor over a storage that isn't Send can be sent to another thread")

plant("storage-mut-safe", "C17", [("src/lib.rs", """    pub unsafe fn storage_mut(&mut self) -> &mut S { &mut self.storage }""",
"""    pub fn storage_mut(&mut self) -> &mut S { &mut self.storage }""")],
"""use generic_vec::{HeapVec, raw::Heap};
struct W<F>(F);
trait No { fn safe(&self) -> bool { false } }
impl<F> No for W<F> {}
impl<F: FnOnce(&'static mut HeapVec<u8>) -> &'static mut Heap<u8>> W<F> { fn safe(&self) -> bool { true } }
fn main() {
    assert!(!W(HeapVec::<u8>::storage_mut).safe());
}
""", "safe code that replaces the storage of a vector", "safe code can swap the storage of a vector under its elements")

plant("skip-n-back-nonoverlapping", "C08", [("src/iter/raw_cursor.rs", """                    self.write_back.copy_from(self.read_back, n);""",
"""                    self.write_back.copy_from_nonoverlapping(self.read_back, n);""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
    let mut c = v.cursor(..);
    c.take_back();
    c.skip_n_back(4);
    drop(c);
    assert_eq!(&*v, &[1, 2, 3, 4, 5]);
}
""", "more elements skipped at the back than there are unfilled slots", "skip_n_back copies overlapping memory with a copy for disjoint memory", opt="-C debug-assertions=on")

plant("drain-nth-back-hint", "C09", [("src/iter/drain.rs", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.raw.len();
        (len, Some(len))
    }
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.raw.len();
        (len, Some(len))
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let n = self.raw.len().min(n);
        unsafe {
            self.raw.skip_n_front(n);
        }
        self.next()
    }
""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3, 4, 5, 6]);
    assert_eq!(v.drain(1..5).nth(1), Some(3));
    assert_eq!(&*v, &[1, 6]);
}
""", "nth on a drain", "nth of drain keeps the elements that it skips in the vector")
