plant("nth-drop-before-advance", "C06", [("src/iter/into_iter.rs", """        let old_index = self.index;
        self.index += n;

        unsafe {
            ptr::drop_in_place(self.vec.get_unchecked_mut(old_index..self.index));
        }
""", """        let new_index = self.index + n;

        unsafe {
            let index = self.index;
            ptr::drop_in_place(self.vec.get_unchecked_mut(index..new_index));
        }

        self.index = new_index;
""")],
"""use generic_vec::{HeapVec, gvec};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static D: AtomicUsize = AtomicUsize::new(0);
struct X(bool);
impl Drop for X { fn drop(&mut self) { D.fetch_add(1, SeqCst); if std::mem::take(&mut self.0) { panic!() } } }
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let v: HeapVec<X> = gvec![X(false), X(true), X(false), X(false)];
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let mut v = v.into_iter(); v.nth(3); }));
    assert_eq!(D.load(SeqCst), 4);
}
""", "a destructor that panics inside nth of the owning iterator", "elements are dropped twice")

plant("box-const-capacity", "C24", [("src/raw.rs", """unsafe impl<T, S: ?Sized + Storage<T>> Storage<T> for Box<S> {
    #[doc(hidden)]
    const CONST_CAPACITY: Option<usize> = S::CONST_CAPACITY;
    const IS_ALIGNED: bool = S::IS_ALIGNED;
""", """unsafe impl<T, S: ?Sized + Storage<T>> Storage<T> for Box<S> {
    const IS_ALIGNED: bool = S::IS_ALIGNED;
""")],
"""use generic_vec::raw::{Storage, UninitBuffer};
fn main() {
    assert_eq!(<Box<UninitBuffer<[u8; 4]>> as Storage<u8>>::CONST_CAPACITY, <UninitBuffer<[u8; 4]> as Storage<u8>>::CONST_CAPACITY);
    let v = generic_vec::GenericVec::<u8, Box<UninitBuffer<[u8; 4]>>>::with_capacity(4);
    assert_eq!(v.capacity(), 4);
}
""", "code that looks at the compile-time capacity of a boxed buffer", "a boxed storage has no compile-time capacity although the storage has one")

plant("borrow-always-aligned", "C18", [("src/raw.rs", """unsafe impl<T, S: ?Sized + Storage<T>> Storage<T> for &mut S {
    #[doc(hidden)]
    const CONST_CAPACITY: Option<usize> = S::CONST_CAPACITY;
    const IS_ALIGNED: bool = S::IS_ALIGNED;""", """unsafe impl<T, S: ?Sized + Storage<T>> Storage<T> for &mut S {
    #[doc(hidden)]
    const CONST_CAPACITY: Option<usize> = S::CONST_CAPACITY;
    const IS_ALIGNED: bool = true;""")],
"""use generic_vec::{raw::UninitBuffer, GenericVec};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(|| {
        let mut b = UninitBuffer::<[u8; 64], u8>::uninit();
        let v = GenericVec::<u64, _>::with_storage(&mut b);
        v.capacity()
    });
    assert!(r.is_err());
}
""", "a vector over a borrowed buffer that is less aligned than the elements", "elements can be placed at misaligned addresses in safe code")

plant("buffer-aligned-by-marker", "C18", [("src/raw/uninit.rs", """    const IS_ALIGNED: bool = align_of::<AlignedBuffer<T, A>>() >= align_of::<U>();""", """    const IS_ALIGNED: bool = align_of::<A>() >= align_of::<U>();""")],
"""use generic_vec::{raw::UninitBuffer, GenericVec};
fn main() {
    let mut v = GenericVec::<u32, UninitBuffer<[u32; 4]>>::default();
    v.push(3);
    assert_eq!(v, [3]);
}
""", "a buffer whose own type has the alignment and not the marker type", "constructing a vector over a sufficiently aligned buffer panics")

plant("capacity-zst-units", "C13", [("src/raw/capacity.rs", """    if size_other == 0 {
        return usize::MAX
    }""", """    if size_self == 0 || size_other == 0 {
        return usize::MAX
    }""")],
"""use generic_vec::{raw::UninitSlice, GenericVec};
fn main() {
    let mut b = [std::mem::MaybeUninit::<()>::uninit(); 4];
    let v = GenericVec::<u8, _>::with_storage(UninitSlice::from_mut(&mut b));
    assert_eq!(v.capacity(), 0);
}
""", "a buffer of zero-sized units used for elements that have a size", "the storage reports the largest integer as its capacity without owning any memory")

plant("cmp-length-first", "C19", [("src/impls.rs", """{ self.as_slice().cmp(other.as_ref()) }""", """{
        let (left, right) = (self.as_slice(), other.as_slice());
        left.iter().zip(right).map(|(a, b)| a.cmp(b)).find(|&o| o != core::cmp::Ordering::Equal).unwrap_or_else(|| right.len().cmp(&left.len()).reverse().then(core::cmp::Ordering::Less))
    }""")],
"""use generic_vec::{HeapVec, gvec};
use std::cmp::Ordering;
fn main() {
    let a: HeapVec<u8> = gvec![1, 2];
    let b: HeapVec<u8> = gvec![1, 2];
    let c: HeapVec<u8> = gvec![1, 2, 3];
    assert_eq!(a.cmp(&c), Ordering::Less);
    assert_eq!(c.cmp(&a), Ordering::Greater);
    assert_eq!(a.cmp(&b), Ordering::Equal);
}
""", "the total order on two equal vectors", "two equal vectors compare as less")

plant("raw-cursor-sync", "C16", [("src/iter/raw_cursor.rs", """unsafe impl<T: Sync, S: ?Sized + Storage<T> + Sync> Sync for RawCursor<'_, T, S> {}""", """unsafe impl<T: Send, S: ?Sized + Storage<T> + Sync> Sync for RawCursor<'_, T, S> {}""")],
"""use generic_vec::HeapVec;
// RawCursor<Cell<u8>> must not be Sync: the inherent constant only exists for Sync types
struct Is<T: ?Sized>(std::marker::PhantomData<T>);
trait No { const SYNC: bool = false; }
impl<T: ?Sized> No for Is<T> {}
impl<T: ?Sized + Sync> Is<T> { const SYNC: bool = true; }
fn main() {
    fn f() -> HeapVec<std::cell::Cell<u8>> { HeapVec::new() }
    let _ = f;
    assert!(!<Is<generic_vec::iter::RawCursor<'static, std::cell::Cell<u8>, generic_vec::raw::Heap<std::cell::Cell<u8>>>>>::SYNC);
    assert!(<Is<generic_vec::iter::RawCursor<'static, u8, generic_vec::raw::Heap<u8>>>>::SYNC);
}
""", "elements that are Send and not Sync", "a cursor over cells can be shared between threads")

plant("gvec-length-twice", "C23", [("src/lib.rs", """#[macro_export]
#[cfg(not(feature = "nightly"))]
macro_rules! gvec {
    ($expr:expr; $n:expr) => {{
        let len = $n;
        let mut vec = $crate::GenericVec::with_capacity(len);
        vec.grow(len, $expr);""", """#[macro_export]
#[cfg(not(feature = "nightly"))]
macro_rules! gvec {
    ($expr:expr; $n:expr) => {{
        let mut vec = $crate::GenericVec::with_capacity($n);
        vec.grow($n, $expr);""")],
"""use generic_vec::{HeapVec, gvec};
fn main() {
    let mut calls = 0;
    let v: HeapVec<u8> = gvec![7; { calls += 1; 3 }];
    assert_eq!((v.len(), calls), (3, 1));
}
""", "a length expression with side effects", "gvec! evaluates the length twice")

plant("cursor-zst-skip-back", "C12", [("src/iter/raw_cursor.rs", """                self.write_back = (self.write_back as usize).wrapping_sub(n) as _;
            } else {
                self.read_back = self.read_back.sub(n);""", """                self.write_back = self.read_back;
            } else {
                self.read_back = self.read_back.sub(n);""")],
"""use generic_vec::ZSVec;
fn main() {
    let mut v = ZSVec::<()>::new();
    v.grow(6, ());
    {
        let mut c = v.cursor(1..5);
        c.take_back();
        c.skip_back();
        c.drop_front();
    }
    assert_eq!(v.len(), 4);
}
""", "zero-sized elements, a skip at the back after an element was taken from the back", "elements appear from nowhere when the cursor ends")

plant("cursor-front-len-exhausted", "C08", [("src/iter/raw_cursor.rs", """    pub fn write_front_len(&self) -> usize {
        if self.is_empty() {
            self.write_len()
        } else if""", """    pub fn write_front_len(&self) -> usize {
        if self.is_empty() && self.write_front == self.read_front {
            self.write_len()
        } else if""")],
"""use generic_vec::{HeapVec, gvec};
fn main() {
    let mut v: HeapVec<u8> = gvec![1, 2, 3, 4];
    let mut c = v.cursor(0..4);
    c.take_front();
    c.take_front();
    c.take_back();
    c.take_back();
    assert_eq!(c.write_front_len(), 4);
}
""", "a cursor emptied from both ends", "too few unfilled slots are reported at the front")

plant("try-insert-capacity", "C07", [("src/lib.rs", """        if self.is_full() || index > self.len() {
            Err(value)""", """        if self.is_full() || index > self.capacity() {
            Err(value)""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::with_capacity(8);
    v.push(1);
    assert!(v.try_insert(5, 9).is_err());
    assert_eq!(v, [1]);
}
""", "an index between length and capacity", "try_insert accepts an index past the end")

plant("range-start-wraps", "C01", [("src/slice.rs", """            .checked_add(1)
            .unwrap_or_else(|| slice_start_index_overflow_fail()),""", """            .wrapping_add(1),""")],
"""use generic_vec::{HeapVec, gvec};
use std::ops::Bound;
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut v: HeapVec<u8> = gvec![1, 2, 3];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { v.drain((Bound::Excluded(usize::MAX), Bound::Unbounded)); }));
    assert!(r.is_err());
    assert_eq!(v, [1, 2, 3]);
}
""", "an excluded start bound of the largest integer", "the range is taken to start at 0")

plant("dedup-previous-read", "C21", [("src/slice.rs", """            let prev_ptr_write = ptr.add(next_write - 1);
            if !same_bucket(&mut *ptr_read, &mut *prev_ptr_write) {
                if next_read != next_write {
                    let ptr_write = prev_ptr_write.offset(1);""", """            let prev_ptr_write = ptr.add(next_write - 1);
            if !same_bucket(&mut *ptr_read, &mut *ptr.add(next_read - 1)) {
                if next_read != next_write {
                    let ptr_write = prev_ptr_write.offset(1);""")],
"""use generic_vec::{HeapVec, gvec};
fn main() {
    let mut v: HeapVec<u8> = gvec![1, 2, 3, 9];
    v.dedup_by(|a, b| *a - *b <= 1);
    assert_eq!(v, [1, 3, 9]);
}
""", "a comparison that is not transitive", "elements are compared with the previous one and not with the last kept one")

plant("heap-grow-additive", "C14", [("src/raw/heap/stable.rs", """            .max(super::INIT_ALLOC_CAPACITY);""", """            .min(new_capacity.saturating_add(64))
            .max(super::INIT_ALLOC_CAPACITY);""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::with_capacity(1000);
    v.resize(1000, 1);
    v.push(2);
    assert!(v.capacity() >= 1250);
}
""", "a vector that has grown past the fixed amount", "the capacity grows by a constant: pushing n elements takes quadratic time")

plant("write-slice-assert", "C22", [("src/iter/raw_cursor.rs", """        let write_back_len = self.write_back_len();
        debug_assert!(
            write_back_len >= slice.len(),""", """        let write_back_len = self.write_back_len();
        debug_assert!(
            write_back_len > slice.len() || slice.is_empty(),""")],
"""use generic_vec::{HeapVec, gvec};
fn main() {
    let mut v: HeapVec<u8> = gvec![1, 2, 3, 4];
    {
        let mut c = v.cursor(1..3);
        c.drop_n_front(2);
        c.write_slice_back(&[8, 9]);
    }
    assert_eq!(v, [1, 8, 9, 4]);
}
""", "all unfilled slots are filled with one slice, debug assertions on", "the debug assertion fires for a slice that fits exactly", opt="-C debug-assertions=on")

plant("spare-unbounded-lifetime", "C17", [("src/lib.rs", """    pub fn spare_capacity_mut(&mut self) -> SliceVec<'_, T> {""", """    pub fn spare_capacity_mut<'a>(&mut self) -> SliceVec<'a, T>
    where
        T: 'a,
    {""")],
"""fn main() {
    // a program that uses the spare capacity after the vector is gone must not compile
    let src = "fn main() { let s; { let mut v = generic_vec::HeapVec::<u8>::with_capacity(4); s = v.spare_capacity_mut(); } drop(s); }";
    let dir = std::path::PathBuf::from(std::env::args().next().unwrap()).parent().unwrap().to_path_buf();
    std::fs::write(dir.join("bad.rs"), src).unwrap();
    let out = std::process::Command::new("rustc").arg("+stable").args(&["--edition", "2018", "--emit=metadata", "--cap-lints", "allow"]).arg(dir.join("bad.rs"))
        .arg("--extern").arg(format!("generic_vec={}", dir.join("libgeneric_vec.rlib").display())).arg("--out-dir").arg(&dir).output().unwrap();
    let e = String::from_utf8_lossy(&out.stderr).to_string();
    assert!(!out.status.success() && e.contains("E0597"), "{}", e);
}
""", "safe code that keeps the spare capacity for longer than the vector", "writes to freed memory are possible in safe code")

plant("split-off-into-len-late", "C06", [("src/lib.rs", """            let slice = self.get_unchecked(index..);
            other.reserve(slice.len());
            other.extend_from_slice_unchecked(slice);
            self.set_len_unchecked(index);""", """            let len = self.len();
            self.set_len_unchecked(index);
            let slice = core::slice::from_raw_parts(self.as_ptr().add(index), len - index);
            other.reserve(slice.len());
            other.extend_from_slice_unchecked(slice);""")],
"""use generic_vec::{HeapVec, TypeVec, gvec};
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut v: HeapVec<String> = gvec!["a".to_string(), "b".to_string(), "c".to_string()];
    let mut small = TypeVec::<String, [String; 1]>::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.split_off_into(1, &mut small)));
    assert!(r.is_err());
    assert_eq!((v.len(), small.len()), (3, 0));
}
""", "a target with too little fixed capacity", "the elements that could not be moved are lost")

plant("clone-from-longer", "C03", [("src/lib.rs", """        // If the `self` is longer than `source`, remove excess
        self.truncate(source.len());
""", """        // If the `self` is longer than `source`, remove excess
        if !source.is_empty() {
            self.truncate(source.len());
        }
        if self.len() > source.len() {
            return
        }
""")],
"""use generic_vec::{HeapVec, gvec};
fn main() {
    let mut v: HeapVec<u8> = gvec![1, 2, 3];
    let e = HeapVec::<u8>::new();
    v.clone_from(&e);
    assert!(v.is_empty());
}
""", "an empty source", "clone_from of an empty source keeps the old elements")

plant("extend-drops-last", "C05", [("src/extension.rs", """            for _ in 1..additional {
                spare.push_unchecked(value.clone());
            }

            spare.push_unchecked(value);
        }
    }
""", """            for _ in 1..additional {
                spare.push_unchecked(value.clone());
            }

            spare.push_unchecked(value);
        }
    } else {
        core::mem::forget(value);
    }
""")],
"""use generic_vec::HeapVec;
use std::rc::Rc;
fn main() {
    let r = Rc::new(());
    let mut v = HeapVec::<Rc<()>>::new();
    v.grow(0, r.clone());
    assert_eq!(Rc::strong_count(&r), 1);
}
""", "growing by zero elements", "the passed value is never dropped")
