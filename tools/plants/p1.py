plant("swap-remove-cap", "C07", [("src/lib.rs", """        if index < self.len() {
            // Safety
            //
            // * we verify that the index is in bounds
            unsafe { Some(self.swap_remove_unchecked(index)) }""", """        if index < self.len() || (index == 0 && self.is_full()) {
            // Safety
            //
            // * we verify that the index is in bounds
            unsafe { Some(self.swap_remove_unchecked(index)) }""")],
"""use generic_vec::{raw::UninitBuffer, GenericVec};
fn main() {
    let mut v = GenericVec::<u8, UninitBuffer<[u8; 0]>>::default();
    assert!(v.try_swap_remove(0).is_none());
}
""", "an empty vector whose capacity is zero", "try_swap_remove(0) of an empty vector of capacity zero panics or returns an element that doesn't exist")

plant("remove-array-one", "C02", [("src/lib.rs", """            if N != 0 {
                ptr.copy_from(ptr.add(N)""", """            if N > 1 {
                ptr.copy_from(ptr.add(N)""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3, 4]);
    assert_eq!(v.remove_array::<1>(1), [2]);
    assert_eq!(&*v, &[1, 3, 4]);
}
""", "arrays of exactly one element, not at the end", "remove_array::<1> leaves the removed element in place and loses the last one", nightly=True)

plant("truncate-zst", "C12", [("src/lib.rs", """        if let Some(diff) = self.len().checked_sub(len) {""", """        if core::mem::size_of::<T>() == 0 && len <= self.len() {
            // zero-sized elements occupy no memory
            unsafe { self.set_len_unchecked(len) }
        } else if let Some(diff) = self.len().checked_sub(len) {""")],
"""use generic_vec::ZSVec;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static D: AtomicUsize = AtomicUsize::new(0);
struct Z;
impl Drop for Z { fn drop(&mut self) { D.fetch_add(1, SeqCst); } }
fn main() {
    let mut v = ZSVec::<Z>::new();
    v.grow_with(5, || Z);
    v.truncate(2);
    assert_eq!(D.load(SeqCst), 3);
}
""", "a zero-sized element type with a destructor", "truncate and clear don't run the destructors of zero-sized elements")

plant("remove-array-empty-assert", "C22", [("src/lib.rs", """        debug_assert!(
            index <= len,
            "Tried to remove elements at""", """        debug_assert!(
            index < len,
            "Tried to remove elements at""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2]);
    assert_eq!(v.remove_array::<0>(2), []);
    assert_eq!(&*v, &[1, 2]);
}
""", "an empty array at the end of the vector, debug assertions on", "the debug assertion of remove_array_unchecked fires for an operation that is within bounds", nightly=True, opt="-C debug-assertions=on")

plant("insert-reserve-first", "C01", [("src/lib.rs", """        if index > self.len() {
            insert_fail(index, self.len())
        }

        if self.is_full() {
            self.reserve(1);
        }
""", """        if self.is_full() {
            self.reserve(1);
        }

        if index > self.len() {
            insert_fail(index, self.len())
        }
""")],
"""use generic_vec::HeapVec;
fn main() {
    let mut v = HeapVec::<u8>::new();
    v.extend_from_slice(&[1, 2, 3]);
    while v.len() < v.capacity() { v.push(0); }
    let c = v.capacity();
    let i = v.len() + 1;
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { v.insert(i, 1); }));
    assert!(r.is_err());
    assert_eq!(v.capacity(), c);
}
""", "an index out of bounds for a full vector", "a rejected insertion grows the vector")
