//# name: unsafe.set_len_unchecked   prop: C17   lanes: all   expect: E0133
//? calling set_len_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.set_len_unchecked(1); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.set_len_unchecked(1); }
//= end
//# name: unsafe.storage_mut   prop: C17   lanes: all   expect: E0133
//? calling storage_mut outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.storage_mut(); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.storage_mut(); }
//= end
//# name: unsafe.push_unchecked   prop: C17   lanes: all   expect: E0133
//? calling push_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.push_unchecked(x); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.push_unchecked(x); }
//= end
//# name: unsafe.insert_unchecked   prop: C17   lanes: all   expect: E0133
//? calling insert_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.insert_unchecked(0, x); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.insert_unchecked(0, x); }
//= end
//# name: unsafe.pop_unchecked   prop: C17   lanes: all   expect: E0133
//? calling pop_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.pop_unchecked(); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.pop_unchecked(); }
//= end
//# name: unsafe.remove_unchecked   prop: C17   lanes: all   expect: E0133
//? calling remove_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.remove_unchecked(0); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.remove_unchecked(0); }
//= end
//# name: unsafe.swap_remove_unchecked   prop: C17   lanes: all   expect: E0133
//? calling swap_remove_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { unsafe { let _ = v.swap_remove_unchecked(0); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: T) { let _ = v.swap_remove_unchecked(0); }
//= end
//# name: unsafe.extend_from_slice_unchecked   prop: C17   lanes: all   expect: E0133
//? calling extend_from_slice_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: &[T]) { unsafe { let _ = v.extend_from_slice_unchecked(x); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: &[T]) { let _ = v.extend_from_slice_unchecked(x); }
//= end
//# name: unsafe.push_array_unchecked   prop: C17   lanes: nightly   expect: E0133
//? calling push_array_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: [T; 2]) { unsafe { let _ = v.push_array_unchecked(x); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: [T; 2]) { let _ = v.push_array_unchecked(x); }
//= end
//# name: unsafe.insert_array_unchecked   prop: C17   lanes: nightly   expect: E0133
//? calling insert_array_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: [T; 2]) { unsafe { let _ = v.insert_array_unchecked(0, x); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, x: [T; 2]) { let _ = v.insert_array_unchecked(0, x); }
//= end
//# name: unsafe.pop_array_unchecked   prop: C17   lanes: nightly   expect: E0133
//? calling pop_array_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) { unsafe { let _ = v.pop_array_unchecked::<2>(); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) { let _ = v.pop_array_unchecked::<2>(); }
//= end
//# name: unsafe.remove_array_unchecked   prop: C17   lanes: nightly   expect: E0133
//? calling remove_array_unchecked outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) { unsafe { let _ = v.remove_array_unchecked::<2>(0); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>) { let _ = v.remove_array_unchecked::<2>(0); }
//= end
//# name: unsafe.from_raw_parts   prop: C17   lanes: all   expect: E0133
//? calling from_raw_parts outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(s: S) { unsafe { let _ = GenericVec::<T, S>::from_raw_parts(1, s); } }
//- bad
pub fn f<T, S: Storage<T>>(s: S) { let _ = GenericVec::<T, S>::from_raw_parts(1, s); }
//= end
//# name: unsafe.uninit_slice_to_mut   prop: C17   lanes: all   expect: E0133
//? calling uninit_slice_to_mut outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T>(s: &mut UninitSlice<T>) { unsafe { let _ = s.to_mut(); } }
//- bad
pub fn f<T>(s: &mut UninitSlice<T>) { let _ = s.to_mut(); }
//= end
//# name: unsafe.heap_from_raw_parts   prop: C17   lanes: std   expect: E0133
//? calling heap_from_raw_parts outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T>(p: core::ptr::NonNull<T>) { unsafe { let _ = Heap::from_raw_parts(p, 1); } }
//- bad
pub fn f<T>(p: core::ptr::NonNull<T>) { let _ = Heap::from_raw_parts(p, 1); }
//= end
//# name: unsafe.heap_from_raw_parts_in   prop: C17   lanes: nightly   expect: E0133
//? calling heap_from_raw_parts_in outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, A: std::alloc::Allocator>(p: core::ptr::NonNull<T>, a: A) { unsafe { let _ = Heap::from_raw_parts_in(p, 1, a); } }
//- bad
pub fn f<T, A: std::alloc::Allocator>(p: core::ptr::NonNull<T>, a: A) { let _ = Heap::from_raw_parts_in(p, 1, a); }
//= end
//# name: unsafe.save_spare   prop: C17   lanes: all   expect: E0133
//? calling save_spare outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, s: SliceVec<'_, T>) { unsafe { let _ = save_spare!(s, v); } }
//- bad
pub fn f<T, S: Storage<T>>(v: &mut GenericVec<T, S>, s: SliceVec<'_, T>) { let _ = save_spare!(s, v); }
//= end
//# name: unsafe.raw_cursor.front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.front(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.front(); }
//= end
//# name: unsafe.raw_cursor.front_mut   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.front_mut outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.front_mut(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.front_mut(); }
//= end
//# name: unsafe.raw_cursor.back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.back(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.back(); }
//= end
//# name: unsafe.raw_cursor.back_mut   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.back_mut outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.back_mut(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.back_mut(); }
//= end
//# name: unsafe.raw_cursor.take_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.take_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.take_front(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.take_front(); }
//= end
//# name: unsafe.raw_cursor.take_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.take_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.take_back(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.take_back(); }
//= end
//# name: unsafe.raw_cursor.drop_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.drop_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.drop_front(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.drop_front(); }
//= end
//# name: unsafe.raw_cursor.drop_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.drop_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.drop_back(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.drop_back(); }
//= end
//# name: unsafe.raw_cursor.skip_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.skip_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.skip_front(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.skip_front(); }
//= end
//# name: unsafe.raw_cursor.skip_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.skip_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.skip_back(); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.skip_back(); }
//= end
//# name: unsafe.raw_cursor.drop_n_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.drop_n_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.drop_n_front(1); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.drop_n_front(1); }
//= end
//# name: unsafe.raw_cursor.drop_n_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.drop_n_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.drop_n_back(1); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.drop_n_back(1); }
//= end
//# name: unsafe.raw_cursor.skip_n_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.skip_n_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.skip_n_front(1); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.skip_n_front(1); }
//= end
//# name: unsafe.raw_cursor.skip_n_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.skip_n_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.skip_n_back(1); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.skip_n_back(1); }
//= end
//# name: unsafe.raw_cursor.write_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.write_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.write_front(x); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.write_front(x); }
//= end
//# name: unsafe.raw_cursor.write_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.write_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { unsafe { let _ = c.write_back(x); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: T) { let _ = c.write_back(x); }
//= end
//# name: unsafe.raw_cursor.write_slice_front   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.write_slice_front outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: &[T]) { unsafe { let _ = c.write_slice_front(x); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: &[T]) { let _ = c.write_slice_front(x); }
//= end
//# name: unsafe.raw_cursor.write_slice_back   prop: C17   lanes: all   expect: E0133
//? calling raw_cursor.write_slice_back outside an unsafe block
use generic_vec::{*, raw::*, iter::*};
//+ ok
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: &[T]) { unsafe { let _ = c.write_slice_back(x); } }
//- bad
pub fn f<T, S: Storage<T>>(c: &mut RawCursor<'_, T, S>, x: &[T]) { let _ = c.write_slice_back(x); }
//= end
