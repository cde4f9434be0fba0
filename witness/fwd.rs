//# name: fwd.unsized_mut   prop: C24   lanes: all   expect: E0277
//? a mutable borrow of an unsized storage is a storage
use generic_vec::{*, raw::*};
fn need<T, S: Storage<T>>(_: S) {}
//+ ok
pub fn f<T, S: ?Sized + Storage<T>>(s: &mut S) { need::<T, &mut S>(s) }
//- bad
pub fn f<T, S: ?Sized>(s: &mut S) { need::<T, &mut S>(s) }
//= end
//# name: fwd.unsized_box   prop: C24   lanes: stable-std,nightly-std,stable-alloc,nightly-alloc   expect: E0277
//? a box of an unsized storage is a storage
#[cfg(feature = "std")] extern crate std;
#[cfg(not(feature = "std"))] extern crate alloc as std;
use std::boxed::Box;
use generic_vec::{*, raw::*};
fn need<T, S: Storage<T>>(_: S) {}
//+ ok
pub fn f<T, S: ?Sized + Storage<T>>(s: Box<S>) { need::<T, Box<S>>(s) }
//- bad
pub fn f<T, S: ?Sized>(s: Box<S>) { need::<T, Box<S>>(s) }
//= end
//# name: fwd.unsized_vec   prop: C24   lanes: all   expect: E0599,E0277
//? a vector over a borrow of an unsized storage has the operations of every vector
use generic_vec::{*, raw::*};
//+ ok
pub fn f<T, S: ?Sized + Storage<T>>(v: &mut GenericVec<T, &mut S>, x: T) { v.push(x); v.reserve(1); }
//- bad
pub fn f<T, S: ?Sized>(v: &mut GenericVec<T, &mut S>, x: T) { v.push(x); v.reserve(1); }
//= end
//# name: fwd.init_mut   prop: C24   lanes: all   expect: E0277
//? a borrow is an initialised storage exactly if the storage is
use generic_vec::{*, raw::*};
fn need<T, S: StorageInit<T>>(_: S) {}
//+ ok
pub fn f<T, S: ?Sized + StorageInit<T>>(s: &mut S) { need::<T, &mut S>(s) }
//- bad
pub fn f<T, S: ?Sized + Storage<T>>(s: &mut S) { need::<T, &mut S>(s) }
//= end
//# name: fwd.init_box   prop: C24   lanes: stable-std,nightly-std,stable-alloc,nightly-alloc   expect: E0277
//? a box is an initialised storage exactly if the storage is
#[cfg(feature = "std")] extern crate std;
#[cfg(not(feature = "std"))] extern crate alloc as std;
use std::boxed::Box;
use generic_vec::{*, raw::*};
fn need<T, S: StorageInit<T>>(_: S) {}
//+ ok
pub fn f<T, S: ?Sized + StorageInit<T>>(s: Box<S>) { need::<T, Box<S>>(s) }
//- bad
pub fn f<T, S: ?Sized + Storage<T>>(s: Box<S>) { need::<T, Box<S>>(s) }
//= end
//# name: fwd.cap_box   prop: C24   lanes: stable-std,nightly-std,stable-alloc,nightly-alloc   expect: E0277
//? a box can be made with a capacity exactly if the storage can
#[cfg(feature = "std")] extern crate std;
#[cfg(not(feature = "std"))] extern crate alloc as std;
use std::boxed::Box;
use generic_vec::{*, raw::*};
fn need<T, S: StorageWithCapacity<T>>() {}
//+ ok
pub fn f<T, S: StorageWithCapacity<T>>() { need::<T, Box<S>>() }
//- bad
pub fn f<T, S: Storage<T> + Default>() { need::<T, Box<S>>() }
//= end
