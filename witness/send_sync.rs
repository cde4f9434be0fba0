//# name: vec.Send   prop: C16   lanes: all
//? GenericVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send, S: Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//# name: vec.T-not-Send   prop: C16   lanes: all   expect: E0277
//? GenericVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, S: Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//- bad
pub fn f<T, S: Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//= end
//# name: vec.S-not-Send   prop: C16   lanes: all   expect: E0277
//? GenericVec must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, S: Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//- bad
pub fn f<T: Send, S: Storage<T>>()  { send::<GenericVec<T, S>>() }
//= end
//# name: vec.Sync   prop: C16   lanes: all
//? GenericVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync, S: Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//# name: vec.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? GenericVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, S: Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//- bad
pub fn f<T, S: Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//= end
//# name: vec.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? GenericVec must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, S: Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//- bad
pub fn f<T: Sync, S: Storage<T>>()  { sync::<GenericVec<T, S>>() }
//= end
//# name: vec-unsized.Send   prop: C16   lanes: all
//? GenericVec over an unsized storage is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send, S: ?Sized + Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//# name: vec-unsized.T-not-Send   prop: C16   lanes: all   expect: E0277
//? GenericVec over an unsized storage must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, S: ?Sized + Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//- bad
pub fn f<T, S: ?Sized + Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//= end
//# name: vec-unsized.S-not-Send   prop: C16   lanes: all   expect: E0277
//? GenericVec over an unsized storage must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, S: ?Sized + Storage<T> + Send>()  { send::<GenericVec<T, S>>() }
//- bad
pub fn f<T: Send, S: ?Sized + Storage<T>>()  { send::<GenericVec<T, S>>() }
//= end
//# name: vec-unsized.Sync   prop: C16   lanes: all
//? GenericVec over an unsized storage is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync, S: ?Sized + Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//# name: vec-unsized.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? GenericVec over an unsized storage must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, S: ?Sized + Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//- bad
pub fn f<T, S: ?Sized + Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//= end
//# name: vec-unsized.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? GenericVec over an unsized storage must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, S: ?Sized + Storage<T> + Sync>()  { sync::<GenericVec<T, S>>() }
//- bad
pub fn f<T: Sync, S: ?Sized + Storage<T>>()  { sync::<GenericVec<T, S>>() }
//= end
//# name: slicevec.Send   prop: C16   lanes: all
//? SliceVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Send>()  { send::<SliceVec<'a, T>>() }
//# name: slicevec.T-not-Send   prop: C16   lanes: all   expect: E0277
//? SliceVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send>()  { send::<SliceVec<'a, T>>() }
//- bad
pub fn f<'a, T: 'a>()  { send::<SliceVec<'a, T>>() }
//= end
//# name: slicevec.Sync   prop: C16   lanes: all
//? SliceVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Sync>()  { sync::<SliceVec<'a, T>>() }
//# name: slicevec.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? SliceVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync>()  { sync::<SliceVec<'a, T>>() }
//- bad
pub fn f<'a, T: 'a>()  { sync::<SliceVec<'a, T>>() }
//= end
//# name: initslicevec.Send   prop: C16   lanes: all
//? InitSliceVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Copy + Send>()  { send::<InitSliceVec<'a, T>>() }
//# name: initslicevec.T-not-Send   prop: C16   lanes: all   expect: E0277
//? InitSliceVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Copy + Send>()  { send::<InitSliceVec<'a, T>>() }
//- bad
pub fn f<'a, T: 'a + Copy>()  { send::<InitSliceVec<'a, T>>() }
//= end
//# name: initslicevec.Sync   prop: C16   lanes: all
//? InitSliceVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Copy + Sync>()  { sync::<InitSliceVec<'a, T>>() }
//# name: initslicevec.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? InitSliceVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Copy + Sync>()  { sync::<InitSliceVec<'a, T>>() }
//- bad
pub fn f<'a, T: 'a + Copy>()  { sync::<InitSliceVec<'a, T>>() }
//= end
//# name: typevec.Send   prop: C16   lanes: all
//? TypeVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send, B, A>()  { send::<TypeVec<T, B, A>>() }
//# name: typevec.T-not-Send   prop: C16   lanes: all   expect: E0277
//? TypeVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, B, A>()  { send::<TypeVec<T, B, A>>() }
//- bad
pub fn f<T, B, A>()  { send::<TypeVec<T, B, A>>() }
//= end
//# name: typevec.Sync   prop: C16   lanes: all
//? TypeVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync, B, A>()  { sync::<TypeVec<T, B, A>>() }
//# name: typevec.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? TypeVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, B, A>()  { sync::<TypeVec<T, B, A>>() }
//- bad
pub fn f<T, B, A>()  { sync::<TypeVec<T, B, A>>() }
//= end
//# name: zsvec.Send   prop: C16   lanes: all
//? ZSVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send>()  { send::<ZSVec<T>>() }
//# name: zsvec.T-not-Send   prop: C16   lanes: all   expect: E0277
//? ZSVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send>()  { send::<ZSVec<T>>() }
//- bad
pub fn f<T>()  { send::<ZSVec<T>>() }
//= end
//# name: zsvec.Sync   prop: C16   lanes: all
//? ZSVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync>()  { sync::<ZSVec<T>>() }
//# name: zsvec.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? ZSVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync>()  { sync::<ZSVec<T>>() }
//- bad
pub fn f<T>()  { sync::<ZSVec<T>>() }
//= end
//# name: heapvec.Send   prop: C16   lanes: stable
//? HeapVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send>()  { send::<HeapVec<T>>() }
//# name: heapvec.T-not-Send   prop: C16   lanes: stable   expect: E0277
//? HeapVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send>()  { send::<HeapVec<T>>() }
//- bad
pub fn f<T>()  { send::<HeapVec<T>>() }
//= end
//# name: heapvec.Sync   prop: C16   lanes: stable
//? HeapVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync>()  { sync::<HeapVec<T>>() }
//# name: heapvec.T-not-Sync   prop: C16   lanes: stable   expect: E0277
//? HeapVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync>()  { sync::<HeapVec<T>>() }
//- bad
pub fn f<T>()  { sync::<HeapVec<T>>() }
//= end
//# name: heapvec-alloc.Send   prop: C16   lanes: nightly
//? HeapVec with an allocator is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send, A: std::alloc::Allocator + Send>()  { send::<HeapVec<T, A>>() }
//# name: heapvec-alloc.T-not-Send   prop: C16   lanes: nightly   expect: E0277
//? HeapVec with an allocator must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, A: std::alloc::Allocator + Send>()  { send::<HeapVec<T, A>>() }
//- bad
pub fn f<T, A: std::alloc::Allocator + Send>()  { send::<HeapVec<T, A>>() }
//= end
//# name: heapvec-alloc.A-not-Send   prop: C16   lanes: nightly   expect: E0277
//? HeapVec with an allocator must not be Send when A is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, A: std::alloc::Allocator + Send>()  { send::<HeapVec<T, A>>() }
//- bad
pub fn f<T: Send, A: std::alloc::Allocator>()  { send::<HeapVec<T, A>>() }
//= end
//# name: heapvec-alloc.Sync   prop: C16   lanes: nightly
//? HeapVec with an allocator is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync, A: std::alloc::Allocator + Sync>()  { sync::<HeapVec<T, A>>() }
//# name: heapvec-alloc.T-not-Sync   prop: C16   lanes: nightly   expect: E0277
//? HeapVec with an allocator must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, A: std::alloc::Allocator + Sync>()  { sync::<HeapVec<T, A>>() }
//- bad
pub fn f<T, A: std::alloc::Allocator + Sync>()  { sync::<HeapVec<T, A>>() }
//= end
//# name: heapvec-alloc.A-not-Sync   prop: C16   lanes: nightly   expect: E0277
//? HeapVec with an allocator must not be Sync when A is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, A: std::alloc::Allocator + Sync>()  { sync::<HeapVec<T, A>>() }
//- bad
pub fn f<T: Sync, A: std::alloc::Allocator>()  { sync::<HeapVec<T, A>>() }
//= end
//# name: heap-alloc.Send   prop: C16   lanes: nightly
//? Heap with an allocator is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T, A: std::alloc::Allocator + Send>()  { send::<Heap<T, A>>() }
//# name: heap-alloc.A-not-Send   prop: C16   lanes: nightly   expect: E0277
//? Heap with an allocator must not be Send when A is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T, A: std::alloc::Allocator + Send>()  { send::<Heap<T, A>>() }
//- bad
pub fn f<T, A: std::alloc::Allocator>()  { send::<Heap<T, A>>() }
//= end
//# name: heap-alloc.Sync   prop: C16   lanes: nightly
//? Heap with an allocator is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T, A: std::alloc::Allocator + Sync>()  { sync::<Heap<T, A>>() }
//# name: heap-alloc.A-not-Sync   prop: C16   lanes: nightly   expect: E0277
//? Heap with an allocator must not be Sync when A is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T, A: std::alloc::Allocator + Sync>()  { sync::<Heap<T, A>>() }
//- bad
pub fn f<T, A: std::alloc::Allocator>()  { sync::<Heap<T, A>>() }
//= end
//# name: arrayvec.Send   prop: C16   lanes: nightly
//? ArrayVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send>()  { send::<ArrayVec<T, 4>>() }
//# name: arrayvec.T-not-Send   prop: C16   lanes: nightly   expect: E0277
//? ArrayVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send>()  { send::<ArrayVec<T, 4>>() }
//- bad
pub fn f<T>()  { send::<ArrayVec<T, 4>>() }
//= end
//# name: arrayvec.Sync   prop: C16   lanes: nightly
//? ArrayVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync>()  { sync::<ArrayVec<T, 4>>() }
//# name: arrayvec.T-not-Sync   prop: C16   lanes: nightly   expect: E0277
//? ArrayVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync>()  { sync::<ArrayVec<T, 4>>() }
//- bad
pub fn f<T>()  { sync::<ArrayVec<T, 4>>() }
//= end
//# name: initarrayvec.Send   prop: C16   lanes: nightly
//? InitArrayVec is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Copy + Send>()  { send::<InitArrayVec<T, 4>>() }
//# name: initarrayvec.T-not-Send   prop: C16   lanes: nightly   expect: E0277
//? InitArrayVec must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Copy + Send>()  { send::<InitArrayVec<T, 4>>() }
//- bad
pub fn f<T: Copy>()  { send::<InitArrayVec<T, 4>>() }
//= end
//# name: initarrayvec.Sync   prop: C16   lanes: nightly
//? InitArrayVec is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Copy + Sync>()  { sync::<InitArrayVec<T, 4>>() }
//# name: initarrayvec.T-not-Sync   prop: C16   lanes: nightly   expect: E0277
//? InitArrayVec must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Copy + Sync>()  { sync::<InitArrayVec<T, 4>>() }
//- bad
pub fn f<T: Copy>()  { sync::<InitArrayVec<T, 4>>() }
//= end
//# name: rawcursor.Send   prop: C16   lanes: all
//? RawCursor is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<RawCursor<'a, T, S>>() }
//# name: rawcursor.T-not-Send   prop: C16   lanes: all   expect: E0277
//? RawCursor must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<RawCursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Send>()  { send::<RawCursor<'a, T, S>>() }
//= end
//# name: rawcursor.S-not-Send   prop: C16   lanes: all   expect: E0277
//? RawCursor must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<RawCursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T>>()  { send::<RawCursor<'a, T, S>>() }
//= end
//# name: rawcursor.Sync   prop: C16   lanes: all
//? RawCursor is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<RawCursor<'a, T, S>>() }
//# name: rawcursor.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? RawCursor must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<RawCursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Sync>()  { sync::<RawCursor<'a, T, S>>() }
//= end
//# name: rawcursor.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? RawCursor must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<RawCursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T>>()  { sync::<RawCursor<'a, T, S>>() }
//= end
//# name: cursor.Send   prop: C16   lanes: all
//? Cursor is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<Cursor<'a, T, S>>() }
//# name: cursor.T-not-Send   prop: C16   lanes: all   expect: E0277
//? Cursor must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<Cursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Send>()  { send::<Cursor<'a, T, S>>() }
//= end
//# name: cursor.S-not-Send   prop: C16   lanes: all   expect: E0277
//? Cursor must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<Cursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T>>()  { send::<Cursor<'a, T, S>>() }
//= end
//# name: cursor.Sync   prop: C16   lanes: all
//? Cursor is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<Cursor<'a, T, S>>() }
//# name: cursor.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? Cursor must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<Cursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Sync>()  { sync::<Cursor<'a, T, S>>() }
//= end
//# name: cursor.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? Cursor must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<Cursor<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T>>()  { sync::<Cursor<'a, T, S>>() }
//= end
//# name: drain.Send   prop: C16   lanes: all
//? Drain is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<Drain<'a, T, S>>() }
//# name: drain.T-not-Send   prop: C16   lanes: all   expect: E0277
//? Drain must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<Drain<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Send>()  { send::<Drain<'a, T, S>>() }
//= end
//# name: drain.S-not-Send   prop: C16   lanes: all   expect: E0277
//? Drain must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send>()  { send::<Drain<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T>>()  { send::<Drain<'a, T, S>>() }
//= end
//# name: drain.Sync   prop: C16   lanes: all
//? Drain is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<Drain<'a, T, S>>() }
//# name: drain.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? Drain must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<Drain<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Sync>()  { sync::<Drain<'a, T, S>>() }
//= end
//# name: drain.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? Drain must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync>()  { sync::<Drain<'a, T, S>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T>>()  { sync::<Drain<'a, T, S>>() }
//= end
//# name: drainfilter.Send   prop: C16   lanes: all
//? DrainFilter is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, F: FnMut(&mut T) -> bool + Send>()  { send::<DrainFilter<'a, T, S, F>>() }
//# name: drainfilter.T-not-Send   prop: C16   lanes: all   expect: E0277
//? DrainFilter must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, F: FnMut(&mut T) -> bool + Send>()  { send::<DrainFilter<'a, T, S, F>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Send, F: FnMut(&mut T) -> bool + Send>()  { send::<DrainFilter<'a, T, S, F>>() }
//= end
//# name: drainfilter.S-not-Send   prop: C16   lanes: all   expect: E0277
//? DrainFilter must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, F: FnMut(&mut T) -> bool + Send>()  { send::<DrainFilter<'a, T, S, F>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T>, F: FnMut(&mut T) -> bool + Send>()  { send::<DrainFilter<'a, T, S, F>>() }
//= end
//# name: drainfilter.F-not-Send   prop: C16   lanes: all   expect: E0277
//? DrainFilter must not be Send when F is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, F: FnMut(&mut T) -> bool + Send>()  { send::<DrainFilter<'a, T, S, F>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, F: FnMut(&mut T) -> bool>()  { send::<DrainFilter<'a, T, S, F>>() }
//= end
//# name: drainfilter.Sync   prop: C16   lanes: all
//? DrainFilter is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, F: FnMut(&mut T) -> bool + Sync>()  { sync::<DrainFilter<'a, T, S, F>>() }
//# name: drainfilter.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? DrainFilter must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, F: FnMut(&mut T) -> bool + Sync>()  { sync::<DrainFilter<'a, T, S, F>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Sync, F: FnMut(&mut T) -> bool + Sync>()  { sync::<DrainFilter<'a, T, S, F>>() }
//= end
//# name: drainfilter.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? DrainFilter must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, F: FnMut(&mut T) -> bool + Sync>()  { sync::<DrainFilter<'a, T, S, F>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T>, F: FnMut(&mut T) -> bool + Sync>()  { sync::<DrainFilter<'a, T, S, F>>() }
//= end
//# name: drainfilter.F-not-Sync   prop: C16   lanes: all   expect: E0277
//? DrainFilter must not be Sync when F is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, F: FnMut(&mut T) -> bool + Sync>()  { sync::<DrainFilter<'a, T, S, F>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, F: FnMut(&mut T) -> bool>()  { sync::<DrainFilter<'a, T, S, F>>() }
//= end
//# name: splice.Send   prop: C16   lanes: all
//? Splice is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, I: Iterator<Item = T> + Send>()  { send::<Splice<'a, T, S, I>>() }
//# name: splice.T-not-Send   prop: C16   lanes: all   expect: E0277
//? Splice must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, I: Iterator<Item = T> + Send>()  { send::<Splice<'a, T, S, I>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Send, I: Iterator<Item = T> + Send>()  { send::<Splice<'a, T, S, I>>() }
//= end
//# name: splice.S-not-Send   prop: C16   lanes: all   expect: E0277
//? Splice must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, I: Iterator<Item = T> + Send>()  { send::<Splice<'a, T, S, I>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T>, I: Iterator<Item = T> + Send>()  { send::<Splice<'a, T, S, I>>() }
//= end
//# name: splice.I-not-Send   prop: C16   lanes: all   expect: E0277
//? Splice must not be Send when I is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, I: Iterator<Item = T> + Send>()  { send::<Splice<'a, T, S, I>>() }
//- bad
pub fn f<'a, T: 'a + Send, S: 'a + Storage<T> + Send, I: Iterator<Item = T>>()  { send::<Splice<'a, T, S, I>>() }
//= end
//# name: splice.Sync   prop: C16   lanes: all
//? Splice is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, I: Iterator<Item = T> + Sync>()  { sync::<Splice<'a, T, S, I>>() }
//# name: splice.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? Splice must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, I: Iterator<Item = T> + Sync>()  { sync::<Splice<'a, T, S, I>>() }
//- bad
pub fn f<'a, T: 'a, S: 'a + Storage<T> + Sync, I: Iterator<Item = T> + Sync>()  { sync::<Splice<'a, T, S, I>>() }
//= end
//# name: splice.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? Splice must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, I: Iterator<Item = T> + Sync>()  { sync::<Splice<'a, T, S, I>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T>, I: Iterator<Item = T> + Sync>()  { sync::<Splice<'a, T, S, I>>() }
//= end
//# name: splice.I-not-Sync   prop: C16   lanes: all   expect: E0277
//? Splice must not be Sync when I is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, I: Iterator<Item = T> + Sync>()  { sync::<Splice<'a, T, S, I>>() }
//- bad
pub fn f<'a, T: 'a + Sync, S: 'a + Storage<T> + Sync, I: Iterator<Item = T>>()  { sync::<Splice<'a, T, S, I>>() }
//= end
//# name: intoiter.Send   prop: C16   lanes: all
//? IntoIter is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Send, S: Storage<T> + Send>()  { send::<IntoIter<T, S>>() }
//# name: intoiter.T-not-Send   prop: C16   lanes: all   expect: E0277
//? IntoIter must not be Send when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, S: Storage<T> + Send>()  { send::<IntoIter<T, S>>() }
//- bad
pub fn f<T, S: Storage<T> + Send>()  { send::<IntoIter<T, S>>() }
//= end
//# name: intoiter.S-not-Send   prop: C16   lanes: all   expect: E0277
//? IntoIter must not be Send when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Send, S: Storage<T> + Send>()  { send::<IntoIter<T, S>>() }
//- bad
pub fn f<T: Send, S: Storage<T>>()  { send::<IntoIter<T, S>>() }
//= end
//# name: intoiter.Sync   prop: C16   lanes: all
//? IntoIter is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T: Sync, S: Storage<T> + Sync>()  { sync::<IntoIter<T, S>>() }
//# name: intoiter.T-not-Sync   prop: C16   lanes: all   expect: E0277
//? IntoIter must not be Sync when T is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, S: Storage<T> + Sync>()  { sync::<IntoIter<T, S>>() }
//- bad
pub fn f<T, S: Storage<T> + Sync>()  { sync::<IntoIter<T, S>>() }
//= end
//# name: intoiter.S-not-Sync   prop: C16   lanes: all   expect: E0277
//? IntoIter must not be Sync when S is not
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f<T: Sync, S: Storage<T> + Sync>()  { sync::<IntoIter<T, S>>() }
//- bad
pub fn f<T: Sync, S: Storage<T>>()  { sync::<IntoIter<T, S>>() }
//= end
//# name: uninitslice.Send   prop: C16   lanes: all
//? UninitSlice is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T>()  { send::<UninitSlice<T>>() }
//# name: uninitslice.Sync   prop: C16   lanes: all
//? UninitSlice is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T>()  { sync::<UninitSlice<T>>() }
//# name: uninitbuffer.Send   prop: C16   lanes: all
//? UninitBuffer is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T, A>()  { send::<UninitBuffer<T, A>>() }
//# name: uninitbuffer.Sync   prop: C16   lanes: all
//? UninitBuffer is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T, A>()  { sync::<UninitBuffer<T, A>>() }
//# name: heap.Send   prop: C16   lanes: stable
//? Heap is Send when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T>()  { send::<Heap<T>>() }
//# name: heap.Sync   prop: C16   lanes: stable
//? Heap is Sync when everything it holds is
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);
pub fn f<T>()  { sync::<Heap<T>>() }
//# name: conc.cell.SliceVec   prop: C16   lanes: all   expect: E0277
//? SliceVec<'static, core::cell::Cell<u8>> is Send but not Sync
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f() { send::<SliceVec<'static, core::cell::Cell<u8>>>() }
//- bad
pub fn f() { sync::<SliceVec<'static, core::cell::Cell<u8>>>() }
//= end
//# name: conc.cell.ZSVec   prop: C16   lanes: all   expect: E0277
//? ZSVec<core::cell::Cell<u8>> is Send but not Sync
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f() { send::<ZSVec<core::cell::Cell<u8>>>() }
//- bad
pub fn f() { sync::<ZSVec<core::cell::Cell<u8>>>() }
//= end
//# name: conc.cell.TypeVec   prop: C16   lanes: all   expect: E0277
//? TypeVec<core::cell::Cell<u8>, [u8; 4]> is Send but not Sync
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f() { send::<TypeVec<core::cell::Cell<u8>, [u8; 4]>>() }
//- bad
pub fn f() { sync::<TypeVec<core::cell::Cell<u8>, [u8; 4]>>() }
//= end
//# name: conc.cell.HeapVec   prop: C16   lanes: stable   expect: E0277
//? HeapVec<core::cell::Cell<u8>> is Send but not Sync
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f() { send::<HeapVec<core::cell::Cell<u8>>>() }
//- bad
pub fn f() { sync::<HeapVec<core::cell::Cell<u8>>>() }
//= end
//# name: conc.cell.RawCursor   prop: C16   lanes: all   expect: E0277
//? RawCursor<'static, core::cell::Cell<u8>, UninitBuffer<[u8; 4]>> is Send but not Sync
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f() { send::<RawCursor<'static, core::cell::Cell<u8>, UninitBuffer<[u8; 4]>>>() }
//- bad
pub fn f() { sync::<RawCursor<'static, core::cell::Cell<u8>, UninitBuffer<[u8; 4]>>>() }
//= end
//# name: conc.cell.IntoIter   prop: C16   lanes: all   expect: E0277
//? IntoIter<core::cell::Cell<u8>, UninitBuffer<[u8; 4]>> is Send but not Sync
use generic_vec::{*, raw::*, iter::*};
fn send<X: Send + ?Sized>() {} fn sync<X: Sync + ?Sized>() {}
pub struct NS<T>(*const (), core::marker::PhantomData<T>);

//+ ok
pub fn f() { send::<IntoIter<core::cell::Cell<u8>, UninitBuffer<[u8; 4]>>>() }
//- bad
pub fn f() { sync::<IntoIter<core::cell::Cell<u8>, UninitBuffer<[u8; 4]>>>() }
//= end
