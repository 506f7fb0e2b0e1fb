//! storages: one that moves on every growth and logs its requests, and the crate's own
use crate::el::*;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::{GenericVec, SliceVec, TypeVec, ZSVec};
use std::cell::Cell;
use std::mem::MaybeUninit;

thread_local! {
    /// how often a storage was asked for space
    pub static ASKED: Cell<u32> = Cell::new(0);
}

const RED: usize = 2;
fn pattern<T>(n: usize, b: u8) -> Vec<MaybeUninit<T>> {
    let mut v: Vec<MaybeUninit<T>> = Vec::with_capacity(n);
    unsafe {
        v.set_len(n);
        std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, b, n * std::mem::size_of::<T>());
    }
    v
}

/// grows to exactly the request, always into new memory; guard zones on both sides; limit: largest capacity it grants
pub struct Mv<T> {
    b: Vec<MaybeUninit<T>>,
    cap: usize,
    pub limit: usize,
}
impl<T> Mv<T> {
    pub fn new(cap: usize, limit: usize) -> Self { Mv { b: pattern(cap + 2 * RED, 0xA5), cap, limit } }
    fn guards(&self) {
        let sz = std::mem::size_of::<T>();
        let p = self.b.as_ptr() as *const u8;
        let chk = |from: usize, n: usize| unsafe { std::slice::from_raw_parts(p.add(from * sz), n * sz) }.iter().all(|x| *x == 0xA5);
        if !chk(0, RED) || !chk(RED + self.cap, RED) {
            err("memory outside the storage was written".into())
        }
    }
    fn grow(&mut self, n: usize) -> bool {
        ASKED.with(|a| a.set(a.get() + 1));
        if n <= self.cap {
            return true
        }
        if n > self.limit {
            return false
        }
        self.guards();
        let mut nb = pattern(n + 2 * RED, 0xA5);
        unsafe {
            std::ptr::copy_nonoverlapping(self.b.as_ptr().add(RED), nb.as_mut_ptr().add(RED), self.cap);
            std::ptr::write_bytes(self.b.as_mut_ptr(), 0x5A, self.cap + 2 * RED);
        }
        // the old memory is kept so that stale reads see poison, not recycled memory
        std::mem::forget(std::mem::replace(&mut self.b, nb));
        self.cap = n;
        true
    }
}
impl<T> Drop for Mv<T> {
    fn drop(&mut self) { self.guards() }
}
impl<T> Default for Mv<T> {
    fn default() -> Self { Mv::new(0, 64) }
}
unsafe impl<T> Storage<T> for Mv<T> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { if std::mem::size_of::<T>() == 0 { usize::MAX } else { self.cap } }
    fn as_ptr(&self) -> *const T { unsafe { self.b.as_ptr().add(RED).cast() } }
    fn as_mut_ptr(&mut self) -> *mut T { unsafe { self.b.as_mut_ptr().add(RED).cast() } }
    fn reserve(&mut self, n: usize) {
        if !self.grow(n) {
            panic!("limit")
        }
    }
    fn try_reserve(&mut self, n: usize) -> bool { self.grow(n) }
}
unsafe impl<T> StorageWithCapacity<T> for Mv<T> {
    fn with_capacity(n: usize) -> Self {
        if n > 64 {
            panic!("limit")
        }
        Mv::new(n, 64)
    }
}

/// how a vector of a given storage is made
pub trait Make<T>: Storage<T> + Sized + 'static {
    const NAME: &'static str;
    /// None: grows; Some(n): never beyond n
    fn limit(spare: usize, len: usize) -> Option<usize>;
    fn make(len: usize, spare: usize) -> GenericVec<T, Self>;
    /// the capacities to try, as spare room behind len
    const SPARES: &'static [usize];
}
impl<T: 'static> Make<T> for Mv<T> {
    const NAME: &'static str = "growing storage";
    fn limit(_: usize, _: usize) -> Option<usize> { Some(64) }
    fn make(len: usize, spare: usize) -> GenericVec<T, Self> { GenericVec::with_storage(Mv::new(len + spare, 64)) }
    const SPARES: &'static [usize] = &[0, 1, 3];
}
/// the same with a fixed capacity
pub struct Fx<T>(pub Mv<T>);
unsafe impl<T> Storage<T> for Fx<T> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { Storage::<T>::capacity(&self.0) }
    fn as_ptr(&self) -> *const T { self.0.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut T { self.0.as_mut_ptr() }
    fn reserve(&mut self, n: usize) { self.0.reserve(n) }
    fn try_reserve(&mut self, n: usize) -> bool { self.0.try_reserve(n) }
}
impl<T: 'static> Make<T> for Fx<T> {
    const NAME: &'static str = "fixed storage";
    fn limit(spare: usize, len: usize) -> Option<usize> { Some(len + spare) }
    fn make(len: usize, spare: usize) -> GenericVec<T, Self> { GenericVec::with_storage(Fx(Mv::new(len + spare, len + spare))) }
    const SPARES: &'static [usize] = &[0, 1, 2];
}
impl<T: 'static> Make<T> for UninitBuffer<[T; 6], T> {
    const NAME: &'static str = "UninitBuffer";
    fn limit(_: usize, _: usize) -> Option<usize> { Some(6) }
    fn make(_: usize, _: usize) -> GenericVec<T, Self> { TypeVec::new() }
    const SPARES: &'static [usize] = &[0];
}
impl<T: 'static> Make<T> for &'static mut UninitSlice<T> {
    const NAME: &'static str = "UninitSlice";
    fn limit(spare: usize, len: usize) -> Option<usize> { Some(len + spare) }
    fn make(len: usize, spare: usize) -> GenericVec<T, Self> { SliceVec::new(Box::leak(pattern(len + spare, 0xA5).into_boxed_slice())) }
    const SPARES: &'static [usize] = &[0, 2];
}
impl<T: 'static> Make<T> for ZeroSized<T> {
    const NAME: &'static str = "ZeroSized";
    fn limit(_: usize, _: usize) -> Option<usize> { None }
    fn make(_: usize, _: usize) -> GenericVec<T, Self> { ZSVec::new() }
    const SPARES: &'static [usize] = &[0];
}
#[cfg(feature = "alloc")]
impl<T: 'static> Make<T> for generic_vec::raw::Heap<T> {
    const NAME: &'static str = "Heap";
    fn limit(_: usize, _: usize) -> Option<usize> { None }
    fn make(len: usize, spare: usize) -> GenericVec<T, Self> {
        if len + spare == 0 { GenericVec::default() } else { GenericVec::with_capacity(len + spare) }
    }
    const SPARES: &'static [usize] = &[0, 2];
}
