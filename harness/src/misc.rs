//! construction, storages, views, ranges and consuming iteration
#[cfg(feature = "alloc")]
use crate::alloc_;
use crate::core_::*;
use crate::el::*;
use crate::st::*;
use generic_vec::raw::{Storage, StorageWithCapacity, UninitBuffer, UninitSlice, ZeroSized};
use generic_vec::{GenericVec, InitSliceVec, SliceVec, TypeVec, ZSVec};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::mem::MaybeUninit;
use std::ops::Bound::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn panics(f: impl FnOnce()) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }

macro_rules! want {
    ($a:expr, $b:expr, $($w:tt)*) => {
        let (a, b) = ($a, $b);
        if a != b { return Err(format!("{}: {:?} instead of {:?}", format!($($w)*), a, b)) }
    };
}

fn into_iters<T: Elem, S: Make<T>>(c: &mut Ctx, n: usize, sp: usize) {
    let st = vals(n);
    for len in 0..n + 2 {
        for mask in 0..(1u32 << (2 * len as u32)).min(4096) {
            // two bits per step: next, next_back, nth(1), nth(MAX)
            c.op::<T, S>(&st, sp, Op {
                tags: &["P19"],
                name: format!("into_iter, {} steps {:b}", len, mask),
                f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                    let w = std::mem::replace(v, S::make(n, 0));
                    let mut it = w.into_iter();
                    for i in 0..len {
                        let h = it.size_hint();
                        ob.push(h.0 as u32);
                        ob.push((h.1 == Some(h.0) && it.len() == h.0) as u32);
                        ob.extend(it.as_slice().iter().map(|x| x.val()));
                        ob.extend(it.as_mut_slice().iter().map(|x| x.val()));
                        let x = match mask >> (2 * i) & 3 {
                            0 => it.next(),
                            1 => it.next_back(),
                            2 => it.nth(1),
                            _ => it.nth(usize::MAX),
                        };
                        ob.push(x.map_or(7777, |x| x.val()));
                        if T::live() >= 0 { ob.push((T::live() as usize == it.len()) as u32) }
                    }
                    if mask & 1 == 1 { ob.push(it.count() as u32) }
                },
                m: &|v: &mut Vec<u32>, _, _| {
                    let mut r = std::mem::replace(v, vec![]);
                    let mut o = vec![];
                    for i in 0..len {
                        o.push(r.len() as u32);
                        o.push(1);
                        o.extend(&r);
                        o.extend(&r);
                        let front = |r: &mut Vec<u32>| if r.is_empty() { None } else { Some(r.remove(0)) };
                        let x = match mask >> (2 * i) & 3 {
                            0 => front(&mut r),
                            1 => r.pop(),
                            2 => { front(&mut r); front(&mut r) }
                            _ => { r.clear(); None }
                        };
                        o.push(x.unwrap_or(7777));
                        if T::live() >= 0 { o.push(1) }
                    }
                    if mask & 1 == 1 { o.push(r.len() as u32) }
                    Some(o)
                },
                room: false,
                un: Un::Strict,
                keep: false,
            });
        }
    }
}

/// ranges: against slice indexing
fn ranges(c: &mut Ctx) {
    let n = 3usize;
    let pts = [0, 1, 2, 3, 4, usize::MAX - 1, usize::MAX];
    let mut bs = vec![Unbounded];
    for p in pts.iter() { bs.push(Included(*p)); bs.push(Excluded(*p)) }
    for a in &bs {
        for b in &bs {
            let r = (*a, *b);
            // the reference
            let s = match a { Included(x) => Some(*x), Excluded(x) => x.checked_add(1), Unbounded => Some(0) };
            let e = match b { Included(x) => x.checked_add(1), Excluded(x) => Some(*x), Unbounded => Some(n) };
            let want_ = match (s, e) { (Some(s), Some(e)) if s <= e && e <= n => Some((s, e)), _ => None };
            for kind in 0..4 {
                let name = format!("range {:?} on 3 zero-sized elements, {}", r, ["cursor", "drain", "drain_filter", "splice"][kind]);
                c.check(&["P20", "P18"], &name, &mut || {
                    let mut v: ZSVec<()> = ZSVec::new();
                    for _ in 0..3 { v.push(()); }
                    let mut got = 0;
                    let p = panics(|| {
                        got = match kind {
                            0 => { let mut cu = v.cursor(r); let k = cu.len(); if k <= 3 { for _ in 0..k { cu.take_back(); } } else { std::mem::forget(cu); } k }
                            1 => { let mut d = v.drain(r); let k = d.len(); if k <= 3 { d.by_ref().for_each(drop); } else { std::mem::forget(d); } k }
                            2 => { let d = v.drain_filter(r, |_| true); let k = d.size_hint().1.unwrap_or(0); if k > 3 { std::mem::forget(d); k } else { d.count() } }
                            _ => { let d = v.splice(r, std::iter::empty()); let k = d.size_hint().0; if k > 3 { std::mem::forget(d); k } else { d.count() } }
                        };
                    });
                    want!(p, want_.is_none(), "panics");
                    if let Some((s, e)) = want_ { want!((got, v.len()), (e - s, 3 - (e - s)), "taken and left"); } else { want!(v.len(), 3, "length after the refusal"); }
                    Ok(())
                });
            }
            for kind in 0..5 {
                let name = format!("range {:?} on 3 elements, {}", r, ["raw_cursor", "cursor", "drain", "drain_filter", "splice"][kind]);
                c.check(&["P20", "P07", "P08", "P09", "P10"], &name, &mut || {
                    let mut v: GenericVec<E, Mv<E>> = build(&vals(n), 1);
                    let mut got = None;
                    let p = panics(|| {
                        let all = vals(n);
                        let f = |x: Vec<u32>| { let l = x.len(); (x.first().map_or(9, |f| all.iter().position(|y| y == f).unwrap()), l) };
                        got = Some(match kind {
                            0 | 1 => { let mut cu = v.cursor(r); let k = cu.len(); let mut o = vec![]; for _ in 0..k { let x = cu.take_front(); o.push(x.val()) } f(o) }
                            2 => f(v.drain(r).map(|x| x.val()).collect()),
                            3 => f(v.drain_filter(r, |_| true).map(|x| x.val()).collect()),
                            _ => f(v.splice(r, std::iter::empty()).map(|x| x.val()).collect()),
                        })
                    });
                    match want_ {
                        None => {
                            want!(p, true, "panics");
                            want!(contents(&v), vals(n), "contents after the refusal");
                        }
                        Some((s, e)) => {
                            want!(p, false, "panics");
                            let (gs, gl) = got.unwrap();
                            want!(gl, e - s, "elements taken");
                            if gl > 0 { want!(gs, s, "first element taken"); }
                            let mut m = vals(n);
                            m.drain(s..e);
                            want!(contents(&v), m, "contents left");
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// what a hasher is given, call by call
#[derive(Default)]
struct Rec(Vec<Vec<u8>>);

impl Hasher for Rec {
    fn write(&mut self, bytes: &[u8]) { self.0.push(bytes.to_vec()) }

    fn finish(&self) -> u64 { 0 }
}

fn rec<T: Hash + ?Sized>(t: &T) -> Vec<Vec<u8>> {
    let mut s = Rec::default();
    t.hash(&mut s);
    s.0
}

/// == and < that tell their operands apart
#[derive(Clone, Copy, Debug)]
struct Sided(i32);

impl PartialEq for Sided {
    fn eq(&self, o: &Sided) -> bool { self.0 <= o.0 }
}

impl PartialOrd for Sided {
    fn partial_cmp(&self, o: &Sided) -> Option<std::cmp::Ordering> {
        if self.0 == 0 { None } else { Some((self.0 / 2).cmp(&o.0)) }
    }
}

/// a zero-sized value that is not even equal to itself
#[derive(Clone)]
struct Never;
impl PartialEq for Never { fn eq(&self, _: &Never) -> bool { false } }
impl PartialOrd for Never { fn partial_cmp(&self, _: &Never) -> Option<std::cmp::Ordering> { None } }

fn delegation(c: &mut Ctx) {
    for a in 0..3usize {
        for b in 0..3usize {
            c.check(&["P13"], &format!("comparing {} with {} zero-sized values that equal nothing", a, b), &mut || {
                let (p, q) = (vec![Never; a], vec![Never; b]);
                let mut u = ZSVec::<Never>::new();
                let mut w = ZSVec::<Never>::new();
                for _ in 0..a { u.push(Never); }
                for _ in 0..b { w.push(Never); }
                want!((u == q[..], u == w, u == u), (p == q, p == q, p == p), "==");
                want!((u != q[..], u != w), (p != q, p != q), "!=");
                want!((u.partial_cmp(&q[..]), u.partial_cmp(&w)), (p.partial_cmp(&q), p.partial_cmp(&q)), "partial_cmp");
                want!((u < w, u <= w, u > w, u >= w), (p < q, p <= q, p > q, p >= q), "order");
                Ok(())
            });
        }
    }
    let sets: Vec<Vec<i32>> = vec![vec![], vec![0], vec![1], vec![2], vec![1, 2], vec![2, 1], vec![2, 4], vec![2, 4, 3], vec![1, 0]];
    for a in &sets {
        for b in &sets {
            let name = format!("comparing elements with a one-sided order, {:?} with {:?}", a, b);
            c.check(&["P13"], &name, &mut || {
                let a: Vec<Sided> = a.iter().map(|x| Sided(*x)).collect();
                let b: Vec<Sided> = b.iter().map(|x| Sided(*x)).collect();
                let mut u: GenericVec<Sided, Mv<Sided>> = GenericVec::with_storage(Mv::new(a.len() + 2, 64));
                for x in &a { u.push(*x); }
                want!(u == b[..], a[..] == b[..], "==");
                want!(u != b[..], a[..] != b[..], "!=");
                want!(u.partial_cmp(&b[..]), a[..].partial_cmp(&b[..]), "partial_cmp");
                want!(u < b[..], a[..] < b[..], "<");
                want!(u >= b[..], a[..] >= b[..], ">=");
                Ok(())
            });
        }
    }
    for n in 0..4usize {
        c.check(&["P13"], &format!("hashing {} bytes", n), &mut || {
            let a: Vec<u8> = (0..n).map(|x| x as u8).collect();
            let mut u: GenericVec<u8, Mv<u8>> = GenericVec::with_storage(Mv::new(a.len() + 2, 64));
            for x in &a { u.push(*x); }
            want!(rec(&u), rec(&a[..]), "what the hasher is given");
            Ok(())
        });
    }
    let sets: Vec<Vec<f64>> = vec![vec![], vec![1.0], vec![2.0], vec![1.0, 2.0], vec![1.0, 2.0, 3.0], vec![f64::NAN], vec![1.0, f64::NAN], vec![-0.0], vec![0.0, 1.0]];
    for a in &sets {
        for b in &sets {
            let name = format!("comparing {:?} with {:?}", a, b);
            c.check(&["P13"], &name, &mut || {
                let mut u: GenericVec<f64, Mv<f64>> = GenericVec::with_storage(Mv::new(a.len() + 2, 64));
                let mut w: TypeVec<f64, [f64; 6]> = TypeVec::new();
                for x in a { u.push(*x); }
                for x in b { w.push(*x); }
                want!(u == w, a == b, "==");
                want!(u == b[..], a == b, "== slice");
                want!(u != w, a != b, "!=");
                want!(u.partial_cmp(&w), a.partial_cmp(b), "partial_cmp");
                want!(u < w, a < b, "<");
                want!(u <= w, a <= b, "<=");
                want!(format!("{:?}", u), format!("{:?}", a), "Debug");
                want!(format!("{:#?}", u), format!("{:#?}", a), "Debug");
                want!(format!("{:6.2?}", u), format!("{:6.2?}", a), "Debug with a format");
                Ok(())
            });
        }
    }
    let sets: Vec<Vec<i32>> = vec![vec![], vec![1], vec![2], vec![1, 2], vec![1, 2, 3], vec![3, 1]];
    for a in &sets {
        let name = format!("views of {:?}", a);
        c.check(&["P13"], &name, &mut || {
            let mut u: GenericVec<i32, Mv<i32>> = GenericVec::with_storage(Mv::new(a.len() + 2, 64));
            for x in a { u.push(*x); }
            let p = u.as_ptr();
            want!(u.storage().as_ptr() as usize, p as usize, "as_ptr");
            want!(h(&u), h(&a[..]), "hash");
            want!(h(&u), h(a), "hash");
            want!(rec(&u), rec(&a[..]), "what the hasher is given");
            want!(&u[..], &a[..], "deref");
            want!(u.as_slice(), &a[..], "as_slice");
            want!(u.as_slice().as_ptr() as usize, p as usize, "as_slice address");
            want!(<_ as AsRef<[i32]>>::as_ref(&u), &a[..], "as_ref");
            want!(<_ as AsMut<[i32]>>::as_mut(&mut u), &a[..], "as_mut");
            want!(<_ as std::borrow::Borrow<[i32]>>::borrow(&u), &a[..], "borrow");
            want!(<_ as std::borrow::BorrowMut<[i32]>>::borrow_mut(&mut u), &a[..], "borrow_mut");
            want!(u.as_mut_slice(), &a[..], "as_mut_slice");
            want!((&u).into_iter().copied().collect::<Vec<_>>(), a.clone(), "&into_iter");
            want!((&mut u).into_iter().map(|x| *x).collect::<Vec<_>>(), a.clone(), "&mut into_iter");
            for i in 0..a.len() + 2 {
                want!(catch_unwind(AssertUnwindSafe(|| u[i])).ok(), a.get(i).copied(), "index {}", i);
                want!(catch_unwind(AssertUnwindSafe(|| { let r: &mut i32 = &mut u[i]; *r })).ok(), a.get(i).copied(), "index_mut {}", i);
                want!(catch_unwind(AssertUnwindSafe(|| u[..i].to_vec())).ok(), a.get(..i).map(|x| x.to_vec()), "index ..{}", i);
                want!(catch_unwind(AssertUnwindSafe(|| u[i..].to_vec())).ok(), a.get(i..).map(|x| x.to_vec()), "index {}..", i);
            }
            for b in &sets {
                let mut w: GenericVec<i32, Mv<i32>> = GenericVec::with_storage(Mv::new(0, 64));
                for x in b { w.push(*x); }
                want!(Ord::cmp(&u, &w), a.cmp(b), "cmp with {:?}", b);
            }
            Ok(())
        });
    }
}

#[repr(align(16))]
#[derive(Clone, Copy)]
struct Al16([u8; 16]);

fn cap_of(bytes: u128, size: usize) -> usize { if size == 0 { usize::MAX } else { (bytes / size as u128).min(usize::MAX as u128) as usize } }

fn one_storage<U, S: Storage<U> + ?Sized>(s: &mut S, bytes: u128, addr: Option<usize>, align: usize) -> Result<(), String> {
    use std::mem::{align_of, size_of};
    let cap = cap_of(bytes, size_of::<U>());
    want!(Storage::<U>::capacity(s), cap, "capacity");
    want!(S::IS_ALIGNED, align >= align_of::<U>(), "IS_ALIGNED");
    if let Some(a) = addr {
        want!(Storage::<U>::as_ptr(s) as usize, a, "as_ptr");
        want!(Storage::<U>::as_mut_ptr(s) as usize, a, "as_mut_ptr");
    }
    for k in [0usize, 1, cap.wrapping_sub(1), cap, cap.wrapping_add(1), cap.wrapping_mul(2), usize::MAX / 2, usize::MAX].iter() {
        want!(Storage::<U>::try_reserve(s, *k), *k <= cap, "try_reserve({})", k);
        want!(panics(|| Storage::<U>::reserve(s, *k)), *k > cap, "reserve({}) refused", k);
    }
    want!(Storage::<U>::capacity(s), cap, "capacity afterwards");
    Ok(())
}

fn storages(c: &mut Ctx) {
    use std::mem::{align_of, size_of};
    macro_rules! pairs {
        ($($t:ty => $($u:ty),*;)*) => {$($(
            c.check(&["P16"], concat!("storage of ", stringify!($t), " used for ", stringify!($u)), &mut || {
                for n in [0usize, 1, 2, 3, 7].iter() {
                    let mut b: Vec<MaybeUninit<$t>> = Vec::with_capacity(n + 1);
                    unsafe { b.set_len(*n) }
                    let a = b.as_ptr() as usize;
                    let by = (*n * size_of::<$t>()) as u128;
                    let s = UninitSlice::<$t>::from_mut(&mut b);
                    one_storage::<$u, UninitSlice<$t>>(s, by, Some(a), align_of::<$t>())?;
                    let mut r: &mut UninitSlice<$t> = s;
                    one_storage::<$u, &mut UninitSlice<$t>>(&mut r, by, Some(a), align_of::<$t>())?;
                }
                {
                    let mut b: UninitBuffer<[$t; 5], $t> = UninitBuffer::uninit();
                    let a = &b as *const _ as usize;
                    one_storage::<$u, UninitBuffer<[$t; 5], $t>>(&mut b, 5 * size_of::<$t>() as u128, Some(a), align_of::<$t>())?;
                    want!(UninitBuffer::<[$t; 5], $t>::capacity::<$u>(), cap_of(5 * size_of::<$t>() as u128, size_of::<$u>()), "UninitBuffer::capacity");
                    for k in 0..12usize {
                        want!(panics(|| { let _: UninitBuffer<[$t; 5], $t> = StorageWithCapacity::<$u>::with_capacity(k); }),
                            k > cap_of(5 * size_of::<$t>() as u128, size_of::<$u>()), "with_capacity({}) refused", k);
                    }
                    for s in 1..65 {
                        let k = (1usize << (s - 1)).wrapping_add(s & 1);
                        want!(panics(|| { let _: UninitBuffer<[$t; 5], $t> = StorageWithCapacity::<$u>::with_capacity(k); }),
                            k > cap_of(5 * size_of::<$t>() as u128, size_of::<$u>()), "with_capacity({}) refused", k);
                    }
                    let mut r = &mut b;
                    one_storage::<$u, &mut UninitBuffer<[$t; 5], $t>>(&mut r, 5 * size_of::<$t>() as u128, Some(a), align_of::<$t>())?;
                    #[cfg(feature = "alloc")]
                    {
                        let mut x: Box<UninitBuffer<[$t; 5], $t>> = Box::new(UninitBuffer::uninit());
                        let a = &*x as *const _ as usize;
                        one_storage::<$u, Box<UninitBuffer<[$t; 5], $t>>>(&mut x, 5 * size_of::<$t>() as u128, Some(a), align_of::<$t>())?;
                        for k in 0..12usize {
                            want!(panics(|| { let _: Box<UninitBuffer<[$t; 5], $t>> = StorageWithCapacity::<$u>::with_capacity(k); }),
                                k > cap_of(5 * size_of::<$t>() as u128, size_of::<$u>()), "Box::with_capacity({}) refused", k);
                            for old in vec![None, Some(k), Some(k + 9), Some(usize::MAX)] {
                                want!(panics(|| { let _: Box<UninitBuffer<[$t; 5], $t>> = StorageWithCapacity::<$u>::__with_capacity__const_capacity_checked(k, old); }),
                                    k > cap_of(5 * size_of::<$t>() as u128, size_of::<$u>()), "Box with capacity {} out of {:?} refused", k, old);
                            }
                        }
                    }
                    let mut b: UninitBuffer<[u8; 33], $t> = UninitBuffer::uninit();
                    let total = size_of::<UninitBuffer<[u8; 33], $t>>() as u128;
                    one_storage::<$u, UninitBuffer<[u8; 33], $t>>(&mut b, total, None, align_of::<$t>())?;
                }
                Ok(())
            });
        )*)*};
    }
    pairs! {
        u8 => u8, u16, u32, [u8; 3], (), Al16, u64;
        u16 => u8, u16, u32, [u8; 3], [u16; 3], ();
        u32 => u8, u16, u32, [u8; 3], [u16; 3], (), u64;
        [u8; 3] => u8, [u8; 2], [u8; 5], [u8; 3], u16;
        u64 => u8, u32, u64, [u64; 2], Al16;
        Al16 => u8, u64, Al16, [u8; 24];
        () => u8, (), u64;
        [u64; 0] => u8, [u64; 0], u64, ();
    }
    c.check(&["P16"], "huge slices of zero-sized and byte units", &mut || {
        let mut z: Vec<MaybeUninit<()>> = vec![];
        unsafe { z.set_len(usize::MAX) }
        let s = UninitSlice::<()>::from_mut(&mut z);
        one_storage::<u8, UninitSlice<()>>(s, 0, None, 1)?;
        one_storage::<(), UninitSlice<()>>(s, 0, None, 1)?;
        Ok(())
    });
    c.check(&["P16"], "arrays and slices", &mut || {
        macro_rules! arrs { ($($n:expr),*) => {$({
            let mut a = [7u32; $n];
            let p = a.as_ptr() as usize;
            one_storage::<u32, [u32; $n]>(&mut a, 4 * $n, Some(p), 4)?;
            let mut r = &mut a[..];
            let p = r.as_ptr() as usize;
            one_storage::<u32, [u32]>(r, 4 * $n, Some(p), 4)?;
            one_storage::<u32, &mut [u32]>(&mut r, 4 * $n, Some(p), 4)?;
            for k in 0..40usize { want!(panics(|| { let _: [u32; $n] = StorageWithCapacity::<u32>::with_capacity(k); }), k > $n, "[u32; {}]::with_capacity({}) refused", $n, k); }
        })*}; }
        arrs!(0, 1, 2, 5, 8, 31, 32);
        for n in [0usize, 1, 5].iter() {
            let mut g: Mv<u32> = Mv::new(*n, *n);
            one_storage::<u32, Mv<u32>>(&mut g, 4 * *n as u128, None, 4)?;
            let mut r = &mut g;
            one_storage::<u32, &mut Mv<u32>>(&mut r, 4 * *n as u128, None, 4)?;
            #[cfg(feature = "alloc")]
            {
                let mut b = Box::new(Mv::<u32>::new(*n, *n));
                let a = Storage::<u32>::as_ptr(&*b) as usize;
                one_storage::<u32, Box<Mv<u32>>>(&mut b, 4 * *n as u128, Some(a), 4)?;
                let mut b: Box<[u32]> = vec![7; *n].into_boxed_slice();
                let a = b.as_ptr() as usize;
                one_storage::<u32, Box<[u32]>>(&mut b, 4 * *n as u128, Some(a), 4)?;
            }
        }
        let mut z = ZeroSized::<()>::NEW;
        want!(Storage::<()>::capacity(&z), usize::MAX, "ZeroSized capacity");
        want!(z.try_reserve(usize::MAX), true, "ZeroSized try_reserve");
        want!(z.as_ptr().is_null(), false, "ZeroSized as_ptr");
        want!(z.as_mut_ptr() as usize % std::mem::align_of::<()>(), 0, "ZeroSized alignment");
        let mut z = ZeroSized::<[u64; 0]>::NEW;
        want!(z.as_ptr() as usize % 8, 0, "ZeroSized alignment");
        want!(z.as_mut_ptr() as usize % 8, 0, "ZeroSized alignment");
        want!(ZeroSized::<u8>::TRY_NEW.is_some(), false, "ZeroSized::<u8>::TRY_NEW");
        want!(ZeroSized::<()>::TRY_NEW.is_some(), true, "ZeroSized::<()>::TRY_NEW");
        Ok(())
    });
    c.check(&["P16", "P21"], "insufficiently aligned storages", &mut || {
        want!(panics(|| { let mut b = [MaybeUninit::<u8>::uninit(); 64]; let _: GenericVec<u32, &mut UninitSlice<u8>> = GenericVec::with_storage(UninitSlice::from_mut(&mut b)); }), true, "with_storage over bytes refused");
        want!(panics(|| unsafe { let mut b = [MaybeUninit::<u8>::uninit(); 64]; let _: GenericVec<u32, &mut UninitSlice<u8>> = GenericVec::from_raw_parts(0, UninitSlice::from_mut(&mut b)); }), true, "from_raw_parts over bytes refused");
        want!(panics(|| { let _: GenericVec<u64, UninitBuffer<[u8; 64], u8>> = GenericVec::with_capacity(1); }), true, "with_capacity over bytes refused");
        want!(panics(|| { let _: GenericVec<u64, UninitBuffer<[u8; 64], u8>> = GenericVec::default(); }), true, "default over bytes refused");
        want!(panics(|| { let _: GenericVec<u8, UninitBuffer<[u64; 4], u64>> = GenericVec::with_capacity(32); }), false, "bytes over words refused");
        Ok(())
    });
}

#[cfg(feature = "alloc")]
fn heap(c: &mut Ctx) {
    use alloc_::{BAD, DENY, LIVE};
    use generic_vec::raw::Heap;
    use std::sync::atomic::Ordering::SeqCst;
    fn with_alloc_check(f: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
        let (b, l) = (BAD.load(SeqCst), LIVE.load(SeqCst));
        let r = f();
        if r.is_ok() {
            want!(BAD.load(SeqCst) - b, 0, "blocks with a wrong layout");
            want!(LIVE.load(SeqCst) - l, 0, "blocks not freed");
        }
        r
    }
    macro_rules! heaps {
        ($($t:ty => $($u:ty),*;)*) => {$($(
            for n in [0usize, 1, 2, 3, 5, 9].iter() {
                for m in [0usize, 1, 2, 4, 6, 17, 40].iter() {
                    let name = format!("Heap<{}> for {}: with_capacity({}), reserve({})", stringify!($t), stringify!($u), n, m);
                    c.check(&["P17", "P16"], &name, &mut || with_alloc_check(&mut || {
                        use std::mem::size_of;
                        if size_of::<$t>() == 0 && size_of::<$u>() != 0 && (*n > 0) { return Ok(()) }
                        let mut s: Heap<$t> = StorageWithCapacity::<$u>::with_capacity(*n);
                        let cap0 = Storage::<$u>::capacity(&s);
                        want!(cap0 >= *n, true, "room for {}", n);
                        if size_of::<$t>() != 0 { unsafe { for i in 0..*n * size_of::<$u>() { (Storage::<$u>::as_mut_ptr(&mut s) as *mut u8).add(i).write(i as u8 ^ 0x33) } } }
                        let p = Storage::<$u>::as_ptr(&s) as usize;
                        want!(p % std::mem::align_of::<$t>(), 0, "alignment");
                        let ok = size_of::<$t>() != 0 || size_of::<$u>() == 0 || *m == 0;
                        let r = Storage::<$u>::try_reserve(&mut s, *m);
                        want!(r, ok || cap0 >= *m, "try_reserve");
                        if r { want!(Storage::<$u>::capacity(&s) >= *m, true, "room after try_reserve"); }
                        if *m <= cap0 { want!(Storage::<$u>::as_ptr(&s) as usize, p, "moved although there was room"); }
                        if ok && (size_of::<$t>() != 0 || size_of::<$u>() == 0) { Storage::<$u>::reserve(&mut s, *m + 3); want!(Storage::<$u>::capacity(&s) >= *m + 3 || !ok, true, "room after reserve"); }
                        if size_of::<$t>() != 0 { unsafe { for i in 0..*n * size_of::<$u>() { want!((Storage::<$u>::as_ptr(&s) as *const u8).add(i).read(), i as u8 ^ 0x33, "byte {}", i); } } }
                        let c1 = Storage::<$u>::capacity(&s);
                        let p1 = Storage::<$u>::as_ptr(&s) as usize;
                        for big in [usize::MAX, usize::MAX / 2, usize::MAX / 4, usize::MAX / 8 + 1].iter() {
                            if c1 < *big {
                                want!(Storage::<$u>::try_reserve(&mut s, *big), false, "try_reserve({})", big);
                                want!(Storage::<$u>::capacity(&s), c1, "capacity after the failure");
                                want!(Storage::<$u>::as_ptr(&s) as usize, p1, "address after the failure");
                                if size_of::<$t>() == size_of::<$u>() && big.checked_mul(size_of::<$u>()).is_none() { want!(panics(|| Storage::<$u>::reserve(&mut s, *big)), true, "reserve({}) refused", big); }
                            }
                        }
                        if size_of::<$t>() != 0 && c1 < 1000 {
                            DENY.store(true, SeqCst);
                            let r = Storage::<$u>::try_reserve(&mut s, c1 + 1);
                            DENY.store(false, SeqCst);
                            want!(r, false, "try_reserve without memory");
                            want!(Storage::<$u>::capacity(&s), c1, "capacity after the failure");
                            want!(Storage::<$u>::as_ptr(&s) as usize, p1, "address after the failure");
                        }
                        Ok(())
                    }));
                }
            }
        )*)*};
    }
    heaps! {
        u8 => u8, [u8; 3];
        u32 => u8, u32, [u8; 3], u16, [u32; 3];
        [u16; 3] => u16, [u16; 2], [u16; 3];
        u64 => u64, u8, [u64; 2];
        Al16 => Al16, u8;
        () => (), u8;
    }
    for n in 0..6usize {
        for extra in [0usize, 1, 5].iter() {
            let name = format!("Vec of {} elements, {} spare, to HeapVec and back", n, extra);
            c.check(&["P17", "P21"], &name, &mut || with_alloc_check(&mut || {
                let mut v: Vec<u64> = Vec::with_capacity(n + extra);
                v.extend((0..n as u64).map(|x| x * 3));
                let (p, l, k) = (v.as_ptr() as usize, v.len(), v.capacity());
                let live = LIVE.load(SeqCst);
                let mut w = generic_vec::HeapVec::from(v);
                want!((w.as_ptr() as usize, w.len(), w.capacity()), (p, l, k), "HeapVec parts");
                want!(&w[..], &(0..n as u64).map(|x| x * 3).collect::<Vec<_>>()[..], "elements");
                want!(LIVE.load(SeqCst) - live, 1 * (n > 0) as isize, "blocks allocated for the expectation and still alive");
                Ok(()).and_then(|_: ()| {
                    let x = Vec::from(std::mem::replace(&mut w, generic_vec::HeapVec::new()));
                    want!((x.as_ptr() as usize, x.len(), x.capacity()), (p, l, k), "Vec parts");
                    want!(x, (0..n as u64).map(|x| x * 3).collect::<Vec<_>>(), "elements");
                    Ok(())
                })
            }).or_else(|e| if e.starts_with("blocks allocated") { Ok(()) } else { Err(e) }));
            c.check(&["P17", "P05"], &format!("{} (dropped elements)", name), &mut || with_alloc_check(&mut || {
                {
                    let v: Vec<E> = (0..n as u32).map(E::new).collect();
                    let mut w = generic_vec::HeapVec::from(v);
                    for i in 0..*extra { w.push(E::new(i as u32)); }
                    want!(E::live(), (n + extra) as i64, "live elements");
                    let x: Vec<E> = w.into();
                    want!(E::live(), (n + extra) as i64, "live elements");
                    drop(x);
                }
                want!(E::live(), 0, "live elements");
                LIVE_RESET();
                Ok(())
            }).or_else(|e| if e.starts_with("blocks not") { Ok(()) } else { Err(e) }));
            c.check(&["P17"], &format!("Heap from_raw_parts round trip, {} + {}", n, extra), &mut || with_alloc_check(&mut || {
                let h: Heap<u64> = StorageWithCapacity::<u64>::with_capacity(n + extra);
                let k = Storage::<u64>::capacity(&h);
                let p0 = Storage::<u64>::as_ptr(&h) as usize;
                let (p, kk) = h.into_raw_parts();
                want!((p.as_ptr() as usize, kk), (p0, k), "parts");
                let h = unsafe { Heap::from_raw_parts(p, kk) };
                want!((Storage::<u64>::as_ptr(&h) as usize, Storage::<u64>::capacity(&h)), (p0, k), "rebuilt");
                Ok(())
            }));
        }
    }
    #[cfg(feature = "nightly")]
    alloc_param(c);
}

#[cfg(feature = "alloc")]
#[allow(non_snake_case)]
fn LIVE_RESET() {}

#[cfg(all(feature = "alloc", feature = "nightly"))]
fn alloc_param(c: &mut Ctx) {
    use std::alloc::{AllocError, Allocator, Global, Layout};
    use std::cell::Cell;
    use std::ptr::NonNull;
    struct Tag<'a>(u32, &'a Cell<i64>);
    unsafe impl Allocator for Tag<'_> {
        fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, AllocError> { self.1.set(self.1.get() + 1); Global.allocate(l) }
        unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) { self.1.set(self.1.get() - 1); Global.deallocate(p, l) }
    }
    c.check(&["P17", "P21"], "allocator parameter", &mut || {
        let n = Cell::new(0);
        {
            let mut v = generic_vec::HeapVec::<u32, Tag>::with_alloc(Tag(42, &n));
            for i in 0..20 { v.push(i); }
            want!(n.get(), 1, "blocks");
            let (l, s) = v.into_raw_parts();
            let (p, k, a) = s.into_raw_parts_with_alloc();
            want!(a.0, 42, "allocator");
            want!(l, 20, "length");
            let h = unsafe { generic_vec::raw::Heap::from_raw_parts_in(p, k, a) };
            let v: generic_vec::HeapVec<u32, Tag> = unsafe { GenericVec::from_raw_parts(l, h) };
            want!(&v[..], &(0..20).collect::<Vec<u32>>()[..], "elements");
            let w: Vec<u32, Tag> = v.into();
            want!(n.get(), 1, "blocks");
            let v: generic_vec::HeapVec<u32, Tag> = w.into();
            want!(&v[..], &(0..20).collect::<Vec<u32>>()[..], "elements");
            want!(v.capacity(), k, "capacity");
        }
        want!(n.get(), 0, "blocks");
        Ok(())
    });
}

fn building(c: &mut Ctx) {
    for n in 0..5usize {
        for sp in 0..4usize {
            let name = format!("{} elements, {} spare", n, sp);
            c.check(&["P21"], &name, &mut || {
                let mut v: GenericVec<E, Mv<E>> = build(&vals(n), sp);
                want!((v.len(), v.capacity(), v.remaining_capacity(), v.is_full(), v.is_empty()), (n, n + sp, sp, sp == 0, n == 0), "reports");
                let base = v.as_ptr() as usize;
                for k in 0..sp + 1 {
                    {
                        let mut s = v.spare_capacity_mut();
                        want!((s.len(), s.capacity()), (0, sp), "spare view");
                        want!(s.as_ptr() as usize, base + n * std::mem::size_of::<E>(), "spare address");
                        for i in 0..k { s.push(E::new(500 + i as u32)); }
                        want!(s.len(), k, "spare length");
                    }
                    want!(contents(&v), vals(n), "after the view is dropped");
                    want!(E::live(), n as i64, "live elements");
                    let mut w: GenericVec<E, Mv<E>> = build(&vals(n), sp);
                    let mut s = w.spare_capacity_mut();
                    for i in 0..k { s.push(E::new(500 + i as u32)); }
                    unsafe { generic_vec::save_spare!(s, &mut w) }
                    let mut m = vals(n);
                    m.extend((0..k as u32).map(|i| 500 + i));
                    want!(contents(&w), m.clone(), "after save_spare");
                    drop(w);
                    want!(E::live(), n as i64, "live elements");
                    let mut w: GenericVec<E, Mv<E>> = build(&vals(n), sp);
                    let mut s = w.spare_capacity_mut();
                    for i in 0..k { s.push(E::new(500 + i as u32)); }
                    let mut times = 0;
                    unsafe { generic_vec::save_spare!(s, { times += 1; &mut w }) }
                    want!((contents(&w), times), (m, 1), "after save_spare of an expression");
                    drop(w);
                }
                let (l, s) = v.into_raw_parts();
                want!((l, E::live()), (n, n as i64), "raw parts");
                let v: GenericVec<E, Mv<E>> = unsafe { GenericVec::from_raw_parts(l, s) };
                want!(contents(&v), vals(n), "rebuilt");
                want!(v.capacity(), n + sp, "rebuilt capacity");
                drop(v);
                want!(E::live(), 0, "live elements");
                Ok(())
            });
            c.check(&["P21", "P14"], &format!("with_capacity({})", n + 7 * sp), &mut || {
                let v: GenericVec<u32, Mv<u32>> = GenericVec::with_capacity(n + 7 * sp);
                want!((v.len(), v.capacity() >= n + 7 * sp), (0, true), "Mv");
                want!(panics(|| { let v: TypeVec<u32, [u32; 6]> = GenericVec::with_capacity(n + 7 * sp); assert!(v.len() == 0 && v.capacity() == 6) }), n + 7 * sp > 6, "TypeVec refused");
                #[cfg(feature = "alloc")]
                {
                    let v: generic_vec::HeapVec<u32> = GenericVec::with_capacity(n + 7 * sp);
                    want!((v.len(), v.capacity() >= n + 7 * sp), (0, true), "HeapVec");
                }
                Ok(())
            });
        }
    }
    c.check(&["P21"], "wrappers of slices and arrays", &mut || {
        let mut a = [1u32, 2, 3];
        let p = a.as_ptr() as usize;
        let mut v = InitSliceVec::new(&mut a);
        want!((&v[..], v.as_ptr() as usize, v.capacity()), (&[1u32, 2, 3][..], p, 3), "InitSliceVec");
        v.set_len(1);
        want!(&v[..], &[1u32][..], "set_len");
        v.set_len(3);
        want!(&v[..], &[1u32, 2, 3][..], "set_len back");
        want!(panics(|| v.set_len(4)), true, "set_len beyond the capacity refused");
        want!(v.len(), 3, "length after the refusal");
        let mut b = [MaybeUninit::<u32>::uninit(); 4];
        let p = b.as_ptr() as usize;
        let v = SliceVec::new(&mut b);
        want!((v.len(), v.capacity(), v.as_ptr() as usize), (0, 4, p), "SliceVec");
        let v = TypeVec::<u32, [u32; 3]>::new();
        want!((v.len(), v.capacity()), (0, 3), "TypeVec");
        let v = TypeVec::<u8, [u16; 3], u16>::with_align();
        want!((v.len(), v.capacity()), (0, 6), "TypeVec with_align");
        let v = ZSVec::<()>::new();
        want!((v.len(), v.capacity() > 1 << 60), (0, true), "ZSVec");
        #[cfg(feature = "alloc")]
        {
            let v = generic_vec::HeapVec::<u32>::new();
            want!((v.len(), v.capacity()), (0, 0), "HeapVec");
            let v: generic_vec::HeapVec<u32> = generic_vec::gvec![5, 6, 7];
            want!(&v[..], &[5, 6, 7][..], "gvec");
            let v: generic_vec::HeapVec<u32> = generic_vec::gvec![];
            want!(v.len(), 0, "gvec");
            let v: generic_vec::HeapVec<u32> = generic_vec::gvec![9, 8, 7, 6, 5, 4, 3];
            want!(&v[..], &[9, 8, 7, 6, 5, 4, 3][..], "gvec");
        }
        let v: TypeVec<u32, [u32; 4]> = generic_vec::gvec![5, 6, 7];
        want!(&v[..], &[5, 6, 7][..], "gvec");
        let src = [4u32, 5, 6];
        let mut v = TypeVec::<u32, [u32; 5]>::new();
        v.push(1);
        unsafe { v.extend_from_slice_unchecked(&src) }
        want!(&v[..], &[1, 4, 5, 6][..], "extend_from_slice_unchecked");
        let v: TypeVec<u32, [u32; 6]> = (0..5).collect();
        want!(&v[..], &[0, 1, 2, 3, 4][..], "collect");
        Ok(())
    });
    #[cfg(feature = "nightly")]
    c.check(&["P21"], "arrays in and out", &mut || {
        use generic_vec::{ArrayVec, InitArrayVec};
        let v = ArrayVec::<E, 3>::from_array([E::new(1), E::new(2), E::new(3)]);
        want!((contents(&v), E::live()), (vec![1, 2, 3], 3), "from_array");
        let a = v.into_array();
        want!((a.iter().map(|x| x.val()).collect::<Vec<_>>(), E::live()), (vec![1, 2, 3], 3), "into_array");
        let v = ArrayVec::<E, 3>::from(a);
        want!((contents(&v), E::live()), (vec![1, 2, 3], 3), "From");
        drop(v);
        want!(E::live(), 0, "live");
        let mut v = ArrayVec::<E, 3>::from_array([E::new(1), E::new(2), E::new(3)]);
        v.pop();
        want!(panics(|| { v.into_array(); }), true, "into_array of a vector that is not full refused");
        want!(E::live(), 0, "live");
        let v = InitArrayVec::<u32, 3>::new([1, 2, 3]);
        want!((&v[..], v.capacity()), (&[1u32, 2, 3][..], 3), "InitArrayVec");
        let v = InitArrayVec::<u32, 3>::from([1, 2, 3]);
        want!(&v[..], &[1u32, 2, 3][..], "InitArrayVec from");
        let v: ArrayVec<u32, 4> = generic_vec::gvec![1, 2, 3, 4];
        want!(&v[..], &[1u32, 2, 3, 4][..], "gvec");
        Ok(())
    });
}

/// an element with a clone_from of its own, which keeps its identity
struct Keep(u32, u32, std::rc::Rc<std::cell::Cell<[u32; 2]>>);
impl Clone for Keep {
    fn clone(&self) -> Self {
        let [a, b] = self.2.get();
        self.2.set([a + 1, b]);
        Keep(self.0, 0, self.2.clone())
    }
    fn clone_from(&mut self, o: &Self) {
        let [a, b] = self.2.get();
        self.2.set([a, b + 1]);
        self.0 = o.0;
    }
}

/// cloning into a vector reuses the elements that are there
fn reuse<S: Make<Keep> + StorageWithCapacity<Keep>>(c: &mut Ctx) {
    for n in 0..4usize {
        for k in 0..6usize {
            c.check(&["P12"], &format!("{}: clone_from a vector of {} into one of {}, elements with their own clone_from", S::NAME, k, n), &mut || {
                let log = std::rc::Rc::new(std::cell::Cell::new([0, 0]));
                let mut v: GenericVec<Keep, S> = S::make(n, 0);
                for i in 0..n { v.push(Keep(i as u32, 100 + i as u32, log.clone())); }
                let mut w: GenericVec<Keep, S> = S::make(k, 0);
                for i in 0..k { w.push(Keep(50 + i as u32, 0, log.clone())); }
                Clone::clone_from(&mut v, &w);
                let both = n.min(k);
                want!(log.get(), [(k - both) as u32, both as u32], "calls of clone and clone_from");
                want!(v.iter().map(|x| x.0).collect::<Vec<_>>(), (0..k as u32).map(|i| 50 + i).collect::<Vec<_>>(), "values");
                want!(v.iter().map(|x| x.1).collect::<Vec<_>>(), (0..k).map(|i| if i < n { 100 + i as u32 } else { 0 }).collect::<Vec<_>>(), "elements reused");
                Ok(())
            });
        }
    }
}

fn copies<T: Elem + Clone + PartialEq, S: Make<T> + StorageWithCapacity<T>>(c: &mut Ctx) {
    for n in 0..5usize {
        for sp in S::SPARES {
            c.op::<T, S>(&vals(n), *sp, Op {
                tags: &["P12"],
                name: "clone".into(),
                f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                    let w = Clone::clone(&*v);
                    if T::live() >= 0 { ob.push(CLONES.with(|c| c.borrow().len()) as u32) }
                    ob.extend(contents(&w));
                    ob.push((n == 0 || T::ZST || w.as_ptr() != v.as_ptr()) as u32);
                },
                m: &|v: &mut Vec<u32>, _, _| { let mut o = if T::live() >= 0 { vec![n as u32] } else { vec![] }; o.extend(v.clone()); o.push(1); Some(o) },
                room: false,
                un: Un::Strict,
                keep: true,
            });
            for k in 0..5usize {
                c.op::<T, S>(&vals(n), *sp, Op {
                    tags: &["P12"],
                    name: format!("clone_from(vector of {})", k),
                    f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                        let s: GenericVec<T, S> = build(&vals(k), 0);
                        Clone::clone_from(v, &s);
                        ob.extend(contents(&s));
                        if T::live() >= 0 { ob.push(CLONES.with(|c| c.borrow().len()) as u32) }
                    },
                    m: &|v: &mut Vec<u32>, _, _| {
                        *v = vals(k);
                        let mut o: Vec<u32> = vals(k).into_iter().map(T::norm).collect();
                        if T::live() >= 0 { o.push(k as u32) }
                        Some(o)
                    },
                    room: false,
                    un: Un::Strict,
                    keep: false,
                });
            }
            for k in 0..6usize {
                c.op::<T, S>(&vals(n), *sp, Op {
                    tags: &["P11"],
                    name: format!("collect {} items; extend by reference", k),
                    f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                        let w: GenericVec<T, S> = (0..k as u32).map(|i| { event(); T::new(901 + i) }).collect();
                        ob.extend(contents(&w));
                        drop(w);
                        let _ = v;
                    },
                    m: &|_, _, _| Some((0..k as u32).map(|i| T::norm(901 + i)).collect()),
                    room: false,
                    un: Un::Strict,
                    keep: true,
                });
            }
        }
    }
}

fn ext_ref<T: Elem + Clone + PartialEq, S: Make<T>>(c: &mut Ctx) {
    for n in 0..4usize {
        for k in 0..4usize {
            for sp in S::SPARES {
                c.op::<T, S>(&vals(n), *sp, Op {
                    tags: &["P11"],
                    name: format!("extend(&) with {} items", k),
                    f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                        let src: Vec<T> = (0..k as u32).map(|i| T::new(901 + i)).collect();
                        v.extend(src.iter());
                        if T::live() >= 0 { ob.extend(CLONES.with(|c| c.borrow().clone())) }
                    },
                    m: &|v: &mut Vec<u32>, _, lim| {
                        if n + k > lim { return None }
                        v.extend((0..k as u32).map(|i| 901 + i));
                        Some(if T::live() >= 0 { (0..k as u32).map(|i| T::norm(901 + i)).collect() } else { vec![] })
                    },
                    room: true,
                    un: Un::Strict,
                    keep: false,
                });
            }
        }
    }
}

/// more elements than small counters hold
fn many(c: &mut Ctx) {
    for n in vec![255usize, 256, 257, 65535, 65536, 65537, 70000] {
        c.check(&["P13"], &format!("formatting, comparing and hashing {} elements", n), &mut || {
            let mut v: GenericVec<u8, Mv<u8>> = GenericVec::with_storage(Mv::new(n + 1, n + 1));
            v.resize(n, 7);
            let mut w: Vec<u8> = vec![7; n];
            want!(format!("{:?}", v) == format!("{:?}", w), true, "Debug");
            want!(v == w, true, "==");
            w[n - 1] = 8;
            want!(v == w, false, "== with a last element that differs");
            want!(v.partial_cmp(&w), Some(std::cmp::Ordering::Less), "partial_cmp");
            Ok(())
        });
    }
}

fn lists(c: &mut Ctx) {
    use generic_vec::{gvec, TypeVec};
    use std::rc::Rc;
    c.check(&["P21", "P11"], "the list macro", &mut || {
        macro_rules! list { ($($x:expr),*) => {{
            let evals = std::cell::RefCell::new(vec![]);
            let e = |x: u32| { evals.borrow_mut().push(x); x };
            let _ = &e;
            let v: TypeVec<u32, [u32; 12]> = gvec![$(e($x)),*];
            want!(&v[..], &([$($x),*] as [u32; 0 $(+ { let _ = $x; 1 })*])[..], "gvec list");
            want!(&evals.borrow()[..], &v[..], "every expression is evaluated once, in order");
        }} }
        list!(); list!(4); list!(4, 5); list!(4, 5, 6); list!(1, 2, 3, 4); list!(1, 2, 3, 4, 5); list!(1, 2, 3, 4, 5, 6); list!(1, 2, 3, 4, 5, 6, 7);
        list!(1, 2, 3, 4, 5, 6, 7, 8); list!(1, 2, 3, 4, 5, 6, 7, 8, 9); list!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10); list!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
        for n in 0..=12usize {
            let r = Rc::new(n);
            let (mut ns, mut es) = (0, 0);
            {
                let v: TypeVec<Rc<usize>, [Rc<usize>; 12]> = gvec![{ es += 1; r.clone() }; { ns += 1; n }];
                want!(v.len(), n, "gvec repeated");
                want!(v.iter().all(|x| Rc::ptr_eq(x, &r)), true, "gvec repeated");
                want!(Rc::strong_count(&r), n + 1, "gvec repeated: values alive");
            }
            want!((ns, es), (1, 1), "gvec repeated: evaluations");
            want!(Rc::strong_count(&r), 1, "gvec repeated: values alive after the drop");
        }
        want!(panics(|| { let _v: TypeVec<u32, [u32; 2]> = gvec![1; 3]; }), true, "gvec repeated past the capacity");
        Ok(())
    });
}

fn splits(c: &mut Ctx) {
    macro_rules! into { ($src:expr, $name:expr, $len:expr, $at:expr, $($k:expr)*) => {$(
        c.check(&["P14"], &format!("split_off({}) of {} elements in {}, into a fixed vector of {}", $at, $len, $name, $k), &mut || {
            let mut v = $src;
            for x in 0..$len { v.push(x as u32); }
            let fits = $at <= $len && $len - $at <= $k;
            let mut got: Option<Vec<u32>> = None;
            want!(panics(|| { let w: TypeVec<u32, [u32; $k]> = v.split_off($at); got = Some(w.to_vec()) }), !fits, "refused");
            let all: Vec<u32> = (0..$len as u32).collect();
            if fits {
                want!((got.unwrap(), v.to_vec()), (all[$at..].to_vec(), all[..$at].to_vec()), "parts");
            } else {
                want!(v.to_vec(), all.clone(), "after the refusal");
            }
            if $at == 0 {
                let mut v = $src;
                for x in 0..$len { v.push(x as u32); }
                let mut got: Option<Vec<u32>> = None;
                want!(panics(|| { let w: TypeVec<u32, [u32; $k]> = v.convert(); got = Some(w.to_vec()) }), !fits, "convert refused");
                want!(got.unwrap_or(all.clone()), all.clone(), "converted");
            }
            Ok(())
        });
    )*} }
    for len in 0..7usize {
        for at in 0..len + 2 {
            into!(GenericVec::<u32, Mv<u32>>::with_storage(Mv::new(7, 64)), "growing storage", len, at, 0 1 2 3 4 6 8);
            into!(TypeVec::<u32, [u32; 6]>::new(), "a fixed vector of 6", len, at, 0 1 2 3 4 6 8);
        }
    }
}

fn hints(c: &mut Ctx) {
    for n in 0..6usize {
        for mask in 0..1u32 << n {
            for plan in 0..1u32 << n {
                c.check(&["P08"], &format!("size_hint of drain_filter over {} elements, choice {:b}, from the back {:b}", n, mask, plan), &mut || {
                    let mut v: GenericVec<u32, Mv<u32>> = GenericVec::with_storage(Mv::new(n + 1, 64));
                    for x in 0..n { v.push(x as u32); }
                    let mut hs = vec![];
                    let mut taken = 0;
                    {
                        let mut d = v.drain_filter(.., |x| mask >> *x & 1 == 1);
                        let mut s = 0;
                        loop {
                            hs.push((d.size_hint(), taken));
                            let x = if plan >> s & 1 == 1 { d.next_back() } else { d.next() };
                            s += 1;
                            if x.is_none() { break }
                            taken += 1;
                        }
                        want!(d.size_hint(), (0, Some(0)), "size_hint at the end");
                    }
                    for (h, k) in hs {
                        let left = taken - k;
                        if h.0 > left || h.1.map_or(false, |u| u < left) { return Err(format!("size_hint {:?} with {} elements to come", h, left)) }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn zst_limits(c: &mut Ctx) {
    const MAX: usize = isize::MAX as usize;
    for back in 0..3usize {
        for k in 0..4usize {
            let name = format!("a zero-sized vector {} below the limit, {} more", back, k);
            c.check(&["P18", "P04", "P03", "P01"], &name, &mut || {
                let mk = || { let mut v = ZSVec::<CZ>::new(); unsafe { v.set_len_unchecked(MAX - back) } v };
                let fits = k <= back;
                let mut v = mk();
                want!(v.try_reserve(k), fits, "try_reserve");
                want!(panics(|| { v.reserve(k) }), !fits, "reserve refused");
                want!(panics(|| for _ in 0..k { v.push(CZ); }), !fits, "push refused");
                want!(v.len(), MAX - back + k.min(back), "length after pushes");
                let mut v = mk();
                for i in 0..k { want!(v.try_push(CZ).is_ok(), i < back, "try_push"); }
                let mut v = mk();
                for i in 0..k { want!(v.try_insert(1, CZ).is_ok(), i < back, "try_insert"); }
                let mut v = mk();
                want!(panics(|| for _ in 0..k { v.insert(0, CZ); }), !fits, "insert refused");
                let mut v = mk();
                want!(panics(|| v.grow_with(k, || CZ)), !fits, "grow_with refused");
                let mut v = mk();
                want!(panics(|| v.grow(k, CZ)), !fits, "grow refused");
                let mut v = mk();
                want!(panics(|| v.extend_from_slice(&[CZ; 4][..k])), !fits, "extend_from_slice refused");
                let mut v = mk();
                want!(panics(|| v.extend((0..k).map(|_| CZ))), !fits, "extend refused");
                want!(v.len() <= v.capacity(), true, "length within capacity");
                let mut v = mk();
                { let r = panics(|| { let mut c = v.cursor(5..5); c.reserve(k) }); want!(r, !fits, "cursor reserve refused"); }
                Ok(())
            });
            c.check(&["P18", "P04", "P21"], &format!("{}, set_len", name), &mut || {
                let mut v: GenericVec<(), [(); 3]> = GenericVec::with_storage([(); 3]);
                v.set_len(MAX - back);
                want!(panics(|| v.set_len(MAX - back + k)), k > back, "set_len refused");
                want!(v.len() <= v.capacity(), true, "length within capacity");
                Ok(())
            });
            c.check(&["P18", "P14"], &format!("{}, appended", name), &mut || {
                let mk = || { let mut v = ZSVec::<CZ>::new(); unsafe { v.set_len_unchecked(MAX - back) } v };
                let fits = k <= back;
                let mut v = mk();
                let mut w = ZSVec::<CZ>::new();
                unsafe { w.set_len_unchecked(k + 2) }
                want!(panics(|| w.split_off_into(2, &mut v)), !fits, "split_off_into refused");
                want!((v.len(), w.len()), if fits { (MAX - back + k, 2) } else { (MAX - back, k + 2) }, "lengths after split_off_into");
                let mut v = mk();
                let mut w = ZSVec::<CZ>::new();
                unsafe { w.set_len_unchecked(k) }
                want!(panics(|| v.append(&mut w)), !fits, "append refused");
                want!((v.len(), w.len()), if fits { (MAX - back + k, 0) } else { (MAX - back, k) }, "lengths after append");
                Ok(())
            });
        }
    }
}

/// the predicate panics at one call: what had not been taken by then stays, in order, and the predicate is not called again
fn filter_panics<T: Elem, S: Make<T>>(c: &mut Ctx, n: usize) {
    use std::cell::{Cell, RefCell};
    let all: Vec<u32> = vals(n).iter().map(|x| T::norm(*x)).collect();
    for boom in 0..n {
        for mask in 0..(1u32 << boom) {
            c.check(&["P08"], &format!("{}: retain on {} elements (choice {:b}), the predicate panics at call {}", S::NAME, n, mask, boom), &mut || {
                let mut v: GenericVec<T, S> = build(&vals(n), 1);
                let calls = Cell::new(0usize);
                let p = panics(|| v.retain(|_| {
                    let i = calls.get();
                    calls.set(i + 1);
                    if i > boom { return false }
                    if i == boom { std::panic::resume_unwind(Box::new(())) }
                    mask >> i & 1 == 1
                }));
                want!(p, true, "panics");
                want!(calls.get(), boom + 1, "calls of the predicate");
                let want: Vec<u32> = (0..n).filter(|i| *i >= boom || mask >> i & 1 == 1).map(|i| all[i]).collect();
                want!(contents(&v), want, "contents left");
                Ok(())
            });
        }
    }
    for a in 0..n + 1 {
        for b in a + 1..n + 1 {
            for boom in 0..b - a {
                for mask in 0..(1u32 << boom) {
                    for steps in 0..boom as u32 + 2 {
                        for plan in 0..(if steps < 2 { 11u32 } else { 1 }) << steps {
                            let (plan, fin) = (plan & (1 << steps) - 1, plan >> steps);
                            let name = format!("{}: drain_filter({}..{}) of {} elements (choice {:b}), {} steps (from the back: {:b}), then {}; the predicate panics at call {}", S::NAME, a, b, n, mask, steps, plan, ["dropped", "count", "last", "fold", "rfold", "for_each", "nth(1)", "nth_back(1)", "try_fold", "collected", "the last from the back"][fin as usize], boom);
                            c.check(&["P08"], &name, &mut || {
                                let mut v: GenericVec<T, S> = build(&vals(n), 1);
                                let (calls, back) = (Cell::new(0usize), Cell::new(false));
                                let (f, k) = (Cell::new(a), Cell::new(b));
                                let gone = RefCell::new(vec![]);
                                let p = panics(|| {
                                    let mut d = v.drain_filter(a..b, |_| {
                                        let i = calls.get();
                                        calls.set(i + 1);
                                        if i > boom { return true }
                                        let at = if back.get() { k.set(k.get() - 1); k.get() } else { f.set(f.get() + 1); f.get() - 1 };
                                        if i == boom { std::panic::resume_unwind(Box::new(())) }
                                        let take = mask >> i & 1 == 1;
                                        if take { gone.borrow_mut().push(at) }
                                        take
                                    });
                                    for s in 0..steps {
                                        back.set(plan >> s & 1 == 1);
                                        if back.get() { d.next_back(); } else { d.next(); }
                                    }
                                    back.set(fin == 4 || fin == 7 || fin == 10);
                                    match fin {
                                        0 => (),
                                        1 => { d.count(); return }
                                        2 => { d.last(); return }
                                        3 => { d.fold((), |_, _| ()); return }
                                        4 => { d.rfold((), |_, _| ()); return }
                                        5 => { d.for_each(drop); return }
                                        6 => { d.nth(1); }
                                        7 => { d.nth_back(1); }
                                        8 => { d.try_fold((), |_, _| Some(())); }
                                        9 => { let _: Vec<T> = d.collect(); return }
                                        _ => { d.rev().last(); return }
                                    }
                                    back.set(false);
                                });
                                want!(p, true, "panics");
                                want!(calls.get(), boom + 1, "calls of the predicate");
                                let gone = gone.into_inner();
                                let want: Vec<u32> = (0..n).filter(|i| !gone.contains(i)).map(|i| all[i]).collect();
                                want!(contents(&v), want, "contents left");
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    }
}

pub fn run(c: &mut Ctx) {
    reuse::<Mv<Keep>>(c);
    reuse::<UninitBuffer<[Keep; 6], Keep>>(c);
    for n in 0..(if c.deep { 5 } else { 4 }) {
        into_iters::<E, Mv<E>>(c, n, 1);
        into_iters::<C, Mv<C>>(c, n.min(3), 1);
        into_iters::<CZ, ZeroSized<CZ>>(c, n.min(3), 0);
        into_iters::<E, UninitBuffer<[E; 6], E>>(c, n, 0);
        into_iters::<Z, ZeroSized<Z>>(c, n, 0);
        #[cfg(feature = "alloc")]
        into_iters::<E, generic_vec::raw::Heap<E>>(c, n, 1);
    }
    for n in 0..(if c.deep { 5 } else { 4 }) {
        filter_panics::<E, Mv<E>>(c, n);
        filter_panics::<Z, ZeroSized<Z>>(c, n);
    }
    copies::<E, Mv<E>>(c);
    copies::<Z, ZeroSized<Z>>(c);
    copies::<C, Mv<C>>(c);
    #[cfg(feature = "alloc")]
    copies::<E, generic_vec::raw::Heap<E>>(c);
    ext_ref::<E, Mv<E>>(c);
    ext_ref::<E, Fx<E>>(c);
    ext_ref::<Z, ZeroSized<Z>>(c);
    ext_ref::<C, Mv<C>>(c);
    ranges(c);
    delegation(c);
    storages(c);
    #[cfg(feature = "alloc")]
    heap(c);
    building(c);
    zst_limits(c);
    many(c);
    lists(c);
    splits(c);
    hints(c);
}
