//! longer inputs, reports of size that are exact but wrong, self comparison, panics that are caught half way, storages that own something
use crate::core_::*;
use crate::el::*;
use crate::st::*;
use generic_vec::raw::Storage;
use generic_vec::GenericVec;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// reports exactly `1`, whatever it yields
pub struct Exact<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Exact<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        event();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, Some(self.1)) }
}

/// yields nothing once, then more (not fused)
pub struct Gap<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Gap<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.1 == 0 {
            self.1 = usize::MAX;
            return None
        }
        self.1 -= 1;
        self.0.next()
    }
}

fn nums<T: Elem>(n: usize) -> Vec<u32> { (0..n as u32).map(|i| T::norm(901 + i)).collect() }
fn items<T: Elem>(k: usize) -> impl Iterator<Item = T> { (0..k as u32).map(|i| T::new(901 + i)) }

fn bulk<T: Elem + Clone + PartialEq, S: Make<T>>(c: &mut Ctx) {
    for n in vec![0usize, 2, 3] {
        let st = vals(n);
        let sp = S::SPARES[S::SPARES.len() - 1];
        for a in 0..n + 1 {
            for b in a..n + 1 {
                for k in vec![5usize, 15, 16, 17, 18, 31, 32, 33, 34, 40] {
                    c.op::<T, S>(&st, sp, Op {
                        tags: &["P09"],
                        name: format!("splice({}..{}, {} items)", a, b, k),
                        f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| drop(v.splice(a..b, Exact(items::<T>(k), k))),
                        m: &|m: &mut Vec<u32>, _, lim| {
                            if n - (b - a) + k > lim { return None }
                            m.splice(a..b, nums::<T>(k));
                            Some(vec![])
                        },
                        room: false,
                        un: Un::LeakNew,
                        keep: false,
                    });
                }
                for k in 0..6usize {
                    for claim in vec![0usize, 1, k.saturating_sub(1), k + 1, k + 3, 33] {
                        c.op::<T, S>(&st, sp, Op {
                            tags: &["P09"],
                            name: format!("splice({}..{}, {} items reported as {})", a, b, k, claim),
                            f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| drop(v.splice(a..b, Exact(items::<T>(k), claim))),
                            m: &|m: &mut Vec<u32>, _, lim| {
                                if n - (b - a) + k > lim { return None }
                                m.splice(a..b, nums::<T>(k));
                                Some(vec![])
                            },
                            room: false,
                            un: Un::LeakNew,
                            keep: false,
                        });
                        c.op::<T, S>(&st, sp, Op {
                            tags: &["P09"],
                            name: format!("splice({}..{}, {} items, nothing, then more)", a, b, k),
                            f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| drop(v.splice(a..b, Gap(items::<T>(k + 3), k))),
                            m: &|m: &mut Vec<u32>, _, lim| {
                                if n - (b - a) + k > lim { return None }
                                m.splice(a..b, nums::<T>(k));
                                Some(vec![])
                            },
                            room: false,
                            un: Un::LeakNew,
                            keep: false,
                        });
                    }
                }
            }
        }
        for k in vec![0usize, 1, 2, 5, 17, 33, 40] {
            for claim in vec![0usize, 1, k.saturating_sub(1), k, k + 1, k + 2, 41] {
                c.op::<T, S>(&st, sp, Op {
                    tags: &["P11"],
                    name: format!("extend({} items, reporting exactly {})", k, claim),
                    f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| v.extend(Exact(items::<T>(k), claim)),
                    m: &|m: &mut Vec<u32>, _, lim| {
                        if n + k > lim { return None }
                        m.extend(nums::<T>(k));
                        Some(vec![])
                    },
                    room: false,
                    un: Un::Strict,
                    keep: true,
                });
            }
            c.op::<T, S>(&st, sp, Op {
                tags: &["P11"],
                name: format!("extend({} items, nothing, then more)", k),
                f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| v.extend(Gap(items::<T>(k + 3), k)),
                m: &|m: &mut Vec<u32>, _, lim| {
                    if n + k > lim { return None }
                    m.extend(nums::<T>(k));
                    Some(vec![])
                },
                room: false,
                un: Un::Strict,
                keep: true,
            });
            c.op::<T, S>(&st, sp, Op {
                tags: &["P11"],
                name: format!("extend_from_slice({})", k),
                f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| {
                    let src: Vec<T> = items::<T>(k).collect();
                    v.extend_from_slice(&src);
                },
                m: &|m: &mut Vec<u32>, _, lim| {
                    if n + k > lim { return None }
                    m.extend(nums::<T>(k));
                    Some(vec![])
                },
                room: false,
                un: Un::Strict,
                keep: true,
            });
            c.op::<T, S>(&st, sp, Op {
                tags: &["P11"],
                name: format!("grow({})", k),
                f: &|v: &mut GenericVec<T, S>, _: &mut Vec<u32>| v.grow(k, T::new(700)),
                m: &|m: &mut Vec<u32>, _, lim| {
                    if n + k > lim { return None }
                    m.extend((0..k).map(|_| T::norm(700)));
                    Some(vec![])
                },
                room: false,
                un: Un::Strict,
                keep: true,
            });
            if S::limit(sp, n).map_or(false, |l| n + 2 * k > l) { continue }
            c.op::<T, S>(&st, sp, Op {
                tags: &["P01", "P02", "P04"],
                name: format!("{} times push, insert in the middle, remove", k),
                f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                    for i in 0..k as u32 {
                        v.push(T::new(901 + i));
                        let l = v.len();
                        v.insert(l / 2, T::new(501 + i));
                        if i % 3 == 2 { ob.push(v.remove(l / 3).val()) }
                    }
                },
                m: &|m: &mut Vec<u32>, _, lim| {
                    if n + 2 * k > lim { return None }
                    let mut ob = vec![];
                    for i in 0..k as u32 {
                        m.push(T::norm(901 + i));
                        let l = m.len();
                        m.insert(l / 2, T::norm(501 + i));
                        if i % 3 == 2 { ob.push(m.remove(l / 3)) }
                    }
                    Some(ob)
                },
                room: false,
                un: Un::Strict,
                keep: false,
            });
        }
        // a panic out of a drain's, filter's or cursor's user code that is caught, and the iterator used and dropped afterwards
        for a in 0..n + 1 {
            for b in a..n + 1 {
                for boom in 0..b - a {
                    for plan in 0..16u32 {
                        for mask in 0..(1u32 << (b - a)) {
                            c.op::<T, S>(&st, sp, Op {
                                tags: &["P08"],
                                name: format!("drain_filter({}..{}, choice {:b}), the predicate panics at call {} (caught), steps {:b}", a, b, mask, boom, plan),
                                f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                                    let n = Cell::new(0u32);
                                    let mut d = v.drain_filter(a..b, |x| {
                                        let i = n.get();
                                        n.set(i + 1);
                                        x.val();
                                        if i == boom as u32 { std::panic::resume_unwind(Box::new(())) }
                                        mask >> i & 1 == 1
                                    });
                                    for s in 0..4 {
                                        let r = catch_unwind(AssertUnwindSafe(|| if plan >> s & 1 == 1 { d.next_back() } else { d.next() }.is_some()));
                                        let _ = r;
                                    }
                                    ob.clear();
                                },
                                // what is left is not specified beyond its validity, which `op` checks (values, no duplicates, nothing lost)
                                m: &|_: &mut Vec<u32>, _, _| None,
                                room: false,
                                un: Un::Strict,
                                keep: false,
                            });
                        }
                    }
                }
            }
        }
    }
}

/// a storage that owns something besides the memory
struct Own<T>(Mv<T>, Z);
unsafe impl<T> Storage<T> for Own<T> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { Storage::<T>::capacity(&self.0) }
    fn as_ptr(&self) -> *const T { self.0.as_ptr() }
    fn as_mut_ptr(&mut self) -> *mut T { self.0.as_mut_ptr() }
    fn reserve(&mut self, n: usize) { self.0.reserve(n) }
    fn try_reserve(&mut self, n: usize) -> bool { self.0.try_reserve(n) }
}

fn owned_storage(c: &mut Ctx) {
    for n in 0..4usize {
        for steps in 0..n + 2 {
            for how in 0..7 {
                let name = format!("{} elements in an owning storage, way {}, {} steps", n, how, steps);
                c.check(&["P05", "P19", "P14", "P21", "P06"], &name, &mut || {
                    let mk = || {
                        let mut v: GenericVec<E, Own<E>> = GenericVec::with_storage(Own(Mv::new(n + 1, 64), Z::new(0)));
                        for x in vals(n) { v.push(E::new(x)) ; }
                        v
                    };
                    let v = mk();
                    match how {
                        0 => {
                            let mut it = v.into_iter();
                            for i in 0..steps { if i % 2 == 0 { it.next(); } else { it.next_back(); } }
                            drop(it);
                        }
                        1 => { let mut it = v.into_iter(); it.nth(steps); if Z::live() != 1 { return Err("the storage was dropped early".into()) } }
                        2 => { let (l, s) = v.into_raw_parts(); let v = unsafe { GenericVec::<E, Own<E>>::from_raw_parts(l, s) }; if v.len() != n { return Err("length".into()) } }
                        3 => { let w: GenericVec<E, Mv<E>> = v.convert(); if w.len() != n { return Err("length".into()) } if Z::live() != 0 { return Err("the old storage was not dropped".into()) } }
                        4 => { let mut v = v; let w: GenericVec<E, Mv<E>> = v.split_off(steps.min(n)); if w.len() + v.len() != n { return Err("length".into()) } }
                        5 => { let mut it = v.into_iter(); while it.len() > steps { it.next(); } std::mem::drop(it) }
                        _ => { let mut v = v; v.drain(..steps.min(n)); }
                    }
                    if E::live() != 0 { return Err(format!("{} elements were not dropped", E::live())) }
                    if Z::live() != 0 { return Err(format!("{} storages were not dropped", Z::live())) }
                    Ok(())
                });
            }
        }
    }
}

/// the same with elements that need no destructor, and every way to consume the iterator
fn owned_plain<T: Elem>(c: &mut Ctx) {
    for n in 0..4usize {
        for steps in 0..n + 2 {
            for how in 0..11 {
                c.check(&["P05", "P19"], &format!("{} {} elements in an owning storage, {} steps, consumed in way {}", n, T::NAME, steps, how), &mut || {
                    let mut v: GenericVec<T, Own<T>> = GenericVec::with_storage(Own(Mv::new(n + 1, 64), Z::new(0)));
                    for x in vals(n) { v.push(T::new(x)); }
                    let mut it = v.into_iter();
                    for i in 0..steps { if i % 2 == 0 { it.next(); } else { it.next_back(); } }
                    let left = n.saturating_sub(steps);
                    if it.len() != left { return Err(format!("{} elements left", it.len())) }
                    let k = match how {
                        0 => { drop(it); left }
                        1 => it.count(),
                        2 => { it.last(); left }
                        3 => it.fold(0, |a, _| a + 1),
                        4 => it.rfold(0, |a, _| a + 1),
                        5 => { let mut k = 0; it.for_each(|_| k += 1); k }
                        6 => it.collect::<Vec<T>>().len(),
                        7 => it.rev().count(),
                        8 => { let k = it.by_ref().count(); drop(it); k }
                        9 => { it.nth_back(n); drop(it); left }
                        _ => { let mut k = 0; for _ in it { k += 1 } k }
                    };
                    if k != left { return Err(format!("{} instead of {} elements", k, left)) }
                    if Z::live() != 0 { return Err(format!("{} storages were not dropped", Z::live())) }
                    Ok(())
                });
            }
        }
    }
}

/// an element whose destructor panics for one value, after the value is gone
struct Boom(E, u32);
impl Drop for Boom {
    fn drop(&mut self) { if self.0.val() == self.1 && !std::thread::panicking() { std::panic::resume_unwind(Box::new(())) } }
}

fn bad_destructors(c: &mut Ctx) {
    for n in 1..5usize {
        for at in 0..n {
            for steps in 0..n + 1 {
                for how in 0..4 {
                    let name = format!("{} elements by value, way {}, {} steps, the destructor of element {} panics", n, how, steps, at);
                    c.check(&["P19"], &name, &mut || {
                        let mut v: GenericVec<Boom, Own<Boom>> = GenericVec::with_storage(Own(Mv::new(n + 1, 64), Z::new(0)));
                        for x in vals(n) { v.push(Boom(E::new(x), vals(n)[at])); }
                        let r = catch_unwind(AssertUnwindSafe(move || {
                            let mut it = v.into_iter();
                            match how {
                                0 => for _ in 0..steps { it.next().map(|mut x| x.1 = !0); },
                                1 => for _ in 0..steps { it.next_back().map(|mut x| x.1 = !0); },
                                2 => { it.nth(steps); }
                                _ => for i in 0..steps { if i % 2 == 0 { it.next(); } else { it.next_back(); } },
                            }
                            drop(it);
                        }));
                        let _ = r;
                        if Z::live() != 0 { return Err(format!("{} storages were not dropped", Z::live())) }
                        if E::live() != 0 { return Err(format!("{} elements were not dropped", E::live())) }
                        Ok(())
                    });
                }
            }
        }
    }
}

/// comparisons of a vector with itself and with parts of itself
fn itself(c: &mut Ctx) {
    for a in vec![vec![], vec![f64::NAN], vec![1.0, f64::NAN], vec![f64::NAN, 1.0], vec![1.0, 2.0], vec![-0.0, 0.0]] {
        c.check(&["P13"], &format!("comparing {:?} with itself", a), &mut || {
            let mut u: GenericVec<f64, Mv<f64>> = GenericVec::with_storage(Mv::new(a.len() + 2, 64));
            for x in &a { u.push(*x); }
            if (u == u) != (a == a) { return Err("==".into()) }
            if (u == u[..]) != (a == a) { return Err("== slice".into()) }
            if u.partial_cmp(&u) != a.partial_cmp(&a) { return Err("partial_cmp".into()) }
            for i in 0..a.len() + 1 {
                if (u == u[..i]) != (a[..] == a[..i]) { return Err("== prefix".into()) }
                if (u == u[i..]) != (a[..] == a[i..]) { return Err("== suffix".into()) }
            }
            Ok(())
        });
    }
}

pub fn run(c: &mut Ctx) {
    bulk::<E, Mv<E>>(c);
    bulk::<E, Fx<E>>(c);
    bulk::<C, Mv<C>>(c);
    bulk::<Z, generic_vec::raw::ZeroSized<Z>>(c);
    #[cfg(feature = "alloc")]
    bulk::<E, generic_vec::raw::Heap<E>>(c);
    owned_storage(c);
    owned_plain::<E>(c);
    owned_plain::<C>(c);
    owned_plain::<CZ>(c);
    bad_destructors(c);
    itself(c);
}
