//! the provided methods of the iterator and comparison traits, against what the standard library's iterators and slices do
use crate::core_::*;
use crate::el::*;
use crate::st::*;
use generic_vec::GenericVec;

const FINS: usize = 12;

/// two steps, then a method that consumes the iterator (or drops it)
fn steps<X, I: DoubleEndedIterator<Item = X>>(mut it: I, plan: usize, fin: usize, f: &dyn Fn(X) -> u32) -> Vec<u32> {
    let mut o = vec![];
    for k in 0..2 {
        let r = match plan / [1, 8][k] % 8 {
            0 => it.next(),
            1 => it.next_back(),
            2 => it.nth(0),
            3 => it.nth(1),
            4 => it.nth(usize::MAX),
            5 => it.nth_back(0),
            6 => it.nth_back(1),
            _ => it.nth_back(usize::MAX),
        };
        o.push(r.map_or(7777, f));
    }
    match fin {
        0 => drop(it),
        1 => o.push(it.count() as u32),
        2 => o.push(it.last().map_or(7777, f)),
        3 => { let p = it.fold(vec![], |mut a, x| { a.push(f(x)); a }); o.extend(p) }
        4 => { let p = it.rfold(vec![], |mut a, x| { a.push(f(x)); a }); o.extend(p) }
        5 => it.for_each(|x| o.push(f(x))),
        6 => { let p: Vec<X> = it.collect(); o.extend(p.into_iter().map(f)) }
        7 => o.extend(it.rev().map(f)),
        8 => { it.by_ref().take(1).for_each(|x| o.push(f(x))); o.push(it.skip(1).next().map_or(7777, f)) }
        9 => { let r = it.try_fold(0u32, |a, x| { let v = f(x); o.push(v); if a == 1 { None } else { Some(a + 1) } }); o.push(r.unwrap_or(8888)); o.push(it.next().map_or(7777, f)) }
        10 => { let r = it.try_rfold(0u32, |a, x| { let v = f(x); o.push(v); if a == 1 { None } else { Some(a + 1) } }); o.push(r.unwrap_or(8888)); o.push(it.next().map_or(7777, f)) }
        _ => { let r = it.position(|x| { o.push(f(x)); o.len() > 3 }); o.push(r.map_or(7777, |x| x as u32)); o.push(it.next_back().map_or(7777, f)) }
    }
    o
}

fn iters<T: Elem, S: Make<T>>(c: &mut Ctx, n: usize) {
    let st = &vals(n)[..];
    for plan in 0..64 {
        for fin in 0..FINS {
            let how = format!("steps {:o}, then way {}", plan, fin);
            c.op::<T, S>(st, 1, Op {
                tags: &["P19"],
                name: format!("into_iter, {}", how),
                f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                    let w = std::mem::replace(v, S::make(n, 0));
                    ob.extend(steps(w.into_iter(), plan, fin, &|x: T| x.val()));
                },
                m: &|v: &mut Vec<u32>, _, _| Some(steps(std::mem::take(v).into_iter(), plan, fin, &|x| x)),
                room: false,
                un: Un::Strict,
                keep: false,
            });
            let (a, b) = (n.min(1), n - (n > 2) as usize);
            c.op::<T, S>(st, 1, Op {
                tags: &["P07"],
                name: format!("drain({}..{}), {}", a, b, how),
                f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.extend(steps(v.drain(a..b), plan, fin, &|x: T| x.val())),
                m: &|v: &mut Vec<u32>, _, _| Some(steps(v.drain(a..b), plan, fin, &|x| x)),
                room: true,
                un: Un::Strict,
                keep: false,
            });
            for k in vec![0, 4] {
                c.op::<T, S>(st, 1, Op {
                    tags: &["P09"],
                    name: format!("splice({}..{}) with {} values, {}", a, b, k, how),
                    f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.extend(steps(v.splice(a..b, (0..k as u32).map(|i| T::new(501 + i))), plan, fin, &|x: T| x.val())),
                    m: &|v: &mut Vec<u32>, _, lim| {
                        let r: Vec<u32> = v[a..b].to_vec();
                        if v.len() - r.len() + k > lim { return None }
                        v.splice(a..b, (0..k as u32).map(|i| T::norm(501 + i)));
                        Some(steps(r.into_iter(), plan, fin, &|x| x))
                    },
                    room: false,
                    un: Un::Strict,
                    keep: false,
                });
            }
            for mask in vec![0u32, 1, 2, 5, 6, 7, 11, 15] {
                if T::ZST { continue }
                c.op::<T, S>(st, 1, Op {
                    tags: &["P08"],
                    name: format!("drain_filter({}..{}, values {:b}), {}", a, b, mask, how),
                    f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.extend(steps(v.drain_filter(a..b, |x| mask >> (x.val() / 10 - 1 - a as u32) & 1 == 1), plan, fin, &|x: T| x.val())),
                    m: &|v: &mut Vec<u32>, _, _| {
                        let take = |x: &u32| mask >> (x / 10 - 1 - a as u32) & 1 == 1;
                        let r: Vec<u32> = v[a..b].iter().cloned().filter(|x| take(x)).collect();
                        let keep: Vec<u32> = v[a..b].iter().cloned().filter(|x| !take(x)).collect();
                        v.splice(a..b, keep);
                        Some(steps(r.into_iter(), plan, fin, &|x| x))
                    },
                    room: true,
                    un: Un::Strict,
                    keep: false,
                });
            }
        }
    }
}

fn comparisons(c: &mut Ctx) {
    let vs: Vec<Vec<f32>> = vec![vec![], vec![1.0], vec![2.0], vec![f32::NAN], vec![1.0, 2.0], vec![1.0, f32::NAN], vec![2.0, 1.0], vec![1.0, 1.0], vec![0.0], vec![-0.0, 1.0], vec![1.0, 2.0, 3.0]];
    let mk = |a: &[f32]| {
        let mut u: GenericVec<f32, Mv<f32>> = GenericVec::with_storage(Mv::new(a.len() + 1, 64));
        for x in a { u.push(*x); }
        u
    };
    for a in &vs {
        for b in &vs {
            c.check(&["P13"], &format!("the comparison operators on {:?} and {:?}", a, b), &mut || {
                let (u, w) = (mk(a), mk(b));
                let want = (a == b, a != b, a < b, a <= b, a > b, a >= b);
                if (u == w, u != w, u < w, u <= w, u > w, u >= w) != want { return Err("of two vectors".into()) }
                if (u == b[..], u != b[..], u < b[..], u <= b[..], u > b[..], u >= b[..]) != want { return Err("of a vector and a slice".into()) }
                for i in 0..a.len() + 1 {
                    for j in i..a.len() + 1 {
                        let (s, t) = (&u[i..j], &a[i..j]);
                        if (u == *s, u != *s, u < *s, u <= *s, u > *s, u >= *s) != (a[..] == *t, a[..] != *t, a[..] < *t, a[..] <= *t, a[..] > *t, a[..] >= *t) {
                            return Err(format!("of a vector and its part {}..{}", i, j))
                        }
                    }
                }
                Ok(())
            });
        }
    }
    let is: Vec<Vec<u8>> = vec![vec![], vec![1], vec![2], vec![1, 2], vec![1, 1], vec![2, 0], vec![1, 2, 3]];
    for a in &is {
        for b in &is {
            c.check(&["P13"], &format!("the greater and the smaller of {:?} and {:?}", a, b), &mut || {
                let mk = |a: &[u8]| {
                    let mut u: GenericVec<u8, Mv<u8>> = GenericVec::with_storage(Mv::new(a.len() + 1, 64));
                    for x in a { u.push(*x); }
                    u
                };
                if mk(a).max(mk(b)).as_slice() != &a.clone().max(b.clone())[..] { return Err("max".into()) }
                if mk(a).min(mk(b)).as_slice() != &a.clone().min(b.clone())[..] { return Err("min".into()) }
                Ok(())
            });
        }
    }
}

pub fn run(c: &mut Ctx) {
    for n in 0..4 {
        iters::<E, Mv<E>>(c, n);
        iters::<Z, generic_vec::raw::ZeroSized<Z>>(c, n);
        iters::<C, Mv<C>>(c, n);
        iters::<CZ, generic_vec::raw::ZeroSized<CZ>>(c, n);
    }
    comparisons(c);
}
