use crate::core_::*;
use crate::el::*;
use crate::st::*;
use generic_vec::GenericVec;
#[cfg(feature = "nightly")]
use std::convert::TryInto;

/// a request the allocator refuses ends the process: out of scope
fn aborts<T: Elem, S: Make<T>>(n: usize, k: usize) -> bool {
    let sz = std::mem::size_of::<T>().max(1);
    !T::ZST && S::NAME == "Heap" && k > 1 << 30 && n.checked_add(k).and_then(|x| x.checked_mul(sz)).is_some()
}

fn vs<T: Elem>(a: &[u32]) -> Vec<u32> { a.iter().map(|v| T::norm(*v)).collect() }

fn at<T: Elem, S: Make<T>>(v: &GenericVec<T, S>, p: *const T) -> u32 {
    if T::ZST { 0 } else { ((p as usize - v.as_ptr() as usize) / std::mem::size_of::<T>()) as u32 }
}

pub struct Claim<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Claim<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        event();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.1, None) }
}

#[cfg(feature = "nightly")]
fn arr<T: Elem, const N: usize>() -> [T; N] {
    let v: Vec<T> = (0..N as u32).map(|i| T::new(901 + i)).collect();
    match v.try_into() {
        Ok(a) => a,
        Err(_) => unreachable!(),
    }
}
fn nums<T: Elem>(n: usize) -> Vec<u32> { (0..n as u32).map(|i| T::norm(901 + i)).collect() }

macro_rules! o {
    ($c:ident, $st:expr, $sp:expr, $tags:expr, $name:expr, room $room:expr, un $un:expr, keep $keep:expr, $f:expr, $m:expr) => {
        $c.op::<T, S>($st, $sp, Op { tags: $tags, name: $name, f: &$f, m: &$m, room: $room, un: $un, keep: $keep })
    };
}

#[cfg(feature = "nightly")]
fn arrays<T: Elem + Clone + PartialEq, S: Make<T>, const N: usize>(c: &mut Ctx, n: usize, sp: usize) {
    let st = &vals(n)[..];
    o!(c, st, sp, &["P01", "P04"], format!("push_array::<{}>", N), room true, un Un::Strict, keep true,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            let p = v.push_array(arr::<T, N>()) as *const [T; N] as *const T;
            ob.push(at(v, p))
        },
        |m: &mut Vec<u32>, _cap: usize, lim: usize| {
            if m.len() + N > lim { return None }
            let l = m.len();
            m.extend(nums::<T>(N));
            Some(vec![if T::ZST { 0 } else { l as u32 }])
        });
    o!(c, st, sp, &["P03", "P04"], format!("try_push_array::<{}>", N), room true, un Un::Strict, keep true,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            match v.try_push_array(arr::<T, N>()) {
                Ok(_) => ob.push(1),
                Err(a) => { ob.push(0); ob.extend(a.iter().map(|x| x.val())) }
            }
        },
        |m: &mut Vec<u32>, cap: usize, _lim: usize| {
            if m.len() + N > cap { let mut w = vec![0]; w.extend(nums::<T>(N)); return Some(w) }
            m.extend(nums::<T>(N));
            Some(vec![1])
        });
    o!(c, st, sp, &["P02"], format!("pop_array::<{}>", N), room true, un Un::Strict, keep false,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            ob.extend(v.pop_array::<N>().iter().map(|x| x.val()))
        },
        |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
            if m.len() < N { return None }
            let k = m.len() - N;
            Some(m.split_off(k))
        });
    o!(c, st, sp, &["P03"], format!("try_pop_array::<{}>", N), room true, un Un::Strict, keep false,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            match v.try_pop_array::<N>() {
                Some(a) => { ob.push(1); ob.extend(a.iter().map(|x| x.val())) }
                None => ob.push(0),
            }
        },
        |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
            if m.len() < N { return Some(vec![0]) }
            let k = m.len() - N;
            let mut w = vec![1];
            w.extend(m.split_off(k));
            Some(w)
        });
    for i in (0..n + 2).chain(vec![usize::MAX, usize::MAX - 1]) {
        o!(c, st, sp, &["P01", "P04"], format!("insert_array::<{}>({})", N, i), room true, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let p = v.insert_array(i, arr::<T, N>()) as *const [T; N] as *const T;
                ob.push(at(v, p))
            },
            |m: &mut Vec<u32>, _cap: usize, lim: usize| {
                if i > m.len() || m.len() + N > lim { return None }
                m.splice(i..i, nums::<T>(N));
                Some(vec![if T::ZST { 0 } else { i as u32 }])
            });
        o!(c, st, sp, &["P03", "P04"], format!("try_insert_array::<{}>({})", N, i), room true, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                match v.try_insert_array(i, arr::<T, N>()) {
                    Ok(_) => ob.push(1),
                    Err(a) => { ob.push(0); ob.extend(a.iter().map(|x| x.val())) }
                }
            },
            |m: &mut Vec<u32>, cap: usize, _lim: usize| {
                if i > m.len() || m.len() + N > cap { let mut w = vec![0]; w.extend(nums::<T>(N)); return Some(w) }
                m.splice(i..i, nums::<T>(N));
                Some(vec![1])
            });
        o!(c, st, sp, &["P02"], format!("remove_array::<{}>({})", N, i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                ob.extend(v.remove_array::<N>(i).iter().map(|x| x.val()))
            },
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
                if i.checked_add(N).map_or(true, |e| e > m.len()) { return None }
                Some(m.splice(i..i + N, vec![]).collect())
            });
        o!(c, st, sp, &["P03"], format!("try_remove_array::<{}>({})", N, i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                match v.try_remove_array::<N>(i) {
                    Some(a) => { ob.push(1); ob.extend(a.iter().map(|x| x.val())) }
                    None => ob.push(0),
                }
            },
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
                if i.checked_add(N).map_or(true, |e| e > m.len()) { return Some(vec![0]) }
                let mut w = vec![1];
                w.extend(m.splice(i..i + N, vec![]));
                Some(w)
            });
    }
}

fn singles<T: Elem + Clone + PartialEq, S: Make<T>>(c: &mut Ctx, n: usize, sp: usize) {
    let st = &vals(n)[..];
    o!(c, st, sp, &["P01", "P04"], format!("push"), room true, un Un::Strict, keep true,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            let p = v.push(T::new(901)) as *const T;
            ob.push(at(v, p))
        },
        |m: &mut Vec<u32>, _cap: usize, lim: usize| {
            if m.len() + 1 > lim { return None }
            m.push(901);
            Some(vec![if T::ZST { 0 } else { m.len() as u32 - 1 }])
        });
    o!(c, st, sp, &["P03", "P04"], format!("try_push"), room true, un Un::Strict, keep true,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            match v.try_push(T::new(901)) {
                Ok(_) => ob.push(1),
                Err(a) => { ob.push(0); ob.push(a.val()) }
            }
        },
        |m: &mut Vec<u32>, cap: usize, _lim: usize| {
            if m.len() + 1 > cap { return Some(vec![0, T::norm(901)]) }
            m.push(901);
            Some(vec![1])
        });
    o!(c, st, sp, &["P02"], format!("pop"), room true, un Un::Strict, keep false,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.push(v.pop().val()),
        |m: &mut Vec<u32>, _cap: usize, _lim: usize| m.pop().map(|x| vec![x]));
    o!(c, st, sp, &["P03"], format!("try_pop"), room true, un Un::Strict, keep false,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.extend(v.try_pop().map(|x| x.val())),
        |m: &mut Vec<u32>, _cap: usize, _lim: usize| Some(m.pop().into_iter().collect()));
    for i in (0..n + 2).chain(vec![usize::MAX, usize::MAX - 1]) {
        o!(c, st, sp, &["P01", "P04"], format!("insert({})", i), room true, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let p = v.insert(i, T::new(901)) as *const T;
                ob.push(at(v, p))
            },
            |m: &mut Vec<u32>, _cap: usize, lim: usize| {
                if i > m.len() || m.len() + 1 > lim { return None }
                m.insert(i, 901);
                Some(vec![if T::ZST { 0 } else { i as u32 }])
            });
        o!(c, st, sp, &["P03", "P04"], format!("try_insert({})", i), room true, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                match v.try_insert(i, T::new(901)) {
                    Ok(_) => ob.push(1),
                    Err(a) => { ob.push(0); ob.push(a.val()) }
                }
            },
            |m: &mut Vec<u32>, cap: usize, _lim: usize| {
                if i > m.len() || m.len() + 1 > cap { return Some(vec![0, T::norm(901)]) }
                m.insert(i, 901);
                Some(vec![1])
            });
        o!(c, st, sp, &["P02"], format!("remove({})", i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.push(v.remove(i).val()),
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| if i < m.len() { Some(vec![m.remove(i)]) } else { None });
        o!(c, st, sp, &["P03"], format!("try_remove({})", i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.extend(v.try_remove(i).map(|x| x.val())),
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| if i < m.len() { Some(vec![m.remove(i)]) } else { Some(vec![]) });
        o!(c, st, sp, &["P02"], format!("swap_remove({})", i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.push(v.swap_remove(i).val()),
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| if i < m.len() { Some(vec![m.swap_remove(i)]) } else { None });
        o!(c, st, sp, &["P03"], format!("try_swap_remove({})", i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| ob.extend(v.try_swap_remove(i).map(|x| x.val())),
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| if i < m.len() { Some(vec![m.swap_remove(i)]) } else { Some(vec![]) });
        o!(c, st, sp, &["P02"], format!("truncate({})", i), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, _ob: &mut Vec<u32>| v.truncate(i),
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| { m.truncate(i); Some(vec![]) });
    }
    o!(c, st, sp, &["P02"], format!("clear"), room true, un Un::Strict, keep false,
        |v: &mut GenericVec<T, S>, _ob: &mut Vec<u32>| v.clear(),
        |m: &mut Vec<u32>, _cap: usize, _lim: usize| { m.clear(); Some(vec![]) });
    let huge = vec![usize::MAX, usize::MAX - 1, usize::MAX - n, usize::MAX / 2 + 1, usize::MAX / std::mem::size_of::<T>().max(1)];
    for k in (0..8usize).chain(huge) {
        if aborts::<T, S>(n, k) { continue }
        let fits = move |len: usize, cap: usize, lim: usize| {
            let need = match len.checked_add(k) { Some(x) => x, None => return false };
            // the heap cannot have this much
            need <= cap || (!T::ZST && need <= lim && need < (1 << 40))
        };
        o!(c, st, sp, &["P04"], format!("reserve({})", k), room k <= sp, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                v.reserve(k);
                ob.push((v.capacity() - v.len() >= k) as u32)
            },
            |m: &mut Vec<u32>, cap: usize, lim: usize| if fits(m.len(), cap, lim) { Some(vec![1]) } else { None });
        o!(c, st, sp, &["P03", "P04"], format!("try_reserve({})", k), room k <= sp, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let r = v.try_reserve(k);
                ob.push(r as u32);
                ob.push((!r || v.capacity() - v.len() >= k) as u32)
            },
            |m: &mut Vec<u32>, cap: usize, lim: usize| Some(vec![fits(m.len(), cap, lim) as u32, 1]));
    }
    // bulk
    for k in (0..4usize).chain(vec![7, usize::MAX, usize::MAX - n]) {
        if aborts::<T, S>(n, k) { continue }
        let room = move |m: &Vec<u32>, _cap: usize, lim: usize| m.len().checked_add(k).map_or(false, |x| x <= lim && x < 1 << 40);
        o!(c, st, sp, &["P11", "P04"], format!("grow({})", k), room true, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                v.grow(k, T::new(901));
                if T::live() >= 0 { ob.push(CLONES.with(|c| c.borrow().len()) as u32) }
            },
            |m: &mut Vec<u32>, cap: usize, lim: usize| {
                if !room(m, cap, lim) { return None }
                m.extend((0..k).map(|_| 901));
                Some(if T::live() >= 0 { vec![k.saturating_sub(1) as u32] } else { vec![] })
            });
        o!(c, st, sp, &["P11", "P04"], format!("grow_with({})", k), room true, un Un::Strict, keep true,
            |v: &mut GenericVec<T, S>, _ob: &mut Vec<u32>| {
                let mut i = 900;
                v.grow_with(k, || { event(); i += 1; T::new(i) })
            },
            |m: &mut Vec<u32>, cap: usize, lim: usize| {
                if !room(m, cap, lim) { return None }
                m.extend((0..k as u32).map(|i| 901 + i));
                Some(vec![])
            });
        if k < 1000 {
            o!(c, st, sp, &["P11", "P04"], format!("extend_from_slice({})", k), room true, un Un::Strict, keep true,
                |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                    let src: Vec<T> = (0..k as u32).map(|i| T::new(901 + i)).collect();
                    v.extend_from_slice(&src);
                    if T::live() >= 0 { ob.extend(CLONES.with(|c| c.borrow().clone())) }
                },
                |m: &mut Vec<u32>, cap: usize, lim: usize| {
                    if !room(m, cap, lim) { return None }
                    m.extend(nums::<T>(k));
                    Some(if T::live() >= 0 { nums::<T>(k) } else { vec![] })
                });
            for claim in [0usize, 1, k, k + 1, 100, usize::MAX].iter() {
                o!(c, st, sp, &["P11"], format!("extend({} items, claiming {})", k, claim), room *claim <= k, un Un::Strict, keep true,
                    |v: &mut GenericVec<T, S>, _ob: &mut Vec<u32>| {
                        v.extend(Claim((0..k as u32).map(|i| T::new(901 + i)), *claim))
                    },
                    |m: &mut Vec<u32>, cap: usize, lim: usize| {
                        if !room(m, cap, lim) {
                            // a prefix may have been appended before the refusal
                            return None
                        }
                        m.extend(nums::<T>(k));
                        Some(vec![])
                    });
            }
        }
    }
    for k in 0..n + 4 {
        o!(c, st, sp, &["P11", "P02"], format!("resize({})", k), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, _ob: &mut Vec<u32>| v.resize(k, T::new(901)),
            |m: &mut Vec<u32>, _cap: usize, lim: usize| { if k > lim { return None } m.resize(k, 901); Some(vec![]) });
        o!(c, st, sp, &["P11", "P02"], format!("resize_with({})", k), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let mut i = 900;
                v.resize_with(k, || { event(); i += 1; T::new(i) });
                ob.push(i - 900)
            },
            |m: &mut Vec<u32>, _cap: usize, lim: usize| {
                if k > lim { return None }
                let d = k.saturating_sub(m.len());
                m.truncate(k);
                m.extend(nums::<T>(d));
                Some(vec![d as u32])
            });
        // clone_from a slice of k elements
        o!(c, st, sp, &["P12"], format!("clone_from(slice of {})", k), room true, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let src: Vec<T> = (0..k as u32).map(|i| T::new(901 + i)).collect();
                v.clone_from(&src[..]);
                if T::live() >= 0 { ob.extend(CLONES.with(|c| c.borrow().clone())) }
            },
            |m: &mut Vec<u32>, _cap: usize, lim: usize| {
                if k > lim { m.truncate(0); return None }
                *m = nums::<T>(k);
                Some(if T::live() >= 0 { nums::<T>(k) } else { vec![] })
            });
    }
    // dedup: the relation groups values by tens
    let pats: Vec<Vec<u32>> = vec![
        vec![], vec![10], vec![10, 11], vec![10, 20], vec![10, 11, 12], vec![10, 20, 21], vec![10, 11, 20], vec![10, 20, 11],
        vec![10, 11, 20, 21, 30], vec![10, 20, 21, 22, 11, 12, 30], vec![10, 11, 12, 20, 30, 31], vec![10, 20, 30, 31, 20, 20],
    ];
    if n == 0 {
        for p in &pats {
            let p = p.iter().map(|x| T::norm(*x)).collect::<Vec<_>>();
            if S::limit(sp, p.len()).map_or(false, |l| l < p.len()) || (S::SPARES.len() == 1 && p.len() > 6) { continue }
            let dd = |m: &mut Vec<u32>, calls: &mut Vec<u32>| {
                let mut out: Vec<u32> = vec![];
                for x in m.iter() {
                    if let Some(l) = out.last() {
                        calls.push(*x);
                        calls.push(*l);
                        if l / 10 == x / 10 { continue }
                    }
                    out.push(*x)
                }
                *m = out;
            };
            o!(c, &p, sp, &["P15"], format!("dedup_by"), room true, un Un::Strict, keep false,
                |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| v.dedup_by(|a, b| { event(); ob.push(a.val()); ob.push(b.val()); a.val() / 10 == b.val() / 10 }),
                |m: &mut Vec<u32>, _cap: usize, _lim: usize| { let mut cs = vec![]; dd(m, &mut cs); Some(cs) });
            o!(c, &p, sp, &["P15"], format!("dedup_by_key"), room true, un Un::Strict, keep false,
                |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| v.dedup_by_key(|a| { event(); ob.push(a.val()); a.val() / 10 }),
                |m: &mut Vec<u32>, _cap: usize, _lim: usize| { let mut cs = vec![]; dd(m, &mut cs); Some(cs) });
        }
    }
    // filters over every range and every choice
    let max = if c.deep { 5 } else { 4 };
    if n <= max {
        for a in 0..n + 1 {
            for b in a..n + 1 {
                for mask in 0..(1u32 << (b - a)) {
                    for early in 0..(b - a + 2) {
                        for back in 0..(if early == 0 { 1 } else { 2 }) {
                            o!(c, st, sp, &["P08"], format!("drain_filter({}..{}, choice {:b}) {} steps{}", a, b, mask, early, if back == 1 { " from the back" } else { "" }),
                                room true, un Un::Strict, keep false,
                                |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                                    use std::cell::{Cell, RefCell};
                                    let from_back = Cell::new(back == 1);
                                    let (f, k) = (Cell::new(0u32), Cell::new((b - a) as u32));
                                    let seen = RefCell::new(vec![]);
                                    {
                                        let mut d = v.drain_filter(a..b, |x| {
                                            event();
                                            let i = if from_back.get() { k.set(k.get() - 1); k.get() } else { f.set(f.get() + 1); f.get() - 1 };
                                            seen.borrow_mut().push(x.val());
                                            mask >> i & 1 == 1
                                        });
                                        for s in 0..early {
                                            let r = if back == 1 { let fb = s % 2 == 0; from_back.set(fb); if fb { d.next_back() } else { d.next() } } else { d.next() };
                                            ob.push(r.map_or(7777, |x| x.val()));
                                        }
                                        from_back.set(false);
                                    }
                                    ob.extend(seen.into_inner());
                                },
                                |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
                                    let mut ob = vec![];
                                    let mut seen = vec![];
                                    let mut keep = vec![true; b - a];
                                    let (mut f, mut k) = (0usize, b - a);
                                    let mut step = |fb: bool, keep: &mut Vec<bool>, seen: &mut Vec<u32>| -> Option<u32> {
                                        while f < k {
                                            let i = if fb { k -= 1; k } else { f += 1; f - 1 };
                                            seen.push(m[a + i]);
                                            if mask >> i & 1 == 1 { keep[i] = false; return Some(m[a + i]) }
                                        }
                                        None
                                    };
                                    for s in 0..early {
                                        let fb = back == 1 && s % 2 == 0;
                                        ob.push(step(fb, &mut keep, &mut seen).unwrap_or(7777));
                                    }
                                    while step(false, &mut keep, &mut seen).is_some() {}
                                    ob.extend(seen);
                                    let old = m.clone();
                                    m.clear();
                                    for (i, x) in old.iter().enumerate() {
                                        if i < a || i >= b || keep[i - a] { m.push(*x) }
                                    }
                                    Some(ob)
                                });
                        }
                    }
                }
            }
        }
        for mask in 0..(1u32 << n) {
            o!(c, st, sp, &["P08"], format!("retain(choice {:b})", mask), room true, un Un::Strict, keep false,
                |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                    let mut i = 0;
                    v.retain(|x| { event(); i += 1; ob.push(x.val()); mask >> (i - 1) & 1 == 1 })
                },
                |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
                    let ob = m.clone();
                    let mut i = 0;
                    m.retain(|_| { i += 1; mask >> (i - 1) & 1 == 1 });
                    Some(ob)
                });
        }
    }
    // splice
    for a in 0..n + 1 {
        for b in a..n + 1 {
            for k in 0..(if c.deep { 6usize } else { 4 }).max(1) {
                for claim in [0usize, k, k + 2].iter() {
                    for taken in 0..(b - a + 1).min(3) {
                        o!(c, st, sp, &["P09"], format!("splice({}..{}, {} items claiming {}) after {} taken", a, b, k, claim, taken),
                            room false, un Un::LeakNew, keep false,
                            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                                let mut s = v.splice(a..b, Claim((0..k as u32).map(|i| T::new(901 + i)), *claim));
                                for t in 0..taken {
                                    let (lo, hi) = s.size_hint();
                                    if hi != Some(lo) || lo != b - a - t { ob.push(5555) }
                                    ob.push(if t % 2 == 0 { s.next() } else { s.next_back() }.unwrap().val())
                                }
                                if taken == b - a && s.next().is_some() { ob.push(6666) }
                            },
                            |m: &mut Vec<u32>, _cap: usize, lim: usize| {
                                if m.len() - (b - a) + k > lim { return None }
                                let r: Vec<u32> = m.splice(a..b, nums::<T>(k)).collect();
                                let (mut f, mut e) = (0, r.len());
                                Some((0..taken).map(|t| if t % 2 == 0 { f += 1; r[f - 1] } else { e -= 1; r[e] }).collect())
                            });
                    }
                }
            }
        }
    }
    // moving between vectors
    for i in 0..n + 2 {
        for on in 0..3usize {
            for osp in 0..2usize {
                o!(c, st, sp, &["P14", "P04"], format!("split_off_into({}, a fixed vector of {} with {} spare)", i, on, osp * 3), room false, un Un::Strict, keep false,
                    |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                        let mut o: GenericVec<T, Fx<T>> = build(&[801, 802, 803][..on], osp * 3);
                        v.split_off_into(i, &mut o);
                        ob.extend(contents(&o));
                    },
                    |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
                        if i > m.len() || (!T::ZST && m.len() - i > osp * 3) { return None }
                        let mut w: Vec<u32> = vs::<T>(&[801, 802, 803][..on]);
                        w.extend(m.split_off(i));
                        Some(w)
                    });
                o!(c, st, sp, &["P14"], format!("append to a growing vector of {} with {} spare, {}", on, osp, i), room false, un Un::Strict, keep false,
                    |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                        let mut o: GenericVec<T, Mv<T>> = build(&[801, 802, 803][..on], osp);
                        o.append(v);
                        ob.extend(contents(&o));
                    },
                    |m: &mut Vec<u32>, _cap: usize, _lim: usize| {
                        let mut w: Vec<u32> = vs::<T>(&[801, 802, 803][..on]);
                        w.extend(m.split_off(0));
                        Some(w)
                    });
            }
        }
        o!(c, st, sp, &["P14"], format!("split_off({})", i), room false, un Un::Strict, keep false,
            |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let o: GenericVec<T, Mv<T>> = v.split_off(i);
                ob.extend(contents(&o));
            },
            |m: &mut Vec<u32>, _cap: usize, _lim: usize| if i > m.len() { None } else { Some(m.split_off(i)) });
    }
    o!(c, st, sp, &["P14"], format!("convert"), room false, un Un::Strict, keep false,
        |v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
            let w = std::mem::replace(v, S::make(st.len(), 0));
            let o: GenericVec<T, Mv<T>> = w.convert();
            ob.extend(contents(&o));
        },
        |m: &mut Vec<u32>, _cap: usize, _lim: usize| Some(m.split_off(0)));
}

fn both<T: Elem + Clone + PartialEq, S: Make<T>>(c: &mut Ctx) {
    for n in 0..(if c.deep { 6 } else { 5 }) {
        for sp in S::SPARES {
            singles::<T, S>(c, n, *sp);
            #[cfg(feature = "nightly")]
            {
            arrays::<T, S, 0>(c, n, *sp);
            arrays::<T, S, 1>(c, n, *sp);
            arrays::<T, S, 2>(c, n, *sp);
            arrays::<T, S, 3>(c, n, *sp);
            }
        }
    }
    // arrays as large as the constant capacity, and larger
    #[cfg(feature = "nightly")]
    if S::NAME == "UninitBuffer" {
        for n in &[0, 1, 5, 6] {
            arrays::<T, S, 5>(c, *n, 0);
            arrays::<T, S, 6>(c, *n, 0);
            arrays::<T, S, 7>(c, *n, 0);
        }
    }
}

pub fn run(c: &mut Ctx) {
    use generic_vec::raw::{UninitBuffer, UninitSlice, ZeroSized};
    both::<E, Mv<E>>(c);
    both::<E, Fx<E>>(c);
    both::<E, UninitBuffer<[E; 6], E>>(c);
    both::<E, &'static mut UninitSlice<E>>(c);
    both::<C, Mv<C>>(c);
    both::<C, UninitBuffer<[C; 6], C>>(c);
    both::<Z, Mv<Z>>(c);
    both::<Z, ZeroSized<Z>>(c);
    both::<Z, UninitBuffer<[Z; 6], Z>>(c);
    both::<CZ, ZeroSized<CZ>>(c);
    #[cfg(feature = "alloc")]
    {
        use generic_vec::raw::Heap;
        both::<E, Heap<E>>(c);
        both::<Z, Heap<Z>>(c);
        both::<C, Heap<C>>(c);
    }
}
