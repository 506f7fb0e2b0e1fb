//! drains and cursors: every sequence of steps up to a bound, against a model of four regions
use crate::core_::*;
use crate::el::*;
use crate::st::*;
use generic_vec::GenericVec;

#[derive(Clone, Debug)]
struct M {
    pre: Vec<u32>,
    front: Vec<u32>,
    fs: usize,
    un: Vec<u32>,
    bs: usize,
    back: Vec<u32>,
    post: Vec<u32>,
}
impl M {
    fn wf(&self) -> usize { if self.un.is_empty() { self.fs + self.bs } else { self.fs } }
    fn wb(&self) -> usize { if self.un.is_empty() { self.fs + self.bs } else { self.bs } }
    fn use_f(&mut self, n: usize) {
        let k = n.min(self.fs);
        self.fs -= k;
        self.bs -= n - k
    }
    fn use_b(&mut self, n: usize) {
        let k = n.min(self.bs);
        self.bs -= k;
        self.fs -= n - k
    }
    fn all(&self) -> Vec<u32> {
        let mut v = self.pre.clone();
        v.extend(&self.front);
        v.extend(&self.un);
        v.extend(&self.back);
        v.extend(&self.post);
        v
    }
}

const STEPS: usize = 20;
const NAMES: [&str; STEPS] = [
    "take_front", "take_back", "drop_front", "drop_back", "skip_front", "skip_back", "write_front", "write_back", "try_write_front",
    "try_write_back", "drop_n_front(2)", "drop_n_back(2)", "skip_n_front(2)", "skip_n_back(2)", "reserve(1)", "reserve(3)", "write_slice_front(2)",
    "write_slice_back(2)", "skip_n_front(MAX)", "drop_n_back(MAX)",
];

/// one step on the model: None if the step must be refused (a panic)
fn mstep(m: &mut M, s: usize, val: u32, obs: &mut Vec<u32>) -> Option<()> {
    match s {
        0 => { if m.un.is_empty() { return None } obs.push(m.un.remove(0)); m.fs += 1 }
        1 => { obs.push(m.un.pop()?); m.bs += 1 }
        2 => { if m.un.is_empty() { return None } m.un.remove(0); m.fs += 1 }
        3 => { m.un.pop()?; m.bs += 1 }
        4 => { if m.un.is_empty() { return None } let x = m.un.remove(0); m.front.push(x) }
        5 => { let x = m.un.pop()?; m.back.insert(0, x) }
        6 => { if m.wf() == 0 { return None } m.use_f(1); m.front.push(val) }
        7 => { if m.wb() == 0 { return None } m.use_b(1); m.back.insert(0, val) }
        8 => { if m.wf() == 0 { obs.push(val) } else { m.use_f(1); m.front.push(val) } }
        9 => { if m.wb() == 0 { obs.push(val) } else { m.use_b(1); m.back.insert(0, val) } }
        10 => { if m.un.len() < 2 { return None } m.un.drain(..2); m.fs += 2 }
        11 => { let l = m.un.len(); if l < 2 { return None } m.un.truncate(l - 2); m.bs += 2 }
        12 => { if m.un.len() < 2 { return None } let x: Vec<u32> = m.un.drain(..2).collect(); m.front.extend(x) }
        13 => { let l = m.un.len(); if l < 2 { return None } let mut x = m.un.split_off(l - 2); x.extend(&m.back); m.back = x }
        14 | 15 => {
            if !m.un.is_empty() { return None }
            let k = if s == 14 { 1 } else { 3 };
            // at least that many slots
            let have = m.fs + m.bs;
            if have < k { m.fs += k - have }
        }
        16 => { if m.wf() < 2 { return None } m.use_f(2); m.front.push(val); m.front.push(val + 1) }
        17 => { if m.wb() < 2 { return None } m.use_b(2); m.back.insert(0, val + 1); m.back.insert(0, val) }
        _ => return None,
    }
    Some(())
}

type Slice<T, S> = fn(&mut generic_vec::iter::Cursor<'_, T, S>, bool, u32);

fn rstep<T: Elem, S: Make<T>>(c: &mut generic_vec::iter::Cursor<'_, T, S>, s: usize, val: u32, obs: &mut Vec<u32>, sl: Option<Slice<T, S>>) {
    match s {
        0 => { let x = c.take_front(); obs.push(x.val()) }
        1 => { let x = c.take_back(); obs.push(x.val()) }
        2 => c.drop_front(),
        3 => c.drop_back(),
        4 => c.skip_front(),
        5 => c.skip_back(),
        6 => c.write_front(T::new(val)),
        7 => c.write_back(T::new(val)),
        8 => { if let Err(x) = c.try_write_front(T::new(val)) { obs.push(x.val()) } }
        9 => { if let Err(x) = c.try_write_back(T::new(val)) { obs.push(x.val()) } }
        10 => c.drop_n_front(2),
        11 => c.drop_n_back(2),
        12 => c.skip_n_front(2),
        13 => c.skip_n_back(2),
        14 => c.reserve(1),
        15 => c.reserve(3),
        16 => sl.unwrap()(c, true, val),
        17 => sl.unwrap()(c, false, val),
        18 => c.skip_n_front(usize::MAX),
        _ => c.drop_n_back(usize::MAX),
    }
}

fn look<T: Elem, S: Make<T>>(c: &mut generic_vec::iter::Cursor<'_, T, S>, m: &mut M, obs: &mut Vec<u32>, want: &mut Vec<u32>) {
    // the number of slots may exceed what was asked of the storage
    obs.extend(&[c.len() as u32, c.is_empty() as u32, if c.is_empty() { c.write_len() as u32 } else { 0 }, c.write_front_len() as u32, c.write_back_len() as u32]);
    obs.extend(&[c.is_write_empty() as u32, c.is_write_front_empty() as u32, c.is_write_back_empty() as u32]);
    obs.extend(c.front().map(|x| x.val()));
    obs.extend(c.back().map(|x| x.val()));
    obs.extend(c.front_mut().map(|x| x.val()));
    obs.extend(c.back_mut().map(|x| x.val()));
    want.extend(&[m.un.len() as u32, m.un.is_empty() as u32, if m.un.is_empty() { (m.fs + m.bs) as u32 } else { 0 }, m.wf() as u32, m.wb() as u32]);
    want.extend(&[(m.un.is_empty() && m.fs + m.bs == 0) as u32, (m.wf() == 0) as u32, (m.wb() == 0) as u32]);
    for _ in 0..2 {
        want.extend(m.un.first().copied());
        want.extend(m.un.last().copied());
    }
}

fn cursors<T: Elem, S: Make<T>>(c: &mut Ctx, n: usize, sp: usize, depth: usize, sl: Option<Slice<T, S>>) {
    let st = vals(n);
    for a in 0..n + 1 {
        for b in a..n + 1 {
            let mut seq: Vec<usize> = vec![];
            descend::<T, S>(c, &st, sp, a, b, &mut seq, depth, sl);
        }
    }
}

fn descend<T: Elem, S: Make<T>>(c: &mut Ctx, st: &[u32], sp: usize, a: usize, b: usize, seq: &mut Vec<usize>, depth: usize, sl: Option<Slice<T, S>>) {
    // the model first: stop after a refused step
    let start: Vec<u32> = st.iter().map(|v| T::norm(*v)).collect();
    let mk = |lim: usize, seq: &[usize]| {
        let mut m = M { pre: start[..a].to_vec(), front: vec![], fs: 0, un: start[a..b].to_vec(), bs: 0, back: vec![], post: start[b..].to_vec() };
        let mut o = vec![];
        let mut refused = false;
        for (i, s) in seq.iter().enumerate() {
            let val = if T::ZST { 0 } else { 900 + 10 * i as u32 };
            if refused { return (m, o, refused, true) }
            let mut m2 = m.clone();
            if mstep(&mut m2, *s, val, &mut o).is_none() || m2.all().len() + m2.fs + m2.bs > lim { refused = true } else { m = m2 }
        }
        (m, o, refused, false)
    };
    let lim0 = if T::ZST { usize::MAX } else { S::limit(sp, st.len()).unwrap_or(usize::MAX) };
    let (_, _, refused, too_far) = mk(lim0, seq);
    if too_far { return }
    let name = format!("cursor({}..{}) {}", a, b, seq.iter().map(|s| NAMES[*s]).collect::<Vec<_>>().join(" "));
    let sq = seq.clone();
    let unchanged_refusal = true;
    for way in 0..2 {
        // way 0: compare the reports after every step; way 1: through finish()
        if way == 1 && seq.len() == depth { break }
        c.op::<T, S>(st, sp, Op {
            tags: &["P10"],
            name: if way == 0 { name.clone() } else { format!("{} finish", name) },
            f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                let mut cu = v.cursor(a..b);
                let lim = lim0;
                for i in 0..sq.len() {
                    let val = if T::ZST { 0 } else { 900 + 10 * i as u32 };
                    let (mut m, _, refused, _) = mk(lim, &sq[..i + 1]);
                    if refused {
                        let (mut m0, _, _, _) = mk(lim, &sq[..i]);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rstep(&mut cu, sq[i], val, ob, sl)));
                        match r {
                            Ok(()) => { ob.push(3333); return }
                            Err(e) => if e.is::<Injected>() { std::panic::resume_unwind(e) },
                        }
                        let (mut x, mut y) = (vec![], vec![]);
                        look(&mut cu, &mut m0, &mut x, &mut y);
                        if x != y { ob.push(2222); ob.extend(x); ob.extend(y); return }
                        break
                    }
                    rstep(&mut cu, sq[i], val, ob, sl);
                    let (mut x, mut y) = (vec![], vec![]);
                    look(&mut cu, &mut m, &mut x, &mut y);
                    if x != y { ob.push(1111); ob.extend(x); ob.extend(y); return }
                }
                if way == 1 {
                    cu.as_raw_cursor_mut().finish();
                    if cu.len() != 0 || cu.write_len() != 0 { ob.push(8888) }
                    cu.as_raw_cursor_mut().finish();
                }
            },
            m: &|v: &mut Vec<u32>, _cap: usize, _| {
                let (m, o, _, _) = mk(lim0, &sq);
                *v = m.all();
                Some(o)
            },
            room: !sq.iter().any(|s| *s == 14 || *s == 15),
            un: Un::Strict,
            keep: false,
        });
    }
    let _ = unchanged_refusal;
    if refused || seq.len() >= depth { return }
    for s in 0..STEPS {
        if (s == 16 || s == 17) && sl.is_none() { continue }
        if s >= 18 && seq.len() > 1 { continue }
        seq.push(s);
        descend::<T, S>(c, st, sp, a, b, seq, depth, sl);
        seq.pop();
    }
}

fn drains<T: Elem, S: Make<T>>(c: &mut Ctx, n: usize, sp: usize) {
    let st = vals(n);
    for a in 0..n + 1 {
        for b in a..n + 1 {
            for len in 0..(b - a + 3) {
                for mask in 0..(1u32 << len) {
                    for forget_ in 0..1 {
                        let _ = forget_;
                        c.op::<T, S>(&st, sp, Op {
                            tags: &["P07"],
                            name: format!("drain({}..{}) then {} steps {:b}", a, b, len, mask),
                            f: &|v: &mut GenericVec<T, S>, ob: &mut Vec<u32>| {
                                let mut d = v.drain(a..b);
                                for i in 0..len {
                                    let h = d.size_hint();
                                    ob.push(h.0 as u32);
                                    ob.push((h.1 == Some(h.0) && d.len() == h.0) as u32);
                                    let x = if mask >> i & 1 == 1 { d.next_back() } else { d.next() };
                                    ob.push(x.map_or(7777, |x| x.val()));
                                }
                            },
                            m: &|v: &mut Vec<u32>, _, _| {
                                let mut r: Vec<u32> = v.drain(a..b).collect();
                                let mut o = vec![];
                                for i in 0..len {
                                    o.push(r.len() as u32);
                                    o.push(1);
                                    let x = if mask >> i & 1 == 1 { r.pop() } else if r.is_empty() { None } else { Some(r.remove(0)) };
                                    o.push(x.unwrap_or(7777));
                                }
                                Some(o)
                            },
                            room: true,
                            un: Un::Strict,
                            keep: false,
                        });
                    }
                }
            }
        }
    }
}

fn slice_c<S: Make<C>>(c: &mut generic_vec::iter::Cursor<'_, C, S>, front: bool, v: u32) {
    if front { c.write_slice_front(&[C(v), C(v + 1)]) } else { c.write_slice_back(&[C(v), C(v + 1)]) }
}

pub fn run(c: &mut Ctx) {
    use generic_vec::raw::{UninitBuffer, ZeroSized};
    let d = if c.deep { 4 } else { 3 };
    for n in 0..4 {
        cursors::<E, Mv<E>>(c, n, 0, d, None);
        cursors::<E, Mv<E>>(c, n, 2, d - 1, None);
        cursors::<E, UninitBuffer<[E; 6], E>>(c, n, 0, d - 1, None);
        cursors::<C, Fx<C>>(c, n, 1, d, Some(slice_c));
        cursors::<Z, ZeroSized<Z>>(c, n, 0, d, None);
        cursors::<CZ, ZeroSized<CZ>>(c, n, 0, d - 1, None);
        #[cfg(feature = "alloc")]
        cursors::<E, generic_vec::raw::Heap<E>>(c, n, 0, 2, None);
    }
    for n in 0..(if c.deep { 6 } else { 5 }) {
        drains::<E, Mv<E>>(c, n, 0);
        drains::<E, Fx<E>>(c, n, 1);
        drains::<Z, ZeroSized<Z>>(c, n, 0);
        drains::<C, Mv<C>>(c, n, 1);
        drains::<CZ, ZeroSized<CZ>>(c, n, 0);
        #[cfg(feature = "alloc")]
        drains::<E, generic_vec::raw::Heap<E>>(c, n, 0);
    }
}
