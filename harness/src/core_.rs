use crate::el::*;
use crate::st::*;
use generic_vec::{raw::Storage, GenericVec};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ctx {
    pub prop: String,
    pub deep: bool,
    pub fails: Vec<String>,
    pub cases: u64,
}

pub fn vals(n: usize) -> Vec<u32> { (0..n as u32).map(|i| 10 * (i + 1)).collect() }

pub fn contents<T: Elem, S: ?Sized + Storage<T>>(v: &GenericVec<T, S>) -> Vec<u32> {
    let p = v.as_ptr();
    (0..v.len()).map(|i| unsafe { (*p.add(i)).val() }).collect()
}

/// built without the crate's own insertion code
pub fn build<T: Elem, S: Make<T>>(vs: &[u32], spare: usize) -> GenericVec<T, S> {
    let mut v = S::make(vs.len(), spare);
    for (i, x) in vs.iter().enumerate() {
        unsafe { v.as_mut_ptr().add(i).write(T::new(*x)) }
    }
    unsafe { v.set_len_unchecked(vs.len()) }
    v
}

#[derive(Clone, Copy, PartialEq)]
pub enum Un {
    /// unwinding may not leak anything
    Strict,
    /// unwinding may leak values that were not in the vector before
    LeakNew,
}

pub struct Op<'a, T: Elem, S: Make<T>> {
    pub tags: &'a [&'a str],
    pub name: String,
    pub f: &'a dyn Fn(&mut GenericVec<T, S>, &mut Vec<u32>),
    /// None: must panic and leave the vector alone. arguments: contents, largest capacity ever
    pub m: &'a dyn Fn(&mut Vec<u32>, usize, usize) -> Option<Vec<u32>>,
    /// with room nothing is asked of the storage
    pub room: bool,
    pub un: Un,
    /// the old contents survive unwinding in place
    pub keep: bool,
}

impl Ctx {
    pub fn new(p: &str, deep: bool) -> Self { Ctx { prop: p.into(), deep, fails: vec![], cases: 0 } }
    pub fn wants(&self, tags: &[&str]) -> bool { tags.contains(&self.prop.as_str()) || ["P05", "P06", "P18"].contains(&self.prop.as_str()) }
    pub fn fail(&mut self, s: String) {
        if self.fails.len() < 200 {
            self.fails.push(s)
        }
    }
    pub fn check(&mut self, tags: &[&str], name: &str, f: &mut dyn FnMut() -> Result<(), String>) {
        if !tags.contains(&self.prop.as_str()) {
            return
        }
        self.cases += 1;
        reset();
        ASKED.with(|a| a.set(0));
        let r = catch_unwind(AssertUnwindSafe(|| f()));
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => self.fail(format!("{}: {}", name, e)),
            Err(_) => self.fail(format!("{}: unexpected panic", name)),
        }
        let es = ERRS.with(|e| e.borrow().clone());
        if let Some(e) = es.first() {
            self.fail(format!("{}: {}", name, e))
        }
    }

    pub fn op<T: Elem, S: Make<T>>(&mut self, start: &[u32], spare: usize, o: Op<T, S>) {
        if !self.wants(o.tags) || (self.prop == "P18" && !T::ZST) {
            return
        }
        let start: Vec<u32> = start.iter().map(|v| T::norm(*v)).collect();
        let mut fuse = 0u64;
        loop {
            reset();
            ASKED.with(|a| a.set(0));
            self.cases += 1;
            let what = format!(
                "{} on {:?} with {} spare slots ({} elements in {}{})",
                o.name,
                start,
                spare,
                T::NAME,
                S::NAME,
                if fuse > 0 { format!(", user event {} panics", fuse) } else { String::new() }
            );
            let mut bad: Vec<String> = vec![];
            let mut v: GenericVec<T, S> = build(&start, spare);
            let cap0 = v.capacity();
            let p0 = v.as_ptr() as usize;
            let lim = if T::ZST { isize::MAX as usize } else { S::limit(spare, start.len()).unwrap_or(usize::MAX) };
            FUSE.with(|f| f.set(fuse));
            let mut obs = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| (o.f)(&mut v, &mut obs)));
            FUSE.with(|f| f.set(0));
            let blown = BLOWN.with(|b| b.get());
            let mut done = false;
            let mut once = false;
            if v.len() > v.capacity() {
                bad.push(format!("length {} beyond capacity {}", v.len(), v.capacity()));
                unsafe { v.set_len_unchecked(0) }
                std::mem::forget(v);
                done = true;
            } else {
                let now = if v.len() < 1000 { contents(&v) } else { vec![] };
                let mut ids = std::collections::HashSet::new();
                if v.len() < 1000 {
                    for i in 0..v.len() {
                        let id = unsafe { (*v.as_ptr().add(i)).id() };
                        if id != 0 && !ids.insert(id) {
                            bad.push("an element is in the vector twice".into());
                            done = true;
                        }
                    }
                } else {
                    bad.push(format!("length {}", v.len()));
                    done = true;
                }
                if blown {
                    if o.keep && (now.len() < start.len() || now[..start.len()] != start[..]) {
                        bad.push(format!("after the panic the vector is {:?}", now))
                    }
                } else if o.name.contains("(caught)") {
                    // the outcome is not specified; its validity is
                } else {
                    let mut m = start.clone();
                    let want = (o.m)(&mut m, cap0, lim);
                    let want = want.map(|w| w.into_iter().collect::<Vec<_>>());
                    // unwinding out of a splice that its storage then refuses would be a second panic
                    once = want.is_none();
                    let m: Vec<u32> = m.into_iter().map(T::norm).collect();
                    match (&r, &want) {
                        (Ok(()), None) => bad.push(format!("did not panic; the vector is {:?}", now)),
                        (Err(_), Some(_)) => bad.push("panicked".into()),
                        (Err(_), None) => {
                            let partial = ["extend(", "splice(", "clone_from(", "extend(&)"].iter().any(|p| o.name.starts_with(p));
                            if partial && (!o.keep || now.len() >= start.len() && now[..start.len()] == start[..]) {
                                // a bulk operation may have got part of the way
                            } else if now != start {
                                bad.push(format!("the refused operation left {:?}", now))
                            }
                        }
                        (Ok(()), Some(w)) => {
                            if &obs != w {
                                bad.push(format!("returned {:?} instead of {:?}", obs, w))
                            }
                            if now != m {
                                bad.push(format!("left {:?} instead of {:?}", now, m))
                            }
                        }
                    }
                    if o.room && r.is_ok() && v.len() <= cap0 && (ASKED.with(|a| a.get()) != 0 || v.as_ptr() as usize != p0) {
                        bad.push("asked the storage for space although there was room".into())
                    }
                }
                if T::live() >= 0 && T::live() != v.len() as i64 && !(r.is_err() && o.un == Un::LeakNew) {
                    bad.push(format!("{} values exist, {} are in the vector", T::live(), v.len()))
                }
                if !done {
                    drop(v);
                    if T::live() > 0 && !(r.is_err() && o.un == Un::LeakNew) {
                        bad.push(format!("{} values were never dropped", T::live()))
                    }
                    if T::live() < 0 && T::live() != -1 {
                        bad.push("values were dropped twice".into())
                    }
                } else {
                    std::mem::forget(v);
                }
            }
            bad.extend(ERRS.with(|e| e.borrow().clone()));
            if !bad.is_empty() {
                self.fail(format!("{}: {}", what, bad.join("; ")));
                return
            }
            if fuse > 0 && !blown {
                return
            }
            if once {
                return
            }
            fuse += 1;
            if fuse > 40 {
                return
            }
        }
    }
}
