//! element types with an identity, a registry of the live ones, and injected panics
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

thread_local! {
    pub static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    pub static ERRS: RefCell<Vec<String>> = RefCell::new(Vec::new());
    pub static NEXT: Cell<u64> = Cell::new(1);
    pub static ZLIVE: Cell<i64> = Cell::new(0);
    /// number of user events until one panics (0: never)
    pub static FUSE: Cell<u64> = Cell::new(0);
    pub static BLOWN: Cell<bool> = Cell::new(false);
    pub static CLONES: RefCell<Vec<u32>> = RefCell::new(Vec::new());
}

pub fn err(s: String) { ERRS.with(|e| e.borrow_mut().push(s)) }

pub struct Injected;

/// every piece of user code passes here
pub fn event() {
    FUSE.with(|f| {
        let n = f.get();
        if n > 0 {
            f.set(n - 1);
            if n == 1 && !std::thread::panicking() {
                BLOWN.with(|b| b.set(true));
                std::panic::resume_unwind(Box::new(Injected))
            }
        }
    })
}

pub fn reset() {
    LIVE.with(|l| l.borrow_mut().clear());
    ERRS.with(|l| l.borrow_mut().clear());
    CLONES.with(|l| l.borrow_mut().clear());
    ZLIVE.with(|z| z.set(0));
    FUSE.with(|z| z.set(0));
    BLOWN.with(|z| z.set(false));
}

pub trait Elem: Sized + 'static {
    const ZST: bool;
    const NAME: &'static str;
    fn new(v: u32) -> Self;
    fn val(&self) -> u32;
    /// identity; 0 if it has none
    fn id(&self) -> u64;
    fn live() -> i64;
    fn norm(v: u32) -> u32 { if Self::ZST { 0 } else { v } }
}

const MAGIC: u64 = 0x5eed_cafe_f00d_d00d;

pub struct E {
    magic: u64,
    id: u64,
    v: u32,
}
fn live_e(v: u32) -> E {
    let id = NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    });
    LIVE.with(|l| l.borrow_mut().insert(id));
    E { magic: MAGIC, id, v }
}
impl Elem for E {
    const ZST: bool = false;
    const NAME: &'static str = "sized";
    fn new(v: u32) -> Self { live_e(v) }
    fn val(&self) -> u32 {
        if self.magic != MAGIC || !LIVE.with(|l| l.borrow().contains(&self.id)) {
            err(format!("a slot without a live value was read (value {})", self.v));
            return 9999
        }
        self.v
    }
    fn id(&self) -> u64 { self.id }
    fn live() -> i64 { LIVE.with(|l| l.borrow().len() as i64) }
}
impl Drop for E {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            err("a slot that holds no value was dropped".into());
            return
        }
        if !LIVE.with(|l| l.borrow_mut().remove(&self.id)) {
            err(format!("value {} dropped twice", self.v));
            return
        }
        event();
    }
}
impl Clone for E {
    fn clone(&self) -> Self {
        let v = self.val();
        event();
        CLONES.with(|c| c.borrow_mut().push(v));
        live_e(v)
    }
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        event();
        self.val() / 10 == o.val() / 10
    }
}

pub struct Z(());
impl Elem for Z {
    const ZST: bool = true;
    const NAME: &'static str = "zero-sized";
    fn new(_: u32) -> Self {
        ZLIVE.with(|z| z.set(z.get() + 1));
        Z(())
    }
    fn val(&self) -> u32 { 0 }
    fn id(&self) -> u64 { 0 }
    fn live() -> i64 { ZLIVE.with(|z| z.get()) }
}
impl Drop for Z {
    fn drop(&mut self) {
        ZLIVE.with(|z| z.set(z.get() - 1));
        event();
    }
}
impl Clone for Z {
    fn clone(&self) -> Self {
        event();
        CLONES.with(|c| c.borrow_mut().push(0));
        Self::new(0)
    }
}
impl PartialEq for Z {
    fn eq(&self, _: &Z) -> bool {
        event();
        true
    }
}

/// plain copyable element
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct C(pub u32);
impl Elem for C {
    const ZST: bool = false;
    const NAME: &'static str = "copy";
    fn new(v: u32) -> Self { C(v) }
    fn val(&self) -> u32 { self.0 }
    fn id(&self) -> u64 { 0 }
    fn live() -> i64 { -1 }
}

/// zero-sized copyable element
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct CZ;
impl Elem for CZ {
    const ZST: bool = true;
    const NAME: &'static str = "zero-sized copy";
    fn new(_: u32) -> Self { CZ }
    fn val(&self) -> u32 { 0 }
    fn id(&self) -> u64 { 0 }
    fn live() -> i64 { -1 }
}
