//! checks that every block is given back with the layout it was obtained with
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::SeqCst};

pub struct Chk;
pub static BAD: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
pub static DENY: AtomicBool = AtomicBool::new(false);
pub static LAST: AtomicUsize = AtomicUsize::new(0);

fn pad(l: Layout) -> usize { l.align().max(32) }
const MAGIC: usize = 0x1bad_b002_5eed;
unsafe impl GlobalAlloc for Chk {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if DENY.load(SeqCst) {
            return std::ptr::null_mut()
        }
        if l.size() == 0 {
            BAD.fetch_add(1, SeqCst);
        }
        let p = pad(l);
        let n = match l.size().checked_add(p) {
            Some(n) if n < 1 << 40 => n,
            _ => return std::ptr::null_mut(),
        };
        let b = System.alloc(Layout::from_size_align_unchecked(n, p));
        if b.is_null() {
            return b
        }
        let h = b.add(p) as *mut usize;
        *h.sub(1) = l.size();
        *h.sub(2) = l.align();
        *h.sub(3) = MAGIC;
        LIVE.fetch_add(1, SeqCst);
        std::ptr::write_bytes(b.add(p), 0xA5, l.size());
        b.add(p)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let p = pad(l);
        if (q as usize) % 32 != 0 || (q as usize) < 4096 {
            BAD.fetch_add(1, SeqCst);
            return
        }
        let h = q as *mut usize;
        if *h.sub(1) != l.size() || *h.sub(2) != l.align() || *h.sub(3) != MAGIC {
            BAD.fetch_add(1, SeqCst);
            return
        }
        *h.sub(3) = 0;
        LIVE.fetch_sub(1, SeqCst);
        std::ptr::write_bytes(q, 0x5A, l.size());
        System.dealloc(q.sub(p), Layout::from_size_align_unchecked(l.size() + p, p))
    }
    // realloc: the default (alloc, copy, dealloc), with the layout checked above
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if (q as usize) % 32 != 0 || (q as usize) < 4096 {
            BAD.fetch_add(1, SeqCst);
            return std::ptr::null_mut()
        }
        let h = q as *mut usize;
        if *h.sub(1) != l.size() || *h.sub(2) != l.align() || *h.sub(3) != MAGIC {
            BAD.fetch_add(1, SeqCst);
        }
        let r = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !r.is_null() {
            std::ptr::copy_nonoverlapping(q, r, l.size().min(n));
            self.dealloc(q, l);
        }
        r
    }
}
