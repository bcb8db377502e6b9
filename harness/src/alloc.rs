//! Counting allocator: what the code under observation allocates, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

pub struct Counting;
/// Single allocations above this are refused (the process then aborts, as it would for want of memory).
pub static REFUSE: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIG: Cell<u64> = const { Cell::new(0) };
}
/// Live bytes of the whole process (single huge blocks apart, see REFUSE); above LIMIT the process aborts (a runaway allocation loop).
static LIVE: AtomicI64 = AtomicI64::new(0);
const LIMIT: i64 = 3 << 30;
fn note(d: i64, size: usize) {
    if d.abs() < 1 << 28 && LIVE.fetch_add(d, Ordering::Relaxed) + d > LIMIT {
        unsafe {
            let m = b"runaway allocation: more than 3 GiB live\n";
            libc::write(2, m.as_ptr().cast(), m.len());
            libc::abort()
        }
    }
    let _ = CUR.try_with(|c| {
        let v = c.get() + d;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    if d > 0 {
        let _ = BIG.try_with(|b| if size as u64 > b.get() { b.set(size as u64) });
    }
}
/// Alignment each live block of the sanitizer's heap was allocated with: one byte per 16 bytes of
/// heap, in a lazily populated mapping. (The C allocator forgets it, so that a block given back
/// with another alignment would go unnoticed.)
#[cfg(vmon_asan)]
mod aligns {
    use super::*;
    const LEN: usize = 1 << 47; // of address space
    static MAP: AtomicUsize = AtomicUsize::new(0);
    unsafe fn slot(p: *mut u8) -> *mut u8 {
        let a = p as usize;
        if a >= LEN { return std::ptr::null_mut(); }
        let mut m = MAP.load(Ordering::Acquire);
        if m == 0 {
            let n = libc::mmap(std::ptr::null_mut(), LEN / 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            if n == libc::MAP_FAILED { return std::ptr::null_mut(); }
            m = match MAP.compare_exchange(0, n as usize, Ordering::AcqRel, Ordering::Acquire) {
                Ok(_) => n as usize,
                Err(o) => { libc::munmap(n, LEN / 16); o }
            };
        }
        (m + a / 16) as *mut u8
    }
    pub unsafe fn set(p: *mut u8, align: usize) {
        if p.is_null() { return; }
        let s = slot(p);
        if !s.is_null() { std::ptr::write_volatile(s, align.trailing_zeros() as u8 + 1); }
    }
    /// The recorded alignment, if any; forgets it.
    pub unsafe fn take(p: *mut u8) -> Option<usize> {
        let s = slot(p);
        if s.is_null() { return None; }
        let v = std::ptr::read_volatile(s);
        if v == 0 { return None; }
        std::ptr::write_volatile(s, 0);
        Some(1 << (v - 1))
    }
}
#[inline]
unsafe fn note_align(p: *mut u8, align: usize) {
    #[cfg(vmon_asan)]
    aligns::set(p, align);
    let _ = (p, align);
}
/// Under AddressSanitizer the usable size is exactly the requested one, so a block given back with
/// another size than it was allocated with is visible.
#[inline]
unsafe fn check_layout(p: *mut u8, l: Layout) {
    #[cfg(vmon_asan)]
    {
        let n = libc::malloc_usable_size(p.cast());
        if n != l.size() || (p as usize) % l.align() != 0 || aligns::take(p).is_some_and(|a| a != l.align()) {
            let m = b"AddressSanitizer-build allocator: block freed with the wrong layout\n";
            libc::write(2, m.as_ptr().cast(), m.len());
            libc::abort()
        }
    }
    let _ = (p, l);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() { note(l.size() as i64, l.size()); }
        note_align(p, l.align());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() { note(l.size() as i64, l.size()); }
        note_align(p, l.align());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        check_layout(p, l);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        check_layout(p, l);
        let q = System.realloc(p, l, n);
        note_align(if q.is_null() { p } else { q }, l.align());
        if !q.is_null() { note(n as i64 - l.size() as i64, n); }
        q
    }
}

/// Run `f`; returns (result, peak live bytes above the start, largest single allocation).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    let start = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    BIG.with(|b| b.set(0));
    let v = f();
    let peak = PEAK.with(|p| p.get()) - start;
    (v, peak.max(0) as u64, BIG.with(|b| b.get()))
}
