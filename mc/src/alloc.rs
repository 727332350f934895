//! Counting allocator: per-thread live and peak bytes, and a global ceiling.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
static GLOBAL: AtomicI64 = AtomicI64::new(0);
static GLOBAL_PEAK: AtomicI64 = AtomicI64::new(0);
/// Line printed when the ceiling is hit.
pub static OOM_LINE: OnceLock<String> = OnceLock::new();
const CEILING: i64 = 16 << 30;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
    if n.abs() >= 4096 {
        let g = GLOBAL.fetch_add(n, Ordering::Relaxed) + n;
        if n > 0 {
            GLOBAL_PEAK.fetch_max(g, Ordering::Relaxed);
        }
        if g > CEILING {
            if let Some(line) = OOM_LINE.get() {
                use std::io::Write;
                use std::os::fd::FromRawFd;
                let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(1) });
                let _ = f.write_all(line.as_bytes());
                std::process::exit(1);
            }
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Worst case both blocks exist at once
        add(n as i64);
        add(-(l.size() as i64));
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())))
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
/// Blocks of at least 4 KiB of all threads; returns what is live now.
pub fn reset_global_peak() -> i64 {
    let g = GLOBAL.load(Ordering::SeqCst);
    GLOBAL_PEAK.store(g, Ordering::SeqCst);
    g
}
pub fn global_peak() -> i64 {
    GLOBAL_PEAK.load(Ordering::SeqCst)
}
