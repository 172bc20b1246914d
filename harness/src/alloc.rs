//! Counting allocator: observes live bytes, the peak and the number of calls during a case.
//! When a per-case bound is set and exceeded it leaves a marker and aborts the (child) process,
//! which is a deterministic observation, unlike running out of memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(0);
static MARKER: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

/// `marker` receives a line if a bound is exceeded.
pub fn init(marker: std::fs::File) {
    let _ = MARKER.set(marker);
}
pub fn mark(s: &str) {
    use std::io::Write;
    if let Some(mut f) = MARKER.get() {
        let _ = f.write_all(s.as_bytes());
    }
}
/// Begin observing a case; `limit` bytes over what is live now (0: none).
pub fn begin(limit: usize) {
    let l = LIVE.load(Relaxed);
    BASE.store(l, Relaxed);
    PEAK.store(l, Relaxed);
    CALLS.store(0, Relaxed);
    LIMIT.store(if limit == 0 { 0 } else { l + limit }, Relaxed);
}
pub fn end() -> (usize, u64) {
    LIMIT.store(0, Relaxed);
    (
        PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed)),
        CALLS.load(Relaxed),
    )
}

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    CALLS.fetch_add(1, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    let lim = LIMIT.load(Relaxed);
    if lim != 0 && l > lim {
        LIMIT.store(0, Relaxed);
        use std::io::Write;
        if let Some(mut f) = MARKER.get() {
            let mut buf = [0u8; 64];
            let mut c = &mut buf[..];
            let _ = writeln!(c, "ALLOC request={} live={}", n, l - BASE.load(Relaxed));
            let left = c.len();
            let _ = f.write_all(&buf[..64 - left]);
        }
        std::process::abort();
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            add(new - l.size());
        } else {
            LIVE.fetch_sub(l.size() - new, Relaxed);
        }
        System.realloc(p, l, new)
    }
}
