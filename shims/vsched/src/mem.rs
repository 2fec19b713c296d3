//! Watches the loads and stores of the code under test, which is compiled with a callback before each.
//! Accesses of different threads to the same memory, one of them a store, that nothing orders are
//! collected; a later search makes such accesses scheduling points.
use crate::*;
use std::sync::atomic::Ordering::Relaxed;

/// Threads that are told apart.
const T: usize = 7;
/// Words of eight bytes that can be told apart, and how far a word may be from its place.
const CELLS: usize = 1 << 21;
const PROBES: usize = 256;
/// Conflicts that are kept.
pub const KEPT: usize = 64;
#[derive(Clone, Copy)]
#[repr(C)]
struct Word {
    key: usize,
    w: [u32; T],
    r: [u32; T],
}
static ON: AtomicBool = AtomicBool::new(false);
static TABLE: AtomicUsize = AtomicUsize::new(0);
static mut CLOCK: [[u32; T]; T] = [[0; T]; T];
static mut FOUND: [usize; KEPT] = [0; KEPT];
static NFOUND: AtomicUsize = AtomicUsize::new(0);
static SEEN: AtomicUsize = AtomicUsize::new(0);
/// Something could not be recorded.
static LOST: AtomicBool = AtomicBool::new(false);
/// Words whose accesses are scheduling points.
static mut POINTS: [usize; KEPT] = [0; KEPT];
static NPOINTS: AtomicUsize = AtomicUsize::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);
thread_local! {
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}
static MAIN: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, attr: *mut [u64; 16]) -> i32;
    fn pthread_attr_getstack(attr: *const [u64; 16], addr: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(attr: *mut [u64; 16]) -> i32;
}
fn stack() -> (usize, usize) {
    let (mut attr, mut a, mut n) = ([0u64; 16], 0usize, 0usize);
    unsafe {
        if pthread_getattr_np(pthread_self(), &mut attr) == 0 {
            pthread_attr_getstack(&attr, &mut a, &mut n);
            pthread_attr_destroy(&mut attr);
        }
    }
    (a, a + n)
}
/// Executions from now on are watched (or not), and accesses to the given words are scheduling points.
pub fn watch(on: bool, points: &[usize]) {
    WATCH.store(on, SeqCst);
    unsafe {
        for (i, p) in points.iter().take(KEPT).enumerate() {
            POINTS[i] = *p;
        }
    }
    NPOINTS.store(points.len().min(KEPT), SeqCst);
    if on && TABLE.load(SeqCst) == 0 {
        let p = unsafe { mmap(std::ptr::null_mut(), CELLS * size_of::<Word>(), 3, 0x4022, -1, 0) } as usize;
        assert!(p != usize::MAX, "mmap");
        TABLE.store(p, SeqCst);
        // finding the stack of the first thread of a process is slow
        let (a, b) = stack();
        STACK.set((a, b));
        MAIN.store(unsafe { pthread_self() }, SeqCst);
    }
}
pub(crate) fn begin() {
    ON.store(WATCH.load(SeqCst), SeqCst);
}
pub(crate) fn end() {
    ON.store(false, SeqCst);
}
/// The clock of a thread has changed.
pub(crate) fn sync(t: Tid, c: &Clock) {
    if !ON.load(Relaxed) && !WATCH.load(Relaxed) {
        return;
    }
    if t >= T {
        LOST.store(true, Relaxed);
        return;
    }
    unsafe {
        for (i, x) in c.iter().take(T).enumerate() {
            CLOCK[t][i] = *x;
        }
    }
}
/// Words in conflict so far, accesses seen, and whether something was not recorded.
pub(crate) fn report() -> (Vec<usize>, usize, bool) {
    let n = NFOUND.load(SeqCst).min(KEPT);
    (unsafe { (0..n).map(|i| FOUND[i]).collect() }, SEEN.load(SeqCst), LOST.load(SeqCst))
}
#[inline]
fn word(k: usize, make: bool) -> Option<&'static mut Word> {
    let base = TABLE.load(Relaxed) as *mut Word;
    // neighbours stay together, regions that are far apart do not meet
    let at = ((k >> 6).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 << 6) | (k & 63);
    for p in 0..PROBES {
        let w = unsafe { &mut *base.add(at.wrapping_add(p) & (CELLS - 1)) };
        if w.key == k {
            return Some(w);
        }
        if w.key == 0 {
            if make {
                w.key = k;
                return Some(w);
            }
            return None;
        }
    }
    if make {
        LOST.store(true, Relaxed);
    }
    None
}
#[inline]
fn on() -> bool {
    ON.load(Relaxed)
}
/// An access of the calling thread that is about to happen.
#[inline(never)]
fn access(a: usize, len: usize, write: bool) {
    let Some(t) = me() else { return };
    if len == 0 || IN.try_with(|i| i.get()).unwrap_or(true) {
        return;
    }
    let (lo, hi) = STACK.get();
    let (lo, hi) = if hi == 0 {
        let s = stack();
        STACK.set(s);
        s
    } else {
        (lo, hi)
    };
    if a >= lo && a < hi {
        return;
    }
    let (first, last) = (a >> 3, (a + len - 1) >> 3);
    let n = NPOINTS.load(Relaxed);
    if n > 0 && !std::thread::panicking() {
        if let Some(p) = unsafe { (0..n).map(|i| POINTS[i]).find(|p| *p >= first && *p <= last) } {
            point(Op::Access(p << 3, write));
        }
    }
    if t >= T {
        return;
    }
    // block copies made here are not accesses
    IN.with(|i| i.set(true));
    record(t, first, last, write);
    IN.with(|i| i.set(false));
}
fn record(t: Tid, first: usize, last: usize, write: bool) {
    SEEN.fetch_add(1, Relaxed);
    let c = unsafe { CLOCK[t] };
    for k in first..=last {
        let Some(w) = word(k, true) else { return };
        for u in 0..T {
            if u != t && (w.w[u] > c[u] || (write && w.r[u] > c[u])) {
                let n = NFOUND.load(Relaxed);
                unsafe {
                    if n < KEPT && !(0..n).any(|i| FOUND[i] == k) {
                        FOUND[n] = k;
                        NFOUND.store(n + 1, Relaxed);
                    }
                }
            }
        }
        if write {
            w.w[t] = c[t];
        } else {
            w.r[t] = c[t];
        }
    }
}
/// Memory that is handed out anew has no history.
pub(crate) fn fresh(a: usize, len: usize) {
    if !on() || len == 0 {
        return;
    }
    for k in a >> 3..=(a + len - 1) >> 3 {
        if let Some(w) = word(k, false) {
            w.w = [0; T];
            w.r = [0; T];
        }
    }
}
macro_rules! callbacks {
    ($($load:ident $store:ident $n:literal),*) => {
        $(#[no_mangle]
        pub extern "C" fn $load(p: *const u8) {
            if on() {
                access(p as usize, $n, false);
            }
        }
        #[no_mangle]
        pub extern "C" fn $store(p: *const u8) {
            if on() {
                access(p as usize, $n, true);
            }
        })*
    };
}
callbacks!(__sanitizer_cov_load1 __sanitizer_cov_store1 1, __sanitizer_cov_load2 __sanitizer_cov_store2 2, __sanitizer_cov_load4 __sanitizer_cov_store4 4, __sanitizer_cov_load8 __sanitizer_cov_store8 8, __sanitizer_cov_load16 __sanitizer_cov_store16 16);
/// Block copies of watched code are linked to these.
mod block {
    use super::*;
    extern "C" {
        fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
        fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
        fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if on() {
            access(s as usize, n, false);
            access(d as usize, n, true);
        }
        __real_memcpy(d, s, n)
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        if on() {
            access(s as usize, n, false);
            access(d as usize, n, true);
        }
        __real_memmove(d, s, n)
    }
    #[no_mangle]
    unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        if on() {
            access(d as usize, n, true);
        }
        __real_memset(d, c, n)
    }
}
