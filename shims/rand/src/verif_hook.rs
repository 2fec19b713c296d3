//! Lets a check choose every output of `thread_rng()` and `StdRng` drawn on its thread.
use std::boxed::Box;
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering};

type Hook = Box<dyn FnMut(u32) -> u64>;
std::thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
static FREE: AtomicU64 = AtomicU64::new(1);

/// Installs (or removes) the source of the outputs on this thread. It gets the width in bytes.
pub fn set(h: Option<Hook>) {
    HOOK.with(|c| *c.borrow_mut() = h);
}
pub(crate) fn draw(width: u32) -> Option<u64> {
    HOOK.with(|c| c.borrow_mut().as_mut().map(|f| f(width)))
}
/// Starts the stream used where nothing is installed.
pub fn seed(s: u64) {
    FREE.store(s, Ordering::Relaxed);
}
pub(crate) fn free() -> u64 {
    let x = FREE.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed).wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
