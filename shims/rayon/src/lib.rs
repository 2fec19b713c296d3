//! rayon whose fork-join is controlled inside an execution.
pub use real::*;

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if vsched::controlled() {
        vsched::thread::join(a, b)
    } else {
        real::join(a, b)
    }
}
