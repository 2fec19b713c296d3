//! Verification copy of the thread generator: its outputs are chosen by the checks
//! (see `verif_hook`), otherwise they follow a fixed stream.
use crate::{CryptoRng, Error, RngCore};
use crate::verif_hook;

/// The thread-local generator of this verification copy of `rand`.
#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: core::marker::PhantomData<std::rc::Rc<()>>,
}

/// Returns the thread-local generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        verif_hook::draw(4).unwrap_or_else(verif_hook::free) as u32
    }
    fn next_u64(&mut self) -> u64 {
        verif_hook::draw(8).unwrap_or_else(verif_hook::free)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}


#[cfg(test)]
mod test {
    #[test]
    fn test_thread_rng() {
        use crate::Rng;
        let mut r = crate::thread_rng();
        r.gen::<i32>();
        assert_eq!(r.gen_range(0..1), 0);
    }
}
