//! Random generators whose outputs the check decides.
use rand_core::{CryptoRng, Error, RngCore};

/// Serves a script of 64-bit words (low half first for 32-bit reads is NOT implied: every call,
/// whatever its width, consumes one script entry), then panics if `strict`, else serves `fill`.
#[derive(Clone, Debug)]
pub struct ScriptRng {
    pub script: Vec<u64>,
    pub pos: usize,
    pub strict: bool,
    pub fill: u64,
    /// log of the widths consumed: 4, 8 or the length of a fill_bytes call (+1000)
    pub log: Vec<u32>,
}
impl ScriptRng {
    pub fn new(script: Vec<u64>) -> Self {
        Self { script, pos: 0, strict: true, fill: 0, log: vec![] }
    }
    pub fn with_fill(script: Vec<u64>, fill: u64) -> Self {
        Self { script, pos: 0, strict: false, fill, log: vec![] }
    }
    fn take(&mut self) -> u64 {
        let v = if self.pos < self.script.len() {
            self.script[self.pos]
        } else {
            assert!(!self.strict, "the generator script ran out");
            self.fill
        };
        self.pos += 1;
        v
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.log.push(4);
        self.take() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.log.push(8);
        self.take()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.log.push(1000 + dest.len() as u32);
        for c in dest.chunks_mut(8) {
            let v = self.take().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ScriptRng {}

/// A deterministic generator (SplitMix64), for fixed filler values and keys.
#[derive(Clone, Debug)]
pub struct DetRng(pub u64);
impl RngCore for DetRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut m = crate::Mix(self.0);
        let r = m.next();
        self.0 = m.0;
        r
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for DetRng {}

/// One stream of bytes, however it is asked for.
pub struct Stream {
    pub bytes: Vec<u8>,
    pub pos: usize,
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.bytes.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
            assert!(self.pos < 10_000_000, "HANG: the sampler does not stop drawing");
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Stream {}
