//! Toy instances of the scheme: parameters, keys, plain views of keys and ciphertexts.
use crate::ring::Fld;
use crate::rngs::DetRng;
use crate::*;
pub use fhe_core::{
    ConstParameters, LWECiphertext, LWEModulusType, LWESecretKeyType as Lk, Parameters, RingSecretKeyType as Rk, SecretKeyPack, Steps,
};
use lattice::LWE;
use std::collections::BTreeMap;

/// Ciphertext words of the scheme.
pub trait Cw: LWEModulusType + V {}
impl<T: LWEModulusType + V> Cw for T {}

#[derive(Clone, Copy, Debug)]
pub struct Toy {
    pub n: usize,
    pub q: u64,
    pub t: u64,
    pub nn: usize,
    pub steps: Steps,
    pub lk: Lk,
    pub rk: Rk,
    /// blind rotation basis bits
    pub bb: u32,
    /// key switching basis bits
    pub kb: u32,
    /// standard deviations: LWE, ring, key switching
    pub sl: f64,
    pub sr: f64,
    pub sk: f64,
}
/// A standard deviation whose every sample rounds to zero.
pub const NO: f64 = 1e-9;
impl Toy {
    pub fn new(n: usize, q: u64, nn: usize, steps: Steps) -> Toy {
        Toy { n, q, t: 4, nn, steps, lk: Lk::Ternary, rk: Rk::Ternary, bb: 1, kb: 1, sl: NO, sr: NO, sk: NO }
    }
    pub fn consts<C: Cw, Q: Fld>(&self) -> ConstParameters<C, Q::Value> {
        ConstParameters {
            lwe_dimension: self.n,
            lwe_plain_modulus: C::of(self.t),
            lwe_cipher_modulus: C::of(self.q),
            lwe_noise_standard_deviation: self.sl,
            lwe_secret_key_type: self.lk,
            ring_dimension: self.nn,
            ring_modulus: Q::MODULUS_VALUE,
            ring_noise_standard_deviation: self.sr,
            ring_secret_key_type: self.rk,
            blind_rotation_basis_bits: self.bb,
            steps: self.steps,
            key_switching_basis_bits: self.kb,
            key_switching_standard_deviation: self.sk,
        }
    }
    pub fn params<C: Cw, Q: Fld>(&self) -> Parameters<C, Q> {
        Parameters::new(self.consts::<C, Q>()).unwrap_or_else(|e| panic!("{self:?} refused: {e}"))
    }
    pub fn name(&self) -> String {
        format!(
            "{:?} n={} q={} N={} {:?}/{:?} B=2^{}/2^{}",
            self.steps, self.n, self.q, self.nn, self.lk, self.rk, self.bb, self.kb
        )
    }
    /// Number of different keys of the two layers.
    pub fn key_space(&self) -> u64 {
        let l = match self.lk {
            Lk::Binary => 2u64,
            Lk::Ternary => 3,
        }
        .saturating_pow(self.n as u32);
        if matches!(self.steps, Steps::BrMs) {
            return l;
        }
        l.saturating_mul(match self.rk {
            Rk::Binary => 2u64.saturating_pow(self.nn as u32),
            Rk::Ternary => 3u64.saturating_pow(self.nn as u32),
            Rk::Gaussian => 0,
        })
    }
}
/// The LWE key as residues modulo q.
pub fn lkey<C: Cw, Q: Fld>(p: &SecretKeyPack<C, Q>) -> Vec<u64> {
    p.lwe_secret_key().iter().map(|x| x.to()).collect()
}
/// The same key modulo another modulus (0, 1 or -1 per entry).
pub fn lift(s: &[u64], q: u64, to: u64) -> Vec<u64> {
    s.iter().map(|&x| if x == q - 1 && q > 2 { to - 1 } else { x }).collect()
}
/// The ring key as residues modulo Q.
pub fn rkey<C: Cw, Q: Fld>(p: &SecretKeyPack<C, Q>) -> Vec<u64> {
    pvals(p.ring_secret_key())
}
/// Every key pair that key generation yields, found by running it on generator states 0, 1, 2, ...
/// until `want` different pairs appeared or `cap` runs were made. The pairs are sorted by key.
pub fn key_pairs<C: Cw, Q: Fld>(t: &Toy, want: u64, cap: u64) -> Vec<SecretKeyPack<C, Q>> {
    let p = t.params::<C, Q>();
    let mut m: BTreeMap<(Vec<u64>, Vec<u64>), SecretKeyPack<C, Q>> = BTreeMap::new();
    for seed in 0..cap {
        if m.len() as u64 >= want {
            break;
        }
        let k = SecretKeyPack::new(p, &mut DetRng(0x1000_0000 + seed));
        m.entry((lkey(&k), rkey(&k))).or_insert(k);
    }
    m.into_values().collect()
}
/// At most `k` of them, spread over the whole list.
pub fn spread<T: Clone>(v: &[T], k: usize) -> Vec<T> {
    if v.len() <= k {
        return v.to_vec();
    }
    (0..k).map(|i| v[(2 * i + 1) * v.len() / (2 * k)].clone()).collect()
}
pub fn ct<C: Cw>(a: &[u64], b: u64) -> LWECiphertext<C> {
    LWE::new(a.iter().map(|x| C::of(*x)).collect(), C::of(b))
}
pub fn unct<C: Cw>(c: &LWECiphertext<C>) -> (Vec<u64>, u64) {
    (c.a().iter().map(|x| x.to()).collect(), c.b().to())
}
pub fn phase<C: Cw>(c: &LWECiphertext<C>, s: &[u64], q: u64) -> u64 {
    let (a, b) = unct(c);
    ring::lphase(&a, b, s, q)
}
/// |x| with x taken modulo q as the nearest to zero
pub fn mag(x: u64, q: u64) -> u64 {
    x.min(q - x)
}
