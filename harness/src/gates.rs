//! Evaluators of toy parameter sets, with the noise margins that follow from their actual keys.
use crate::ring::Fld;
use crate::rngs::DetRng;
use crate::scheme::*;
use crate::*;
use zkfhe::bfhe::Evaluator;

/// A ciphertext as mask, body.
pub type Ct = (Vec<u64>, u64);

pub struct Ev<C: Cw, Q: Fld> {
    pub k: Toy,
    pub pack: SecretKeyPack<C, Q>,
    pub ev: Evaluator<C, Q>,
    /// LWE key modulo q, ring key modulo Q
    pub l: Vec<u64>,
    pub z: Vec<u64>,
    /// largest noise of each input of a gate of two (three) inputs for which the gate is decided
    pub two: u64,
    pub three: u64,
    /// largest noise of the output of a bootstrap
    pub out: u64,
}
/// Largest e with parts * e * 2N/q + r < N/4.
fn margin(parts: u64, q: u64, nn: u64, r: f64) -> u64 {
    (0..q).take_while(|e| parts as f64 * *e as f64 * 2.0 * nn as f64 / (q as f64) + r < nn as f64 / 4.0).last().unwrap_or(0)
}
/// Number of non-zero entries.
fn weight(v: &[u64]) -> u64 {
    v.iter().filter(|x| **x != 0).count() as u64
}
/// Error of switching down to 2N (in units of 2N), 0 when q divides 2N; None when some input is undecided.
pub fn rounding(k: &Toy, l: &[u64]) -> f64 {
    if k.q > 2 * k.nn as u64 {
        (1.0 + weight(l) as f64) / 2.0
    } else {
        0.0
    }
}
/// Largest noise that a bootstrap may leave.
pub fn out_noise(k: &Toy, l: &[u64], z: &[u64], qq: u64) -> u64 {
    let e = |sd: f64| if sd == NO { 0.0 } else { (6.0 * sd).ceil() };
    let width = 64 - (qq - 1).leading_zeros();
    let digits = |w: u32, b: u32| w.div_ceil(b) as f64;
    let rows = if k.lk == Lk::Binary { 1.0 } else { 2.0 };
    let nn = k.nn as f64;
    // the two constants are 2 * floor(Q/8) and 0 where the message has Q/4
    let mut ring = (qq % 8) as f64 / 4.0 + k.n as f64 * 2.0 * digits(width, k.bb) * nn * ((1u64 << k.bb) - 1) as f64 * e(k.sr) * rows;
    let mut end = 0.0;
    let w = match k.steps {
        Steps::BrMsKs => {
            end = nn * digits(k.q.trailing_zeros(), k.kb) * e(k.sk);
            weight(z)
        }
        Steps::BrKsMs => {
            ring += nn * digits(width, k.kb) * ((1u64 << k.kb) - 1) as f64 * e(k.sk);
            weight(l)
        }
        Steps::BrMs => weight(l),
    };
    (ring * k.q as f64 / qq as f64 + (1.0 + w as f64) / 2.0 + end + 1e-6) as u64
}
impl<C: Cw, Q: Fld> Ev<C, Q> {
    pub fn new(k: &Toy, pack: SecretKeyPack<C, Q>, seed: u64) -> Self {
        let (l, z) = (lkey(&pack), rkey(&pack));
        let r = rounding(k, &l);
        Ev { k: *k, ev: Evaluator::new(&pack, &mut DetRng(seed)), two: margin(2, k.q, k.nn as u64, r), three: margin(3, k.q, k.nn as u64, r), out: out_noise(k, &l, &z, fq::<Q>()), pack, l, z }
    }
    /// The noise a gate leaves is within the margin of the next gate.
    pub fn closed(&self) -> bool {
        self.out <= self.three
    }
    pub fn name(&self) -> String {
        let brief = |v: &[u64]| if v.len() <= 32 { format!("{v:?}") } else { format!("({} entries)", v.len()) };
        format!("{} modulo Q={} LWE key {} ring key {}", self.k.name(), fq::<Q>(), brief(&self.l), brief(&self.z))
    }
    /// The ciphertext with this mask, bit and noise (as residue).
    pub fn make(&self, a: &[u64], m: bool, e: i64) -> Ct {
        let q = self.k.q;
        let dot = q - ring::lphase(a, 0, &self.l, q);
        let b = (dot as u128 + (m as u64 * (q / 4)) as u128 + (e + q as i64) as u128) % q as u128;
        (a.to_vec(), b as u64)
    }
    /// The bit and the noise.
    pub fn read(&self, c: &Ct) -> (bool, u64) {
        let q = self.k.q;
        let p = ring::lphase(&c.0, c.1, &self.l, q);
        let (f, t) = (mag(p, q), mag((p + q - q / 4) % q, q));
        (t < f, t.min(f))
    }
    pub fn c(&self, c: &Ct) -> LWECiphertext<C> {
        ct(&c.0, c.1)
    }
    /// Complains unless the ciphertext is a fresh encryption of the bit with noise at most `most`.
    pub fn expect(&self, s: &Sec, out: &LWECiphertext<C>, want: bool, most: u64, what: &dyn Fn() -> String) -> Ct {
        let o = unct(out);
        if o.0.len() != self.k.n || o.0.iter().any(|x| *x >= self.k.q) || o.1 >= self.k.q {
            s.fail(what(), format!("not a ciphertext: {o:?}"));
            return o;
        }
        let (m, e) = self.read(&o);
        if m != want || e > most {
            s.fail(what(), format!("returns an encryption of {m} with noise {e}, want {want} with noise at most {most}"));
        }
        let (dm, de): (bool, C) = self.pack.decrypt_with_noise(out);
        if dm != want || de.to() != e || self.pack.decrypt::<bool>(out) != want {
            s.fail(what(), format!("decrypts to {dm} with noise {}, want {want} with noise {e}", de.to()));
        }
        o
    }
}
pub type Gate2<C, Q> = (&'static str, fn(&Evaluator<C, Q>, &LWECiphertext<C>, &LWECiphertext<C>) -> LWECiphertext<C>, fn(bool, bool) -> bool);
pub fn gates2<C: Cw, Q: Fld>() -> Vec<Gate2<C, Q>> {
    vec![
        ("and", |e, a, b| e.and(a, b), |a, b| a & b),
        ("nand", |e, a, b| e.nand(a, b), |a, b| !(a & b)),
        ("or", |e, a, b| e.or(a, b), |a, b| a | b),
        ("nor", |e, a, b| e.nor(a, b), |a, b| !(a | b)),
        ("xor", |e, a, b| e.xor(a, b), |a, b| a ^ b),
        ("xnor", |e, a, b| e.xnor(a, b), |a, b| a == b),
    ]
}
pub type Gate3<C, Q> = (&'static str, fn(&Evaluator<C, Q>, &LWECiphertext<C>, &LWECiphertext<C>, &LWECiphertext<C>) -> LWECiphertext<C>, fn(bool, bool, bool) -> bool);
pub fn gates3<C: Cw, Q: Fld>() -> Vec<Gate3<C, Q>> {
    vec![
        ("majority", |e, a, b, c| e.majority(a, b, c), |a, b, c| (a & b) | (b & c) | (a & c)),
        ("mux", |e, a, b, c| e.mux(a, b, c), |a, b, c| if a { b } else { c }),
    ]
}
