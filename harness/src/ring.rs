//! Ring ciphertexts as plain coefficient vectors, and their phases.
use crate::*;
use algebra::{NTTField, NTTPolynomial, Polynomial};
use lattice::{NTTRLWE, RLWE};

pub trait Fld: NTTField<Value: V> {}
impl<F: NTTField<Value: V>> Fld for F {}

/// mask and body
pub type Rc = (Vec<u64>, Vec<u64>);

/// a*s modulo X^N+1, fast for sparse s
pub fn mulp(a: &[u64], s: &[u64], q: u64) -> Vec<u64> {
    let n = a.len();
    let p = q as u128;
    let mut r = vec![0u128; n];
    for (j, &c) in s.iter().enumerate() {
        if c == 0 {
            continue;
        }
        let c = c as u128;
        for i in 0..n - j {
            r[i + j] = (r[i + j] + a[i] as u128 * c) % p;
        }
        for i in n - j..n {
            r[i + j - n] = (r[i + j - n] + (p - a[i] as u128) * c) % p;
        }
    }
    r.into_iter().map(|x| x as u64).collect()
}
/// b - a*s
pub fn rphase(c: &Rc, s: &[u64], q: u64) -> Vec<u64> {
    vsub(&c.1, &mulp(&c.0, s, q), q)
}
/// The constant coefficient of b - a*s modulo X^n + 1.
pub fn rphase0(a: &[u64], b0: u64, s: &[u64], q: u64) -> u64 {
    let n = a.len();
    // the constant coefficient of a*s is a0 s0 - sum a_i s_(n-i)
    let t: Vec<u64> = (0..n).map(|i| if i == 0 { s[0] } else { (q - s[n - i]) % q }).collect();
    lphase(a, b0, &t, q)
}
pub fn mono(n: usize, d: usize, c: u64) -> Vec<u64> {
    let mut v = vec![0; n];
    v[d] = c;
    v
}
/// b - <a, s>
pub fn lphase(a: &[u64], b: u64, s: &[u64], q: u64) -> u64 {
    // below 2^15 products of 56 bits each fit without reduction
    let d = if q < 1 << 56 && a.len() < 1 << 15 && a.iter().chain(s).all(|x| *x < q) {
        a.iter().zip(s).map(|(x, y)| *x as u128 * *y as u128).sum::<u128>() % q as u128
    } else {
        a.iter().zip(s).fold(0u128, |t, (x, y)| (t + *x as u128 * *y as u128) % q as u128)
    };
    let q = q as u128;
    ((b as u128 + q - d) % q) as u64
}
pub fn rl<F: Fld>(c: &Rc) -> RLWE<F> {
    RLWE::new(poly(&c.0), poly(&c.1))
}
pub fn unrl<F: Fld>(c: &RLWE<F>) -> Rc {
    (pvals(c.a()), pvals(c.b()))
}
/// transformed (through the forward transform, checked by C10)
pub fn nrl<F: Fld>(c: &Rc) -> NTTRLWE<F> {
    NTTRLWE::new(tr(&c.0), tr(&c.1))
}
pub fn unnrl<F: Fld>(c: &NTTRLWE<F>) -> Rc {
    (untr(c.a()), untr(c.b()))
}
pub fn tr<F: Fld>(c: &[u64]) -> NTTPolynomial<F> {
    NTTPolynomial::from(poly::<F>(c))
}
pub fn untr<F: Fld>(c: &NTTPolynomial<F>) -> Vec<u64> {
    pvals(&Polynomial::from(c.clone()))
}
/// Keys that decide the equality of two masks: every key while there are at most `cap`, else 0, 1,
/// some monomials, the all-ones and a dense key.
pub fn rkeys(q: u64, n: usize, cap: f64) -> Vec<Vec<u64>> {
    if (q as f64).powi(n as i32) <= cap {
        return oracle::all_vectors(q, n);
    }
    let mut k = vec![vec![0; n], mono(n, 0, 1), mono(n, n - 1, 1), mono(n, n / 2, q - 1)];
    if n <= 64 {
        k.push(vec![1; n]);
        k.push((0..n as u64).map(|i| (i * i * 31 + 17 * i + q / 2) % q).collect());
    }
    k.dedup();
    k
}
/// Ciphertexts that stress large rings: distinct entries everywhere, extremes, sparse ones.
pub fn rcts(q: u64, n: usize) -> Vec<Rc> {
    let f = |m: u64, c: u64| -> Vec<u64> { (0..n as u64).map(|i| (((i + 1) as u128 * m as u128 + c as u128) % q as u128) as u64).collect() };
    vec![
        (f(1, 0), f(q / 2 + 3, 1)),
        (vec![q - 1; n], vec![q - 1; n]),
        (f(q - 2, 5 % q), vec![0; n]),
        (mono(n, n - 1, 1), f(7, 2)),
        (vec![0; n], mono(n, 0, q - 1)),
        ((0..n as u64).map(|i| if i % 2 == 0 { 0 } else { q - 1 }).collect(), (0..n as u64).map(|i| if i % 3 == 0 { q / 2 } else { 1 % q }).collect()),
    ]
}
