//! Requests for transform tables and what they must return whatever happened before or meanwhile.
use crate::ring::Fld;
use crate::*;
use algebra::transformation::AbstractNTT;
use algebra::{NTTPolynomial, Polynomial};
use std::sync::Arc;

/// One request for transform tables.
#[derive(Clone, Debug)]
pub enum Op {
    Get(u32),
    /// the generator yields only values without primitive power
    GetUnlucky(u32),
    Init(Vec<u32>),
    /// multiplication of polynomials of 2^k coefficients
    Mul(u32),
    /// conversion of a polynomial of 2^k coefficients
    Convert(u32),
}
/// The table, checked against the definition.
pub fn right<F: Fld>(log_n: u32, t: &F::Table) -> Result<(), String> {
    let q = fq::<F>();
    let n = 1usize << log_n;
    let w = val(t.root()) as u128;
    if oracle::pw(w, n as u128, q as u128) != q as u128 - 1 {
        return Err(format!("a table for length 2^{log_n} with root {w}"));
    }
    let a: Vec<u64> = (0..n as u64).map(|i| (i * i * 3 + 2 * i + 1) % q).collect();
    let mut x = fes::<F>(&a);
    t.transform_slice(&mut x);
    let x = vals(&x);
    let ok = if n <= 64 { x == oracle::ntt(&a, w, q as u128) } else { [0, 1, n / 2, n - 1].iter().all(|i| x[*i] as u128 == oracle::eval(&a, oracle::pw(w, 2 * oracle::rev(*i, log_n) as u128 + 1, q as u128), q as u128)) };
    if !ok {
        return Err(format!("the table for length 2^{log_n} transforms {a:?} to {x:?}"));
    }
    let mut y = fes::<F>(&x);
    t.inverse_transform_slice(&mut y);
    if vals(&y) != a {
        return Err(format!("the table for length 2^{log_n} transforms {a:?} back to {:?}", vals(&y)));
    }
    Ok(())
}
/// Runs a request in the current process and compares it with the model: a length is supported when
/// 2 * length divides q - 1, whatever happened before.
pub fn step<F: Fld>(op: &Op) -> Result<Vec<(u32, Arc<F::Table>)>, String> {
    let q = fq::<F>();
    let supported = |k: u32| k < 63 && (q - 1) % (2u64 << k) == 0;
    let none = Vec::new();
    match op {
        Op::Get(k) => match (F::get_ntt_table(*k), supported(*k)) {
            (Ok(t), true) => right::<F>(*k, &t).map(|_| vec![(*k, t)]),
            (Ok(_), false) => Err("the unsupported length is accepted".into()),
            (Err(e), true) => Err(format!("the supported length is refused: {e}")),
            (Err(_), false) => Ok(none),
        },
        Op::GetUnlucky(k) => {
            // every draw is 1 or a square: no primitive root is found unless the table is there
            rand::verif_hook::set(Some(Box::new(|_| 0)));
            let r = catch(|| F::get_ntt_table(*k));
            rand::verif_hook::set(None);
            match r {
                Ok(Ok(t)) if supported(*k) => right::<F>(*k, &t).map(|_| vec![(*k, t)]),
                Ok(Ok(_)) => Err("the unsupported length is accepted".into()),
                Ok(Err(_)) => Ok(none),
                Err(p) => Err(format!("panics: {p}")),
            }
        }
        Op::Init(v) => match (F::init_ntt_table(v), v.iter().all(|k| supported(*k))) {
            (Ok(()), true) | (Err(_), false) => Ok(none),
            (Ok(()), false) => Err("accepts an unsupported length".into()),
            (Err(e), true) => Err(format!("refuses supported lengths: {e}")),
        },
        Op::Mul(k) => {
            let a: Vec<u64> = (0..1u64 << k).map(|i| (3 * i + 1) % q).collect();
            let b: Vec<u64> = (0..1u64 << k).map(|i| (i * i + 2) % q).collect();
            let r = catch(|| pvals(&(poly::<F>(&a) * poly::<F>(&b))));
            match (r, supported(*k)) {
                (Ok(r), true) if r == oracle::negacyclic(&a, &b, q) => Ok(none),
                (Ok(r), true) => Err(format!("gives {r:?}")),
                (Err(p), true) => Err(format!("panics: {p}")),
                (Ok(_), false) => Err("an unsupported length is multiplied".into()),
                (Err(_), false) => Ok(none),
            }
        }
        Op::Convert(k) => {
            let a: Vec<u64> = (0..1u64 << k).map(|i| (5 * i + 3) % q).collect();
            let r = catch(|| pvals(&Polynomial::<F>::from(NTTPolynomial::from(poly::<F>(&a)))));
            match (r, supported(*k)) {
                (Ok(r), true) if r == a => Ok(none),
                (Ok(r), true) => Err(format!("there and back gives {r:?}")),
                (Err(p), true) => Err(format!("panics: {p}")),
                (Ok(_), false) => Err("an unsupported length is converted".into()),
                (Err(_), false) => Ok(none),
            }
        }
    }
}
