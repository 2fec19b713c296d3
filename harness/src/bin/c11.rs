//! C11: the monomial transforms equal the general transform.
#![allow(dead_code)]
use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::oracle::*;
use harness::*;

macro_rules! w {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            pub trait Fld: NTTField<Value = $T, Table: Sync + Send> {}
            impl<F: NTTField<Value = $T, Table: Sync + Send>> Fld for F {}
            pub fn run<F: Fld>(ctx: &Ctx, name: &str, max_log: u32) {
                ctx.section(&format!("{name} all lengths to {max_log}"), "q,N,degree,coefficient", |s| {
                    let q = F::MODULUS_VALUE as u64;
                    let p = q as u128;
                    let supported = (q - 1).trailing_zeros() - 1;
                    for log_n in (0..=supported.min(max_log)).filter(|l| max_log < 17 || *l > 13) {
                        let n = 1usize << log_n;
                        let tab = F::generate_ntt_table(log_n).expect("a supported length was refused");
                        let w = AbstractNTT::root(&tab).value() as u128;
                        // w^k for k in 0..2N
                        let pows: Vec<u64> = (0..2 * n).scan(1u128, |a, _| { let r = *a; *a = *a * w % p; Some(r as u64) }).collect();
                        let revs: Vec<usize> = (0..n).map(|i| rev(i, log_n)).collect();
                        let cs: Vec<u64> = if q < 300 { (0..q).collect() } else {
                            let mut c = vec![0, 1, 2, 3, q - 1, q - 2, q / 2, q / 2 + 1, q / 3, w as u64, (p - w) as u64];
                            c.dedup();
                            if log_n > 14 {
                                c.retain(|x| [1, q - 1, q / 3].contains(x));
                            }
                            c
                        };
                        let degs: Vec<usize> = if log_n <= 10 { (0..2 * n).collect() } else {
                            let mut d: Vec<usize> = edge_values(log_n + 1).into_iter().map(|d| d as usize).collect();
                            d.extend((0..2 * n).step_by(2 * n / 64 + 1));
                            d
                        };
                        s.par(degs.len(), |i, t| {
                            let d = degs[i];
                            let mut buf = vec![F::zero(); n];
                            let mut want = vec![0u64; n];
                            for (k, &c) in cs.iter().enumerate() {
                                cur(&[q, n as u64, d as u64, c]);
                                for (x, r) in want.iter_mut().zip(&revs) {
                                    *x = (c as u128 * pows[(2 * r + 1) * d % (2 * n)] as u128 % p) as u64;
                                }
                                // what the buffer held before
                                for dirt in [0, q - 1, (k as u64 * 7 + 1) % q] {
                                    buf.fill(F::new(dirt as $T));
                                    tab.transform_monomial(F::new(c as $T), d, &mut buf);
                                    if !buf.iter().map(|x| x.value() as u64).eq(want.iter().copied()) {
                                        ck!(s, "transform_monomial", [q, n, d, c, dirt], buf.iter().map(|x| x.value() as u64).collect::<Vec<_>>(), want);
                                    }
                                    t.evals += 1;
                                    if c == 1 {
                                        buf.fill(F::new(dirt as $T));
                                        tab.transform_coeff_one_monomial(d, &mut buf);
                                        ck!(s, "transform_coeff_one_monomial", [q, n, d, dirt], buf.iter().map(|x| x.value() as u64).collect::<Vec<_>>(), want);
                                        t.evals += 1;
                                    }
                                    if c == q - 1 {
                                        buf.fill(F::new(dirt as $T));
                                        tab.transform_coeff_neg_one_monomial(d, &mut buf);
                                        ck!(s, "transform_coeff_neg_one_monomial", [q, n, d, dirt], buf.iter().map(|x| x.value() as u64).collect::<Vec<_>>(), want);
                                        t.evals += 1;
                                    }
                                }
                                // and the general transform of the same monomial
                                let mut g = vec![F::zero(); n];
                                g[d % n] = if d < n { F::new(c as $T) } else { F::new(((q - c) % q) as $T) };
                                tab.transform_slice(&mut g);
                                if !g.iter().map(|x| x.value() as u64).eq(want.iter().copied()) {
                                    ck!(s, "general transform of a monomial", [q, n, d, c], g.iter().map(|x| x.value() as u64).collect::<Vec<_>>(), want);
                                }
                                t.evals += 1;
                                t.distinct += 1;
                            }
                            tick();
                        });
                        s.sample(|| J::obj([("q", J::n(q)), ("N", J::n(n as u64)), ("degrees", J::n(degs.len() as u64)), ("coefficients", J::s(&format!("{:?}", &cs[..cs.len().min(12)])))]));
                    }
                });
            }
        }
    };
}
w!(w8, u8);
w!(w16, u16);
w!(w32, u32);
w!(w64, u64);
macro_rules! go { ($c:expr, $md:ident, $m:expr; $($F:ident)*) => { $( $md::run::<$F>($c, stringify!($F), $m); )* } }

fn main() {
    let ctx = Ctx::new("C11", "exploration");
    let c = &ctx;
    c.rule("every (field, length, degree in 0..2N, coefficient) of the enumerated domain, with three previous buffer contents each; the oracle is the coefficient times the matching power of the table's root, and the general transform of the same monomial; each such tuple counts once as distinct");
    c.assume("fields below 300: every coefficient; others: boundary coefficients including the root and its negation; every degree up to length 1024, boundary degrees beyond");
    let m = c.tier(11, 14);
    go!(c, w8, m; F5b F13b F17b F29b F37b F41b F53b F61b);
    go!(c, w16, m; F97h F257h F7681h F16193h);
    go!(c, w32, m; F17 F97 F193 F257 F12289 F15361 F65537 F132M F998 FTop32 DefaultFieldU32 DefaultQks);
    go!(c, w64, m; F17q F257q F6T F60 FBig64 FTop64);
    if !c.thorough {
        go!(c, w32, 17; DefaultFieldU32);
        go!(c, w64, 17; FTop64);
    }
    ctx.finish()
}
