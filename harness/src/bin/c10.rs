//! C10: the number-theoretic transform is an exact ring isomorphism.
#![allow(dead_code)]
use algebra::transformation::AbstractNTT;
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::oracle::*;
use harness::*;

macro_rules! w {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            pub trait Fld: NTTField<Value = $T, Table: Sync + Send> {}
            impl<F: NTTField<Value = $T, Table: Sync + Send>> Fld for F {}
            pub struct Tb<F: NTTField> {
                tab: F::Table,
                w: u128,
                p: u128,
                n: usize,
                /// the evaluation point of each output slot
                points: Vec<u128>,
            }
            fn lz<F: Fld>(v: &[u64]) -> Vec<F> {
                v.iter().map(|x| F::lazy_new(*x as $T)).collect()
            }
            fn un<F: Fld>(v: &[F]) -> Vec<u64> {
                v.iter().map(|x| x.value() as u64).collect()
            }
            pub fn table<F: Fld>(s: &Sec, log_n: u32) -> Tb<F> {
                let p = F::MODULUS_VALUE as u128;
                let tab = F::generate_ntt_table(log_n).expect("a supported length was refused");
                let n = 1usize << log_n;
                let w = AbstractNTT::root(&tab).value() as u128;
                ck!(s, "root is a primitive 2N-th root of unity", [p, log_n], (w < p, pw(w, n as u128, p)), (true, p - 1));
                let points = (0..n).map(|i| pw(w, 2 * rev(i, log_n) as u128 + 1, p)).collect();
                Tb { tab, w, p, n, points }
            }
            impl<F: Fld> Tb<F> {
                fn fwd(&self, v: &[u64]) -> Vec<u64> {
                    let mut x = lz::<F>(v);
                    self.tab.transform_slice(&mut x);
                    un(&x)
                }
                fn inv(&self, v: &[u64]) -> Vec<u64> {
                    let mut x = lz::<F>(v);
                    self.tab.inverse_transform_slice(&mut x);
                    un(&x)
                }
                fn want(&self, v: &[u64]) -> Vec<u64> {
                    self.points.iter().map(|x| eval(v, *x, self.p) as u64).collect()
                }
                /// input in [0,4q): forward; then inverse of the canonical and of a lazily reduced image
                pub fn one(&self, s: &Sec, v: &[u64], t: &mut Tally) {
                    let p = self.p;
                    let canon: Vec<u64> = v.iter().map(|x| x % p as u64).collect();
                    let want = self.want(&canon);
                    let got = self.fwd(v);
                    if got != want {
                        ck!(s, "forward", [p, v], got, want);
                    }
                    let back = self.inv(&want);
                    if back != canon {
                        ck!(s, "inverse", [p, want], back, canon);
                    }
                    let lazy: Vec<u64> = want.iter().enumerate().map(|(i, x)| if (i as u64 + v[0]) % 2 == 0 { x + p as u64 } else { *x }).collect();
                    let back = self.inv(&lazy);
                    if back != canon {
                        ck!(s, "inverse of a lazily reduced image", [p, lazy], back, canon);
                    }
                    t.evals += 3;
                    t.distinct += 1;
                }
                /// the allocating, consuming and converting forms
                pub fn forms(&self, s: &Sec, v: &[u64], t: &mut Tally) {
                    let p = self.p;
                    let canon: Vec<u64> = v.iter().map(|x| x % p as u64).collect();
                    let want = self.want(&canon);
                    let poly = Polynomial::<F>::new(lz(&canon));
                    let a = un(self.tab.transform(&poly).as_slice());
                    let b = un(self.tab.transform_inplace(poly.clone()).as_slice());
                    let c = un(poly.clone().into_ntt_polynomial().as_slice());
                    let d = un(NTTPolynomial::from(poly.clone()).as_slice());
                    ck!(s, "forward forms", [p, canon], (a, b, c, d), (want.clone(), want.clone(), want.clone(), want.clone()));
                    let np = NTTPolynomial::<F>::new(lz(&want));
                    let a = un(self.tab.inverse_transform(&np).as_slice());
                    let b = un(self.tab.inverse_transform_inplace(np.clone()).as_slice());
                    let c = un(np.clone().into_native_polynomial().as_slice());
                    let d = un(Polynomial::from(np).as_slice());
                    ck!(s, "inverse forms", [p, want], (a, b, c, d), (canon.clone(), canon.clone(), canon.clone(), canon.clone()));
                    t.evals += 8;
                    t.distinct += 1;
                }
                /// inverse applied to arbitrary inputs in [0,2q)
                pub fn inv_any(&self, s: &Sec, v: &[u64], t: &mut Tally) {
                    let p = self.p;
                    let got = self.inv(v);
                    let canon: Vec<u64> = v.iter().map(|x| x % p as u64).collect();
                    // the unique polynomial with these evaluations
                    if got.iter().any(|x| *x as u128 >= p) || self.want(&got) != canon {
                        ck!(s, "inverse", [p, v], (got.clone(), self.want(&got)), (got.clone(), canon));
                    }
                    t.evals += 1;
                    t.distinct += 1;
                }
                pub fn product(&self, s: &Sec, a: &[u64], b: &[u64], t: &mut Tally) {
                    let p = self.p;
                    let pa = NTTPolynomial::<F>::new(lz(&self.fwd(a)));
                    let pb = NTTPolynomial::<F>::new(lz(&self.fwd(b)));
                    let prod = self.tab.inverse_transform_inplace(pa * &pb);
                    let want = negacyclic(a, b, p as u64);
                    if un(prod.as_slice()) != want {
                        ck!(s, "product", [p, a, b], un(prod.as_slice()), want);
                    }
                    t.evals += 1;
                    t.distinct += 1;
                }
            }
            /// every input vector in [0,4q)^N and every image in [0,2q)^N
            pub fn all<F: Fld>(ctx: &Ctx, name: &str, log_n: u32, lazy: u64) {
                ctx.section(&format!("{name} N={} every vector below {lazy}q", 1 << log_n), "q,N,block", |s| {
                    let tb = table::<F>(s, log_n);
                    let base = lazy * tb.p as u64;
                    let total = base.pow(tb.n as u32);
                    let block = (total / 512).max(1);
                    s.par(total.div_ceil(block) as usize, |i, t| {
                        cur(&[tb.p as u64, tb.n as u64, i as u64]);
                        for k in i as u64 * block..((i as u64 + 1) * block).min(total) {
                            let v = vector(k, base, tb.n);
                            tb.one(s, &v, t);
                            if lazy >= 2 && v.iter().all(|x| (*x as u128) < 2 * tb.p) {
                                tb.inv_any(s, &v, t);
                            }
                            if k % 7 == 0 {
                                tb.forms(s, &v, t);
                            }
                            if i % 16 == 0 {
                                tick();
                            }
                        }
                    });
                });
            }
            pub fn products<F: Fld>(ctx: &Ctx, name: &str, log_n: u32) {
                ctx.section(&format!("{name} N={} every product", 1 << log_n), "q,N,a", |s| {
                    let tb = table::<F>(s, log_n);
                    let total = (tb.p as u64).pow(tb.n as u32);
                    s.par(total as usize, |i, t| {
                        cur(&[tb.p as u64, tb.n as u64, i as u64]);
                        let a = vector(i as u64, tb.p as u64, tb.n);
                        for k in 0..total {
                            tb.product(s, &a, &vector(k, tb.p as u64, tb.n), t);
                        }
                    });
                });
            }
            /// structured vectors at every supported length up to max_log
            pub fn lengths<F: Fld>(ctx: &Ctx, name: &str, max_log: u32, dense_log: u32) {
                ctx.section(&format!("{name} all lengths to {max_log}"), "q,logN,index", |s| {
                    let q = F::MODULUS_VALUE as u64;
                    let supported = (F::MODULUS_VALUE as u64 - 1).trailing_zeros() - 1;
                    for log_n in (0..=supported.min(max_log)).filter(|l| max_log < 17 || *l > 12) {
                        let tb = table::<F>(s, log_n);
                        let n = tb.n;
                        let vals: Vec<u64> = vec![1, 2, q - 1, q / 2, q, q + 1, 2 * q - 1, 2 * q, 3 * q + 1, 4 * q - 1];
                        if log_n <= dense_log {
                            // two nonzero coefficients at every pair of a set of positions, with boundary values
                            let pos: Vec<usize> = if n <= 16 { (0..n).collect() } else { (0..n).filter(|i| i.count_ones() <= 1 || (i + 1).count_ones() <= 1 || *i > n - 4).collect() };
                            s.par(pos.len(), |i, t| {
                                cur(&[q, log_n as u64, i as u64]);
                                for &j in &pos {
                                    for (k, &a) in vals.iter().enumerate() {
                                        let bs: &[u64] = if n <= 16 { &vals } else { &vals[k..k + 1] };
                                        for &b in bs {
                                            let mut v = vec![0; n];
                                            v[pos[i]] = a;
                                            v[j] = b;
                                            tb.one(s, &v, t);
                                        }
                                    }
                                }
                                tick();
                            });
                        }
                        // dense vectors
                        let mut m = Mix(ctx.seed ^ n as u64);
                        let mut dense: Vec<Vec<u64>> = vals.iter().map(|a| vec![*a; n]).collect();
                        dense.push((0..n).map(|i| if i % 2 == 0 { 4 * q - 1 } else { 0 }).collect());
                        dense.push((0..n).map(|i| if i % 2 == 1 { 4 * q - 1 } else { 0 }).collect());
                        dense.push((0..n).map(|i| if i < n / 2 { 4 * q - 1 } else { 0 }).collect());
                        dense.push((0..n).map(|i| if i < n / 2 { 0 } else { 4 * q - 1 }).collect());
                        dense.push((0..n).map(|i| if i.count_ones() % 2 == 0 { 4 * q - 1 } else { 2 * q - 1 }).collect());
                        for _ in 0..if log_n > 12 { 2 } else { ctx.tier(12, 100) } {
                            dense.push((0..n).map(|_| m.next() % (4 * q)).collect());
                        }
                        s.par(dense.len(), |i, t| {
                            cur(&[q, log_n as u64, i as u64]);
                            let v = &dense[i];
                            if log_n <= 9 {
                                tb.one(s, v, t);
                                tb.forms(s, v, t);
                                tb.inv_any(s, &v.iter().map(|x| x % (2 * q)).collect::<Vec<_>>(), t);
                                let a: Vec<u64> = v.iter().map(|x| x % q).collect();
                                let b: Vec<u64> = dense[(i * 5 + 1) % dense.len()].iter().map(|x| x % q).collect();
                                tb.product(s, &a, &b, t);
                            } else {
                                // long vectors: 64 output slots, and the whole round trip
                                let canon: Vec<u64> = v.iter().map(|x| x % q).collect();
                                let got = tb.fwd(v);
                                for k in 0..64 {
                                    let slot = (k * (n / 64) + i + k) % n;
                                    let want = eval(&canon, tb.points[slot], tb.p) as u64;
                                    ck!(s, "forward slot", [q, log_n, slot], got[slot], want);
                                }
                                if got.iter().any(|x| *x >= q) {
                                    ck!(s, "canonical", [q, log_n, i], true, false);
                                }
                                let lazy: Vec<u64> = got.iter().enumerate().map(|(k, x)| if (k + i) % 3 == 0 { x + q } else { *x }).collect();
                                if tb.inv(&lazy) != canon {
                                    ck!(s, "long round trip", [q, log_n, i], false, true);
                                }
                                t.evals += 66;
                                t.distinct += 1;
                            }
                            tick();
                        });
                        if log_n <= 9 {
                            s.sample(|| J::obj([("q", J::n(q)), ("N", J::n(n as u64)), ("vector", J::s(&format!("{:?}", &dense[9][..n.min(8)])))]));
                        }
                    }
                });
            }
        }
    };
}
w!(w8, u8);
w!(w16, u16);
w!(w32, u32);
w!(w64, u64);
macro_rules! ln { ($c:expr, $md:ident, $m:expr, $d:expr; $($F:ident)*) => { $( $md::lengths::<$F>($c, stringify!($F), $m, $d); )* } }
macro_rules! al { ($c:expr, $md:ident, $l:expr, $z:expr; $($F:ident)*) => { $( $md::all::<$F>($c, stringify!($F), $l, $z); )* } }

fn main() {
    let ctx = Ctx::new("C10", "exploration");
    let c = &ctx;
    c.rule("every input vector of the enumerated domain goes through the real forward transform, and its image (canonical and lazily reduced) through the real inverse; the oracle evaluates the polynomial at the odd powers of the table's root by Horner's rule and multiplies by schoolbook; each vector or pair of vectors counts once as distinct");
    c.assume("lengths 1, 2 and 4 over small fields: every vector in the lazy input range; longer lengths: every pair of boundary positions and values, and dense boundary vectors; lengths above 512: 64 output slots per vector");
    c.assume("tables are those of the default build (the concrete-ntt feature needs a dependency that is not available offline)");
    al!(c, w8, 0, 4; F5b F13b F17b F61b);
    al!(c, w8, 1, 4; F5b F13b F17b F29b F37b F41b F53b F61b);
    al!(c, w16, 1, 4; F97h F257h);
    al!(c, w32, 1, 4; F17 F97 F193 F257);
    al!(c, w64, 1, 4; F17q F257q);
    al!(c, w8, 2, 1; F17b F41b);
    if c.thorough {
        al!(c, w8, 2, 4; F17b);
        al!(c, w32, 2, 4; F17);
        al!(c, w16, 1, 2; F7681h);
    } else {
        al!(c, w8, 2, 2; F17b);
    }
    w8::products::<F5b>(c, "F5b", 1);
    w8::products::<F13b>(c, "F13b", 1);
    w32::products::<F17>(c, "F17", 1);
    w64::products::<F17q>(c, "F17q", 1);
    let (m, d) = c.tier((12, 7), (16, 9));
    ln!(c, w8, m, d; F5b F13b F17b F29b F37b F41b F53b F61b);
    ln!(c, w16, m, d; F97h F257h F7681h F16193h);
    ln!(c, w32, m, d; F17 F97 F193 F257 F12289 F15361 F65537 F132M F998 FTop32 DefaultFieldU32 DefaultQks);
    ln!(c, w64, m, d; F17q F257q F6T F60 FBig64 FTop64);
    // the longest tables: indices beyond 2^15 and 2^16
    if !c.thorough {
        ln!(c, w32, 17, 0; DefaultFieldU32);
        ln!(c, w64, 17, 0; FTop64);
    }
    ctx.finish()
}
