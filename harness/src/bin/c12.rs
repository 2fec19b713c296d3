//! C12: roots of unity and transform tables are primitive, minimal and deterministic.
#![allow(dead_code)]
use algebra::transformation::{AbstractNTT, MonomialNTT, NTTTable};
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::oracle::*;
use harness::*;

/// A generator word that makes a uniform draw over `range` values (starting at 2) yield 2 + k.
fn word(k: u64, range: u64, bits: u32) -> u64 {
    let span = 1u128 << bits;
    ((k as u128 * span).div_ceil(range as u128)) as u64
}
/// The root search will be offered the candidates 2+k, 2+k+step, 2+k+2*step, ... (mod range).
fn offer(k: u64, step: u64, q: u64) {
    let range = q - 2;
    let mut i = 0u64;
    rand::verif_hook::set(Some(Box::new(move |width| {
        let c = ((k as u128 + i as u128 * step as u128) % range as u128) as u64;
        i += 1;
        word(c, range, width * 8)
    })));
}
fn offer_nothing() {
    rand::verif_hook::set(None);
}

macro_rules! w {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            pub trait Fld: NTTField<Value = $T, Degree = $T, Table = NTTTable<Self>, Root = algebra::modulus::ShoupFactor<$T>> {}
            impl<F: NTTField<Value = $T, Degree = $T, Table = NTTTable<F>, Root = algebra::modulus::ShoupFactor<$T>>> Fld for F {}
            pub fn run<F: Fld>(ctx: &Ctx, name: &str) {
                let q = F::MODULUS_VALUE as u64;
                let p = q as u128;
                ctx.section(&format!("{name} primitivity test"), "q,degree,root", |s| {
                    let roots: Vec<u64> = if q < 20000 { (0..q).collect() } else {
                        let mut v: Vec<u64> = edge_operands(p, 64).into_iter().map(|x| (x % p) as u64).collect();
                        // every root of unity of small orders
                        let g = (2..).find(|g| pw(*g, (p - 1) / 2, p) == p - 1).unwrap();
                        let k = (q - 1).trailing_zeros().min(10);
                        let w = pw(g, (p - 1) >> k, p);
                        v.extend((0..1u128 << k).map(|e| pw(w, e, p) as u64));
                        v.sort();
                        v.dedup();
                        v
                    };
                    s.par(roots.len(), |i, t| {
                        for k in 1..<$T>::BITS {
                            let d = (1 as $T) << k;
                            cur(&[q, d as u64, roots[i]]);
                            let r = roots[i];
                            // order exactly 2^k
                            let want = r != 0 && pw(r as u128, d as u128, p) == 1 && pw(r as u128, d as u128 / 2, p) != 1;
                            ck!(s, "is_primitive_root", [q, d, r], F::is_primitive_root(F::new(r as $T), d), want);
                            t.evals += 1;
                            t.distinct += 1;
                        }
                    });
                });
                ctx.section(&format!("{name} root search"), "q,degree,offered", |s| {
                    let max_k = (q - 1).trailing_zeros();
                    for k in 1..<$T>::BITS {
                        let d = (1 as $T) << k;
                        // the smallest element of order 2^k, by listing all of them
                        let best = if k <= max_k && k <= 16 {
                            let g = (2..).find(|g| pw(*g, (p - 1) / 2, p) == p - 1).unwrap();
                            let w = pw(g, (p - 1) >> k, p);
                            let w2 = w * w % p;
                            let (mut b, mut x) = (w, w);
                            for _ in 0..1u64 << (k - 1) {
                                b = b.min(x);
                                x = x * w2 % p;
                            }
                            Some(b as u64)
                        } else { None };
                        let mut offers: Vec<u64> = if q < ctx.tier(800, 20000) { (0..q - 2).collect() } else {
                            let n = ctx.tier(48, 400);
                            let mut v: Vec<u64> = (0..n).chain((1..n).map(|i| ((q - 3) as u128 * i as u128 / n as u128) as u64)).collect();
                            v.push(q - 3);
                            v
                        };
                        // long searches
                        if k > 8 && k <= max_k {
                            let cap = ((1usize << 22) >> k).max(6);
                            let st = offers.len().div_ceil(cap);
                            offers = offers.into_iter().step_by(st).collect();
                        }
                        s.par(offers.len(), |i, t| {
                            for step in [1, (q - 2) / 2 | 1] {
                                let o = offers[i];
                                cur(&[q, d as u64, o]);
                                offer(o, step, q);
                                let r = catch(|| F::try_primitive_root(d));
                                offer(o, step, q);
                                let m = if k <= 16 || k > max_k { Some(catch(|| F::try_minimal_primitive_root(d))) } else { None };
                                offer_nothing();
                                let r = match r {
                                    Ok(r) => r.ok().map(|x| x.value() as u64),
                                    Err(e) => {
                                        s.fail(format!("try_primitive_root q={q} degree={d} offered={o} panicked"), e);
                                        continue;
                                    }
                                };
                                ck!(s, "root exists iff the order divides q-1", [q, d, o, step], r.is_some(), k <= max_k);
                                if let Some(r) = r {
                                    let ok = pw(r as u128, d as u128 / 2, p) == p - 1 && r < q;
                                    ck!(s, "found root is primitive", [q, d, o, step, r], ok, true);
                                }
                                match m {
                                    None => {}
                                    Some(Err(e)) => s.fail(format!("try_minimal_primitive_root q={q} degree={d} offered={o} panicked"), e),
                                    Some(Ok(m)) => {
                                        let m = m.ok().map(|x| x.value() as u64);
                                        ck!(s, "minimal root", [q, d, o, step], m, best);
                                    }
                                }
                                t.evals += 2;
                                t.distinct += 1;
                            }
                        });
                    }
                    s.sample(|| J::obj([("q", J::n(q)), ("orders", J::s(&format!("2^1..2^{}", <$T>::BITS - 1)))]));
                });
                ctx.section(&format!("{name} table contents"), "q,logN", |s| {
                    let max_log = (q - 1).trailing_zeros() - 1;
                    let logs = max_log.min(if q > 1 << 26 { 14 } else { 12 });
                    s.par(logs as usize + 1, |log_n, t| {
                        cur(&[q, log_n as u64]);
                        let n = 1usize << log_n;
                        let tb = match F::get_ntt_table(log_n as u32) {
                            Ok(t) => t,
                            Err(e) => return s.fail(format!("q={q} N={n}"), format!("no table: {e}")),
                        };
                        let of = |x: &F::Root| F::from_root(*x).value() as u128;
                        let r = tb.root().value() as u128;
                        let mut powers = vec![1u128];
                        for _ in 1..2 * n {
                            powers.push(powers.last().unwrap() * r % p);
                        }
                        ck!(s, "order of the root", [q, log_n], powers[n], p - 1);
                        ck!(s, "length", [q, log_n], (tb.coeff_count(), tb.coeff_count_power()), (n, log_n as u32));
                        ck!(s, "inverse root", [q, log_n], tb.inv_root().value() as u128 * r % p, 1);
                        ck!(s, "inverse length", [q, log_n], of(&tb.inv_degree()) * (n as u128 % p) % p, 1);
                        let list = |v: &[F::Root]| v.iter().map(of).collect::<Vec<u128>>();
                        let sorted = |mut v: Vec<u128>| {
                            v.sort();
                            v
                        };
                        ck!(s, "powers of the root in order", [q, log_n], list(tb.ordinal_root_powers()) == powers, true);
                        ck!(s, "powers of the root", [q, log_n], sorted(list(tb.root_powers())) == sorted(powers[..n].to_vec()), true);
                        let inverses = powers.iter().rev().take(n - 1).copied().chain([1]).collect();
                        ck!(s, "inverse powers of the root", [q, log_n], sorted(list(tb.inv_root_powers())) == sorted(inverses), true);
                        t.evals += 7;
                        t.distinct += 1;
                    });
                });
                ctx.section(&format!("{name} tables are interchangeable"), "q,logN,offered", |s| {
                    let max_log = (q - 1).trailing_zeros() - 1;
                    for log_n in 0..=max_log.min(if q > 1 << 26 { 17 } else { ctx.tier(11, 14) }) {
                        let n = 1usize << log_n;
                        let mk = |o: u64, step: u64| {
                            offer(o, step, q);
                            let t = F::generate_ntt_table(log_n);
                            offer_nothing();
                            t.expect("a supported length was refused")
                        };
                        let base = mk(0, 1);
                        let x: Vec<F> = (0..n).map(|i| F::new((i as u64 * 3 + 1) as $T % F::MODULUS_VALUE)).collect();
                        let image = |t: &F::Table| {
                            let mut v = x.clone();
                            t.transform_slice(&mut v);
                            let mut m = vec![F::zero(); n];
                            t.transform_monomial(F::one(), 1 % (2 * n), &mut m);
                            (t.root(), v, m)
                        };
                        let want = image(&base);
                        let offers: Vec<u64> = if n <= 16 && q < 20000 { (0..q - 2).collect() } else { (0..if log_n > 14 { 3 } else { ctx.tier(24, 200) }).map(|i| ((q - 3) as u128 * i as u128 / 200) as u64).collect() };
                        s.par(offers.len(), |i, t| {
                            cur(&[q, log_n as u64, offers[i]]);
                            let tb = mk(offers[i], 1);
                            let o = offers[i];
                            ck!(s, "same table", [q, log_n, o], image(&tb) == want, true);
                            // and each undoes the other's transform
                            let mut v = want.1.clone();
                            tb.inverse_transform_slice(&mut v);
                            ck!(s, "inverse by the other table", [q, log_n, o], v == x, true);
                            t.evals += 2;
                            t.distinct += 1;
                        });
                    }
                });
            }
        }
    };
}
w!(w8, u8);
w!(w16, u16);
w!(w32, u32);
w!(w64, u64);
macro_rules! go { ($c:expr, $md:ident; $($F:ident)*) => { $( $md::run::<$F>($c, stringify!($F)); )* } }

fn main() {
    let ctx = Ctx::new("C12", "exploration");
    let c = &ctx;
    c.rule("the random choices of the root search are scripted: for every order 2^k of the degree type the search is offered every sequence of candidates that starts at some element and walks through the field with step 1 or about half its size; the oracle lists all elements of that order; each (modulus, order, sequence) and each (modulus, order, element) for the primitivity test counts once as distinct; the lists a table shows are compared with the powers of its root");
    c.assume("the search draws its candidates from rand::thread_rng (a patched copy of rand lets the check choose its outputs)");
    c.assume("orders are powers of two and at least 2; a search that is offered 100 useless candidates in a row (probability 2^-100) is outside the property");
    c.assume("fields above 800 elements: a grid of starting candidates; minimality is checked for orders up to 2^16");
    go!(c, w8; F5b F13b F17b F29b F37b F41b F53b F61b);
    go!(c, w16; F97h F257h F7681h F16193h);
    go!(c, w32; F17 F97 F193 F257 F12289 F15361 F65537 F132M F998 FTop32 DefaultFieldU32 DefaultQks);
    go!(c, w64; F17q F257q F6T F60 FBig64 FTop64);
    ctx.finish()
}
