//! C08: derived fields are prime fields with canonical values.
#![allow(dead_code)]
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::*;

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

macro_rules! field_mod {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            pub trait Tested: FheField<Value = $T, Order = $T> + serde::Serialize + for<'a> serde::Deserialize<'a> {}
            impl<F: FheField<Value = $T, Order = $T> + serde::Serialize + for<'a> serde::Deserialize<'a>> Tested for F {}

            /// constants and trait-level facts
            pub fn consts<F: Tested + PrimeField>(s: &Sec, name: &str, max: F, inh_neg_one: F) {
                let p = F::MODULUS_VALUE;
                ck!(s, "zero", [name], (F::zero().value(), F::ZERO.value(), F::default().value()), (0, 0, 0));
                ck!(s, "one", [name], (F::one().value(), F::ONE.value()), (1, 1));
                let n = p - 1;
                ck!(s, "neg_one", [name], (<F as NegOne>::neg_one().value(), F::NEG_ONE.value(), inh_neg_one.value()), (n, n, n));
                ck!(s, "max", [name], max.value(), n);
                let mut x = F::one();
                x.set_zero();
                ck!(s, "set_zero", [name], x.value(), 0);
                x.set_one();
                ck!(s, "set_one", [name], x.value(), 1);
                x.set_neg_one();
                ck!(s, "set_neg_one", [name], x.value(), n);
                ck!(s, "prime field", [name], F::is_prime_field(), true);
            }
            /// one raw machine integer given to the constructor
            pub fn raw<F: Tested>(s: &Sec, x: $T) {
                let p = F::MODULUS_VALUE;
                let r = x % p;
                let f = F::new(x);
                ck!(s, "new", [p, x], f.value(), r);
                ck!(s, "equal to its residue", [p, x], (f == F::new(r), f.cmp(&F::new(r)), f.partial_cmp(&F::new(r)), h(&f) == h(&F::new(r))),
                    (true, std::cmp::Ordering::Equal, Some(std::cmp::Ordering::Equal), true));
                ck!(s, "printed", [p, x], (format!("{f}"), format!("{:?}", f) == format!("{:?}", F::new(r))), (format!("{r}"), true));
                ck!(s, "predicates", [p, x], (f.is_zero(), f.is_one(), f.is_neg_one()), (r == 0, r == 1, r == p - 1));
                let bytes = bincode::serialize(&x).unwrap();
                match bincode::deserialize::<F>(&bytes) {
                    Ok(g) => ck!(s, "deserialised", [p, x], g.value(), r),
                    Err(_) => ck!(s, "deserialise refused a canonical value", [p, x], x < p, false),
                }
                ck!(s, "serialised", [p, x], bincode::serialize(&f).unwrap(), bincode::serialize(&r).unwrap());
                let n = -f;
                ck!(s, "neg", [p, x], n.value(), (p - r) % p);
                if r != 0 {
                    let i = f.inv().value();
                    ck!(s, "inv", [p, x], (i < p, i as u128 * r as u128 % p as u128), (true, 1));
                }
            }
            pub fn pow<F: Tested>(s: &Sec, a: $T, e: $T) {
                let p = F::MODULUS_VALUE as u128;
                let (mut w, mut b, mut k) = (1 % p, a as u128, e);
                while k > 0 {
                    if k & 1 == 1 {
                        w = w * b % p;
                    }
                    b = b * b % p;
                    k >>= 1;
                }
                ck!(s, "pow", [p, a, e], F::new(a).pow(e).value() as u128, w);
            }
            /// one pair of elements: every operator in every form
            pub fn pair<F: Tested>(s: &Sec, a: $T, b: $T) -> u64 {
                let p = F::MODULUS_VALUE as u128;
                let (x, y) = (F::new(a), F::new(b));
                let (ua, ub) = (a as u128, b as u128);
                macro_rules! op {
                    ($n:expr, $o:tt, $oa:tt, $w:expr) => {{
                        let w = $w as $T;
                        let by_ref = x $o &y;
                        let mut m = x;
                        m $oa y;
                        let mut r = x;
                        r $oa &y;
                        let g = ((x $o y).value(), by_ref.value(), m.value(), r.value());
                        if g != (w, w, w, w) {
                            ck!(s, $n, [p, a, b], g, (w, w, w, w));
                        }
                    }};
                }
                op!("add", +, +=, (ua + ub) % p);
                op!("sub", -, -=, (ua + p - ub) % p);
                op!("mul", *, *=, ua * ub % p);
                let mut n = 12;
                if b != 0 {
                    let q = (x / y).value();
                    ck!(s, "div", [p, a, b], ((q as u128) < p, q as u128 * ub % p), (true, ua));
                    op!("div forms", /, /=, q);
                    n += 5;
                }
                let f = x.mul_fast(y).value();
                ck!(s, "mul_fast", [p, a, b], ((f as u128) < 2 * p, f as u128 % p), (true, ua * ub % p));
                let mut m = x;
                m.mul_assign_fast(y);
                ck!(s, "mul_assign_fast", [p, a, b], ((m.value() as u128) < 2 * p, m.value() as u128 % p), (true, ua * ub % p));
                ck!(s, "order", [p, a, b], (x == y, x.cmp(&y), x.partial_cmp(&y), x < y), (a == b, a.cmp(&b), Some(a.cmp(&b)), a < b));
                n + 3
            }
            /// c + a*b; c may be lazily reduced for the fast forms
            pub fn triple<F: Tested>(s: &Sec, c: $T, a: $T, b: $T) -> u64 {
                let p = F::MODULUS_VALUE as u128;
                let (x, y) = (F::new(a), F::new(b));
                let w = (c as u128 + a as u128 * b as u128) % p;
                let z = F::lazy_new(c);
                let f = z.add_mul_fast(x, y).value() as u128;
                let mut m = z;
                m.add_mul_assign_fast(x, y);
                let m = m.value() as u128;
                if !(f < 2 * p && f % p == w && m < 2 * p && m % p == w) {
                    ck!(s, "add_mul_fast", [p, c, a, b], (f < 2 * p, f % p, m < 2 * p, m % p), (true, w, true, w));
                }
                let e = z.add_mul(x, y).value() as u128;
                let mut m = z;
                m.add_mul_assign(x, y);
                let m = m.value() as u128;
                if (e, m) != (w, w) {
                    ck!(s, "add_mul", [p, c, a, b], (e, m), (w, w));
                }
                4
            }
            pub fn exhaustive<F: Tested + PrimeField>(ctx: &Ctx, name: &str, triples: bool, max: F, neg1: F) {
                ctx.section(name, "modulus,a,b,c", |s| {
                    let p = F::MODULUS_VALUE;
                    consts::<F>(s, name, max, neg1);
                    // raw integers
                    let small = <$T>::BITS <= 16;
                    s.par(256, |i, t| {
                        let vs: Vec<$T> = if small {
                            let per = (<$T>::MAX as u64 / 256) + 1;
                            (0..per).map(|k| (i as u64 * per + k) as $T).collect()
                        } else {
                            // the neighbourhood of every multiple of 1/256 of the word, and low values
                            let base = ((i as u128) << (<$T>::BITS - 8)) as $T;
                            let near = base / p * p;
                            (0..64).flat_map(|k| [base.wrapping_add(k), base.wrapping_sub(k), near.wrapping_add(k), (near.wrapping_sub(k)), i as $T * 64 + k]).collect()
                        };
                        for x in vs {
                            cur(&[p as u64, x as u64]);
                            raw::<F>(s, x);
                            t.evals += 9;
                            t.distinct += 1;
                        }
                    });
                    s.par(p as usize, |i, t| {
                        let a = i as $T;
                        for b in 0..p {
                            cur(&[p as u64, a as u64, b as u64]);
                            t.evals += pair::<F>(s, a, b);
                            t.distinct += 1;
                            if triples {
                                for c in 0..2 * p {
                                    t.evals += triple::<F>(s, c, a, b);
                                    t.distinct += 1;
                                }
                            } else {
                                for c in [0, 1, a, b, p - 1, p, p + a, 2 * p - 1] {
                                    t.evals += triple::<F>(s, c, a, b);
                                    t.distinct += 1;
                                }
                            }
                        }
                        let mut es: Vec<$T> = if small && p < 64 { (0..=<$T>::MAX).take(1 << 16).collect() } else { edge_values(<$T>::BITS).into_iter().map(|e| e as $T).collect() };
                        es.extend([p - 1, p, p - 2, 2 * p, 2 * (p - 1)]);
                        for e in es {
                            pow::<F>(s, a, e);
                            t.evals += 1;
                            t.distinct += 1;
                        }
                    });
                });
            }
            pub fn grid<F: Tested + PrimeField>(ctx: &Ctx, name: &str, max: F, neg1: F, dense: usize) {
                ctx.section(name, "modulus,a,b,c", |s| {
                    let p = F::MODULUS_VALUE;
                    consts::<F>(s, name, max, neg1);
                    let raws = edge_operands(p as u128, <$T>::BITS);
                    let mut vs: Vec<$T> = raws.iter().map(|x| *x as $T % p).collect();
                    for d in 1..=dense as u128 {
                        vs.push((p as u128 * d / (dense as u128 + 1)) as $T);
                    }
                    vs.sort();
                    vs.dedup();
                    let cs: Vec<$T> = vs.iter().step_by((vs.len() / 6).max(1)).flat_map(|c| [*c, *c + p]).chain([p - 1, 2 * p - 1]).collect();
                    s.par(raws.len(), |i, t| {
                        cur(&[p as u64, raws[i] as u64]);
                        raw::<F>(s, raws[i] as $T);
                        t.evals += 9;
                        t.distinct += 1;
                    });
                    s.par(vs.len(), |i, t| {
                        let a = vs[i];
                        for &b in &vs {
                            cur(&[p as u64, a as u64, b as u64]);
                            t.evals += pair::<F>(s, a, b);
                            t.distinct += 1;
                            for &c in &cs {
                                t.evals += triple::<F>(s, c, a, b);
                                t.distinct += 1;
                            }
                        }
                        for e in edge_values(<$T>::BITS).into_iter().map(|e| e as $T).chain([p - 1, p, p - 2]) {
                            pow::<F>(s, a, e);
                            t.evals += 1;
                            t.distinct += 1;
                        }
                    });
                });
            }
            /// the extra operations of transform-friendly fields
            pub fn roots<F: Tested + NTTField>(ctx: &Ctx, name: &str) {
                ctx.section(&format!("{name} roots and usize"), "modulus,a,b", |s| {
                    let p = F::MODULUS_VALUE;
                    let vs: Vec<$T> = if (p as u64) < 400 { (0..p).collect() } else {
                        let mut v: Vec<$T> = edge_operands(p as u128, <$T>::BITS).into_iter().map(|x| x as $T % p).collect();
                        v.sort();
                        v.dedup();
                        v
                    };
                    s.par(vs.len(), |i, t| {
                        let a = vs[i];
                        let x = F::new(a);
                        ck!(s, "root round trip", [p, a], F::from_root(x.to_root()).value(), a);
                        t.evals += 1;
                        for &b in &vs {
                            cur(&[p as u64, a as u64, b as u64]);
                            let r = F::new(b).to_root();
                            let w = (a as u128 * b as u128 % p as u128) as $T;
                            let mut m = x;
                            m.mul_root_assign(r);
                            ck!(s, "mul_root", [p, a, b], (x.mul_root(r).value(), m.value()), (w, w));
                            t.evals += 2;
                            t.distinct += 1;
                        }
                    });
                    let mut us: Vec<usize> = edge_operands(p as u128, 64).into_iter().map(|x| x as usize).collect();
                    us.extend(0..1000);
                    s.par(us.len(), |i, t| {
                        let u = us[i];
                        cur(&[p as u64, u as u64]);
                        ck!(s, "from usize", [p, u], F::from(u).value() as usize, u % p as usize);
                        t.evals += 1;
                        t.distinct += 1;
                    });
                });
            }
        }
    };
}
field_mod!(w8, u8);
field_mod!(w16, u16);
field_mod!(w32, u32);
field_mod!(w64, u64);

macro_rules! ex { ($c:expr, $md:ident, $tr:expr; $($F:ident)*) => { $( $md::exhaustive::<$F>($c, stringify!($F), $tr, $F::max(), $F::neg_one()); )* } }
macro_rules! gr { ($c:expr, $md:ident, $d:expr; $($F:ident)*) => { $( $md::grid::<$F>($c, stringify!($F), $F::max(), $F::neg_one(), $d); )* } }
macro_rules! ro { ($c:expr, $md:ident; $($F:ident)*) => { $( $md::roots::<$F>($c, stringify!($F)); )* } }

fn main() {
    let ctx = Ctx::new("C08", "exploration");
    let c = &ctx;
    c.rule("every raw integer, pair (a,b), triple (c,a,b) with c below twice the modulus, and power (a,e) of the enumerated domain, on fields declared with the repository's derive macros; each tuple counts once as distinct, however many operator forms are run on it; the oracle is 128-bit integer arithmetic");
    c.assume("all 18 primes an 8-bit field may have, and 7 larger small primes: every pair; other fields: boundary grids");
    c.assume("the inverse of zero and division by zero are outside the property");
    ex!(c, w8, true; F2b F3b F5b F7b F11b F13b F17b F19b F23b F29b F31b F37b F41b F43b F47b F53b F59b F61b);
    ex!(c, w16, c.thorough; F97h F257h);
    ex!(c, w32, c.thorough; F17 F97 F193 F257);
    ex!(c, w64, c.thorough; F17q F257q);
    let d = c.tier(150, 1500);
    gr!(c, w16, d; F7681h F16193h F16381h);
    gr!(c, w32, d; F12289 F15361 F65537 F132M F998 FTop32 FMax32 DefaultFieldU32 DefaultQks);
    gr!(c, w64, d; F6T F60 FBig64 FTop64 FMax64);
    ro!(c, w8; F5b F13b F17b F29b F37b F41b F53b F61b);
    ro!(c, w16; F97h F257h F7681h F16193h);
    ro!(c, w32; F17 F97 F193 F257 F12289 F15361 F65537 F132M F998 FTop32 DefaultFieldU32 DefaultQks);
    ro!(c, w64; F17q F257q F6T F60 FBig64 FTop64);
    if c.thorough {
        ex!(c, w16, false; F7681h);
        ex!(c, w32, false; F12289);
    }
    ctx.finish()
}
