//! C02: modular dot products sum every term, at every length.
use algebra::modulus::{BabyBearModulus, BarrettModulus, GoldilocksModulus, GOLDILOCKS_P, BABY_BEAR_P, from_monty, to_monty, to_canonical_u64, PowOf2Modulus};
use algebra::reduce::DotProductReduce;
use harness::*;

/// The vectors tried at one length: (a, b) given as functions of the index.
fn patterns(len: usize, max: u64) -> Vec<(Vec<u64>, Vec<u64>)> {
    let mut v = vec![
        (vec![max; len], vec![max; len]),
        (vec![0; len], vec![max; len]),
        (vec![1.min(max); len], vec![1.min(max); len]),
        (vec![max; len], vec![1.min(max); len]),
        ((0..len).map(|i| (i as u64).min(max)).collect(), (0..len).map(|i| max - (i as u64).min(max)).collect()),
        ((0..len).map(|i| if i % 2 == 0 { max } else { 0 }).collect(), vec![max; len]),
    ];
    let mut mix = Mix(len as u64 ^ max);
    v.push(((0..len).map(|_| mix.next() % (max as u128 + 1) as u64 as u64).collect(), (0..len).map(|_| mix.next() % max.max(1)).collect()));
    v
}
/// One-hot vectors and their complements: a term counted zero times or twice is seen at every position.
fn one_hot(len: usize, max: u64, p: usize) -> Vec<(Vec<u64>, Vec<u64>)> {
    let mut a = vec![0; len];
    a[p] = max;
    let mut b = vec![max; len];
    b[p] = if max > 1 { max - 1 } else { 1 };
    let mut c = vec![max; len];
    c[p] = 0;
    vec![(a, b.clone()), (c, b)]
}

fn want(a: &[u64], b: &[u64], m: u128) -> u64 {
    let mut s = 0u128;
    for (x, y) in a.iter().zip(b) {
        s = (s + *x as u128 * *y as u128 % m) % m;
    }
    s as u64
}

fn run(s: &Sec, t: &mut Tally, m: u128, lens: &[usize], f: &dyn Fn(&[u64], &[u64]) -> u64) {
    let max = (m - 1) as u64;
    for &len in lens {
        let mut go = |a: &[u64], b: &[u64], kind: usize| {
            cur(&[m as u64, len as u64, kind as u64]);
            t.evals += 1;
            t.distinct += (len > 0) as u64;
            let g = f(a, b);
            let w = want(a, b, m);
            ck!(s, "dot", [m, len, kind], g, w);
        };
        for (k, (a, b)) in patterns(len, max).iter().enumerate() {
            go(a, b, k);
        }
        for p in 0..len {
            for (k, (a, b)) in one_hot(len, max, p).iter().enumerate() {
                go(a, b, 1000 + 2 * p + k);
            }
        }
        if s.stopped() {
            return;
        }
        tick();
    }
}

macro_rules! barrett {
    ($c:expr, $T:ty, $bits:expr, $extra:expr, $maxlen:expr) => {{
        let lim = 1u128 << ($bits - 2);
        let mut ms: Vec<u64> = edge_values($bits).into_iter().filter(|x| *x >= 2 && *x < lim).map(|x| x as u64).collect();
        ms.extend($extra);
        ms.retain(|m| (*m as u128) < lim && *m >= 2);
        ms.sort();
        ms.dedup();
        $c.section(concat!("barrett ", stringify!($T)), "modulus,length,pattern", |s| {
            let lens: Vec<usize> = (0..=$maxlen).collect();
            s.par(ms.len(), |i, t| {
                let m = ms[i];
                let md = BarrettModulus::<$T>::new(m as $T);
                run(s, t, m as u128, &lens, &|a, b| {
                    let a: Vec<$T> = a.iter().map(|x| *x as $T).collect();
                    let b: Vec<$T> = b.iter().map(|x| *x as $T).collect();
                    <$T>::dot_product_reduce(&a, &b, md) as u64
                });
                s.sample(|| J::s(&format!("m={m}, lengths 0..={}, all-(m-1), one-hot at every position, ...", $maxlen)));
            });
        });
    }};
}
macro_rules! powof2 {
    ($c:expr, $T:ty, $bits:expr) => {{
        $c.section(concat!("power of two ", stringify!($T)), "modulus,length,pattern", |s| {
            let lens: Vec<usize> = (0..=40).collect();
            s.par($bits - 1, |i, t| {
                let m = 2u128 << i;
                let md = PowOf2Modulus::<$T>::new(m as $T);
                run(s, t, m, &lens, &|a, b| {
                    // the operands need not be reduced: set the bits above the modulus too
                    let hi: $T = !md.mask();
                    let a: Vec<$T> = a.iter().map(|x| *x as $T | hi).collect();
                    let b: Vec<$T> = b.iter().map(|x| *x as $T).collect();
                    <$T>::dot_product_reduce(&a, &b, md) as u64
                });
            });
        });
    }};
}

fn main() {
    let c = Ctx::new("C02", "exploration");
    c.rule("every (modulus kind, modulus, length, pattern) with, for each length, one-hot vectors and their complements at every position, all-maximal entries and mixed entries, compared with exact integer arithmetic; the vectors of two patterns of one length differ, so each counts as distinct unless the length is zero");
    c.assume("lengths up to the stated maximum plus a few long vectors; moduli of u32/u64 from a boundary grid");
    // every vector of tiny length over a tiny modulus
    c.section("u8 all short vectors", "modulus,length,code", |s| {
        let cfg: Vec<(u8, usize)> = vec![(2, 1), (2, 2), (2, 3), (2, 8), (3, 1), (3, 2), (3, 5), (5, 3), (63, 1), (61, 1)];
        s.par(cfg.len(), |i, t| {
            let (m, len) = cfg[i];
            let md = BarrettModulus::<u8>::new(m);
            let total = (m as u64).pow(2 * len as u32);
            for code in 0..total {
                let mut x = code;
                let mut v = vec![0u8; 2 * len];
                for d in v.iter_mut() {
                    *d = (x % m as u64) as u8;
                    x /= m as u64;
                }
                let (a, b) = v.split_at(len);
                cur(&[m as u64, len as u64, code]);
                let w = a.iter().zip(b).map(|(x, y)| *x as u32 * *y as u32).sum::<u32>() % m as u32;
                ck!(s, "dot", [m, a, b], u8::dot_product_reduce(a, b, md), w as u8);
                t.evals += 1;
                t.distinct += 1;
            }
        });
    });
    let ml: usize = c.tier(100, 330);
    barrett!(c, u8, 8, 2u64..64, ml);
    barrett!(c, u16, 16, [7681u64, 12289, 16193, 16381], ml);
    barrett!(c, u32, 32, [7681u64, 132120577, 1073692673, 1073741789], ml);
    barrett!(c, u64, 64, [1152921504606830593u64, 4611686018427322369, 4611686018427387847], ml);
    powof2!(c, u8, 8);
    powof2!(c, u16, 16);
    powof2!(c, u32, 32);
    powof2!(c, u64, 64);
    c.section("goldilocks and baby bear", "modulus,length,pattern", |s| {
        let lens: Vec<usize> = (0..=ml).collect();
        s.par(3, |i, t| match i {
            0 => run(s, t, GOLDILOCKS_P as u128, &lens, &|a, b| {
                to_canonical_u64(u64::dot_product_reduce(a, b, GoldilocksModulus))
            }),
            // representatives that are not canonical
            1 => run(s, t, GOLDILOCKS_P as u128, &lens, &|a, b| {
                let nc = |v: &[u64]| -> Vec<u64> { v.iter().map(|x| x.checked_add(GOLDILOCKS_P).unwrap_or(*x)).collect() };
                to_canonical_u64(u64::dot_product_reduce(nc(a), nc(b), GoldilocksModulus))
            }),
            _ => run(s, t, BABY_BEAR_P as u128, &lens, &|a, b| {
                let mt = |v: &[u64]| -> Vec<u32> { v.iter().map(|x| to_monty(*x as u32)).collect() };
                from_monty(u32::dot_product_reduce(mt(a), mt(b), BabyBearModulus)) as u64
            }),
        });
    });
    c.section("long vectors", "length index", |s| {
        let lens = [511usize, 512, 513, 1000, 1024, 4095, 4096, 4097, 65535, 65536, 65537];
        s.par(lens.len(), |i, t| {
            let len = lens[i];
            let mut go = |m: u128, f: &dyn Fn(&[u64], &[u64]) -> u64| {
                let max = (m - 1) as u64;
                for (k, (a, b)) in patterns(len, max).iter().enumerate() {
                    cur(&[i as u64, len as u64, k as u64]);
                    ck!(s, "dot", [m, len, k], f(a, b), want(a, b, m));
                    t.evals += 1;
                    t.distinct += 1;
                }
            };
            for m in [63u8, 61, 2] {
                go(m as u128, &|a, b| {
                    let f = |v: &[u64]| -> Vec<u8> { v.iter().map(|x| *x as u8).collect() };
                    u8::dot_product_reduce(f(a), f(b), BarrettModulus::<u8>::new(m)) as u64
                });
            }
            for m in [1073741789u32, 1073741823] {
                go(m as u128, &|a, b| {
                    let f = |v: &[u64]| -> Vec<u32> { v.iter().map(|x| *x as u32).collect() };
                    u32::dot_product_reduce(f(a), f(b), BarrettModulus::<u32>::new(m)) as u64
                });
            }
            for m in [4611686018427387847u64, (1 << 62) - 1] {
                go(m as u128, &|a, b| u64::dot_product_reduce(a, b, BarrettModulus::<u64>::new(m)));
            }
            go(GOLDILOCKS_P as u128, &|a, b| to_canonical_u64(u64::dot_product_reduce(a, b, GoldilocksModulus)));
        });
    });
    c.finish()
}
