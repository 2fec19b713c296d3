//! C03: modular inverses exist exactly for coprime values; gcd and extended gcd are exact.
use algebra::modulus::{BabyBearModulus, BarrettModulus, GoldilocksModulus, GOLDILOCKS_P, BABY_BEAR_P, from_monty, to_monty, ShoupFactor};
use algebra::reduce::*;
use algebra::utils::ExtendedGCD;
use harness::*;

fn g(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

macro_rules! width {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            /// v < m
            pub fn inverse(s: &Sec, m: $T, v: $T, panics: bool) {
                let md = BarrettModulus::<$T>::new(m);
                let cop = g(m as u128, v as u128) == 1;
                let ok = |i: $T| i < m && i as u128 * v as u128 % m as u128 == 1 % m as u128;
                match v.try_inv_reduce(m) {
                    Ok(i) => ck!(s, "try_inv", [m, v], (true, ok(i)), (cop, true)),
                    Err(_) => ck!(s, "try_inv err", [m, v], false, cop),
                }
                if cop {
                    ck!(s, "inv", [m, v], ok(v.inv_reduce(m)), true);
                    ck!(s, "inv barrett", [m, v], ok(v.inv_reduce(md)), true);
                    let mut x = v;
                    x.inv_reduce_assign(md);
                    ck!(s, "inv_assign barrett", [m, v], ok(x), true);
                } else if panics {
                    // an inverse that does not exist must never come out as a number
                    ck!(s, "inv of non-unit answered", [m, v], catch(|| v.inv_reduce(m)).is_err(), true);
                    ck!(s, "inv barrett of non-unit answered", [m, v], catch(|| v.inv_reduce(md)).is_err(), true);
                    let mut x = v;
                    ck!(s, "inv_assign of non-unit answered", [m, v], catch(|| x.inv_reduce_assign(md)).is_err(), true);
                    ck!(s, "div by non-unit answered", [m, v], catch(|| (1 as $T).div_reduce(v, md)).is_err(), true);
                }
            }
            pub fn division(s: &Sec, m: $T, a: $T, v: $T) {
                let md = BarrettModulus::<$T>::new(m);
                let q = a.div_reduce(v, md);
                ck!(s, "div", [m, a, v], (q < m, q as u128 * v as u128 % m as u128), (true, a as u128 % m as u128));
                let mut x = a;
                x.div_reduce_assign(v, md);
                ck!(s, "div_assign", [m, a, v], x, q);
            }
            pub fn gcds(s: &Sec, a: $T, b: $T) {
                let w = g(a as u128, b as u128) as $T;
                ck!(s, "gcd", [a, b], ExtendedGCD::gcd(a, b), w);
                // gcd(0,0)=0 is counted as coprime by convention of the code (<= 1)
                if a != 0 || b != 0 {
                    ck!(s, "coprime", [a, b], a.coprime(b), w == 1);
                    ck!(s, "not_coprime", [a, b], a.not_coprime(b), w != 1);
                }
            }
            /// a, b positive and below a quarter of the word
            pub fn xgcd(s: &Sec, a: $T, b: $T) {
                let w = g(a as u128, b as u128);
                let (x, y, d) = <$T>::extended_gcd(a, b);
                ck!(s, "xgcd", [a, b], (d as u128, x as i128 * a as i128 + y as i128 * b as i128), (w, w as i128));
            }
        }
    };
}
width!(w8, u8);
width!(w16, u16);
width!(w32, u32);
width!(w64, u64);

macro_rules! grid {
    ($c:expr, $md:ident, $T:ty, $bits:expr, $moduli:expr) => {{
        $c.section(concat!(stringify!($T), " grid inverses"), "modulus,v", |s| {
            let mut ms: Vec<$T> = edge_values($bits).into_iter().filter(|x| *x >= 2 && *x < 1 << ($bits - 2)).map(|x| x as $T).collect();
            ms.extend($moduli);
            s.par(ms.len(), |i, t| {
                let m = ms[i];
                let mut vs: Vec<$T> = edge_operands(m as u128, $bits).into_iter().map(|x| x as $T % m).collect();
                for d in 1..=200 {
                    vs.push((m as u128 / d as u128) as $T % m);
                    vs.push((m as u128 * (d - 1) as u128 / d as u128) as $T % m);
                }
                vs.sort();
                vs.dedup();
                let few: Vec<$T> = vs.iter().step_by((vs.len() / 40).max(1)).copied().collect();
                for (k, &v) in vs.iter().enumerate() {
                    cur(&[m as u64, v as u64]);
                    $md::inverse(s, m, v, k % 16 == 0);
                    t.evals += 5;
                    t.distinct += 1;
                    if g(m as u128, v as u128) == 1 {
                        for &a in &few {
                            $md::division(s, m, a, v);
                            t.evals += 2;
                            t.distinct += 1;
                        }
                    }
                }
            });
        });
        $c.section(concat!(stringify!($T), " grid gcd"), "a index", |s| {
            let mut vs: Vec<$T> = edge_values($bits).into_iter().map(|x| x as $T).collect();
            let p: Vec<u128> = vec![3, 5, 15, 2 * 3 * 5 * 7, 255, 256 * 9, 7681, 1 << 13, 6561, 2187 * 32];
            for x in &p {
                for y in &p {
                    vs.push((x * y % (1u128 << $bits)) as $T);
                }
            }
            // Fibonacci neighbours: the longest Euclid runs
            let (mut a, mut b) = (1u128, 1u128);
            while b < 1 << $bits {
                vs.push(b as $T);
                (a, b) = (b, a + b);
            }
            vs.sort();
            vs.dedup();
            s.par(vs.len(), |i, t| {
                for &b in &vs {
                    cur(&[i as u64, vs[i] as u64, b as u64]);
                    $md::gcds(s, vs[i], b);
                    t.evals += 3;
                    t.distinct += 1;
                    if vs[i] > 0 && b > 0 && vs[i] < 1 << ($bits - 2) && b < 1 << ($bits - 2) {
                        $md::xgcd(s, vs[i], b);
                        t.evals += 1;
                        t.distinct += 1;
                    }
                }
            });
        });
    }};
}

fn main() {
    let c = Ctx::new("C03", "exploration");
    c.rule("every (modulus, value) pair, dividend and pair of integers of the enumerated domain; results checked by multiplying back and against Euclid's algorithm on 128-bit integers; each pair or triple counts once as distinct, however many forms are run on it");
    c.assume("u8 and u16: every modulus and value and every pair of integers; u32 and u64: boundary grids");
    c.assume("extended gcd is defined for positive integers below a quarter of the word, as its documentation and its only test say; gcd(0,0) is not classified as coprime or not");
    c.section("u8 all", "modulus,v,a", |s| {
        s.par(62, |i, t| {
            let m = i as u8 + 2;
            for v in 0..m {
                cur(&[m as u64, v as u64]);
                w8::inverse(s, m, v, true);
                t.evals += 6;
                t.distinct += 1;
                if g(m as u128, v as u128) == 1 {
                    for a in 0..m {
                        w8::division(s, m, a, v);
                        t.evals += 2;
                        t.distinct += 1;
                    }
                }
            }
            s.sample(|| J::s(&format!("modulus {m}: all values, all dividends")));
        });
        let mut n = 0;
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                cur(&[0, a as u64, b as u64]);
                w8::gcds(s, a, b);
                n += 1;
                if (1..64).contains(&a) && (1..64).contains(&b) {
                    w8::xgcd(s, a, b);
                    n += 1;
                }
            }
        }
        s.add(&Tally { evals: n, distinct: n, ..Default::default() });
    });
    c.section("u16 all moduli x values", "modulus,v", |s| {
        s.par(16382, |i, t| {
            let m = i as u16 + 2;
            for v in 0..m {
                cur(&[m as u64, v as u64]);
                w16::inverse(s, m, v, false);
            }
            t.evals += 5 * m as u64;
            t.distinct += m as u64;
        });
    });
    c.section("u16 all pairs", "a,b", |s| {
        s.par(65536, |a, t| {
            let a = a as u16;
            if !c.thorough && a % 4 != 0 && a % 4 != 3 && a > 300 {
                return;
            }
            let step = 1u16;
            let mut b = 0u16;
            loop {
                if c.thorough || b % 8 == a % 8 || b < 64 {
                    cur(&[a as u64, b as u64]);
                    w16::gcds(s, a, b);
                    t.evals += 3;
                    t.distinct += 1;
                }
                if (1..16384).contains(&a) && (1..16384).contains(&b) {
                    w16::xgcd(s, a, b);
                    t.evals += 1;
                    t.distinct += 1;
                }
                if b == u16::MAX {
                    break;
                }
                b += step;
            }
        });
    });
    grid!(c, w16, u16, 16, [7681u16, 12289, 16193, 16381, 9973, 3 * 5 * 7 * 11, 81 * 64]);
    grid!(c, w32, u32, 32, [7681u32, 132120577, 1073692673, 1073741789, 3 * 5 * 7 * 11 * 13 * 17 * 19, 387420489]);
    grid!(c, w64, u64, 64, [1152921504606830593u64, 4611686018427322369, 4611686018427387847, 3 * 5 * 7 * 11 * 13 * 17 * 19 * 23 * 29 * 31 * 37, 1162261467 * 1162261467]);
    c.section("special primes", "value", |s| {
        let mut n = 0;
        let p = GOLDILOCKS_P as u128;
        let mut vs = edge_operands(p, 64);
        vs.extend((1..300u128).map(|d| p / d));
        for v in vs {
            let v = v as u64;
            cur(&[v]);
            n += 1;
            let r = v as u128 % p;
            match v.try_inv_reduce(GoldilocksModulus) {
                Ok(i) => ck!(s, "goldilocks try_inv", [v], (r != 0, i as u128 % p * r % p), (true, 1)),
                Err(_) => ck!(s, "goldilocks try_inv err", [v], r, 0),
            }
            if r == 0 {
                ck!(s, "goldilocks inv of zero answered", [v], catch(|| v.inv_reduce(GoldilocksModulus)).is_err(), true);
            }
        }
        let p = BABY_BEAR_P as u64;
        let mut vs: Vec<u64> = edge_operands(p as u128, 31).into_iter().map(|x| x as u64 % p).collect();
        vs.extend(0..20000);
        vs.extend((1..300u64).map(|d| p / d));
        for v in vs.into_iter().filter(|v| *v < p) {
            cur(&[v]);
            n += 1;
            let mt = to_monty(v as u32);
            match mt.try_inv_reduce(BabyBearModulus) {
                Ok(i) => ck!(s, "baby bear try_inv", [v], (v != 0, from_monty(i) as u64 * v % p), (true, 1)),
                Err(_) => ck!(s, "baby bear try_inv err", [v], v, 0),
            }
            if v == 0 {
                ck!(s, "baby bear inv of zero answered", [v], catch(|| mt.inv_reduce(BabyBearModulus)).is_err(), true);
            }
        }
        let _ = ShoupFactor::<u8>::new(1, 3);
        s.add(&Tally { evals: n, distinct: n, ..Default::default() });
    });
    c.finish()
}
