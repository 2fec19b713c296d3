//! C01: arithmetic modulo a general (Barrett) modulus, against exact integer arithmetic.
use algebra::modulus::{BarrettModulus, ShoupFactor};
use algebra::reduce::*;
use harness::*;

macro_rules! width {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            pub const BITS: u32 = <$T>::BITS;
            pub type M = BarrettModulus<$T>;
            pub fn modulus(m: $T) -> M {
                BarrettModulus::<$T>::new(m)
            }
            #[inline]
            pub fn single(s: &Sec, md: M, v: $T) {
                let m = md.value();
                let want = v % m;
                ck!(s, "reduce", [m, v], v.reduce(md), want);
                let mut x = v;
                x.reduce_assign(md);
                ck!(s, "reduce_assign", [m, v], x, want);
                let l = v.lazy_reduce(md);
                ck!(s, "lazy_reduce", [m, v], (l % m, l < 2 * m), (want, true));
                let mut x = v;
                x.lazy_reduce_assign(md);
                ck!(s, "lazy_reduce_assign", [m, v], (x % m, x < 2 * m), (want, true));
                let sl: &[$T] = &[v];
                ck!(s, "slice1 reduce", [m, v], sl.reduce(md), want);
                let l: $T = sl.lazy_reduce(md);
                ck!(s, "slice1 lazy_reduce", [m, v], (l % m, l < 2 * m), (want, true));
            }
            #[inline]
            pub fn double(s: &Sec, md: M, lo: $T, hi: $T) {
                let m = md.value();
                let v = ((hi as u128) << BITS) | lo as u128;
                let want = (v % m as u128) as $T;
                ck!(s, "reduce2", [m, lo, hi], [lo, hi].reduce(md), want);
                ck!(s, "reduce tuple", [m, lo, hi], (lo, hi).reduce(md), want);
                let l = [lo, hi].lazy_reduce(md);
                ck!(s, "lazy_reduce2", [m, lo, hi], (l % m, l < 2 * m), (want, true));
                let l = (lo, hi).lazy_reduce(md);
                ck!(s, "lazy_reduce tuple", [m, lo, hi], (l % m, l < 2 * m), (want, true));
            }
            #[inline]
            pub fn words(s: &Sec, md: M, w: &[$T]) {
                let m = md.value();
                let mut want = 0u128;
                for x in w.iter().rev() {
                    want = ((want << BITS) | *x as u128) % m as u128;
                }
                let want = want as $T;
                ck!(s, "reduce words", [m, w], w.reduce(md), want);
                let l: $T = w.lazy_reduce(md);
                ck!(s, "lazy_reduce words", [m, w], (l % m, l < 2 * m), (want, true));
            }
            /// a, b < m
            #[inline]
            pub fn pair(s: &Sec, md: M, a: $T, b: $T) {
                let m = md.value();
                let (aw, bw, mw) = (a as u128, b as u128, m as u128);
                let sum = ((aw + bw) % mw) as $T;
                let dif = ((aw + mw - bw) % mw) as $T;
                let prd = (aw * bw % mw) as $T;
                ck!(s, "add", [m, a, b], a.add_reduce(b, md), sum);
                ck!(s, "add plain", [m, a, b], a.add_reduce(b, m), sum);
                ck!(s, "sub", [m, a, b], a.sub_reduce(b, md), dif);
                ck!(s, "sub plain", [m, a, b], a.sub_reduce(b, m), dif);
                ck!(s, "mul", [m, a, b], a.mul_reduce(b, md), prd);
                let mut x = a;
                x.add_reduce_assign(b, md);
                ck!(s, "add_assign", [m, a, b], x, sum);
                let mut x = a;
                x.add_reduce_assign(b, m);
                ck!(s, "add_assign plain", [m, a, b], x, sum);
                let mut x = a;
                x.sub_reduce_assign(b, md);
                ck!(s, "sub_assign", [m, a, b], x, dif);
                let mut x = a;
                x.sub_reduce_assign(b, m);
                ck!(s, "sub_assign plain", [m, a, b], x, dif);
                let mut x = a;
                x.mul_reduce_assign(b, md);
                ck!(s, "mul_assign", [m, a, b], x, prd);
                let l: $T = a.lazy_mul_reduce(b, md);
                ck!(s, "lazy_mul", [m, a, b], (l % m, l < 2 * m), (prd, true));
                let mut x = a;
                x.lazy_mul_reduce_assign(b, md);
                ck!(s, "lazy_mul_assign", [m, a, b], (x % m, x < 2 * m), (prd, true));
            }
            #[inline]
            pub fn unary(s: &Sec, md: M, a: $T) {
                let m = md.value();
                let neg = (m - a) % m;
                ck!(s, "neg", [m, a], a.neg_reduce(md), neg);
                ck!(s, "neg plain", [m, a], a.neg_reduce(m), neg);
                let mut x = a;
                x.neg_reduce_assign(md);
                ck!(s, "neg_assign", [m, a], x, neg);
                let mut x = a;
                x.neg_reduce_assign(m);
                ck!(s, "neg_assign plain", [m, a], x, neg);
                let mut p = a as u128;
                for e in 0..(BITS + 2) {
                    ck!(s, "exp_power_of_2", [m, a, e], a.exp_power_of_2_reduce(e, md), p as $T);
                    p = p * p % m as u128;
                }
            }
            /// precomputed factor `a` < m times any word `v`
            #[inline]
            pub fn shoup(s: &Sec, m: $T, f: ShoupFactor<$T>, a: $T, v: $T) {
                let want = ((a as u128 * v as u128) % m as u128) as $T;
                ck!(s, "factor*v", [m, a, v], f.mul_reduce(v, m), want);
                ck!(s, "v*factor", [m, a, v], v.mul_reduce(f, m), want);
                let mut x = v;
                x.mul_reduce_assign(f, m);
                ck!(s, "v*=factor", [m, a, v], x, want);
                let l = f.mul_reduce_lazy(v, m);
                ck!(s, "factor lazy", [m, a, v], (l % m, l < 2 * m), (want, true));
            }
            pub fn factor(s: &Sec, m: $T, a: $T) -> ShoupFactor<$T> {
                let f = ShoupFactor::<$T>::new(a, m);
                let q = (((a as u128) << BITS) / m as u128) as $T;
                ck!(s, "factor value", [m, a], (f.value(), f.quotient()), (a, q));
                // re-targeting an existing factor
                let mut g = ShoupFactor::<$T>::new(1, 2);
                g.set(a, m);
                ck!(s, "factor set", [m, a], (g.value(), g.quotient()), (a, q));
                let mut g = ShoupFactor::<$T>::new(a, if a < m - 1 { a + 1 } else { m });
                g.set_modulus(m);
                ck!(s, "factor set_modulus", [m, a], (g.value(), g.quotient()), (a, q));
                f
            }
            pub fn powref(a: $T, mut e: u64, m: $T) -> $T {
                let (mut r, mut p) = (1u128 % m as u128, a as u128 % m as u128);
                while e > 0 {
                    if e & 1 == 1 {
                        r = r * p % m as u128;
                    }
                    p = p * p % m as u128;
                    e >>= 1;
                }
                r as $T
            }
            pub fn exp(s: &Sec, md: M, a: $T, e: u64) {
                let m = md.value();
                let want = powref(a, e, m);
                if e <= u8::MAX as u64 {
                    ck!(s, "exp u8", [m, a, e], a.exp_reduce(e as u8, md), want);
                }
                if e <= u16::MAX as u64 {
                    ck!(s, "exp u16", [m, a, e], a.exp_reduce(e as u16, md), want);
                }
                if e <= u32::MAX as u64 {
                    ck!(s, "exp u32", [m, a, e], a.exp_reduce(e as u32, md), want);
                }
                ck!(s, "exp u64", [m, a, e], a.exp_reduce(e, md), want);
            }
        }
    };
}
width!(w8, u8);
width!(w16, u16);
width!(w32, u32);
width!(w64, u64);

macro_rules! grid_section {
    ($c:expr, $md:ident, $T:ty, $name:expr, $moduli:expr, $thin:expr) => {{
        let moduli: Vec<$T> = $moduli;
        let exps: Vec<u64> = {
            let mut v = edge_values(64);
            v.extend(0..40);
            v.sort();
            v.dedup();
            v.into_iter().map(|x| x as u64).collect()
        };
        $c.section($name, "modulus index", |s| {
            s.sample(|| J::obj([("moduli", J::d(&moduli[..moduli.len().min(12)])), ("count", J::n(moduli.len() as u64))]));
            s.par(moduli.len(), |i, t| {
                let m = moduli[i];
                let md = $md::modulus(m);
                let all: Vec<$T> = edge_operands(m as u128, <$T>::BITS).into_iter().map(|x| x as $T).collect();
                // spread a thinner selection evenly for the quadratic parts
                let step = (all.len() / $thin).max(1);
                let some: Vec<$T> = all.iter().copied().enumerate().filter(|(k, v)| k % step == 0 || *v >= <$T>::MAX - 2 || *v <= 2 || (*v >= m - 1 && *v <= m + 1)).map(|x| x.1).collect();
                let mut red: Vec<$T> = some.iter().map(|v| v % m).collect();
                red.extend([0, 1 % m, m - 1, (m - 1) / 2, m / 2]);
                red.sort();
                red.dedup();
                for &v in &all {
                    cur(&[i as u64, 1, v as u64]);
                    $md::single(s, md, v);
                    t.evals += 6;
                    t.distinct += 1;
                }
                for &lo in &some {
                    for &hi in &some {
                        cur(&[i as u64, 2, lo as u64, hi as u64]);
                        $md::double(s, md, lo, hi);
                        t.evals += 4;
                        t.distinct += 1;
                    }
                }
                // exact multiples of the modulus and their neighbours across the double word
                let top = if <$T>::BITS == 64 { u128::MAX } else { (1u128 << (2 * <$T>::BITS)) - 1 };
                for q in edge_values((2 * <$T>::BITS).min(127)) {
                    if let Some(x) = q.checked_mul(m as u128) {
                        for x in [x.saturating_sub(1), x, x.saturating_add(1)] {
                            if x <= top {
                                $md::double(s, md, x as $T, (x >> <$T>::BITS) as $T);
                                t.evals += 4;
                                t.distinct += 1;
                            }
                        }
                    }
                }
                for (k, &a) in some.iter().enumerate() {
                    for (l, &b) in some.iter().enumerate() {
                        if (k + l) % 5 != 0 { continue; }
                        let c = some[(k * 7 + l * 3) % some.len()];
                        cur(&[i as u64, 3, a as u64, b as u64, c as u64]);
                        $md::words(s, md, &[a, b]);
                        $md::words(s, md, &[a, b, c]);
                        $md::words(s, md, &[c, a, b, a]);
                        $md::words(s, md, &[b, c, a, b, <$T>::MAX]);
                        t.evals += 8;
                        t.distinct += 1;
                    }
                }
                for &a in &red {
                    cur(&[i as u64, 4, a as u64]);
                    $md::unary(s, md, a);
                    t.evals += 4 + <$T>::BITS as u64;
                    t.distinct += 1;
                    for &b in &red {
                        cur(&[i as u64, 5, a as u64, b as u64]);
                        $md::pair(s, md, a, b);
                        t.evals += 12;
                        t.distinct += 1;
                    }
                    cur(&[i as u64, 6, a as u64]);
                    let f = $md::factor(s, m, a);
                    for &v in &all {
                        cur(&[i as u64, 7, a as u64, v as u64]);
                        $md::shoup(s, m, f, a, v);
                        t.evals += 4;
                        t.distinct += 1;
                    }
                }
                for (k, &a) in red.iter().enumerate() {
                    if k % 4 != 0 && a > 2 && a < m - 2 { continue; }
                    for &e in &exps {
                        cur(&[i as u64, 8, a as u64, e]);
                        $md::exp(s, md, a, e);
                        t.evals += 4;
                        t.distinct += 1;
                    }
                }
            });
        });
    }};
}

fn moduli_grid(bits: u32, extra: &[u64]) -> Vec<u64> {
    let lim = 1u128 << (bits - 2);
    let mut v: Vec<u64> = edge_values(bits).into_iter().filter(|x| *x >= 2 && *x < lim).map(|x| x as u64).collect();
    for j in 2..(bits - 2) {
        // 1.5 * 2^j, 2^j + 2^(j/2), and a mid-range odd number per bit length
        v.push(3u64 << (j - 1));
        v.push((1u64 << j) + (1u64 << (j / 2)) + 1);
        v.push(((1u128 << j) as f64 * 1.6180339887).round() as u64 | 1);
    }
    v.extend(extra);
    v.retain(|x| *x >= 2 && (*x as u128) < lim);
    v.sort();
    v.dedup();
    v
}

fn main() {
    let c = Ctx::new("C01", "exploration");
    c.rule("every (operation, modulus, operands) tuple of the enumerated domain, executed on the real code and compared with integer arithmetic; a (modulus, operands) tuple counts once as distinct, however many operations and forms are run on it");
    c.assume("u16: all moduli with boundary operands, all words for every modulus; u32/u64: moduli and operands from a boundary grid (powers of two and neighbours, multiples of the modulus and neighbours, patterns)");

    // ---- u8: every modulus, every operand
    c.section("u8 all moduli x all operands", "modulus,part,a,b", |s| {
        s.par(62, |i, t| {
            let m = i as u8 + 2;
            let md = w8::modulus(m);
            ck!(s, "modulus value and bits", [m], (md.value(), md.bit_count()), (m, 8 - m.leading_zeros()));
            ck!(s, "modulus ratio", [m], md.ratio(), [(65536u32 / m as u32 % 256) as u8, (65536u32 / m as u32 / 256) as u8]);
            for v in 0..=255u8 {
                cur(&[m as u64, 1, v as u64]);
                w8::single(s, md, v);
                t.evals += 6;
                t.distinct += 1;
                for h in 0..=255u8 {
                    cur(&[m as u64, 2, v as u64, h as u64]);
                    w8::double(s, md, v, h);
                    t.evals += 4;
                    t.distinct += 1;
                }
            }
            for a in 0..m {
                cur(&[m as u64, 3, a as u64]);
                w8::unary(s, md, a);
                t.evals += 12;
                t.distinct += 1;
                for b in 0..m {
                    cur(&[m as u64, 4, a as u64, b as u64]);
                    w8::pair(s, md, a, b);
                    t.evals += 12;
                    t.distinct += 1;
                }
                cur(&[m as u64, 5, a as u64]);
                let f = w8::factor(s, m, a);
                for v in 0..=255u8 {
                    cur(&[m as u64, 6, a as u64, v as u64]);
                    w8::shoup(s, m, f, a, v);
                    t.evals += 4;
                    t.distinct += 1;
                }
                // every 8-bit exponent, then boundary exponents of the wider types
                for e in 0..=255u64 {
                    cur(&[m as u64, 7, a as u64, e]);
                    w8::exp(s, md, a, e);
                    t.evals += 4;
                    t.distinct += 1;
                }
                for e in edge_values(64) {
                    cur(&[m as u64, 7, a as u64, e as u64]);
                    w8::exp(s, md, a, e as u64);
                    t.evals += 3;
                    t.distinct += 1;
                }
            }
            s.sample(|| J::s(&format!("m={m}: [200,100].reduce={} ", [200u8, 100].reduce(md))));
        });
    });
    // precomputed factors work for any modulus up to half the word
    c.section("u8 factors, moduli up to 127", "modulus,a,v", |s| {
        s.par(64, |i, t| {
            let m = i as u8 + 64;
            for a in 0..m {
                let f = w8::factor(s, m, a);
                for v in 0..=255u8 {
                    cur(&[m as u64, a as u64, v as u64]);
                    w8::shoup(s, m, f, a, v);
                    t.evals += 4;
                    t.distinct += 1;
                }
            }
        });
    });
    c.section("u8 three words, all", "modulus,w0,w1,w2", |s| {
        let ms: Vec<u8> = if c.thorough { (2..64).collect() } else { vec![2, 3, 5, 16, 31, 32, 33, 47, 61, 62, 63] };
        s.par(ms.len() * 256, |i, t| {
            let m = ms[i / 256];
            let w0 = (i % 256) as u8;
            let md = w8::modulus(m);
            for w1 in 0..=255u8 {
                for w2 in 0..=255u8 {
                    cur(&[m as u64, w0 as u64, w1 as u64, w2 as u64]);
                    w8::words(s, md, &[w0, w1, w2]);
                }
            }
            t.evals += 2 * 65536;
            t.distinct += 65536;
        });
    });
    // ---- u16: every modulus, every word
    c.section("u16 all moduli x all words", "modulus,v", |s| {
        let step = c.tier(8, 1); // quick: every 8th modulus in a fixed stride plus all near powers of two
        let ms: Vec<u16> = (2..16384u16).filter(|m| m % step == (step - 1).min(7) || (m + 1).is_power_of_two() || m.is_power_of_two() || (m - 1).is_power_of_two() || *m < 64 || *m > 16350).collect();
        s.par(ms.len(), |i, t| {
            let m = ms[i];
            let md = w16::modulus(m);
            for v in 0..=65535u16 {
                cur(&[m as u64, v as u64]);
                w16::single(s, md, v);
            }
            t.evals += 6 * 65536;
            t.distinct += 65536;
        });
    });
    c.section("u16 all double words", "modulus,lo,hi", |s| {
        let ms: Vec<u16> = if c.thorough { vec![2, 3, 5, 17, 257, 4095, 4096, 4097, 7681, 8191, 8192, 8193, 10923, 12289, 16193, 16381, 16382, 16383] } else { vec![16383] };
        s.par(ms.len() * 65536 / 16, |i, t| {
            let m = ms[i / 4096];
            let md = w16::modulus(m);
            for k in 0..16 {
                if !c.thorough && k % 8 != i % 8 { continue; }
                let hi = (i % 4096 * 16 + k) as u16;
                for lo in 0..=65535u16 {
                    cur(&[m as u64, lo as u64, hi as u64]);
                    w16::double(s, md, lo, hi);
                }
            }
            let n = c.tier(2, 16) * 4 * 65536;
            t.evals += n;
            t.distinct += n / 4;
        });
    });
    let m16: Vec<u16> = if c.thorough { (2..16384).step_by(7).collect() } else { moduli_grid(16, &[7681, 12289, 16193, 16381]).into_iter().map(|x| x as u16).collect() };
    grid_section!(c, w16, u16, "u16 grid", m16, c.tier(120, 60));
    let m32: Vec<u32> = moduli_grid(32, &[7681, 12289, 15361, 132120577, 1073692673, 1073741789, 1000000513]).into_iter().map(|x| x as u32).collect();
    grid_section!(c, w32, u32, "u32 grid", m32, c.tier(150, 400));
    let m64: Vec<u64> = moduli_grid(64, &[1152921504606830593, 4611686018427322369, 4611686018427387847]);
    grid_section!(c, w64, u64, "u64 grid", m64, c.tier(150, 400));
    c.section("modulus constructor refuses bad moduli", "v", |s| {
        let mut n = 0;
        for v in 0..=255u8 {
            n += 1;
            ck!(s, "u8 modulus accepted", [v], catch(|| w8::modulus(v)).is_ok(), (2..64).contains(&v));
        }
        for v in 0..=65535u16 {
            n += 1;
            ck!(s, "u16 modulus accepted", [v], catch(|| w16::modulus(v)).is_ok(), (2..16384).contains(&v));
        }
        for v in edge_values(32) {
            n += 1;
            ck!(s, "u32 modulus accepted", [v], catch(|| w32::modulus(v as u32)).is_ok(), (2..1 << 30).contains(&v));
        }
        for v in edge_values(64) {
            n += 1;
            ck!(s, "u64 modulus accepted", [v], catch(|| w64::modulus(v as u64)).is_ok(), (2..1 << 62).contains(&v));
        }
        s.add(&Tally { evals: n, distinct: n, ..Default::default() });
    });
    c.finish()
}
