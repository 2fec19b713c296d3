//! C05: arithmetic modulo powers of two and modulo the native word.
use algebra::modulus::PowOf2Modulus;
use algebra::reduce::*;
use harness::*;

macro_rules! width {
    ($md:ident, $T:ty, $W:ty, $native:tt) => {
        mod $md {
            use super::*;
            type M = PowOf2Modulus<$T>;
            /// product modulo 2^BITS, by schoolbook halves
            fn mulw(a: $T, b: $T) -> $T {
                let h = <$T>::BITS / 2;
                let lo: $T = <$T>::MAX >> h;
                let (a0, a1, b0, b1) = (a & lo, a >> h, b & lo, b >> h);
                // a1*b1 vanishes; the cross terms only count their low half
                let cross = ((a0 * b1) & lo) + ((a1 * b0) & lo);
                let low = a0 * b0;
                low.overflowing_add((cross & lo) << h).0
            }
            fn addw(a: $T, b: $T) -> $T {
                a.overflowing_add(b).0
            }
            fn subw(a: $T, b: $T) -> $T {
                addw(a, addw(!b, 1))
            }
            #[inline]
            pub fn pair(s: &Sec, lg: u32, a: $T, b: $T) {
                let m = M::new(1 << lg);
                let k: $T = (1 << lg) - 1;
                ck!(s, "add", [lg, a, b], a.add_reduce(b, m), addw(a, b) & k);
                ck!(s, "sub", [lg, a, b], a.sub_reduce(b, m), subw(a, b) & k);
                ck!(s, "mul", [lg, a, b], a.mul_reduce(b, m), mulw(a, b) & k);
                let mut x = a;
                x.add_reduce_assign(b, m);
                ck!(s, "add_assign", [lg, a, b], x, addw(a, b) & k);
                let mut x = a;
                x.sub_reduce_assign(b, m);
                ck!(s, "sub_assign", [lg, a, b], x, subw(a, b) & k);
                let mut x = a;
                x.mul_reduce_assign(b, m);
                ck!(s, "mul_assign", [lg, a, b], x, mulw(a, b) & k);
                let d = <$T>::dot_product_reduce([a, b, a], [b, b, a], m);
                ck!(s, "dot", [lg, a, b], d, addw(addw(mulw(a, b), mulw(b, b)), mulw(a, a)) & k);
            }
            #[inline]
            pub fn unary(s: &Sec, lg: u32, a: $T) {
                let m = M::new(1 << lg);
                let k: $T = (1 << lg) - 1;
                ck!(s, "reduce", [lg, a], a.reduce(m), a % (1 << lg));
                let mut x = a;
                x.reduce_assign(m);
                ck!(s, "reduce_assign", [lg, a], x, a & k);
                ck!(s, "neg", [lg, a], a.neg_reduce(m), subw(0, a) & k);
                let mut x = a;
                x.neg_reduce_assign(m);
                ck!(s, "neg_assign", [lg, a], x, subw(0, a) & k);
                let r = a & k;
                let mut p = r;
                for e in 0..(<$T>::BITS + 2) {
                    ck!(s, "exp_power_of_2", [lg, r, e], r.exp_power_of_2_reduce(e, m), p);
                    p = mulw(p, p) & k;
                }
            }
            pub fn exp(s: &Sec, lg: u32, a: $T, e: u64) {
                let m = M::new(1 << lg);
                let k: $T = (1 << lg) - 1;
                let a = a & k;
                let (mut w, mut p, mut x): ($T, $T, u64) = (1, a, e);
                while x > 0 {
                    if x & 1 == 1 {
                        w = mulw(w, p) & k;
                    }
                    p = mulw(p, p) & k;
                    x >>= 1;
                }
                ck!(s, "exp u64", [lg, a, e], a.exp_reduce(e, m), w);
                if e <= u8::MAX as u64 {
                    ck!(s, "exp u8", [lg, a, e], a.exp_reduce(e as u8, m), w);
                }
                if e <= u16::MAX as u64 {
                    ck!(s, "exp u16", [lg, a, e], a.exp_reduce(e as u16, m), w);
                }
                if e <= u32::MAX as u64 {
                    ck!(s, "exp u32", [lg, a, e], a.exp_reduce(e as u32, m), w);
                }
            }
            pub fn modulus(s: &Sec, v: $T) {
                let r = catch(|| M::new(v));
                let good = v >= 2 && v & (v - 1) == 0;
                ck!(s, "modulus accepted", [v], r.is_ok(), good);
                if let Ok(m) = r {
                    ck!(s, "modulus value and mask", [v], (m.value(), m.mask()), (v, v - 1));
                }
            }
            width!(@$native $T);
        }
    };
    (@yes $T:ty) => {
        pub fn native(s: &Sec, a: $T, b: $T) {
            ck!(s, "native add", [a, b], a.add_reduce(b, ()), addw(a, b));
            ck!(s, "native sub", [a, b], a.sub_reduce(b, ()), subw(a, b));
            ck!(s, "native mul", [a, b], a.mul_reduce(b, ()), mulw(a, b));
            let mut x = a;
            x.add_reduce_assign(b, ());
            ck!(s, "native add_assign", [a, b], x, addw(a, b));
            let mut x = a;
            x.sub_reduce_assign(b, ());
            ck!(s, "native sub_assign", [a, b], x, subw(a, b));
            let mut x = a;
            x.mul_reduce_assign(b, ());
            ck!(s, "native mul_assign", [a, b], x, mulw(a, b));
        }
        pub fn native1(s: &Sec, a: $T) {
            ck!(s, "native reduce", [a], a.reduce(()), a);
            let mut x = a;
            x.reduce_assign(());
            ck!(s, "native reduce_assign", [a], x, a);
            ck!(s, "native neg", [a], a.neg_reduce(()), subw(0, a));
            let mut x = a;
            x.neg_reduce_assign(());
            ck!(s, "native neg_assign", [a], x, subw(0, a));
        }
        pub fn native_exp(s: &Sec, a: $T, e: u32) {
            let (mut w, mut p, mut x): ($T, $T, u32) = (1, a, e);
            while x > 0 {
                if x & 1 == 1 {
                    w = mulw(w, p);
                }
                p = mulw(p, p);
                x >>= 1;
            }
            ck!(s, "native exp", [a, e], a.exp_reduce(e, ()), w);
        }
    };
    (@no $T:ty) => {};
}
width!(w8, u8, u16, yes);
width!(w16, u16, u32, yes);
width!(w32, u32, u64, yes);
width!(w64, u64, u128, yes);
width!(w128, u128, u128, no);

fn main() {
    let c = Ctx::new("C05", "exploration");
    c.rule("every (modulus, operands) tuple of the enumerated domain against schoolbook half-word arithmetic; a tuple counts once as distinct however many operations and forms run on it");
    c.assume("u8: all operand pairs and moduli; u16: all unary operands, a grid of pairs (thorough: all pairs for the native word); wider words: boundary grid for every modulus");
    c.section("u8 all", "log modulus,a,b", |s| {
        s.par(256, |a, t| {
            let a = a as u8;
            w8::modulus(s, a);
            w8::native1(s, a);
            for e in 0..=300u32 {
                w8::native_exp(s, a, e);
                t.evals += 1;
                t.distinct += 1;
            }
            for b in 0..=255u8 {
                w8::native(s, a, b);
                for lg in 1..8 {
                    cur(&[lg as u64, a as u64, b as u64]);
                    w8::pair(s, lg, a, b);
                    w8::exp(s, lg, a, b as u64);
                    t.evals += 11;
                    t.distinct += 1;
                }
                t.evals += 6;
                t.distinct += 1;
            }
            for lg in 1..8 {
                w8::unary(s, lg, a);
                for e in edge_values(64) {
                    w8::exp(s, lg, a, e as u64);
                    t.evals += 4;
                    t.distinct += 1;
                }
            }
        });
        s.sample(|| J::s("u8: a,b in 0..=255, modulus 2..=128 and native"));
    });
    c.section("u16 all words", "log modulus,a", |s| {
        let grid: Vec<u16> = edge_values(16).into_iter().map(|x| x as u16).collect();
        s.par(65536, |a, t| {
            let a = a as u16;
            w16::modulus(s, a);
            w16::native1(s, a);
            for lg in 1..16 {
                cur(&[lg as u64, a as u64]);
                w16::unary(s, lg, a);
                for &b in &grid {
                    w16::pair(s, lg, a, b);
                }
                t.evals += 22 + 7 * grid.len() as u64;
                t.distinct += 1 + grid.len() as u64;
            }
            if c.thorough {
                for b in 0..=65535u16 {
                    w16::native(s, a, b);
                }
                t.evals += 6 * 65536;
                t.distinct += 65536;
            }
        });
    });
    macro_rules! grid {
        ($md:ident, $T:ty, $native:tt) => {
            c.section(concat!(stringify!($T), " grid"), "log modulus,a,b", |s| {
                let vs: Vec<$T> = edge_values(<$T>::BITS).into_iter().map(|x| x as $T).collect();
                let exps: Vec<u64> = { let mut v: Vec<u64> = edge_values(64).into_iter().map(|x| x as u64).collect(); v.extend(0..64); v.sort(); v.dedup(); v };
                for &v in &vs {
                    $md::modulus(s, v);
                }
                s.par(<$T>::BITS as usize - 1, |i, t| {
                    let lg = i as u32 + 1;
                    let mut ops = vs.clone();
                    let m: $T = 1 << lg;
                    for d in 1..4 {
                        ops.extend([m.wrapping_mul(3).wrapping_add(d), m.wrapping_mul(5).wrapping_sub(d), (m - 1) ^ (m >> d.min(lg as $T - 0))]);
                    }
                    for &a in &ops {
                        cur(&[lg as u64, a as u64]);
                        $md::unary(s, lg, a);
                        for &b in &ops {
                            cur(&[lg as u64, a as u64, b as u64]);
                            $md::pair(s, lg, a, b);
                            t.evals += 7;
                            t.distinct += 1;
                        }
                    }
                    for (k, &a) in ops.iter().enumerate() {
                        if k % 8 == 0 || a < 4 || a.wrapping_add(3) < 3 {
                            for &e in &exps {
                                $md::exp(s, lg, a, e);
                                t.evals += 4;
                                t.distinct += 1;
                            }
                        }
                    }
                });
                grid!(@$native $md, $T, s, vs);
            });
        };
        (@yes $md:ident, $T:ty, $s:ident, $vs:ident) => {
            $s.par($vs.len(), |i, t| {
                let a = $vs[i];
                $md::native1($s, a);
                for &b in &$vs {
                    $md::native($s, a, b);
                    $md::native_exp($s, a, b as u32);
                    t.evals += 7;
                    t.distinct += 1;
                }
            });
        };
        (@no $md:ident, $T:ty, $s:ident, $vs:ident) => {};
    }
    grid!(w16, u16, yes);
    grid!(w32, u32, yes);
    grid!(w64, u64, yes);
    grid!(w128, u128, no);
    c.finish()
}
