//! C06: double-word helpers, wrapping operations and casts against exact integers.
use algebra::{as_cast, AsFrom, AsInto, Bits, BorrowingSub, CarryingAdd, CarryingMul, ConstBounded, WideningMul, WrappingAdd, WrappingMul, WrappingNeg, WrappingShl, WrappingShr, WrappingSub};
use harness::*;

macro_rules! width {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            const BITS: u32 = <$T>::BITS;
            const MASK: u128 = (1u128 << BITS) - 1;
            #[inline]
            pub fn pair(s: &Sec, a: $T, b: $T) {
                let p = a as u128 * b as u128;
                let (lo, hi) = ((p & MASK) as $T, (p >> BITS) as $T);
                ck!(s, "widening_mul", [a, b], WideningMul::widening_mul(a, b), (lo, hi));
                ck!(s, "widening_mul_hw", [a, b], WideningMul::widening_mul_hw(a, b), hi);
                for c in [false, true] {
                    let w = a as u128 + b as u128 + c as u128;
                    ck!(s, "carrying_add", [a, b, c], CarryingAdd::carrying_add(a, b, c), ((w & MASK) as $T, w > MASK));
                    let d = (1u128 << BITS) + a as u128 - b as u128 - c as u128;
                    ck!(s, "borrowing_sub", [a, b, c], BorrowingSub::borrowing_sub(a, b, c), ((d & MASK) as $T, d < 1 << BITS));
                }
            }
            #[inline]
            pub fn wrapping(s: &Sec, a: $T, b: $T) {
                let (x, y) = (a as u128, b as u128);
                ck!(s, "wrapping_add", [a, b], WrappingAdd::wrapping_add(a, b), ((x + y) & MASK) as $T);
                ck!(s, "wrapping_sub", [a, b], WrappingSub::wrapping_sub(a, b), ((x + (1 << BITS) - y) & MASK) as $T);
                ck!(s, "wrapping_mul", [a, b], WrappingMul::wrapping_mul(a, b), (x * y & MASK) as $T);
                let (a, b) = (std::num::Wrapping(a), std::num::Wrapping(b));
                ck!(s, "Wrapping add", [a, b], WrappingAdd::wrapping_add(a, b).0, ((x + y) & MASK) as $T);
                ck!(s, "Wrapping sub", [a, b], WrappingSub::wrapping_sub(a, b).0, ((x + (1 << BITS) - y) & MASK) as $T);
                ck!(s, "Wrapping mul", [a, b], WrappingMul::wrapping_mul(a, b).0, (x * y & MASK) as $T);
            }
            pub fn unary(s: &Sec, a: $T) {
                let x = a as u128;
                ck!(s, "wrapping_neg", [a], WrappingNeg::wrapping_neg(a), (((1u128 << BITS) - x) & MASK) as $T);
                for r in (0..3 * BITS).chain([u32::MAX, u32::MAX - 1, 1 << 31]) {
                    let k = r % BITS;
                    ck!(s, "wrapping_shl", [a, r], WrappingShl::wrapping_shl(a, r), ((x << k) & MASK) as $T);
                    ck!(s, "wrapping_shr", [a, r], WrappingShr::wrapping_shr(a, r), (x >> k) as $T);
                }
            }
            #[inline]
            pub fn triple(s: &Sec, a: $T, b: $T, c: $T) {
                let p = a as u128 * b as u128 + c as u128;
                let (lo, hi) = ((p & MASK) as $T, (p >> BITS) as $T);
                ck!(s, "carrying_mul", [a, b, c], CarryingMul::carrying_mul(a, b, c), (lo, hi));
                ck!(s, "carrying_mul_hw", [a, b, c], CarryingMul::carrying_mul_hw(a, b, c), hi);
            }
            pub fn consts(s: &Sec) {
                ck!(s, "BITS/MIN/MAX", [BITS], (<$T as Bits>::BITS, <$T as ConstBounded>::MIN as u128, <$T as ConstBounded>::MAX as u128), (BITS, 0, MASK));
            }
        }
    };
}
width!(w8, u8);
width!(w16, u16);
width!(w32, u32);
width!(w64, u64);

macro_rules! signed {
    ($s:expr, $n:expr, $($T:ty),*) => {$(
        {
            ck!($s, concat!(stringify!($T), " consts"), [0], (<$T as Bits>::BITS, <$T as ConstBounded>::MIN, <$T as ConstBounded>::MAX), (<$T>::BITS, <$T>::MIN, <$T>::MAX));
            let vs: Vec<$T> = edge_values(<$T>::BITS).into_iter().map(|x| x as $T).collect();
            for &a in &vs {
                ck!($s, concat!(stringify!($T), " wrapping_neg"), [a], WrappingNeg::wrapping_neg(a), <$T>::wrapping_neg(a));
                for r in (0..2 * <$T>::BITS).chain([u32::MAX]) {
                    ck!($s, concat!(stringify!($T), " wrapping_shl"), [a, r], WrappingShl::wrapping_shl(a, r), a << (r % <$T>::BITS));
                    ck!($s, concat!(stringify!($T), " wrapping_shr"), [a, r], WrappingShr::wrapping_shr(a, r), a >> (r % <$T>::BITS));
                    $n += 2;
                }
                for &b in &vs {
                    ck!($s, concat!(stringify!($T), " wrapping_add"), [a, b], WrappingAdd::wrapping_add(a, b), a.overflowing_add(b).0);
                    ck!($s, concat!(stringify!($T), " wrapping_sub"), [a, b], WrappingSub::wrapping_sub(a, b), a.overflowing_sub(b).0);
                    ck!($s, concat!(stringify!($T), " wrapping_mul"), [a, b], WrappingMul::wrapping_mul(a, b), a.overflowing_mul(b).0);
                    $n += 3;
                }
            }
        }
    )*};
}
/// casts between two integer types: low bits of the sign-extended value
macro_rules! cast_to {
    ($s:expr, $n:expr, $T:ty => $($U:ty),*) => {$({
        let vs: Vec<$T> = edge_values(<$T>::BITS).into_iter().map(|x| x as $T).collect();
        for a in vs {
            let w: $U = {
                // value modulo 2^128, then truncated byte by byte
                let bytes = if a < (0 as $T) { (a as i128).to_le_bytes() } else { (a as u128).to_le_bytes() };
                let mut b = [0u8; std::mem::size_of::<$U>()];
                let k = b.len();
                b.copy_from_slice(&bytes[..k]);
                <$U>::from_le_bytes(b)
            };
            let g1: $U = as_cast(a);
            let g2: $U = AsInto::<$U>::as_into(a);
            let g3 = <$U as AsFrom<$T>>::as_from(a);
            ck!($s, concat!("cast ", stringify!($T), " to ", stringify!($U)), [a], (g1, g2, g3), (w, w, w));
            $n += 3;
        }
    })*};
}
macro_rules! casts {
    ($s:expr, $n:expr, $($T:ty),*) => {$(
        cast_to!($s, $n, $T => u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    )*};
}
/// integer to float and back; the oracle rounds to nearest even by hand for f64
fn f64_of(neg: bool, m: u128) -> f64 {
    if m == 0 {
        return 0.0;
    }
    let bits = 128 - m.leading_zeros();
    let mut exp = bits as i64 - 1;
    let frac = if bits <= 53 {
        m << (53 - bits)
    } else {
        let sh = bits - 53;
        let (q, r) = (m >> sh, m & ((1u128 << sh) - 1));
        let half = 1u128 << (sh - 1);
        let up = r > half || (r == half && q & 1 == 1);
        let q = q + up as u128;
        if q >> 53 == 1 {
            exp += 1;
            q >> 1
        } else {
            q
        }
    };
    let b = ((neg as u64) << 63) | (((exp + 1023) as u64) << 52) | (frac as u64 & ((1 << 52) - 1));
    f64::from_bits(b)
}
macro_rules! floats {
    ($s:expr, $n:expr, $($T:ty),*) => {$(
        let vs: Vec<$T> = edge_values(<$T>::BITS).into_iter().map(|x| x as $T).collect();
        for a in vs {
            let neg = a < (0 as $T);
            let m = if neg { (a as i128).unsigned_abs() } else { a as u128 };
            let f: f64 = as_cast(a);
            ck!($s, concat!("cast ", stringify!($T), " to f64"), [a], f.to_bits(), f64_of(neg, m).to_bits());
            // floats back to integers truncate and saturate
            for d in [-0.75f64, -0.5, 0.0, 0.25, 0.5, 0.999] {
                let x = f + d;
                let t = x.trunc();
                let w: $T = if t.is_nan() { 0 } else if t >= 2f64.powi(<$T>::BITS as i32 - (<$T>::MIN != 0) as i32) { <$T>::MAX } else if t <= <$T>::MIN as f64 { <$T>::MIN } else { t as i128 as $T };
                let w = if t >= 1.7e38 { <$T>::MAX.min(t as u128 as $T) } else { w };
                let g: $T = as_cast(x);
                ck!($s, concat!("cast f64 to ", stringify!($T)), [x], g, w);
                $n += 1;
            }
        }
        for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 1e300, -1e300] {
            let w: $T = if x.is_nan() { 0 } else if x > 1e40 { <$T>::MAX } else if x < -1e30 { <$T>::MIN } else if <$T>::MIN == 0 { 0 } else { (0 as $T).wrapping_sub(1) };
            let g: $T = as_cast(x);
            ck!($s, concat!("cast f64 to ", stringify!($T)), [x], g, w);
            $n += 1;
        }
    )*};
}

fn main() {
    let c = Ctx::new("C06", "exploration");
    c.rule("every operand tuple of the enumerated domain, executed and compared with 128-bit integer arithmetic; an operand tuple counts once as distinct");
    c.assume("u8 and u16: all pairs (u8: all triples); u32/u64: boundary grid");
    c.section("u8 all", "a", |s| {
        w8::consts(s);
        s.par(256, |a, t| {
            let a = a as u8;
            w8::unary(s, a);
            for b in 0..=255u8 {
                w8::pair(s, a, b);
                w8::wrapping(s, a, b);
                for x in 0..=255u8 {
                    w8::triple(s, a, b, x);
                }
                t.evals += 12 + 512;
                t.distinct += 257;
            }
        });
        s.sample(|| J::s("carrying_mul(a,b,c) for every a,b,c in 0..=255"));
    });
    c.section("u16 all pairs", "a", |s| {
        w16::consts(s);
        s.par(65536, |a, t| {
            let a = a as u16;
            w16::unary(s, a);
            for b in 0..=65535u16 {
                w16::pair(s, a, b);
                t.evals += 6;
                t.distinct += 1;
            }
            for b in edge_values(16) {
                w16::wrapping(s, a, b as u16);
                for x in [0u16, 1, 2, 255, 256, 32767, 32768, 65534, 65535] {
                    w16::triple(s, a, b as u16, x);
                    t.evals += 3;
                    t.distinct += 1;
                }
            }
        });
    });
    macro_rules! grid {
        ($md:ident, $T:ty) => {
            c.section(concat!(stringify!($T), " grid"), "a index", |s| {
                $md::consts(s);
                let vs: Vec<$T> = edge_values(<$T>::BITS).into_iter().map(|x| x as $T).collect();
                s.par(vs.len(), |i, t| {
                    let a = vs[i];
                    $md::unary(s, a);
                    for &b in &vs {
                        $md::pair(s, a, b);
                        $md::wrapping(s, a, b);
                        for &x in vs.iter() {
                            $md::triple(s, a, b, x);
                        }
                        t.evals += 12 + 2 * vs.len() as u64;
                        t.distinct += 1 + vs.len() as u64;
                    }
                });
            });
        };
    }
    grid!(w32, u32);
    grid!(w64, u64);
    c.section("signed and wide types", "value", |s| {
        let mut n = 0u64;
        signed!(s, n, i8, i16, i32, i64, i128, isize, usize, u128);
        s.add(&Tally { evals: n, distinct: n, ..Default::default() });
    });
    c.section("integer casts", "value", |s| {
        let mut n = 0u64;
        casts!(s, n, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
        s.add(&Tally { evals: n, distinct: n, ..Default::default() });
    });
    c.section("float casts", "value", |s| {
        let mut n = 0u64;
        floats!(s, n, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
        s.add(&Tally { evals: n, distinct: n, ..Default::default() });
    });
    c.finish()
}
