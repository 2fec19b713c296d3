//! C09: gadget decomposition recomposes exactly from bounded digits.
use algebra::*;
use fhe_core::{DefaultFieldU32, DefaultQks};
use harness::fields::*;
use harness::*;

fn least_len(modulus: u128, bits: u32) -> usize {
    let mut k = 0;
    let mut cover = 1u128; // values below `cover` are covered
    while cover < modulus {
        cover <<= bits;
        k += 1;
    }
    k
}
fn digits(mut v: u128, bits: u32, len: usize) -> Vec<u128> {
    (0..len)
        .map(|_| {
            let d = v & ((1 << bits) - 1);
            v >>= bits;
            d
        })
        .collect()
}

macro_rules! w {
    ($md:ident, $T:ty) => {
        mod $md {
            use super::*;
            pub fn field<F: DecomposableField<Value = $T>>(ctx: &Ctx, name: &str) {
                ctx.section(&format!("field {name}"), "modulus,bits,value", |s| {
                    let p = F::MODULUS_VALUE as u128;
                    let pbits = 128 - p.leading_zeros();
                    let vs: Vec<u128> = if p <= 20000 { (0..p).collect() } else {
                        let mut v: Vec<u128> = edge_operands(p, <$T>::BITS).into_iter().map(|x| x % p).collect();
                        let mut m = Mix(ctx.seed);
                        v.extend((0..ctx.tier(2000, 200000)).map(|_| m.next() as u128 % p));
                        v.sort();
                        v.dedup();
                        v
                    };
                    s.par(pbits as usize, |i, t| {
                        let bits = i as u32 + 1;
                        cur(&[p as u64, bits as u64]);
                        let b = Basis::<F>::new(bits);
                        let len = least_len(p, bits);
                        ck!(s, "number of digits", [p, bits], b.decompose_len(), len);
                        ck!(s, "basis", [p, bits], (b.bits(), b.basis() as u128, b.mask() as u128), (bits, 1u128 << bits, (1u128 << bits) - 1));
                        let val = |f: &F| f.value() as u128;
                        for &v in &vs {
                            cur(&[p as u64, bits as u64, v as u64]);
                            let f = F::new(v as $T);
                            let want = digits(v, bits, len);
                            // the oracle itself recomposes
                            assert!(want.iter().enumerate().fold(0, |a, (k, d)| a + (d << (k as u32 * bits))) == v);
                            ck!(s, "decompose", [p, bits, v], f.decompose(b).iter().map(val).collect::<Vec<_>>(), want);
                            // every kind of previous contents
                            for dirt in [0, 1, p - 1, v, (1u128 << bits) % p] {
                                let mut d = vec![F::new(dirt as $T); len];
                                f.decompose_at(b, &mut d);
                                ck!(s, "decompose_at into used destination", [p, bits, v, dirt], d.iter().map(val).collect::<Vec<_>>(), want);
                                t.evals += 1;
                            }
                            let (mut x, mut y) = (f, f);
                            let mut yd = F::new((p - 1) as $T);
                            for k in 0..len {
                                let d = x.decompose_lsb_bits(b.mask(), bits);
                                y.decompose_lsb_bits_at(&mut yd, b.mask(), bits);
                                ck!(s, "digit by digit", [p, bits, v, k], (val(&d), val(&yd)), (want[k], want[k]));
                            }
                            ck!(s, "rest after all digits", [p, bits, v], (val(&x), val(&y)), (0, 0));
                            t.evals += 3;
                            t.distinct += 1;
                        }
                        // polynomials: consecutive windows of the values, several lengths, used destinations
                        for n in [1usize, 2, 4, 8, 16] {
                            for w0 in (0..vs.len()).step_by(n.max(vs.len() / 4000)) {
                                let cs: Vec<u128> = (0..n).map(|k| vs[(w0 + k * 37) % vs.len()]).collect();
                                cur(&[p as u64, bits as u64, cs[0] as u64]);
                                let poly = Polynomial::<F>::new(cs.iter().map(|c| F::new(*c as $T)).collect());
                                let want: Vec<Vec<u128>> = (0..len).map(|k| cs.iter().map(|c| digits(*c, bits, len)[k]).collect()).collect();
                                let show = |v: &Polynomial<F>| v.iter().map(val).collect::<Vec<_>>();
                                ck!(s, "polynomial decompose", [p, bits, cs], poly.clone().decompose(b).iter().map(show).collect::<Vec<_>>(), want);
                                let mut d = vec![Polynomial::<F>::new(vec![F::new((p - 1) as $T); n]); len];
                                let mut q = poly.clone();
                                q.decompose_inplace(b, &mut d);
                                ck!(s, "polynomial decompose_inplace", [p, bits, cs], d.iter().map(show).collect::<Vec<_>>(), want);
                                ck!(s, "polynomial left over", [p, bits, cs], show(&q), vec![0; n]);
                                let mut q = poly.clone();
                                let mut d = vec![F::new((p - 1) as $T); n];
                                for k in 0..len {
                                    q.decompose_lsb_bits_inplace(b, &mut d);
                                    ck!(s, "polynomial digit by digit", [p, bits, cs, k], d.iter().map(val).collect::<Vec<_>>(), want[k].clone());
                                }
                                t.evals += 3;
                                t.distinct += 1;
                            }
                        }
                    });
                });
            }
            /// integer words
            pub fn word(s: &Sec, m: $T, bits: u32, vs: &[$T], t: &mut Tally) {
                let b = lattice::Basis::<$T>::new(bits, m);
                let len = least_len(m as u128, bits);
                ck!(s, "number of digits", [m, bits], b.decompose_len(), len);
                ck!(s, "basis", [m, bits], (b.bits() as u32, b.basis() as u128, b.mask() as u128), (bits, 1u128 << bits, (1u128 << bits) - 1));
                let mut data = vs.to_vec();
                let mut dest = vec![m - 1; vs.len()];
                for k in 0..len {
                    lattice::decompose_lsb_bits_inplace(&mut data, b, &mut dest);
                    for (v, d) in vs.iter().zip(&dest) {
                        let w = (*v as u128 >> (k as u32 * bits)) & ((1 << bits) - 1);
                        if *d as u128 != w {
                            ck!(s, "word digit", [m, bits, v, k], *d as u128, w);
                        }
                    }
                }
                ck!(s, "word rest", [m, bits], data.iter().all(|x| *x == 0), true);
                t.evals += vs.len() as u64;
                t.distinct += vs.len() as u64;
            }
            pub fn words(ctx: &Ctx, name: &str, moduli: Vec<$T>, all: bool) {
                ctx.section(&format!("words {name}"), "modulus,bits", |s| {
                    s.par(moduli.len(), |i, t| {
                        let m = moduli[i];
                        let vs: Vec<$T> = if all { (0..m).collect() } else {
                            let mut v: Vec<$T> = edge_operands(m as u128, <$T>::BITS).into_iter().map(|x| x as $T % m).collect();
                            v.sort();
                            v.dedup();
                            v
                        };
                        // bits needed for the values 0..m
                        let mb = if m.is_power_of_two() { m.trailing_zeros() } else { <$T>::BITS - m.leading_zeros() };
                        for bits in 1..=<$T>::BITS {
                            cur(&[m as u64, bits as u64]);
                            if bits <= mb && bits < <$T>::BITS {
                                word(s, m, bits, &vs, t);
                            } else {
                                let refused = catch(|| lattice::Basis::<$T>::new(bits, m)).is_err();
                                ck!(s, "basis wider than the modulus refused", [m, bits], refused, true);
                                t.evals += 1;
                            }
                        }
                    });
                });
            }
        }
    };
}
w!(w8, u8);
w!(w16, u16);
w!(w32, u32);
w!(w64, u64);
macro_rules! f { ($c:expr, $md:ident; $($F:ident)*) => { $( $md::field::<$F>($c, stringify!($F)); )* } }

fn main() {
    let ctx = Ctx::new("C09", "exploration");
    let c = &ctx;
    c.rule("every (modulus, basis width, value) of the enumerated domain, with each value decomposed by every form and into destinations with several previous contents; each (modulus, width, value or polynomial) counts once as distinct");
    c.assume("fields below 20000: every value and every basis width; other fields and words above 8 bits: boundary values, plus seeded filler values");
    f!(c, w8; F2b F3b F5b F7b F11b F13b F17b F19b F23b F29b F31b F37b F41b F43b F47b F53b F59b F61b);
    f!(c, w16; F97h F257h F7681h F16193h F16381h);
    f!(c, w32; F17 F97 F193 F257 F12289 F15361 F65537 F132M F998 FTop32 FMax32 DefaultFieldU32 DefaultQks);
    f!(c, w64; F17q F257q F6T F60 FBig64 FTop64 FMax64);
    w8::words(c, "u8 all", (2..=255).collect(), true);
    let pw16: Vec<u16> = (1..16).map(|k| 1u16 << k).collect();
    w16::words(c, "u16 powers of two, all values", pw16, true);
    let g = |b: u32| edge_values(b).into_iter().filter(|m| *m >= 2).collect::<Vec<_>>();
    w16::words(c, "u16", if c.thorough { (2..=65535).collect() } else { g(16).into_iter().map(|m| m as u16).collect() }, false);
    w32::words(c, "u32", g(32).into_iter().map(|m| m as u32).collect(), false);
    w64::words(c, "u64", g(64).into_iter().map(|m| m as u64).collect(), false);
    ctx.finish()
}
