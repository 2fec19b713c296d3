"""Planted bugs: edits of /repo (file, old text, new text[, which occurrence]) and a demonstration."""
FIELD = '''
use algebra::*;
'''
SEEDS = []
def seed(id, property, edits, main, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, main=main, needs=needs, breaks=breaks))

seed("s01-barrett-equal", "C01",
  [("algebra/src/modulus/barrett/internal_macros.rs",
    "                let r = self.lazy_reduce(modulus);\n\n                if r >= modulus.value() {",
    "                let r = self.lazy_reduce(modulus);\n\n                if r > modulus.value() {", 1)],
  '''
use algebra::modulus::BarrettModulus;
use algebra::reduce::*;
fn main() {
    for (x, y) in [(3u64, 5u64), (65537, 65539), (12, 34)] {
        let m = BarrettModulus::<u64>::new(x * y);
        assert_eq!(x.mul_reduce(y, m), 0, "{x}*{y} mod {}", x * y);
    }
}
''', "a product equal to a multiple of the modulus, which a prime modulus never shows",
  "the product of two non-trivial divisors of a composite modulus is the modulus itself instead of zero")

seed("s02-goldilocks-add", "C04",
  [("algebra/src/modulus/goldilocks/ops.rs",
'''        let (mut sum, over) = sum.overflowing_add((over as u64) * EPSILON);
        if over {
            sum += EPSILON; // Cannot overflow.
        }
        sum''',
'''        sum.wrapping_add((over as u64) * EPSILON)''')],
  '''
use algebra::modulus::{GoldilocksModulus, to_canonical_u64};
use algebra::reduce::*;
fn main() {
    // adding -1 and 1.. builds non canonical representatives; add two of them
    let p: u64 = 0xffff_ffff_0000_0001;
    for (a, b) in [(u64::MAX, u64::MAX), (u64::MAX - 5, u64::MAX), (p + 7, u64::MAX)] {
        let got = to_canonical_u64(a.add_reduce(b, GoldilocksModulus));
        assert_eq!(got as u128, (a as u128 + b as u128) % p as u128, "{a} + {b}");
    }
}
''', "two operands that are both non-canonical representatives left by earlier operations",
  "the sum loses 2^32-1 when adding the correction overflows a second time")

seed("s03-pow2-sub", "C05",
  [("algebra/src/modulus/powof2/internal_macros.rs",
'''            fn sub_reduce_assign(&mut self, rhs: Self, modulus: PowOf2Modulus<Self>) {
                *self = self.wrapping_sub(rhs) & modulus.mask();
            }''',
'''            fn sub_reduce_assign(&mut self, rhs: Self, modulus: PowOf2Modulus<Self>) {
                let (diff, borrow) = self.overflowing_sub(rhs);
                *self = if borrow { diff & modulus.mask() } else { diff };
            }''')],
  '''
use algebra::modulus::PowOf2Modulus;
use algebra::reduce::*;
fn main() {
    let m = PowOf2Modulus::<u32>::new(16);
    let mut a = 100u32;
    a.sub_reduce_assign(3, m);
    assert_eq!(a, 97 % 16);
}
''', "a minuend that is not reduced yet", "in-place subtraction returns an unreduced value")

seed("s04-borrow-max", "C06",
  [("algebra/src/primitive/widening/borrowing_sub.rs",
'''                        let (a, b) = self.overflowing_sub(rhs);
                        let (c, d) = a.overflowing_sub(borrow as Self);
                        (c, b || d)''',
'''                        self.overflowing_sub(rhs.wrapping_add(borrow as Self))''')],
  '''
use algebra::BorrowingSub;
fn main() {
    assert_eq!(BorrowingSub::borrowing_sub(7u16, u16::MAX, true), (7, true));
    assert_eq!(BorrowingSub::borrowing_sub(7u8, 255, true), (7, true));
    assert_eq!(BorrowingSub::borrowing_sub(7u8, 7, true), (255, true));
}
''', "the largest subtrahend together with an incoming borrow", "the outgoing borrow is lost")

seed("s05-prime-53", "C07",
  [("algebra/src/utils/prime.rs", "if value < 64 {", "if value < 53 {")],
  '''
use algebra::{modulus::BarrettModulus, utils::Prime};
fn main() {
    for p in [2u32, 47, 53, 59, 61, 67] {
        assert!(BarrettModulus::<u32>::new(p).probably_prime(20), "{p}");
    }
}
''', "the modulus 53", "53 is reported composite because trial division runs before the table")

seed("s06-deserialize", "C08",
  [("algebra_derive/src/basic.rs", "Ok(::algebra::Field::new(value))", "Ok(#name(value))")],
  '''
use algebra::{derive::*, *};
use serde::de::{value::{Error, U32Deserializer}, IntoDeserializer};
use serde::Deserialize;
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    for v in [0u32, 1, 132120576, 132120577, 132120578] {
        let d: U32Deserializer<Error> = v.into_deserializer();
        match FF::deserialize(d) {
            Ok(x) => assert!(x.value() == v % 132120577, "{v} -> {x}"),
            Err(_) => assert!(v >= 132120577),
        }
    }
}
''', "a serialised value that is not below the modulus", "deserialisation yields a non-canonical field element")

seed("s07-decompose-early", "C09",
  [("algebra/src/polynomial/native_polynomial.rs",
'''            debug_assert_eq!(d_poly.coeff_count(), self.coeff_count());
            d_poly''',
'''            debug_assert_eq!(d_poly.coeff_count(), self.coeff_count());
            if self.is_zero() {
                return;
            }
            d_poly''')],
  '''
use algebra::{derive::*, *};
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    let b = Basis::<FF>::new(3);
    let mut d = vec![Polynomial::<FF>::new(vec![FF::new(1); 4]); b.decompose_len()];
    Polynomial::<FF>::new([1u32, 2, 3, 4].map(FF::new).to_vec()).decompose_inplace(b, &mut d);
    for i in 0..4 {
        let mut v = 0u64;
        for (k, p) in d.iter().enumerate() { v += (p[i].value() as u64) << (3 * k); }
        assert_eq!(v, i as u64 + 1);
    }
}
''', "a used destination and a polynomial whose coefficients are small",
  "the higher digit polynomials keep what the destination held before")

seed("s08-intt-zero", "C10",
  [("algebra/src/transformation/ntt_table.rs",
'''    if a.value() >= F::MODULUS_VALUE {
        *a = F::lazy_new(a.value() - F::MODULUS_VALUE)''',
'''    if a.value() > F::MODULUS_VALUE {
        *a = F::lazy_new(a.value() - F::MODULUS_VALUE)''')],
  '''
use algebra::{derive::*, *};
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    for k in 0..8 {
        let mut v = vec![FF::new(0); 8];
        v[k] = FF::new(5);
        let p = Polynomial::<FF>::new(v.clone());
        let q = p.clone().into_ntt_polynomial().into_native_polynomial();
        assert_eq!(p, q);
    }
}
''', "coefficients that are zero after an inverse transform",
  "a zero coefficient comes back as the modulus, a non-canonical value")

seed("s09-monomial-n", "C11",
  [("algebra/src/transformation/ntt_table.rs",
'''        if degree == 0 {
            values.fill(F::one());
            return;
        }

        let log_n = self.coeff_count_power();
        debug_assert_eq!(values.len(), 1 << log_n);''',
'''        let log_n = self.coeff_count_power();
        debug_assert_eq!(values.len(), 1 << log_n);

        if degree.trailing_zeros() >= log_n {
            values.fill(F::one());
            return;
        }''')],
  '''
use algebra::{derive::*, transformation::MonomialNTT, *};
use num_traits::One;
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    let t = FF::get_ntt_table(3).unwrap();
    for d in 0..16 {
        let (mut a, mut b) = (vec![FF::new(0); 8], vec![FF::new(0); 8]);
        t.transform_coeff_one_monomial(d, &mut a);
        t.transform_monomial(FF::one(), d, &mut b);
        assert_eq!(a, b, "degree {d}");
    }
}
''', "a degree equal to the ring dimension", "X^N is transformed as one instead of minus one")

seed("s10-minimal-root", "C12",
  [("algebra_derive/src/ntt.rs", "for _ in 0..degree {", "for _ in 1..(degree >> 1) {")],
  '''
use algebra::{derive::*, *};
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    for d in [2u32, 4, 8, 16] {
        let first = FF::try_minimal_primitive_root(d).unwrap();
        for _ in 0..1000 {
            assert_eq!(FF::try_minimal_primitive_root(d).unwrap(), first, "degree {d}");
        }
    }
}
''', "a random choice of the first root whose last conjugate is the minimal one",
  "the minimal root, and with it the transform table, depends on the random generator")


seed("s12-dirty-destination", "C19",
  [("lattice/src/gadget/rlwe.rs",
'''        polynomial_space.copy_from(polynomial);

        destination.set_zero();
''', '''        polynomial_space.copy_from(polynomial);

''', 0)],
  '''
use algebra::{derive::*, *};
use lattice::*;
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    let n = 8;
    let b = algebra::Basis::<FF>::new(3);
    let one = || NTTPolynomial::<FF>::new(vec![FF::new(1); n]);
    let g = NTTGadgetRLWE::new((0..b.decompose_len()).map(|_| NTTRLWE::new(one(), one())).collect(), b);
    let p = Polynomial::<FF>::new((0..n as u32).map(FF::new).collect());
    let want = g.mul_polynomial(&p);
    let mut ds = DecompositionSpace::new(n);
    let mut ps = PolynomialSpace::new(n);
    let mut out = NTTRLWE::<FF>::zero(n);
    for _ in 0..2 {
        g.mul_polynomial_inplace(&p, &mut ds, &mut ps, &mut out);
        assert_eq!(out, want);
    }
}
''', "a destination that has been used before", "the product is added to the old content of the destination")

seed("s13-switch-top", "C23",
  [("fhe_core/src/modulus_switch.rs", "        if v < modulus_after {", "        if v <= modulus_after {", 2)],
  '''
use fhe_core::*;
use lattice::LWE;
fn main() {
    for v in 0..1024u16 {
        let mut c = LWE::<u16>::new(vec![v], v);
        lwe_modulus_switch_assign_between_modulus(&mut c, 1024, 512);
        let want = (((v as f64) / 2.0).round() as u16) % 512;
        assert_eq!((c.a()[0], c.b()), (want, want), "{v}");
    }
}
''', "a component so near the modulus that it rounds up to the new modulus",
  "such a component becomes the new modulus itself instead of zero")

seed("s14-ternary-tail", "C28",
  [("algebra/src/utils/sample.rs",
'''    for elem in iter.into_remainder() {
        *elem = s[(r & 0b11) as usize];
        r >>= 2;
    }''',
'''    for elem in iter.into_remainder() {
        *elem = s[(r & 0b11) as usize];
        r >>= 1;
    }''')],
  '''
use algebra::{derive::*, *};
#[derive(Field, DecomposableField, FheField, Prime, NTT)]
#[modulus = 132120577]
pub struct FF(u32);
fn main() {
    // every one of the nine pairs has to occur among the last two entries
    let mut rng = rand::thread_rng();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..20000 {
        let v = Polynomial::<FF>::random_with_ternary(18, &mut rng);
        seen.insert((v[16].value(), v[17].value()));
    }
    assert_eq!(seen.len(), 9, "{seen:?}");
}
''', "a length that is not a multiple of sixteen, and a look at two neighbouring entries together",
  "the entries of the last partial group share bits of the generator and are not independent")

seed("s15-block-display", "C30",
  [("algebra/src/utils/block.rs", '''write!(f, "{:02X}", byte)?;''', '''write!(f, "{:X}", byte)?;''', 1)],
  '''
use algebra::utils::Block;
fn main() {
    for v in [0u128, 1, 0x0102030405060708090A0B0C0D0E0F10, u128::MAX] {
        assert_eq!(format!("{}", Block::from(v)), format!("{v:032X}"));
    }
}
''', "a byte below sixteen", "printing a block drops leading zeros of its bytes")

seed("s16-reverse-high", "C34",
  [("algebra/src/utils/reverse.rs", "self.reverse_bits() >> (Self::BITS - bits)", "self.reverse_bits().rotate_left(bits)")],
  '''
use algebra::utils::ReverseLsbs;
fn main() {
    for bits in 0..8u32 {
        for v in 0..=255u8 {
            let mut want = 0u8;
            for i in 0..bits { if v >> i & 1 == 1 { want |= 1 << (bits - 1 - i); } }
            assert_eq!(v.reverse_lsbs(bits), want, "{v} {bits}");
        }
    }
}
''', "a value with bits set above the reversed ones", "the higher bits of the value are left in the result")

seed("s17-gcd-sub", "C03",
  [("algebra/src/reduce/macros.rs",
'''                if gcd == 1 {
                    if inv > 0 {''',
'''                if gcd & 1 == 1 {
                    if inv > 0 {''')],
  '''
use algebra::reduce::TryInvReduce;
fn main() {
    for m in 2..200u32 {
        for x in 1..m {
            match x.try_inv_reduce(m) {
                Ok(i) => assert_eq!(i as u64 * x as u64 % m as u64, 1, "{x} modulo {m}"),
                Err(_) => assert!((1..m).all(|i| i * x % m != 1)),
            }
        }
    }
}
''', "a value that shares an odd factor with the modulus", "a number that is not an inverse is returned instead of an error")

TOY = '''
use algebra::*;
use fhe_core::*;
use lattice::*;
type F = DefaultFieldU32;
#[allow(dead_code)]
fn params(n: usize, q: u16, big_n: usize, steps: Steps, bb: u32, kb: u32, std: f64) -> Parameters<u16, F> {
    Parameters::new(ConstParameters {
        lwe_dimension: n,
        lwe_plain_modulus: 4,
        lwe_cipher_modulus: q,
        lwe_noise_standard_deviation: std,
        lwe_secret_key_type: LWESecretKeyType::Ternary,
        ring_dimension: big_n,
        ring_modulus: F::MODULUS_VALUE,
        ring_noise_standard_deviation: std,
        ring_secret_key_type: RingSecretKeyType::Ternary,
        blind_rotation_basis_bits: bb,
        steps,
        key_switching_basis_bits: kb,
        key_switching_standard_deviation: std,
    })
    .unwrap()
}
'''

seed("s18-table-outside-lock", "C13",
  [("algebra_derive/src/ntt.rs",
'''                Self::init_ntt_table(&[log_n])?;
''',
'''                // generating a table takes a while: do not hold the lock meanwhile
                let fresh = ::std::sync::Arc::new(Self::generate_ntt_table(log_n)?);
                if let Some(tables) = #ntt_table.write().unwrap().get_mut() {
                    tables.insert(log_n, ::std::sync::Arc::clone(&fresh));
                    return Ok(fresh);
                }
                Self::init_ntt_table(&[log_n])?;
''')],
  '''
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use std::sync::{Arc, Barrier};
fn main() {
    F::init_ntt_table(&[2]).unwrap();
    for log_n in 3..17 {
        let bar = Arc::new(Barrier::new(8));
        let t: Vec<_> = (0..8).map(|_| { let bar = bar.clone(); std::thread::spawn(move || { bar.wait(); F::get_ntt_table(log_n).unwrap() }) }).collect();
        let v: Vec<_> = t.into_iter().map(|t| t.join().unwrap()).collect();
        let cached = F::get_ntt_table(log_n).unwrap();
        assert!(v.iter().all(|x| Arc::ptr_eq(x, &cached)), "length 2^{log_n}: different tables");
    }
}
''', "two threads that both miss the cache before either has stored its table",
  "threads that request a table at the same time get different tables, the later replacing the one handed out before")

seed("s19-nested-read", "C13",
  [("algebra_derive/src/ntt.rs",
'''                    if let Some(t) = tables.get(&log_n) {
                        return Ok(::std::sync::Arc::clone(t));
                    }
''',
'''                    if tables.contains_key(&log_n) {
                        return Ok(::std::sync::Arc::clone(
                            #ntt_table.read().unwrap().get().unwrap().get(&log_n).unwrap()
                        ));
                    }
''')],
  '''
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static DONE: AtomicU64 = AtomicU64::new(0);
fn main() {
    F::init_ntt_table(&[3]).unwrap();
    for w in 0..4 {
        std::thread::spawn(move || {
            for _ in 0..300_000 {
                if w == 0 { F::init_ntt_table(&[3]).unwrap(); } else { F::get_ntt_table(3).unwrap(); }
                DONE.fetch_add(1, SeqCst);
            }
        });
    }
    // progress stops for good when a writer queues between the two read locks
    let mut last = 0;
    loop {
        for _ in 0..40 {
            std::thread::sleep(std::time::Duration::from_millis(250));
            if DONE.load(SeqCst) == 1_200_000 { return; }
        }
        let now = DONE.load(SeqCst);
        assert!(now != last, "no thread makes progress: deadlock after {now} requests");
        last = now;
    }
}
''', "a writer that queues between a reader's two read locks", "the table request takes the read lock twice and deadlocks with a waiting writer")

seed("s20-skip-unsupported", "C14",
  [("algebra_derive/src/ntt.rs",
'''                        for &log_n in difference {
                            let temp_table = Self::generate_ntt_table(log_n)?;
''',
'''                        for &log_n in difference {
                            let Ok(temp_table) = Self::generate_ntt_table(log_n) else {
                                continue;
                            };
''')],
  '''
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    assert!(F::get_ntt_table(25).is_err());
    assert!(F::get_ntt_table(4).is_ok());
    assert!(F::init_ntt_table(&[3, 25]).is_err(), "an unsupported length is accepted once the cache exists");
}
''', "an unsupported length requested after a supported one", "initialising an unsupported length succeeds when some table is cached already")

seed("s21-rotate-half", "C20",
  [("fhe_core/src/blind_rotation/ternary.rs", "            if neg_b <= rlwe_dimension {", "            if neg_b < rlwe_dimension {"),
   ("fhe_core/src/blind_rotation/ternary.rs",
'''            } else {
                let r = neg_b - rlwe_dimension;
''',
'''            } else if neg_b > rlwe_dimension {
                let r = neg_b - rlwe_dimension;
''')],
  TOY + '''
fn main() {
    let p = params(2, 64, 32, Steps::BrKsMs, 7, 7, 0.4);
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let key = BlindRotationKey::generate(&sk, &mut rng);
    for b in 0..64u16 {
        let lut = Polynomial::<F>::new((0..32u32).map(|i| F::new(i + 1)).collect());
        let out = key.blind_rotate(lut.clone(), &LWE::new(vec![0u16; 2], b), p.blind_rotation_basis());
        for i in 0..32usize {
            // coefficient i of lut * X^{-b}
            let j = (i + b as usize) % 64;
            let want = if j < 32 { lut[j] } else { -lut[j - 32] };
            assert_eq!(out.b()[i], want, "b = {b}, coefficient {i}");
        }
    }
}
''', "a ciphertext whose body is exactly N after the modulus switch", "the sign is lost when the rotation is by exactly N")

seed("s22-switch-break", "C21",
  [("fhe_core/src/key_switch/lwe.rs",
'''        self.key.iter().for_each(|inner| {
            decompose_lsb_bits_inplace(a, self.basis, &mut decomposed);
''',
'''        for inner in self.key.iter() {
            decompose_lsb_bits_inplace(a, self.basis, &mut decomposed);
            // nothing left to decompose
            if decomposed.iter().all(|d| d.is_zero()) {
                break;
            }
'''),
   ("fhe_core/src/key_switch/lwe.rs",
'''                    result.add_reduce_inplace_component_wise(&s_i[index], self.modulus);
                }
            });
        });
''',
'''                    result.add_reduce_inplace_component_wise(&s_i[index], self.modulus);
                }
            });
        }
''')],
  TOY + '''
fn phase(c: &LWE<u16>, s: &[u16], q: u16) -> u16 {
    let d = c.a().iter().zip(s).fold(0u32, |x, (&a, &s)| (x + a as u32 * s as u32) % q as u32) as u16;
    (c.b() + q - d) % q
}
fn main() {
    let q = 1u16 << 12;
    let p = params(4, q, 16, Steps::BrMsKs, 7, 4, 0.4);
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let key = KeySwitchingLWEKey::generate(&sk, &mut rng);
    let ring: Vec<u16> = sk.ring_secret_key().iter().map(|&v| if v == F::new(0) { 0 } else if v == F::new(1) { 1 } else { q - 1 }).collect();
    for step in [1u16, 7, 16, 48, 256, 1024] {
        for k in 0..16u16 {
            let a: Vec<u16> = (0..16u16).map(|i| (i * k + k) % 5 * step % q).collect();
            let c = LWE::new(a, 5 * k);
            let want = phase(&c, &ring, q);
            let got = phase(&key.key_switch_for_lwe(c), sk.lwe_secret_key(), q);
            let e = (got + q - want) % q;
            assert!(e.min(q - e) < 150, "mask of multiples of {step}: phase {want} became {got}");
        }
    }
}
''', "a mask all of whose entries are multiples of the basis", "key switching stops at the first position where every digit is zero and drops the higher ones")

seed("s23-switch-sparse", "C22",
  [("fhe_core/src/key_switch/rlwe.rs",
'''            polynomial_space.copy_from(a_i);
''',
'''            // nothing to add for a zero polynomial
            if a_i.iter().step_by(2).all(|v| v.is_zero()) {
                return;
            }
            polynomial_space.copy_from(a_i);
''')],
  TOY + '''
fn main() {
    let p = params(8, 64, 16, Steps::BrKsMs, 7, 3, 0.4);
    let mut rng = rand::thread_rng();
    let q = F::MODULUS_VALUE as u64;
    let sk = SecretKeyPack::new(p, &mut rng);
    let key = KeySwitchingRLWEKey::generate(&sk, &mut rng);
    let phase = |c: &LWE<F>, s: &[u64]| {
        let d = c.a().iter().zip(s).fold(0u64, |x, (a, &s)| (x + a.value() as u64 * s) % q);
        (c.b().value() as u64 + q - d) % q
    };
    let ring: Vec<u64> = sk.ring_secret_key().iter().map(|v| v.value() as u64).collect();
    let lwe: Vec<u64> = sk.lwe_secret_key().iter().map(|&v| match v { 0 => 0, 1 => 1, _ => q - 1 }).collect();
    for i in 0..16 {
        let mut a = vec![F::new(0); 16];
        a[i] = F::new(30_000_000);
        let c = LWE::new(a, F::new(11));
        let want = phase(&c, &ring);
        let got = phase(&key.key_switch_for_lwe(c), &lwe);
        let e = (got + q - want) % q;
        assert!(e.min(q - e) < 20_000, "mask with entry {i} only: phase {want} became {got}");
    }
}
''', "a mask whose even entries (in one block) are all zero", "the key switch takes such a block for zero and drops it")

seed("s24-decode-negative", "C24",
  [("fhe_core/src/plaintext.rs",
'''    let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);
''',
'''    let decoded = ((temp >> 1u32) + (temp & 1)).min(t - 1);
''')],
  '''
use fhe_core::*;
fn main() {
    for noise in 0..128u16 {
        assert_eq!(decode::<u8, u16>(noise, 4, 1024), 0);
        assert_eq!(decode::<u8, u16>((1024 - noise) % 1024, 4, 1024), 0, "message 0 with noise -{noise}");
    }
}
''', "the message zero with negative noise, which wraps around", "decoding the message zero with negative noise gives the largest message")

seed("s25-majority-edge", "C26",
  [("bool/src/bfhe/evaluate.rs",
"    let mid = (rlwe_dimension >> 1) + (rlwe_dimension >> 2); // 3N/4",
"    let mid = (rlwe_dimension >> 1) + (rlwe_dimension >> 2) + (rlwe_dimension >> 3); // 3N/4")],
  TOY + '''
use zkfhe::bfhe::Evaluator;
fn main() {
    let p = params(4, 512, 256, Steps::BrKsMs, 7, 7, 0.4);
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let ev = Evaluator::new(&sk, &mut rng);
    let c = |b: bool, e: i32| LWE::new(vec![0u16; 4], (if b { 128 } else { 0 } + e).rem_euclid(512) as u16);
    for e in [-25, 0, 25] {
        for i in 0..4 {
            let (x, y) = (i & 1 == 1, i & 2 == 2);
            let (cx, cy) = (c(x, e), c(y, e));
            assert_eq!(sk.decrypt::<bool>(&ev.and(&cx, &cy)), x && y, "{x} and {y} with noise {e}");
            assert_eq!(sk.decrypt::<bool>(&ev.nand(&cx, &cy)), !(x && y), "{x} nand {y} with noise {e}");
        }
    }
}
''', "two true inputs whose noise is negative and larger than what fresh encryptions carry", "and, nand and majority take such a sum for false although it is within the margin")

seed("s26-third-digit", "C35",
  [("fhe_core/src/key_switch/lwe.rs", "                if j < len - 1 {", "                if j == 0 {")],
  TOY + '''
fn phase(c: &LWE<u16>, s: &[u16], q: u16) -> u16 {
    let d = c.a().iter().zip(s).fold(0u32, |x, (&a, &s)| (x + a as u32 * s as u32) % q as u32) as u16;
    (c.b() + q - d) % q
}
fn main() {
    let mut rng = rand::thread_rng();
    for kb in [4u32, 6] {
        let q = 1u16 << 12;
        let p = params(4, q, 16, Steps::BrMsKs, 7, kb, 0.4);
        let sk = SecretKeyPack::new(p, &mut rng);
        let key = KeySwitchingLWEKey::generate(&sk, &mut rng);
        let ring: Vec<u16> = sk.ring_secret_key().iter().map(|&v| if v == F::new(0) { 0 } else if v == F::new(1) { 1 } else { q - 1 }).collect();
        for i in 0..16usize {
            let mut a = vec![0; 16];
            a[i] = 1024;
            let c = LWE::new(a, 5);
            let want = phase(&c, &ring, q);
            let got = phase(&key.key_switch_for_lwe(c), sk.lwe_secret_key(), q);
            let e = (got + q - want) % q;
            assert!(e.min(q - e) < 150, "basis of {kb} bits: phase {want} became {got}");
        }
    }
}
''', "a key switching basis for which the ciphertext modulus has three digits or more (the shipped parameters have two)",
  "the key switching rows of the third and later digits encrypt the secret times the wrong power of the basis")

seed("s27-step-cache", "C32",
  [("bool/src/bfhe/evaluate.rs",
'''    pub fn lut_step(&self) -> usize {
        let q: usize''',
'''    pub fn lut_step(&self) -> usize {
        // the same for every gate: compute it once
        static STEP: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        *STEP.get_or_init(|| self.compute_lut_step())
    }

    fn compute_lut_step(&self) -> usize {
        let q: usize''')],
  TOY + '''
use zkfhe::bfhe::Evaluator;
fn main() {
    let mut rng = rand::thread_rng();
    for q in [64u16, 512] {
        let p = params(4, q, 256, Steps::BrKsMs, 7, 7, 0.2);
        let sk = SecretKeyPack::new(p, &mut rng);
        let ev = Evaluator::new(&sk, &mut rng);
        let c = |b: bool, e: i32| LWE::new(vec![0u16; 4], (if b { q as i32 / 4 } else { 0 } + e).rem_euclid(q as i32) as u16);
        for e in -1..2 {
            for i in 0..4 {
                let (x, y) = (i & 1 == 1, i & 2 == 2);
                assert_eq!(sk.decrypt::<bool>(&ev.and(&c(x, e), &c(y, 0))), x && y, "q={q}: {x} and {y} with noise {e}");
            }
        }
    }
}
''', "two evaluators in one process, the first with a smaller ciphertext modulus", "the step of the lookup table is that of the first evaluator ever used")

seed("s28-shared-scratch", "C33",
  [("fhe_core/src/key_switch/lwe.rs",
'''        let mut decomposed = vec![C::ZERO; a.len()];
        self.key.iter().for_each(|inner| {
            decompose_lsb_bits_inplace(a, self.basis, &mut decomposed);
            decomposed.iter().zip(inner).for_each(|(&d_i, s_i)| {
''',
'''        self.key.iter().for_each(|inner| {
            {
                let mut decomposed = self.scratch.lock().unwrap();
                decomposed.resize(a.len(), C::ZERO);
                decompose_lsb_bits_inplace(a, self.basis, &mut decomposed);
            }
            let decomposed = self.scratch.lock().unwrap();
            decomposed.iter().zip(inner).for_each(|(&d_i, s_i)| {
'''),
   ("fhe_core/src/key_switch/lwe.rs", "    key: Vec<Vec<Vec<LWE<C>>>>,\n}", "    key: Vec<Vec<Vec<LWE<C>>>>,\n    /// The digits of one position, kept from call to call.\n    scratch: std::sync::Arc<std::sync::Mutex<Vec<C>>>,\n}"),
   ("fhe_core/src/key_switch/lwe.rs", "            key,\n        }", "            key,\n            scratch: Default::default(),\n        }")],
  TOY + '''
use zkfhe::bfhe::Evaluator;
fn main() {
    let q = 1u16 << 12;
    let p = params(8, q, 64, Steps::BrMsKs, 7, 3, 0.4);
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let ev = Evaluator::new(&sk, &mut rng);
    let x: Vec<_> = (0..8).map(|i| sk.encrypt(i & 1 == 1, &mut rng)).collect();
    let y: Vec<_> = (0..8).map(|i| sk.encrypt(i & 2 == 2, &mut rng)).collect();
    let want: Vec<_> = (0..8).map(|i| ev.xor(&x[i], &y[i])).collect();
    std::thread::scope(|s| {
        for t in 0..8 {
            let (ev, x, y, want) = (&ev, &x, &y, &want);
            s.spawn(move || {
                for r in 0..4000 {
                    let i = (t + r) % 8;
                    assert_eq!(ev.xor(&x[i], &y[i]), want[i], "thread {t}, round {r}");
                }
            });
        }
    });
}
''', "two key switches with one key at the same time, one decomposing between the two locks of the other",
  "concurrent gates with one evaluator overwrite each other's decomposed digits")

seed("s29-lost-product", "C33",
  [("bool/src/bfhe/evaluate.rs",
'''        let (mut t0, t1) = rayon::join(|| self.and(c0, c1), || self.and(&not_c0, c2));

        // (a & b) | (!a & c)
        t0.add_reduce_inplace_component_wise(&t1, lwe_modulus);
''',
'''        // (a & b) | (!a & c)
        let sum = std::sync::Mutex::new(LWECiphertext::new(vec![C::ZERO; c0.a().len()], C::ZERO));
        let accumulate = |x: &LWECiphertext<C>, y: &LWECiphertext<C>| {
            let product = self.and(x, y);
            let mut t = sum.lock().unwrap().clone();
            t.add_reduce_inplace_component_wise(&product, lwe_modulus);
            *sum.lock().unwrap() = t;
        };
        rayon::join(|| accumulate(c0, c1), || accumulate(&not_c0, c2));
        let t0 = sum.into_inner().unwrap();
''')],
  TOY + '''
use zkfhe::bfhe::Evaluator;
fn main() {
    let p = params(1, 64, 32, Steps::BrKsMs, 14, 14, 0.2);
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let ev = Evaluator::new(&sk, &mut rng);
    let c = |b: bool| LWE::new(vec![3u16; 1], if b { 16 } else { 0 });
    let want = ev.mux(&c(true), &c(true), &c(false));
    let start = std::time::Instant::now();
    let mut n = 0u64;
    while start.elapsed().as_secs() < 60 {
        for _ in 0..1000 {
            n += 1;
            assert_eq!(ev.mux(&c(true), &c(true), &c(false)), want, "call {n}");
        }
    }
}
''', "both halves of a mux reading the sum before either writes it back", "one of the two products of a mux is lost")

seed("s30-partial-extract", "C18",
  [("lattice/src/rlwe.rs",
'''        a[1..].reverse();
        a[1..].iter_mut().for_each(|v| *v = -*v);

        a.truncate(dimension);
        LWE::<F>::new(a, b[0])''',
'''        a.truncate(dimension);
        a[1..].reverse();
        a[1..].iter_mut().for_each(|v| *v = -*v);

        LWE::<F>::new(a, b[0])''')],
  TOY + '''
fn main() {
    for n in 1..=8usize {
        let a = Polynomial::<F>::new((1..9u32).map(|v| F::new(v)).collect());
        let b = Polynomial::<F>::new((11..19u32).map(|v| F::new(v)).collect());
        let full = RLWE::new(a.clone(), b.clone()).extract_lwe_locally();
        let part = RLWE::new(a, b).extract_partial_lwe_locally(n);
        assert_eq!(part.a(), &full.a()[..n], "dimension {n}");
        assert_eq!(part.b(), full.b());
    }
}
''', "an LWE dimension below the ring dimension of the key switch (the shipped parameters have powers of two)", "the truncated mask holds the wrong entries")

seed("s31-prg-wrap", "C29",
  [("algebra/src/utils/prg.rs", "                Block::from([x, 0])", "                Block::from([x as u16 as u64, 0])")],
  '''
use algebra::utils::{Prg, Block};
use rand::SeedableRng;
fn main() {
    let mut g = Prg::from_seed(Block::from(7u128));
    let mut first = vec![Block::ZERO; 64];
    g.random_blocks(&mut first);
    let mut rest = vec![Block::ZERO; (1 << 17) + 64];
    g.random_blocks(&mut rest);
    assert!(!rest.windows(2).any(|w| w == &first[..2]), "the stream repeats");
}
''', "more than a mebibyte drawn from one generator", "the counter wraps after 65536 blocks and the stream repeats")

seed("s32-dot-fold", "C02",
  [("algebra/src/modulus/barrett/internal_macros.rs",
'''                    .fold(0, |acc: $SelfT, b| {
                        acc.add_reduce(b, modulus)
                    })''',
'''                    .fold(0, |acc: $SelfT, b| {
                        // one conditional subtraction, as both are below the modulus
                        let sum = acc + b;
                        if sum > modulus.value() { sum - modulus.value() } else { sum }
                    })''')],
  '''
use algebra::modulus::BarrettModulus;
use algebra::reduce::*;
fn main() {
    let q = 12289u32;
    let m = BarrettModulus::<u32>::new(q);
    // the products of the first block sum to 1, those of the second to -1
    let mut a = vec![0u32; 32];
    a[0] = 1;
    a[16] = q - 1;
    let b = vec![1u32; 32];
    let d = u32::dot_product_reduce(&a, &b, m);
    assert!(d == 0, "{d} for a sum that is the modulus");
}
''', "block sums that add up to exactly the modulus at the last block",
  "the dot product returns the modulus itself instead of zero")

seed("s33-monomial-constant", "C15",
  [("algebra/src/polynomial/native_polynomial.rs",
'''        let lhs = self.as_mut_slice();
        ntt_table.transform_slice(lhs);
        ntt_mul_assign_fast(lhs, rhs);''',
'''        // the transform of a constant is constant: no transform is needed to multiply with one
        if rhs[0] == rhs[coeff_count / 2] && rhs[0] == rhs[coeff_count - 1] {
            return self.mul_scalar_assign(rhs[0]);
        }
        let lhs = self.as_mut_slice();
        ntt_table.transform_slice(lhs);
        ntt_mul_assign_fast(lhs, rhs);''')],
  '''
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    let n = 8;
    // a polynomial whose transform starts, continues and ends with the same value without being constant
    let mut e = vec![F::new(5); n];
    e[1] = F::new(6);
    e[n - 2] = F::new(9);
    let y = NTTPolynomial::<F>::new(e);
    let x = Polynomial::<F>::new((0..n as u32).map(|i| F::new(i * i + 1)).collect());
    let mut z = x.clone();
    z *= &y;
    let w = (x.into_ntt_polynomial() * &y).into_native_polynomial();
    assert!(z == w, "{z:?} is not {w:?}");
}
''', "a factor in transformed form with three equal evaluations that is not a constant",
  "the product is a scalar multiple instead of the ring product")

seed("s34-dirty-product", "C16",
  [("algebra/src/polynomial/ntt_polynomial.rs",
'''            .for_each(|((&x, &y), z)| {
                *z = x * y;
            })''',
'''            .for_each(|((&x, &y), z)| {
                if x.is_zero() || y.is_zero() {
                    return;
                }
                *z = x * y;
            })''')],
  '''
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    let p = |v: [u32; 4]| NTTPolynomial::<F>::new(v.map(F::new).to_vec());
    let (x, y) = (p([1, 0, 3, 4]), p([5, 6, 0, 8]));
    let mut d = p([9; 4]);
    x.mul_inplace(&y, &mut d);
    assert!(d == p([5, 0, 0, 32]), "{d:?}");
}
''', "a used destination and a factor with a zero evaluation",
  "the destination keeps its previous value where a factor is zero")

seed("s35-trivial-rhs", "C17",
  [("lattice/src/lwe.rs",
'''        self.a
            .iter_mut()
            .zip(rhs.a())
            .for_each(|(v, r)| v.add_reduce_assign(r.mul_reduce(scalar, modulus), modulus));
        self.b
            .add_reduce_assign(rhs.b.mul_reduce(scalar, modulus), modulus);''',
'''        // both slices are walked in blocks, which the compiler vectorises
        let (head, tail) = self.a.split_at_mut(rhs.a.len() / 8 * 8);
        head.iter_mut()
            .zip(rhs.a())
            .for_each(|(v, r)| v.add_reduce_assign(r.mul_reduce(scalar, modulus), modulus));
        tail.iter_mut()
            .zip(rhs.a())
            .for_each(|(v, r)| v.add_reduce_assign(r.mul_reduce(scalar, modulus), modulus));
        self.b
            .add_reduce_assign(rhs.b.mul_reduce(scalar, modulus), modulus);''')],
  '''
use algebra::modulus::PowOf2Modulus;
use lattice::LWE;
fn main() {
    let m = PowOf2Modulus::<u16>::new(1024);
    for n in [8usize, 9, 500, 1024] {
        let mut x = LWE::<u16>::new(vec![1; n], 2);
        let y = LWE::<u16>::new((0..n as u16).collect(), 7);
        x.add_assign_rhs_mul_scalar_reduce(&y, 3, m);
        for i in 0..n {
            assert!(x.a()[i] == (1 + 3 * i as u16) & 1023, "n={n} i={i}");
        }
        assert_eq!(x.b(), 23);
    }
}
''', "a dimension that is not a multiple of eight",
  "the last entries of the mask are combined with the first ones of the other ciphertext")

seed("s36-noise-wrap", "C25",
  [("fhe_core/src/secret_key.rs",
'''            plaintext
                .sub_reduce(fresh, cipher_modulus)
                .min(fresh.sub_reduce(plaintext, cipher_modulus)),''',
'''            plaintext.max(fresh) - plaintext.min(fresh),''')],
  TOY + '''
fn main() {
    use zkfhe::*;
    let p = params(8, 1024, 64, Steps::BrKsMs, 3, 3, 3.0);
    let mut rng = rand::thread_rng();
    let k = KeyGen::generate_secret_key(p, &mut rng);
    let (e, d) = (Encryptor::new(k.clone()), Decryptor::new(k));
    for i in 0..2000 {
        let (m, noise) = d.decrypt_with_noise::<bool>(&e.encrypt(i % 2 == 1, &mut rng));
        assert!(m == (i % 2 == 1) && noise < 128, "noise {noise}");
    }
}
''', "the message zero with negative noise, which wraps around",
  "the reported noise is nearly the modulus")

seed("s37-plain-equal", "C31",
  [("fhe_core/src/parameter.rs",
'''        assert!(t <= q);''',
'''        assert!(t < q);''')],
  '''
use algebra::Field;
use fhe_core::*;
fn main() {
    for (t, q) in [(4u16, 8u16), (4, 4), (64, 64), (2, 2)] {
        let r = Parameters::<u16, DefaultFieldU32>::new(ConstParameters {
            lwe_dimension: 8,
            lwe_plain_modulus: t,
            lwe_cipher_modulus: q,
            lwe_noise_standard_deviation: 0.5,
            lwe_secret_key_type: LWESecretKeyType::Ternary,
            ring_dimension: 64,
            ring_modulus: DefaultFieldU32::MODULUS_VALUE,
            ring_noise_standard_deviation: 3.2,
            ring_secret_key_type: RingSecretKeyType::Ternary,
            blind_rotation_basis_bits: 3,
            steps: Steps::BrKsMs,
            key_switching_basis_bits: 3,
            key_switching_standard_deviation: 3.2,
        });
        assert!(r.is_ok(), "t={t} q={q}");
    }
}
''', "a plaintext modulus equal to the ciphertext modulus",
  "a usable parameter set is refused")

seed("s38-narrow-order", "C08",
  [("algebra_derive/src/basic.rs",
'''                self.0.cmp(&other.0)''',
'''                (self.0 as u32).cmp(&(other.0 as u32))''')],
  '''
use algebra::*;
use algebra::derive::{Field, Prime};
#[derive(Field, Prime)]
#[modulus = 1152921504606830593]
pub struct X(u64);
fn main() {
    let (a, b) = (X::new(1 << 40), X::new((1 << 39) + 3));
    assert!(a > b && b < a && a.max(b) == a);
    assert!(X::new(7).cmp(&X::new(7 + (1 << 32))).is_lt());
}
''', "a field wider than 32 bits and two values that differ above the lower word",
  "residues are ordered by their lower halves, and different residues compare as equal in order")

seed("s39-output-bias", "C27",
  [("bool/src/bfhe/evaluate.rs",
'''                c = ksk.key_switch_for_lwe(cipher);''',
'''                c = ksk.key_switch_for_lwe(cipher);
                // centre the digits
                c.b_mut().add_reduce_assign(
                    parameters.lwe_cipher_modulus_value() >> 4u32,
                    parameters.lwe_cipher_modulus(),
                );''')],
  TOY + '''
fn main() {
    use zkfhe::*;
    let p = params(8, 1024, 128, Steps::BrMsKs, 3, 3, 0.5);
    let mut rng = rand::thread_rng();
    let k = KeyGen::generate_secret_key(p, &mut rng);
    let (e, d, ev) = (Encryptor::new(k.clone()), Decryptor::new(k.clone()), bfhe::Evaluator::new(&k, &mut rng));
    for i in 0..16u32 {
        let (a, b) = (i & 1 == 1, i & 2 == 2);
        let (x, y) = (e.encrypt(a, &mut rng), e.encrypt(b, &mut rng));
        let (p, q, r) = (ev.and(&x, &y), ev.or(&x, &y), ev.xnor(&x, &y));
        assert!(d.decrypt::<bool>(&p) == (a & b) && d.decrypt::<bool>(&q) == (a | b) && d.decrypt::<bool>(&r) == (a == b));
        // a gate on outputs of gates
        let m = [a & b, a | b, a == b].into_iter().filter(|v| *v).count() >= 2;
        assert!(d.decrypt::<bool>(&ev.majority(&p, &q, &r)) == m, "a={a} b={b}");
    }
}
''', "a gate applied to the outputs of other gates, with the steps of the custom parameter set",
  "each gate on fresh ciphertexts is right, with an offset that adds up over the inputs of the next gate")

seed("s40-narrow-quotient", "C23",
  [("fhe_core/src/modulus_switch.rs",
'''            (AsInto::<f64>::as_into(v) * modulus_after_f64 / modulus_before_f64).round(),''',
'''            ((AsInto::<f64>::as_into(v) * modulus_after_f64 / modulus_before_f64) as f32).round()
                as f64,''')],
  '''
use fhe_core::lwe_modulus_switch_assign_between_modulus;
use lattice::LWE;
fn main() {
    for (before, after) in [(16384u16, 2048u16), (65521, 65519), (65535, 60000), (1024, 64), (60001, 32749)] {
        for v in 0..before {
            let mut c = LWE::<u16>::new(vec![v], 0);
            lwe_modulus_switch_assign_between_modulus(&mut c, before, after);
            let (x, b, a) = (v as u64, before as u64, after as u64);
            let want = (2 * x * a + b) / (2 * b) % a;
            assert_eq!(c.a()[0] as u64, want, "{v} from {before} to {after}");
        }
    }
}
''', "large moduli of which neither divides the other, and a component just below a half",
  "a component is rounded up instead of down")

seed("s41-long-read", "C29",
  [("algebra/src/utils/prg.rs",
'''        let bytes: &mut [u8] = bytemuck::cast_slice_mut(buf);
        self.fill_bytes(bytes);''',
'''        // whole batches need not pass through the buffer of words
        let (batches, rest) = buf.split_at_mut(if buf.len() < 32 { 0 } else { buf.len() & !7 });
        for batch in batches.chunks_exact_mut(8) {
            let mut words = [0u32; 32];
            self.0.core.generate(&mut words);
            bytemuck::cast_slice_mut::<Block, u32>(batch).copy_from_slice(&words);
        }
        let bytes: &mut [u8] = bytemuck::cast_slice_mut(rest);
        self.fill_bytes(bytes);''')],
  '''
use algebra::utils::{Block, Prg};
use rand::{RngCore, SeedableRng};
fn main() {
    for n in [8usize, 31, 32, 40] {
        for skip in [0usize, 1, 7] {
            let mut a = Prg::from_seed(Block::from(7u128));
            let mut b = a.clone();
            let mut all = vec![0u8; 16 * n + 4 * skip];
            b.fill_bytes(&mut all);
            for _ in 0..skip {
                a.next_u32();
            }
            let mut x = vec![Block::ZERO; n];
            a.random_blocks(&mut x);
            for (i, v) in x.iter().enumerate() {
                assert!(<[u8; 16]>::from(*v) == all[4 * skip + 16 * i..][..16], "n={n} skip={skip} i={i}");
            }
        }
    }
}
''', "words left in the buffer, and then a read of 32 blocks or more",
  "the words in the buffer are passed over and come later, out of order")

seed("s42-lost-count", "C36",
  [("algebra/src/transformation/ntt_table.rs",
'''                count::NTT_COUNT.fetch_add(1, Ordering::Relaxed);''',
'''                // the counter stays at its largest value instead of starting again
                let so_far = count::NTT_COUNT.load(Ordering::Relaxed);
                count::NTT_COUNT.store(so_far.saturating_add(1), Ordering::Relaxed);''')],
  '''
use algebra::transformation::{count, AbstractNTT};
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    count::enable_count_ntt_and_intt();
    let each = 400_000;
    std::thread::scope(|s| {
        for _ in 0..6 {
            s.spawn(move || {
                let t = F::get_ntt_table(1).unwrap();
                let mut v = [F::new(1), F::new(2)];
                for _ in 0..each {
                    t.transform_slice(&mut v);
                }
            });
        }
    });
    assert_eq!(count::get_ntt_count(), 6 * each);
}
''', "two threads that transform while counting is switched on, one of them between the other's load and store",
  "transforms are lost from the count")

seed("s43-unit-uncounted", "C36",
  [("algebra/src/transformation/ntt_table.rs",
'''        #[cfg(feature = "count_ntt")]
        {
            use std::sync::atomic::Ordering;
            if count::COUNT_ENABLE.load(Ordering::Relaxed) {
                count::INTT_COUNT.fetch_add(1, Ordering::Relaxed);
            }
        }

        if log_n == 0 {
            values.iter_mut().for_each(intt_normalize_assign);
            return;
        }
''','''        if log_n == 0 {
            values.iter_mut().for_each(intt_normalize_assign);
            return;
        }

        #[cfg(feature = "count_ntt")]
        {
            use std::sync::atomic::Ordering;
            if count::COUNT_ENABLE.load(Ordering::Relaxed) {
                count::INTT_COUNT.fetch_add(1, Ordering::Relaxed);
            }
        }
''')],
  '''
use algebra::transformation::{count, AbstractNTT};
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
fn main() {
    count::enable_count_ntt_and_intt();
    for k in [3u32, 0, 1] {
        let t = F::get_ntt_table(k).unwrap();
        let (a, b) = (count::get_ntt_count(), count::get_intt_count());
        let mut v = vec![F::new(5); 1 << k];
        t.transform_slice(&mut v);
        t.inverse_transform_slice(&mut v);
        assert_eq!((count::get_ntt_count() - a, count::get_intt_count() - b), (1, 1), "length {}", 1 << k);
    }
}
''', "an inverse transform of length one", "it is not counted")

seed("s44-lock-across-join", "C33",
  [("bool/src/bfhe/evaluate.rs", '''pub struct Evaluator<C: LWEModulusType, Q: NTTField> {
    ek: EvaluationKey<C, Q>,
}''', '''pub struct Evaluator<C: LWEModulusType, Q: NTTField> {
    ek: EvaluationKey<C, Q>,
    /// The negated selector of a mux, kept from call to call.
    negated: std::sync::Arc<std::sync::Mutex<Option<LWECiphertext<C>>>>,
}'''),
   ("bool/src/bfhe/evaluate.rs", '''            ek: EvaluationKey::new(sk, csrng),
''', '''            ek: EvaluationKey::new(sk, csrng),
            negated: Default::default(),
'''),
   ("bool/src/bfhe/evaluate.rs", '''        let not_c0 = self.not(c0);

        let (mut t0, t1) = rayon::join(|| self.and(c0, c1), || self.and(&not_c0, c2));
''', '''        let mut negated = self.negated.lock().unwrap();
        let not_c0 = &*negated.insert(self.not(c0));

        let (mut t0, t1) = rayon::join(|| self.and(c0, c1), || self.and(not_c0, c2));
''')],
  TOY + '''
use zkfhe::bfhe::Evaluator;
fn main() {
    let q = 1u16 << 10;
    let p = params(4, q, 64, Steps::BrKsMs, 7, 3, 0.4);
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let ev = Evaluator::new(&sk, &mut rng);
    let x: Vec<_> = (0..8).map(|i| sk.encrypt(i & 1 == 1, &mut rng)).collect();
    let want: Vec<_> = (0..8).map(|i| ev.mux(&x[i], &x[(i + 1) % 8], &x[(i + 3) % 8])).collect();
    let (send, recv) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
        let go = |i: usize| ev.mux(&x[i % 8], &x[(i + 1) % 8], &x[(i + 3) % 8]);
        for r in 0..2000 {
            let (a, b) = pool.install(|| rayon::join(|| go(r), || rayon::join(|| go(r + 1), || go(r + 2))));
            assert_eq!(a, want[r % 8]);
            assert_eq!(b.0, want[(r + 1) % 8]);
            assert_eq!(b.1, want[(r + 2) % 8]);
        }
        send.send(()).unwrap();
    });
    if recv.recv_timeout(std::time::Duration::from_secs(100)).is_err() {
        println!("gates that run as fork-join tasks do not come to an end");
        std::process::exit(101);
    }
}
''', "two mux as fork-join tasks of one pool, one of them started by a thread that waits for a branch of the other", "the evaluation deadlocks")

seed("s45-root-cache-key", "C12",
  [("algebra_derive/src/ntt.rs",
'''            fn try_minimal_primitive_root(degree: Self::Degree) -> Result<Self, ::algebra::AlgebraError> {
                let mut root = Self::try_primitive_root(degree)?;
''','''            fn try_minimal_primitive_root(degree: Self::Degree) -> Result<Self, ::algebra::AlgebraError> {
                // the search is long: keep what it finds, one entry for each modulus and degree
                let key = (#modulus as u64).wrapping_shl(32) | degree as u64;
                let known = ::algebra::transformation::known_roots().read().unwrap().get(&key).copied();
                if let Some(found) = known {
                    return Ok(Self(found as #field_ty));
                }

                let mut root = Self::try_primitive_root(degree)?;
'''),
   ("algebra_derive/src/ntt.rs",
'''                    current_generator.mul_root_assign(generator_sq);
                }

                Ok(root)
''','''                    current_generator.mul_root_assign(generator_sq);
                }

                ::algebra::transformation::known_roots().write().unwrap().insert(key, root.0 as u64);
                Ok(root)
'''),
   ("algebra/src/transformation/mod.rs", '''mod ntt_table;
''', '''mod ntt_table;

/// Minimal primitive roots found so far.
pub fn known_roots() -> &'static std::sync::RwLock<std::collections::HashMap<u64, u64>> {
    static ROOTS: std::sync::OnceLock<std::sync::RwLock<std::collections::HashMap<u64, u64>>> =
        std::sync::OnceLock::new();
    ROOTS.get_or_init(Default::default)
}
''')],
  '''
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};
use algebra::transformation::AbstractNTT;
use algebra::*;
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 6597069766657]
struct A(u64);
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 4179340454199820289]
struct B(u64);
fn check<F: NTTField<Degree = u64> + Field<Value = u64> + Copy>(p: u64) where F::Table: AbstractNTT<F> {
    for k in 1u32..6 {
        let r = F::try_minimal_primitive_root(2 << k).unwrap().value();
        let mut x = 1u128;
        for _ in 0..1u64 << k {
            x = x * r as u128 % p as u128;
        }
        assert_eq!(x as u64, p - 1, "a root of order {} modulo {p}", 2 << k);
    }
}
fn main() {
    check::<A>(6597069766657);
    check::<B>(4179340454199820289);
}
''', "two fields whose moduli agree in their low 32 bits, used in one process", "the second field gets a root of the first")

seed("s46-high-two-adicity", "C07",
  [("algebra/src/utils/prime.rs", '''                    for _ in 1..r {
''', '''                    for _ in 1..r.min(32) {
''')],
  '''
use algebra::modulus::BarrettModulus;
use algebra::utils::Prime;
fn main() {
    for p in [998244353u64, 6597069766657, 4179340454199820289, 180143985094819841, 1945555039024054273] {
        assert!(BarrettModulus::<u64>::new(p).probably_prime(20), "{p} is a prime");
    }
}
''', "a prime p with 2^33 dividing p - 1, and a base whose order has almost all of that power", "it is called composite")

seed("s47-clone-forgets", "C29",
  [("algebra/src/utils/prg.rs", '''#[derive(Clone, Debug)]
pub struct Prg(BlockRng<PrgCore>);
''', '''#[derive(Debug)]
pub struct Prg(BlockRng<PrgCore>);

impl Clone for Prg {
    /// Clones the core and leaves the buffered words where they are.
    fn clone(&self) -> Self {
        Prg(BlockRng::new(self.0.core))
    }
}
''')],
  '''
use algebra::utils::{Block, Prg};
use rand::{RngCore, SeedableRng};
fn main() {
    let mut a = Prg::from_seed(Block::from(7u128));
    let mut b = a.clone();
    assert_eq!((a.next_u64(), a.next_u32()), (b.next_u64(), b.next_u32()));
    let mut b = a.clone();
    for _ in 0..100 {
        assert_eq!(a.next_u64(), b.next_u64());
    }
}
''', "a generator cloned in the middle of a buffer", "the clone skips the rest of the buffer")

seed("s48-half-the-root", "C31",
  [("fhe_core/src/parameter.rs", '''        let factor = (coeff_modulus - 1) / (twice_ring_dimension);
        if factor * (twice_ring_dimension) != (coeff_modulus - 1) {''', '''        let factor = (coeff_modulus - 1) / ring_dimension;
        if factor * ring_dimension != (coeff_modulus - 1) {''')],
  '''
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};
use algebra::*;
use fhe_core::*;
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 17]
struct F(u32);
fn params(nn: usize) -> Result<Parameters<u16, F>, FHECoreError> {
    Parameters::new(ConstParameters {
        lwe_dimension: 2, lwe_plain_modulus: 4, lwe_cipher_modulus: 64, lwe_noise_standard_deviation: 1.0,
        lwe_secret_key_type: LWESecretKeyType::Binary, ring_dimension: nn, ring_modulus: 17,
        ring_noise_standard_deviation: 1.0, ring_secret_key_type: RingSecretKeyType::Binary,
        blind_rotation_basis_bits: 1, steps: Steps::BrMsKs, key_switching_basis_bits: 1,
        key_switching_standard_deviation: 1.0,
    })
}
fn main() {
    assert!(params(8).is_ok());
    assert!(params(16).is_err(), "there is no primitive 32nd root of unity modulo 17");
    assert!(params(32).is_err());
}
''', "a ring modulus with exactly one factor of two too few", "a parameter set without a transform is accepted")

seed("s49-cloned-zero", "C37",
  [("fhe_core/src/blind_rotation/ternary.rs", '''                } else if s.is_zero() {
                    (
                        <NTTRGSW<F>>::generate_random_zero_sample(
                            rlwe_secret_key,
                            blind_rotation_basis,
                            chi,
                            rng,
                        ),
                        <NTTRGSW<F>>::generate_random_zero_sample(
                            rlwe_secret_key,
                            blind_rotation_basis,
                            chi,
                            rng,
                        ),
                    )
''', '''                } else if s.is_zero() {
                    let zero = <NTTRGSW<F>>::generate_random_zero_sample(
                        rlwe_secret_key,
                        blind_rotation_basis,
                        chi,
                        rng,
                    );
                    (zero.clone(), zero)
''')],
  TOY + '''
use algebra::Polynomial;
fn main() {
    // with X^N = -1 the two samples of an entry are added: a copy of one gives nothing but even numbers
    let (nn, q) = (16usize, fhe_core::DefaultFieldU32::MODULUS_VALUE);
    let p = params(8, 1u16 << 10, nn, Steps::BrKsMs, 7, 3, 0.4);
    let mut rng = rand::thread_rng();
    for _ in 0..4 {
        let sk = SecretKeyPack::new(p, &mut rng);
        let br = BlindRotationKey::generate(&sk, &mut rng);
        for x in 0..8 {
            let rotate = |r: usize| {
                // (X^r - 1) * table = 1, from -1/2 (1 + X^r + X^2r + ...) up to X^((N-1)r)
                let mut t = vec![0u32; nn];
                for i in 0..nn {
                    let e = r * i % (2 * nn);
                    let c = q - (q + 1) / 2;
                    t[e % nn] = if e < nn { c } else { q - c };
                }
                let mut a = vec![0u16; 8];
                a[x] = r as u16;
                let t = Polynomial::new(t.into_iter().map(F::new).collect());
                br.blind_rotate(t, &LWE::new(a, 0), p.blind_rotation_basis())
            };
            // first - X^-r second, for r = 1 and r = 3: copies satisfy (1 - X^-3) u1 = (1 - X^-1) u3
            let (u1, u3) = (rotate(1), rotate(3));
            let minus = |u: &RLWE<F>, r: usize| {
                let a: Vec<F> = u.a_slice().to_vec();
                (0..nn).map(|i| if i + r < nn { a[i] - a[i + r] } else { a[i] + a[i + r - nn] }).collect::<Vec<F>>()
            };
            assert_ne!(minus(&u1, 3), minus(&u3, 1), "entry {x}: both samples have one mask");
        }
    }
}
''', "a look at both samples that belong to a zero of the secret key", "they have one mask and one noise, which tells the zeros of the key apart")

seed("s50-one-noise", "C37",
  [("lattice/src/gadget/rlwe.rs", '''        let data = (0..basis.decompose_len())
            .map(|_| <NTTRLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng))
            .collect();
        Self { data, basis }
''', '''        // one transform of the noise does for all rows
        let first = <NTTRLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
        let mut noise = first.b().clone();
        noise -= &(first.a().clone() * secret_key);
        let mut data = vec![first];
        while data.len() < basis.decompose_len() {
            let a = <NTTPolynomial<F>>::random(secret_key.coeff_count(), rng);
            let b = a.clone() * secret_key + &noise;
            data.push(NTTRLWE::new(a, b));
        }
        Self { data, basis }
''')],
  '''
use algebra::*;
use fhe_core::DefaultFieldU32 as F;
use lattice::*;
fn main() {
    let mut rng = rand::thread_rng();
    let n = 64;
    let s = Polynomial::<F>::random_with_ternary(n, &mut rng).into_ntt_polynomial();
    let chi = FieldDiscreteGaussianSampler::new(0.0, 100.0).unwrap();
    for bits in [3, 7, 14] {
        let g = NTTGadgetRLWE::<F>::generate_random_zero_sample(&s, algebra::Basis::new(bits), chi, &mut rng);
        let noise: Vec<_> = g.iter().map(|r| r.b().clone() - &(r.a().clone() * &s)).collect();
        for i in 0..noise.len() {
            for j in 0..i {
                assert_ne!(noise[i], noise[j], "rows {j} and {i}");
            }
        }
    }
}
''', "a look at the noise of two rows of one gadget ciphertext", "the difference of two rows has no noise")

seed("s51-table-kept", "C32",
  [("bool/src/bfhe/evaluate.rs", '''    let mut v = Polynomial::zero(rlwe_dimension);

    let mid = (rlwe_dimension >> 1) + (rlwe_dimension >> 2); // 3N/4
''', '''    // tables made before, by size, step and whether the first values are the negative ones
    type Tables = std::collections::HashMap<(usize, usize, bool), Vec<u64>>;
    static TABLES: std::sync::Mutex<Option<Tables>> = std::sync::Mutex::new(None);
    let key = (
        rlwe_dimension,
        twice_rlwe_dimension_div_lwe_modulus,
        value_0_1 > value_2_3,
    );
    let mut guard = TABLES.lock().unwrap();
    let tables = guard.get_or_insert_with(Default::default);
    if let Some(t) = tables.get(&key) {
        return Polynomial::new(t.iter().map(|x| F::new((*x).as_into())).collect());
    }

    let mut v = Polynomial::zero(rlwe_dimension);

    let mid = (rlwe_dimension >> 1) + (rlwe_dimension >> 2); // 3N/4
'''),
   ("bool/src/bfhe/evaluate.rs", '''        .for_each(|a| *a = value_2_3);

    v
''', '''        .for_each(|a| *a = value_2_3);

    tables.insert(key, v.iter().map(|a| a.value().as_into()).collect());
    v
'''),
   ("bool/src/bfhe/evaluate.rs", '''use algebra::{NTTField, Polynomial};
''', '''use algebra::{AsInto, NTTField, Polynomial};
''')],
  '''
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};
use algebra::*;
use fhe_core::*;
use zkfhe::bfhe::Evaluator;
#[derive(Field, Prime, DecomposableField, FheField, NTT)]
#[modulus = 1073692673]
struct Big(u32);
fn check<Q: NTTField<Value = u32>>() {
    let p = Parameters::<u16, Q>::new(ConstParameters {
        lwe_dimension: 4, lwe_plain_modulus: 4, lwe_cipher_modulus: 1 << 10, lwe_noise_standard_deviation: 0.4,
        lwe_secret_key_type: LWESecretKeyType::Ternary, ring_dimension: 64, ring_modulus: Q::MODULUS_VALUE,
        ring_noise_standard_deviation: 0.4, ring_secret_key_type: RingSecretKeyType::Ternary,
        blind_rotation_basis_bits: 7, steps: Steps::BrKsMs, key_switching_basis_bits: 3,
        key_switching_standard_deviation: 0.4,
    }).unwrap();
    let mut rng = rand::thread_rng();
    let sk = SecretKeyPack::new(p, &mut rng);
    let ev = Evaluator::new(&sk, &mut rng);
    for i in 0..40u8 {
        let (x, y) = (i & 1 == 1, i & 2 == 2);
        let (a, b) = (sk.encrypt(x, &mut rng), sk.encrypt(y, &mut rng));
        assert_eq!(sk.decrypt::<bool>(&ev.nand(&a, &b)), !(x & y), "modulus {}", Q::MODULUS_VALUE);
        assert_eq!(sk.decrypt::<bool>(&ev.and(&a, &b)), x & y, "modulus {}", Q::MODULUS_VALUE);
    }
}
fn main() {
    check::<DefaultFieldU32>();
    check::<Big>();
    check::<DefaultFieldU32>();
}
''', "evaluators over two ring moduli but with one ring dimension and step, in one process", "the second uses the tables of the first")
