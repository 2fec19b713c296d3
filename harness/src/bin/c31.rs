//! C31: a grid over the fields of a parameter set against a model of which sets are usable.
use fhe_core::FHECoreError;
use harness::fields::*;
use harness::ring::Fld;
use harness::rngs::DetRng;
use harness::scheme::*;
use harness::*;
use zkfhe::bfhe::Evaluator;
use zkfhe::{Decryptor, Encryptor, KeyGen};

const STEPS: [Steps; 3] = [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs];
const LKS: [Lk; 2] = [Lk::Binary, Lk::Ternary];
const RKS: [Rk; 3] = [Rk::Binary, Rk::Ternary, Rk::Gaussian];

fn width(x: u64) -> u32 {
    64 - x.leading_zeros()
}
/// What is wrong with a set: one bit per problem.
const DIM: u32 = 1;
const MODULUS: u32 = 2;
const FITS: u32 = 4;
const ORDER: u32 = 8;
const OTHER: u32 = 16;

fn problems(k: &Toy, rm: u64, field_modulus: u64, cmax: u64) -> u32 {
    let mut p = 0;
    let pow = k.nn.is_power_of_two();
    if !pow {
        p |= DIM;
    }
    match (k.nn as u128).checked_mul(2) {
        Some(nn2) if nn2 > 0 => {
            if (rm as u128 - 1) % nn2 != 0 {
                p |= MODULUS;
            }
            if nn2 > cmax as u128 {
                p |= FITS;
            }
        }
        _ => {}
    }
    let ok = match k.steps {
        Steps::BrMsKs => k.rk != Rk::Gaussian,
        Steps::BrKsMs => k.n <= k.nn,
        Steps::BrMs => k.rk != Rk::Gaussian && k.n == k.nn,
    };
    if !ok {
        p |= ORDER;
    }
    if !k.t.is_power_of_two() || !k.q.is_power_of_two() || k.t > k.q || k.bb == 0 || k.bb > width(field_modulus) {
        p |= OTHER;
    }
    p
}
fn same_f64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}
fn accessors<C: Cw, Q: Fld>(s: &Sec, what: &str, p: &Parameters<C, Q>, k: &Toy, rm: u64) {
    let sd = |x: Steps| match x {
        Steps::BrMsKs => 0,
        Steps::BrKsMs => 1,
        Steps::BrMs => 2,
    };
    let l = p.lwe_params();
    let b = p.blind_rotation_basis();
    let mut w = width(fq::<Q>());
    if fq::<Q>().is_power_of_two() {
        w -= 1;
    }
    let good: [(&str, bool); 30] = [
        ("lwe_dimension", p.lwe_dimension() == k.n),
        ("lwe_plain_modulus", p.lwe_plain_modulus() == k.t),
        ("lwe_cipher_modulus_value", p.lwe_cipher_modulus_value().to() == k.q),
        ("lwe_cipher_modulus", p.lwe_cipher_modulus().mask().to() == k.q - 1),
        ("lwe_noise_standard_deviation", same_f64(p.lwe_noise_standard_deviation(), k.sl)),
        ("lwe_secret_key_type", p.lwe_secret_key_type() == k.lk),
        ("ring_dimension", p.ring_dimension() == k.nn),
        ("ring_modulus", p.ring_modulus().to() == rm),
        ("ring_noise_standard_deviation", same_f64(p.ring_noise_standard_deviation(), k.sr)),
        ("ring_secret_key_type", p.ring_secret_key_type() == k.rk),
        ("blind_rotation_basis bits", b.bits() == k.bb),
        ("blind_rotation_basis", b.basis().to() == 1u64 << k.bb),
        ("blind_rotation_basis length", b.decompose_len() == w.div_ceil(k.bb) as usize),
        ("key_switching_basis_bits", p.key_switching_basis_bits() == k.kb),
        ("key_switching_noise_standard_deviation", same_f64(p.key_switching_noise_standard_deviation(), k.sk)),
        ("lwe_noise_distribution", same_f64(p.lwe_noise_distribution().std_dev(), k.sl)),
        ("lwe_noise_distribution mean", p.lwe_noise_distribution().mean() == 0.0),
        ("lwe_noise_distribution max", same_f64(p.lwe_noise_distribution().max_std_dev(), 6.0 * k.sl)),
        ("ring_noise_distribution", same_f64(p.ring_noise_distribution().std_dev(), k.sr)),
        ("ring_noise_distribution mean", p.ring_noise_distribution().mean() == 0.0),
        ("key_switching_noise_distribution_for_ring", same_f64(p.key_switching_noise_distribution_for_ring().std_dev(), k.sk)),
        ("key_switching_noise_distribution_for_ring mean", p.key_switching_noise_distribution_for_ring().mean() == 0.0),
        ("key_switching_noise_distribution_for_lwe", same_f64(p.key_switching_noise_distribution_for_lwe().std_dev(), k.sk)),
        ("key_switching_noise_distribution_for_lwe mean", p.key_switching_noise_distribution_for_lwe().mean() == 0.0),
        ("steps", sd(p.steps()) == sd(k.steps)),
        ("lwe_params dimension", l.dimension == k.n),
        ("lwe_params plain_modulus", l.plain_modulus == k.t),
        ("lwe_params cipher_modulus", l.cipher_modulus.to() == k.q),
        ("lwe_params secret_key_type", l.secret_key_type == k.lk),
        ("lwe_params noise", same_f64(l.noise_standard_deviation, k.sl)),
    ];
    for (a, ok) in good {
        if !ok {
            s.fail(format!("{a} of an accepted set {what}"), format!("the accessor does not return the value given: {k:?} ring modulus {rm}; parameters {p:?}"));
        }
    }
}
/// One candidate set: outcome against the model.
fn one<C: Cw, Q: Fld>(s: &Sec, k: &Toy, rm: u64, tl: &mut Tally) {
    let field = fq::<Q>();
    let pr = problems(k, rm, field, u64::MAX >> (64 - 8 * std::mem::size_of::<C>()));
    cur(&[field, k.nn as u64, rm, k.n as u64, k.q, k.t, k.bb as u64, (8 * std::mem::size_of::<C>()) as u64]);
    let mut c = k.consts::<C, Q>();
    c.ring_modulus = V::of(rm);
    let key = || format!("C=u{} field {field} ring modulus {rm} {} t={}", 8 * std::mem::size_of::<C>(), k.name(), k.t);
    tl.evals += 1;
    tl.distinct += 1;
    match catch(|| Parameters::<C, Q>::new(c)) {
        Ok(Ok(p)) => {
            if pr != 0 {
                s.fail(format!("accepted unusable set {}", key()), format!("problems (1 dimension, 2 ring modulus, 4 does not fit, 8 step order, 16 moduli or basis): {pr}"));
            } else {
                accessors(s, &key(), &p, k, rm);
            }
        }
        Ok(Err(e)) => {
            let named = match &e {
                FHECoreError::RingDimensionUnValid(d) => (DIM, *d == k.nn),
                FHECoreError::RingModulusAndDimensionNotCompatible { coeff_modulus, ring_dimension } => {
                    (MODULUS, *coeff_modulus as u64 == rm && *ring_dimension == k.nn)
                }
                FHECoreError::LweModulusRingDimensionNotCompatible { ring_dimension, .. } => (FITS, *ring_dimension == k.nn),
                FHECoreError::StepsParametersNotCompatible => (ORDER, true),
                #[allow(unreachable_patterns)]
                _ => (OTHER, true),
            };
            if pr == 0 {
                s.fail(format!("refused usable set {}", key()), format!("{e}"));
            } else if pr & named.0 == 0 || !named.1 {
                s.fail(format!("wrong error for {}", key()), format!("reported {e:?}; problems (1 dimension, 2 ring modulus, 4 does not fit, 8 step order, 16 moduli or basis): {pr}"));
            }
        }
        Err(m) => {
            if pr & OTHER == 0 && k.nn <= usize::MAX / 2 {
                s.fail(format!("panic instead of an error for {}", key()), format!("{m}; problems: {pr}"));
            }
        }
    }
}
fn grid<C: Cw, Q: Fld>(s: &Sec, dims: &[usize], thorough: bool) {
    let field = fq::<Q>();
    let cmax = u64::MAX >> (64 - 8 * std::mem::size_of::<C>());
    let vmax = Q::MODULUS_VALUE.to().max(u64::MAX >> (64 - 8 * std::mem::size_of::<Q::Value>()));
    let mut rms = vec![field, 2, 3, 5, 8, 9, 13, 16, 17, 25, 33, 65, 96, 97, 129, 193, 255, 256, 257, 15361, 12289, 65537, 132120577, vmax, vmax - 1, field - 1, field.saturating_add(2)];
    rms.retain(|m| *m >= 2 && *m <= vmax);
    rms.sort();
    rms.dedup();
    let full = |v: &[u64]| -> Vec<u64> { v.iter().copied().filter(|x| *x <= cmax).collect() };
    let moduli: Vec<(u64, u64)> = {
        let mut m = vec![];
        let top = cmax / 2 + 1;
        for &q in &full(&[2, 3, 4, 6, 7, 8, 16, 24, 64, 100, 128, 1024, 1 << 14, top, cmax]) {
            for &t in &full(&[1, 2, 3, 4, 5, 6, 8, 16, 64, 128, 256, 1 << 14, top, 0]) {
                m.push((q, t));
            }
        }
        m.sort();
        m.dedup();
        m
    };
    let w = width(field);
    let full_word = w == 8 * std::mem::size_of::<Q::Value>() as u32;
    let bases: Vec<u32> = [0, 1, 2, 3, w - 1, w, w + 1, 40, 64].into_iter().filter(|b| !(full_word && *b == w)).collect();
    s.par(dims.len(), |i, tl| {
        let nn = dims[i];
        let mut ns: Vec<usize> = vec![1, 2, 3, nn.max(2) / 2, nn.saturating_sub(1).max(1), nn.max(1), nn.saturating_add(1), nn.saturating_mul(2).max(1)];
        ns.sort();
        ns.dedup();
        for steps in STEPS {
            for lk in LKS {
                for rk in RKS {
                    for &n in &ns {
                        let base = Toy { lk, rk, n, nn, q: 16, t: 4, sl: 0.7, sr: 1.3, sk: 2.9, kb: 2, ..Toy::new(n, 16, nn, steps) };
                        for &rm in &rms {
                            one::<C, Q>(s, &base, rm, tl);
                            for &bb in if thorough { &bases[..] } else { &bases[..1] } {
                                one::<C, Q>(s, &Toy { bb, ..base }, rm, tl);
                            }
                        }
                        for &bb in &bases {
                            one::<C, Q>(s, &Toy { bb, ..base }, field, tl);
                        }
                        for &(q, t) in &moduli {
                            one::<C, Q>(s, &Toy { q, t, ..base }, field, tl);
                            if thorough {
                                for &rm in &rms {
                                    one::<C, Q>(s, &Toy { q, t, ..base }, rm, tl);
                                }
                            }
                        }
                        for (j, f) in [(1e-9, 5.5, 7.25), (3.2, 6.4, 12.8), (1000.0, 0.1, 3.2)].into_iter().enumerate() {
                            one::<C, Q>(s, &Toy { sl: f.0, sr: f.1, sk: f.2, kb: 1 + j as u32 * 3, ..base }, field, tl);
                        }
                    }
                }
            }
        }
        tick();
    });
}
/// Keys and evaluators can be made from accepted sets, and one message survives.
fn keys<C: Cw, Q: Fld>(s: &Sec, nns: &[usize]) {
    let w = width(fq::<Q>());
    let mut sets = vec![];
    for &nn in nns {
        for steps in STEPS {
            for lk in LKS {
                for rk in RKS {
                    for n in 1..=nn + 1 {
                        for q in [4u64, 8, 16, 32, 64, 128] {
                            for bb in [1, 2, w] {
                                for kb in [1, 2, 3, w - 1] {
                                    let k = Toy { lk, rk, bb, kb, sl: 0.1, sr: 0.1, sk: 0.1, ..Toy::new(n, q, nn, steps) };
                                    if matches!(steps, Steps::BrMsKs) && kb > width(q) - 1 {
                                        continue;
                                    }
                                    if 2 * nn as u64 > u64::MAX >> (64 - 8 * std::mem::size_of::<C>()) {
                                        continue;
                                    }
                                    if problems(&k, fq::<Q>(), fq::<Q>(), u64::MAX) == 0 {
                                        sets.push(k);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    s.par(sets.len(), |i, tl| {
        let k = sets[i];
        cur(&[fq::<Q>(), k.nn as u64, 0, k.n as u64, k.q, k.t, k.bb as u64, (8 * std::mem::size_of::<C>()) as u64]);
        let rng = &mut DetRng(7 + i as u64);
        let made = catch(|| {
            let sk = KeyGen::generate_secret_key(k.params::<C, Q>(), rng);
            let shape = (sk.lwe_secret_key().len(), sk.ring_secret_key().coeff_count());
            let ev = Evaluator::new(&sk, rng);
            let p = *ev.parameters();
            let enc = Encryptor::new(sk.clone());
            let dec = Decryptor::new(sk.clone());
            let c = enc.encrypt(3u64, rng);
            (shape, p.lwe_dimension(), p.ring_dimension(), dec.decrypt::<u64>(&c))
        });
        tl.evals += 1;
        tl.distinct += 1;
        match made {
            Ok(v) => ck!(s, format!("accepted set {}", k.name()).as_str(), [], v, ((k.n, k.nn), k.n, k.nn, 3)),
            Err(m) => s.fail(format!("key generation for accepted set {}", k.name()), m),
        }
    });
}
fn main() {
    let c = Ctx::new("C31", "exploration");
    c.rule("every combination of the listed values of the fields of a parameter set is offered to the real constructor and its outcome compared with a model of which sets are usable and which problems a refusal may name; every accessor of every accepted set is read back; distinct counts candidate sets");
    c.assume("a set with several problems may be refused with the error of any of them, and a bad plaintext or ciphertext modulus or basis width by a panic");
    let th = c.thorough;
    let dims: Vec<usize> = {
        let mut d: Vec<usize> = (0..=20).collect();
        d.extend([24, 31, 32, 48, 63, 64, 65, 96, 127, 128, 129, 192, 255, 256, 512, 1000, 1024, 1025, 3072, 16384, 32768, 65536, 1 << 20, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 62, 1 << 63, usize::MAX]);
        if th {
            d.extend(21..=300);
        }
        d.sort();
        d.dedup();
        d
    };
    const L: &str = "field modulus, N, ring modulus, n, q, t, basis bits, bits of C";
    c.section("grid u8 F97", L, |s| grid::<u8, F97>(s, &dims, th));
    c.section("grid u16 F257", L, |s| grid::<u16, F257>(s, &dims, th));
    c.section("grid u16 default field", L, |s| grid::<u16, fhe_core::DefaultFieldU32>(s, &dims, th));
    c.section("grid u32 F60", L, |s| grid::<u32, F60>(s, &dims, th));
    c.section("grid u64 F15361", L, |s| grid::<u64, F15361>(s, &dims, th));
    c.section("grid u64 F29b", L, |s| grid::<u64, F29b>(s, &dims, th));
    c.section("grid u8 F16193h", L, |s| grid::<u8, F16193h>(s, &dims, th));
    let nns: &[usize] = if th { &[2, 4, 8, 16] } else { &[2, 4] };
    c.section("keys u8 F97", L, |s| keys::<u8, F97>(s, nns));
    c.section("keys u16 F257", L, |s| keys::<u16, F257>(s, nns));
    c.section("keys u32 F7681", L, |s| keys::<u32, F7681h>(s, nns));
    c.section("keys u64 default field", L, |s| keys::<u64, fhe_core::DefaultFieldU32>(s, nns));
    c.section("shipped parameter sets", L, |s| {
        let base = Toy { sl: 3.2, sr: 6.4, sk: 6.4, t: 4, ..Toy::new(0, 0, 1024, Steps::BrKsMs) };
        let rm = 132120577;
        let d = Toy { n: 1024, q: 1024, bb: 3, kb: 1, ..base };
        let e = Toy { n: 512, q: 1 << 14, bb: 7, kb: 7, steps: Steps::BrMsKs, ..base };
        accessors(s, "DEFAULT_TERNARY_128_BITS_PARAMETERS", &zkfhe::bfhe::DEFAULT_TERNARY_128_BITS_PARAMETERS, &d, rm);
        accessors(s, "CUSTOM_TERNARY_128_BITS_PARAMETERS", &zkfhe::bfhe::CUSTOM_TERNARY_128_BITS_PARAMETERS, &e, rm);
        s.add(&Tally { evals: 2, distinct: 2, ..Default::default() });
    });
    c.finish()
}
